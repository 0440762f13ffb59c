#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            'mechanism': [dict(name=n, where=w) for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


prop('C01', 'match() accepts exactly the texts the grammar derives in full',
     'For every grammar built from rule, or_, optional, repeatable, forward, empty and terminal predicates, and every text, Parser.match '
     'returns a match if and only if the grammar derives the complete, non-empty token sequence of the text. '
     'The match then consists of all tokens of the text in order, never of a part of them, and its span runs from the start of the first token to the end of the last. '
     'This includes recursive, left-recursive, nullable and ambiguous grammars: parsing always ends, without an error.',
     ['programs', 'inputs'],
     'all grammars over the rule constructors (nesting, sharing of sub-rules, recursion through forward, nullable parts) and all token sequences',
     'The suite parses about thirty fixed grammars, each on one or two texts; recognition is a statement about every grammar and every token sequence. Nullable sub-rules reached twice, recursive start rules and cyclic grammars are not tested at all.',
     ['yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/tree/transformators.py'],
     [('Earley predict/scan/complete', 'yargy/parser.py Parser.chart'),
      ('state deduplication', 'yargy/parser.py Column.append'),
      ('grammar normalisation to BNF', 'yargy/rule/constructors.py Rule.normalized, as_bnf')],
     ['Parser.match(text)', 'Match.tokens', 'Match.span'],
     [('Column.states', 'Earley items per token position', 'yargy/parser.py')])

prop('C02', 'findall() picks the best non-overlapping set of derivable fragments',
     'For every grammar and text, findall returns matches ordered left to right that do not overlap, each being a token range that the grammar derives, '
     'chosen so that the number of covered tokens is maximal among all such selections. '
     'When selections cover equally much, the one that starts earliest, and among those with the same start the one whose fragment is longest, wins at the first place where they differ. '
     'find returns the first of these matches, or nothing when there is none.',
     ['programs', 'inputs'],
     'all grammars and texts; all configurations of overlapping, nested and adjacent candidate ranges',
     'Existing tests look at one or two non-conflicting fragments; optimal selection is a claim over all overlap patterns.',
     ['yargy/parser.py', 'yargy/span.py', 'yargy/tree/constructors.py'],
     [('interval selection', 'yargy/span.py resolve_spans, get_nexts'),
      ('candidate ranges and order', 'yargy/parser.py prepare_resolved_matches; yargy/tree/constructors.py Tree.__lt__')],
     ['Parser.findall(text)', 'Parser.find(text)', 'Match.span'])

prop('C03', 'Ambiguous parses are resolved by the written order of alternatives',
     'When a token range can be derived in several ways, match and findall return the derivation that, read from the root downwards and from left to right, takes the earliest listed alternative at the first choice where derivations differ. '
     'Alternatives are in the order given to or_; an optional part tries absence first and a repetition tries more repetitions first, and reverse=True swaps that preference. '
     'If agreement relations reject a derivation, the next one in this order is used.',
     ['programs', 'inputs'],
     'all ambiguous grammars and texts with several derivations of the same range',
     'The cookbook promises that the order of or_ arguments matters, no test checks which of several parses wins.',
     ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/rule/transformators.py'],
     [('rank of productions', 'yargy/parser.py Parser.predict'),
      ('tree order', 'yargy/tree/constructors.py Node.__lt__'),
      ('order of generated alternatives', 'yargy/rule/transformators.py repeatable, optional, repeatable_optional, max_bound')],
     ['Match.fact', 'Match.tree'])

prop('C04', 'extract() enumerates every derivation of every range exactly once',
     'For a grammar without empty or cyclic parts, the matches produced by extract correspond one to one to the pairs of a token range and a derivation of that range by the grammar. '
     'With all=False, exactly the derivations of the complete text are produced. '
     'No derivation is missing, duplicated or invented.',
     ['programs', 'inputs'],
     'all ambiguous grammars without nullable or cyclic rules, all texts',
     'The cookbook states that the parser goes through all parses (89 for ten tokens); no test counts derivations.',
     ['yargy/parser.py'],
     [('completion against all waiting items', 'yargy/parser.py Parser.complete'),
      ('deduplication by derivation', 'yargy/parser.py State.__hash__, Column.append')],
     ['Parser.extract(text)', 'Parser.extract(text, all=False)'])

prop('C05', 'optional and repeatable mean what their bounds say, however nested',
     'X.optional() derives exactly X or nothing; X.repeatable(min, max) derives exactly the concatenations of at least min (default 1) and at most max (default unlimited) texts derived by X. '
     'This holds for every nesting and combination of these operators, for every X, and does not depend on reverse, which only affects preference. '
     'Non-positive or inconsistent bounds are rejected with ValueError.',
     ['programs', 'inputs'],
     'all nestings of optional/repeatable with all bounds and reverse flags, over all base rules, all repetition counts',
     'Tests compare the printed BNF of ten fixed nestings, they never check which counts are accepted, and bounds under another repetition are not covered.',
     ['yargy/rule/constructors.py', 'yargy/rule/transformators.py'],
     [('squashing of nested operators', 'yargy/rule/transformators.py SquashExtendedTransformator'),
      ('expansion', 'yargy/rule/transformators.py ReplaceExtendedTransformator')],
     ['Parser.match(text) for repeated texts', 'ValueError from repeatable'])

prop('C06', 'How a grammar is written does not change what it finds',
     'Rewriting a grammar in an equivalent way does not change the texts and facts found: using one shared rule object instead of equal copies, wrapping in rule(...), naming, defining through forward, '
     'writing a nested or_ flat, grouping a sequence, or adding an interpretation that nothing uses. '
     'Several annotations (named, interpretation, match) on one rule, in any order and on shared or recursive rules, stay attached to that use of the rule only.',
     ['programs', 'inputs'],
     'all grammars, all sequences of meaning-preserving rewrites at random places, all texts',
     'Normalisation passes (flatten, squash, BNF lifting of shared rules) are tested on a few printed grammars; identity-sensitive bugs (shared objects, reuse of temporary objects) depend on the whole grammar.',
     ['yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/rule/constructors.py'],
     [('memoised transformation', 'yargy/rule/transformators.py RuleTransformator.visit'),
      ('flattening', 'yargy/rule/transformators.py FlattenTransformator'),
      ('lifting of shared rules', 'yargy/rule/bnf.py BNFTransformator.visit_WrapperRule')],
     ['Parser.match', 'Parser.findall', 'Match.fact'])

prop('C07', 'Building parsers does not change the rules they are built from',
     'A rule object can be used for any number of parsers, before and after being made part of larger rules, with the same or with different tokenizers and taggers. '
     'Each parser behaves exactly as if it had been built from a fresh, equal definition with its own tokenizer and tagger. '
     'In particular, recursive rules keep their interpretation, and gazetteers and predicates use the tokenizer of the parser at hand.',
     ['histories', 'programs'],
     'all interleavings of defining rules, building parsers with different tokenizers and parsing',
     'Every test builds each rule once and uses it in one parser; reuse needs a history of operations.',
     ['yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/parser.py', 'yargy/pipelines.py'],
     [('activation', 'yargy/rule/transformators.py ActivateTransformator'),
      ('forward handling in transformations', 'yargy/rule/transformators.py RuleTransformator')],
     ['Parser(rule, tokenizer, tagger) built repeatedly', 'Parser.match', 'Match.fact'])

prop('C08', 'Parsing has no memory: calls and matches are independent of each other',
     'The result of a call on a parser depends only on its text: repeating calls, interleaving calls on different texts or parsers, and consuming result iterators late or partially never changes any result. The same holds for calls made at the same time from several threads and for calls made inside custom predicates and normalizers of another call. '
     'A match that was returned keeps the same tokens, span and fact, whatever is parsed or accessed afterwards and in whatever order. A fact belongs to the caller who took it: setting its attributes, or changing its lists and what the functions of custom returned, shows up in no other fact, match or call. An error raised by a function or object of the user (predicate, normalizer, tagger, analyser) reaches the caller as it is and leaves nothing behind for later calls. '
     'One candidate fragment never influences the validity, tokens or fact of another.',
     ['histories', 'inputs', 'schedules'],
     'all histories of match/findall/find/extract calls and accesses to earlier results, all schedules of concurrent calls',
     'Tests look at a result right after the call; aliasing between matches that share chart nodes needs several overlapping candidates and late access.',
     ['yargy/parser.py', 'yargy/tree/transformators.py', 'yargy/morph.py'],
     [('constraint application to trees', 'yargy/tree/transformators.py ApplyRelationsTransformator'),
      ('lazy fact', 'yargy/parser.py Match.fact'),
      ('analysis cache', 'yargy/morph.py CachedMorphAnalyzer')],
     ['Match.tokens', 'Match.fact', 'Parser.findall'])

prop('C09', 'Results are the same in every process',
     'For the same rule definitions and text, matches, spans, token forms, facts, printed grammars and graphs are identical in every run of the program, independent of hash randomisation and memory layout, including for ambiguous gazetteer keys and ambiguous words.',
     ['configurations', 'inputs'],
     'all hash seeds / allocation histories, all grammars and texts',
     'The suite runs in one process per run and has no ambiguous gazetteer; an order-dependent choice passes with some seeds and fails with others.',
     ['yargy/pipelines.py', 'yargy/parser.py', 'yargy/rule/transformators.py'],
     [('order of predicted gazetteer keys', 'yargy/pipelines.py MorphPipelineBNFRule.predict'),
      ('identity-based indexes', 'yargy/parser.py Column.states_index')],
     ['Parser.findall/match in processes with different PYTHONHASHSEED'])

prop('C10', 'Tokenization covers the text, loses nothing and follows rule priority',
     'For every Unicode text the default tokens come in text order without overlaps, each token value is the text at its span, and every character that belongs to no token is whitespace other than a line break. '
     'At each position the first rule in the configured order that matches there decides the token and its type: a maximal run of Russian letters is RU, of Latin letters LATIN, of digits INT, of line breaks EOL, a listed punctuation character alone PUNCT, any other non-space character alone OTHER. '
     'Rules added with add_rules go first; the shipped e-mail and phone rules take whole addresses and whole numbers of ten to fourteen digits. split returns the token values.',
     ['inputs'],
     'all Unicode strings; all rule lists',
     'Six example strings are tested; coverage and priority are claims about every string.',
     ['yargy/tokenizer.py'],
     [('combined regular expression', 'yargy/tokenizer.py Tokenizer.compile, __call__')],
     ['Tokenizer()(text)', 'Tokenizer.split(text)'])

prop('C11', 'Tokenizer reconfiguration takes effect exactly as requested',
     'After any sequence of add_rules and remove_types the tokenizer behaves like a new one with the resulting rule list: added rules take precedence over existing ones in the given order, removed types no longer occur and their text falls to the remaining rules. '
     'check_type accepts exactly the types that still have a rule, removing or requiring an unknown type raises ValueError and changes nothing. '
     'Other tokenizers and the default rules are never affected.',
     ['histories', 'inputs'],
     'all sequences of add_rules/remove_types/check_type on one or several tokenizers, all texts',
     'Tests do one add and one remove; interaction of several changes, failed changes and other instances is a history property.',
     ['yargy/tokenizer.py'],
     [('reset with new rule list', 'yargy/tokenizer.py Tokenizer.reset, add_rules, remove_types')],
     ['Tokenizer.add_rules', 'Tokenizer.remove_types', 'Tokenizer.check_type', 'tokens'],
     [('Tokenizer.rules', 'current ordered rule list', 'yargy/tokenizer.py')])

prop('C12', 'Morphology of tokens is exactly that of the morphological analyser',
     'MorphTokenizer yields the same tokens as the plain tokenizer; exactly the RU tokens carry forms, and these are, in order, the normal form and grammemes that the analyser (pymorphy2, or the one passed in) gives for the word. '
     'The cached analyser gives the same answers as an uncached one, whatever was asked before. '
     'The gender, number and case views of grammemes reflect exactly the grammemes present, and inflecting a form gives the analyser\'s inflection, or the normal form if there is none.',
     ['inputs', 'histories'],
     'all words and texts, all query histories against the cache',
     'Tests check two words.',
     ['yargy/morph.py', 'yargy/tokenizer.py', 'yargy/token.py'],
     [('form preparation', 'yargy/morph.py prepare_form'),
      ('cache', 'yargy/morph.py CachedMorphAnalyzer'),
      ('attachment of forms', 'yargy/tokenizer.py MorphTokenizer.__call__')],
     ['MorphTokenizer()(text)', 'CachedMorphAnalyzer()(word)', 'Form.inflect'])

prop('C13', 'Each predicate decides tokens by its documented condition',
     'For every token, eq, caseless, in_, in_caseless, gte, lte, length_eq, is_lower, is_upper, is_title, is_capitalized, is_single, normalized, dictionary, gram, type, tag, custom and true give exactly the answer of their documented condition. '
     'Predicates that need a number or morphology are False on tokens that have none; custom with types is only called on tokens of those types.',
     ['inputs'],
     'all predicates with all arguments on all tokens (plain, morphological, tagged)',
     'One doctest with one or two tokens each.',
     ['yargy/predicates/bank.py', 'yargy/predicates/constructors.py'],
     [('predicate implementations', 'yargy/predicates/bank.py'),
      ('activation', 'yargy/predicates/bank.py *.activate')],
     ['predicate.activate(context)(token)'])

prop('C14', 'and_, or_, not_ combine predicates and relations as boolean logic',
     'For every nesting of and_, or_ and not_ over predicates, the combination is true on a token exactly when the boolean formula over the parts is true, before and after activation for a tokenizer; the same holds for relations on a pair of word forms. '
     'Parts are asked from left to right until the answer is clear, so a part can guard the next ones. '
     'All parts of a nested combination are activated and checked for the tokenizer and tagger at hand. '
     'Mixing predicates, relations and rules in one combination raises TypeError.',
     ['programs', 'inputs'],
     'all formula shapes over all predicates/relations, all tokens/pairs of forms',
     'One fixed formula is tested on two tokens.',
     ['yargy/api.py', 'yargy/predicates/constructors.py', 'yargy/relations/constructors.py'],
     [('composition', 'yargy/predicates/constructors.py PredicatesComposition, NotPredicate'),
      ('composition of relations', 'yargy/relations/constructors.py')],
     ['and_/or_/not_(...)(token)', 'and_/or_/not_(...)(form, other)'])

prop('C15', 'A gazetteer finds exactly what the equivalent written-out rules find',
     'pipeline, caseless_pipeline and morph_pipeline over a list of phrases find, in every text and in every place of a grammar, exactly the token sequences found by the alternative of one rule per phrase whose words are tested with eq, caseless or normalized respectively. '
     'Every phrase finds itself; phrases that share words or prefixes, repeat, or contain each other do not disturb one another, and a listed line without words matches nothing.',
     ['inputs', 'programs'],
     'all phrase lists (shared prefixes, duplicates, mixed alphabets and punctuation), all texts, pipelines inside sequences, options, repetitions and alternatives',
     'A handful of phrases are tested; the first-word index is an optimisation whose agreement with the plain rules must hold for every list.',
     ['yargy/pipelines.py'],
     [('index by first word', 'yargy/pipelines.py PipelineBNFRule.build_index, predict'),
      ('phrase splitting', 'yargy/pipelines.py PipelineScheme.get_key')],
     ['Parser(pipeline(...)).findall', 'Parser.match'])

prop('C16', 'normalized() on a gazetteer yields the phrase as listed',
     'When a gazetteer carries an interpretation with normalized(), the value is the listed phrase, character for character, whose words match the tokens; if several listed phrases match the same tokens, the value is one of them and the choice is the same every time. '
     'This holds wherever the gazetteer stands and also when the same gazetteer object is used in several places of the grammar. '
     'Without normalized() the value is the text as found.',
     ['inputs', 'programs'],
     'all phrase lists and texts, all places and shared uses of a gazetteer',
     'Two phrases are tested in one grammar with a single use.',
     ['yargy/pipelines.py', 'yargy/tree/transformators.py', 'yargy/rule/bnf.py', 'yargy/interpretation/normalizer.py'],
     [('key transport', 'yargy/tree/transformators.py InterpretationTransformator.visit_Node'),
      ('shared gazetteers', 'yargy/rule/bnf.py BNFTransformator')],
     ['Match.fact'])

prop('C17', 'Agreement relations follow the grammemes and are symmetric',
     'gender, number and case relations hold between two word forms exactly by their grammemes: same gender, or common gender with masculine, feminine or common, or general gender with anything, or both plural; same number, or singular-only/plural-only with a compatible number; same case, or a fixed form. '
     'gnc_relation holds exactly when all three hold. '
     'Every relation gives the same answer when its arguments are swapped, and a form that carries gender, number or case agrees with itself in it.',
     ['inputs'],
     'all pairs of word forms over all combinations of grammemes',
     'Tests use five word pairs through the parser.',
     ['yargy/relations/bank.py', 'yargy/morph.py'],
     [('relation implementations', 'yargy/relations/bank.py'),
      ('grammeme views', 'yargy/morph.py Gender, Number, Case')],
     ['gender_relation()(form, other)', 'number_relation()', 'case_relation()', 'gnc_relation()'])

prop('C18', 'A match exists only with consistent forms, and keeps exactly those',
     'A parse in which rules carry .match(relation) is accepted exactly when the forms of the related main words can be reduced to non-empty sets in which every form of a word is in the relation with some remaining form of every other word related to it by the same relation object. '
     'The tokens of the match keep exactly the largest such sets of forms, tokens outside any relation keep their forms, and a predicate such as gram or is_single standing alone keeps only the forms that satisfy it. '
     'Different relation objects do not affect each other except through shared words; a word without morphology agrees with nothing.',
     ['programs', 'inputs'],
     'all grammars with relations, all assignments of forms to words, any number of related words',
     'Tests check acceptance for five two- and three-word phrases; multi-way consistency and the kept forms are not tested.',
     ['yargy/relations/graph.py', 'yargy/tree/transformators.py', 'yargy/parser.py'],
     [('pairwise filtering', 'yargy/relations/graph.py TokenRelationsGraph.validate'),
      ('application', 'yargy/tree/transformators.py ApplyRelationsTransformator'),
      ('narrowing by predicates', 'yargy/predicates/bank.py GramPredicate.constrain')],
     ['Parser.match', 'Match.tokens[i].forms'])

prop('C19', 'The main word of a phrase is the marked one, else the leftmost',
     'A relation put on a rule applies to the main word of the phrase the rule matched: the word reached by following the main(...) mark, or the first item if nothing is marked, through all nested rules. '
     'Items that matched nothing (optional parts that are absent) never change which word is the main one. '
     'Wrapping, naming, sharing or repeating the rule does not change it.',
     ['programs', 'inputs'],
     'all nestings of sequences with and without main marks and optional parts, all texts',
     'One fixed rule with main in second place is tested, without optional parts.',
     ['yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/rule/constructors.py'],
     [('main index', 'yargy/rule/constructors.py prepare_terms, Production'),
      ('main lookup', 'yargy/tree/constructors.py Node.main'),
      ('removal of empty parts', 'yargy/tree/transformators.py PropogateEmptyTransformator')],
     ['acceptance by relations', 'Match.tokens[i].forms'])

prop('C20', 'Facts are assembled from the parse tree by the documented rules',
     'The fact of a match contains exactly the attribute values found below its constructor: of several values for one attribute the rightmost wins, a repeatable attribute collects all of them from left to right, absent attributes have their default (an empty list if repeatable). '
     'An attribute directly on another attribute replaces it, a constructor below an attribute becomes a nested fact, and constructors of the same fact below a constructor are merged into it without losing values of repeatable attributes. '
     'Attributes of other facts are ignored, and an attribute over a mixture of plain words and interpreted parts raises TypeError.',
     ['programs', 'inputs'],
     'all arrangements of interpretation annotations on rules (nesting, repetition, options, recursion), all matching texts',
     'About twenty fixed two-node trees are tested; assembly is a recursive definition over arbitrary trees.',
     ['yargy/interpretation/interpretator.py', 'yargy/interpretation/fact.py', 'yargy/tree/transformators.py'],
     [('interpretation of trees', 'yargy/tree/transformators.py InterpretationTransformator'),
      ('collection', 'yargy/interpretation/fact.py InterpretatorFact.set, merge'),
      ('dispatch', 'yargy/interpretation/interpretator.py FactInterpretator, AttributeInterpretator')],
     ['Match.fact'])

prop('C21', 'Normalizers compute the documented value for every phrase',
     'An attribute or rule value is the found text with each gap between tokens reduced to one space; normalized() replaces each word by its normal form, inflected(grams) by its inflection from the kept forms (nominative singular by default), const(v) gives v, custom(f) applies f to the value, and chained calls compose in the written order. '
     'The attribute form (F.a.normalized() and so on) gives the same value as the rule form. '
     'Words without morphology are lowercased by normalized and inflected.',
     ['inputs', 'programs'],
     'all words and phrases, all normalizers and chains of them, on rules and on attributes',
     'One word per normalizer is tested.',
     ['yargy/interpretation/normalizer.py', 'yargy/interpretation/attribute.py', 'yargy/token.py', 'yargy/morph.py'],
     [('normalizers', 'yargy/interpretation/normalizer.py'),
      ('attribute chains', 'yargy/interpretation/attribute.py'),
      ('joining', 'yargy/token.py join_tokens, join_normalized_tokens, join_inflected_tokens')],
     ['Match.fact'])

prop('C22', 'as_json and spans of a fact mirror its content',
     'as_json of a fact is the mapping, in attribute order, of every attribute that is not None to its value, with nested facts as nested mappings and repeatable attributes as lists; it agrees with the attribute values of the fact. '
     'spans lists, in text order, the text range of each value collected into the fact (for a value of several words from the first to the last word), for raw, normalized, inflected, const and custom values and nested facts alike. '
     'Both are available for every fact a match returns.',
     ['programs', 'inputs'],
     'all facts obtainable from parses',
     'Tested on flat facts with one or two attributes; const values and deeper nesting are not.',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py'],
     [('json', 'yargy/interpretation/fact.py InterpretatorFact.as_json'),
      ('spans', 'yargy/interpretation/fact.py InterpretatorFact.spans, Fact.spans')],
     ['Match.fact.as_json', 'Match.fact.spans'])

prop('C23', 'Fact classes behave as records with defaults and inheritance',
     'A fact class accepts any subset of its attributes by keyword, fills in declared defaults and a new empty list for each repeatable attribute, and raises KeyError for unknown names. '
     'Facts are equal exactly when class and all attribute values are equal; iteration and repr give the attributes in declared order. '
     'A subclass of a fact class can be used in interpretation wherever attributes of the base are used, and instances do not share the lists of repeatable attributes.',
     ['inputs', 'histories'],
     'all attribute lists, defaults, keyword subsets and subclass chains',
     'Constructors are only used to write expected values in tests.',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/attribute.py', 'yargy/record.py'],
     [('class construction', 'yargy/interpretation/fact.py fact, Fact.__init__'),
      ('record protocol', 'yargy/record.py Record')],
     ['fact(name, attributes)', 'F(**kwargs)', '==', 'repr', 'iteration'])

prop('C24', 'Taggers label tokens without losing anything, and unknown tags fail',
     'With a tagger, the parser sees exactly the tagger\'s tokens: value, span, type and forms are kept by tagged() and by relation or predicate narrowing, tag(x) is true exactly on tokens tagged x, and a composition applies its taggers in order and knows the tags of all of them. '
     'Using tag(x) in a parser whose tagger does not know x raises ValueError.',
     ['inputs', 'programs', 'configurations'],
     'all taggings of all texts, all grammars over tags and other predicates',
     'One tagger on one text is tested.',
     ['yargy/tagger.py', 'yargy/token.py', 'yargy/predicates/bank.py'],
     [('tagging', 'yargy/token.py Token.tagged, MorphToken.tagged, MorphTagToken.constrained'),
      ('tag check', 'yargy/predicates/bank.py tag.activate'),
      ('composition', 'yargy/tagger.py TaggersComposition')],
     ['Parser(rule, tagger=...)', 'Match.tokens'])

prop('C25', 'Invalid definitions are rejected where they are made or activated',
     'Defining rules, predicates, relations, interpretations or facts with operands of the wrong kind raises TypeError (more than one main, a forward defined as another forward, bounds out of range and a default on a repeatable attribute raise ValueError), and building a parser from an undefined forward, an unknown grammeme or an unknown token type raises TypeError or ValueError. '
     'Valid definitions are never rejected. '
     'A fact requested from a match whose root has no interpretation raises ValueError.',
     ['programs'],
     'all ill-formed single deviations placed anywhere inside well-formed definitions, and all well-formed definitions',
     'Six cases are tested, at the top level only.',
     ['yargy/api.py', 'yargy/check.py', 'yargy/rule/constructors.py', 'yargy/predicates/bank.py', 'yargy/interpretation/attribute.py', 'yargy/interpretation/interpretator.py'],
     [('assertions', 'yargy/check.py'),
      ('activation checks', 'yargy/predicates/bank.py gram.activate, type.activate, custom.activate')],
     ['exceptions from constructors and Parser(...)'])

prop('C26', 'Realistic grammars handle any text without error and act locally',
     'For grammars as in the documentation (names, dates, money, addresses, gazetteers, agreement), parsing any Unicode text raises no error and every match is a run of consecutive tokens of the text, with a fact, json form and spans inside the match. '
     'Matches depend only on the tokens around them: parsing two texts joined by a token no rule accepts finds exactly the matches of both, shifted. '
     'The whole-text match agrees with the candidates findall considers.',
     ['inputs'],
     'all Unicode texts, in particular mutations of realistic Russian text',
     'A dozen clean sentences are tested.',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/morph.py', 'yargy/relations/graph.py', 'yargy/interpretation/interpretator.py', 'yargy/pipelines.py', 'yargy/predicates/bank.py'],
     [('end-to-end parsing', 'yargy/parser.py Parser')],
     ['Parser.findall/match on arbitrary text', 'Match.fact'])

prop('C27', 'Only the token sequence matters: spacing and pre-tokenized input',
     'Changing the amount or kind of blank space between separated tokens, or adding it around the text, changes only character offsets, never which tokens match or the facts; adding or removing blanks that leaves the tokens the same never changes which tokens match. '
     'Giving a parser a ready sequence of tokens through a pass-through tokenizer gives the same matches as giving it the text, also for a filtered sequence of tokens and for tokens reused in several parsers. '
     'Match spans refer to the offsets of the given tokens.',
     ['inputs'],
     'all grammars and texts, all re-spacings, all token subsequences',
     'Not tested; the cookbook recommends the pass-through tokenizer.',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/token.py', 'yargy/pipelines.py'],
     [('parser works on tokens', 'yargy/parser.py Parser.chart'),
      ('spans', 'yargy/token.py get_tokens_span, format_tokens')],
     ['Parser.findall', 'Match.span', 'Match.fact'])

prop('C28', 'Graphs of rules and parse trees are valid DOT and show every node',
     'as_dot of any rule and of any parse tree gives syntactically valid DOT source in which each node of the rule or tree appears once with its label intact (whatever characters it contains) and each parent-child link appears as one edge, children in order, the edge of a marked main word highlighted. '
     'For trees with relations one extra undirected edge joins each pair of related nodes. '
     'Producing a graph changes neither the rule nor the tree.',
     ['programs', 'inputs'],
     'all rules and trees, all label characters',
     'No test renders a graph.',
     ['yargy/dot.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
     [('quoting', 'yargy/dot.py style.quote'),
      ('traversal', 'yargy/dot.py DotTransformator'),
      ('node styles', 'yargy/rule/transformators.py DotRuleTransformator; yargy/tree/transformators.py DotTreeTransformator')],
     ['Rule.as_dot.source', 'Match.tree.as_dot.source'])

prop('C29', 'The printed BNF is a faithful description of the grammar',
     'rule.normalized.as_bnf lists the start rule first and one line for every rule reachable from it; each name used on a right-hand side has a line. '
     'Read as a grammar, with the listed order of alternatives, the printed lines derive exactly the texts the parser accepts for the rule. '
     'Names (or the interpretation in place of the name) and relations appear in the label of the rule they were put on, and generated names differ from names of the user.',
     ['programs'],
     'all grammars with printable terminals',
     'A list of about twenty printed grammars is compared literally; nothing relates the print to what the parser accepts.',
     ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
     [('printing', 'yargy/rule/bnf.py BNFRule.__str__, BNF.source, generate_names'),
      ('normalisation', 'yargy/rule/constructors.py Rule.normalized')],
     ['list(rule.normalized.as_bnf.source)', 'Parser(rule).match'])

prop('C30', 'Tokens, spans, forms and other records are values',
     'Two records are equal exactly when they are of the same class and all their fields are equal, != is the negation of ==, records iterate over their fields in declared order and print them all. '
     'Records whose fields are hashable are hashable, and equal ones have equal hashes; a span also equals the tuple of its ends and orders like it. '
     'Deriving a token (tagging, attaching or narrowing forms) gives a new token and leaves the old one as it was; normalized and joined text is computed from the token alone.',
     ['inputs'],
     'all tokens, spans, forms, grams, token rules and relations, all derivation chains',
     'Equality is only used with matching values in tests.',
     ['yargy/record.py', 'yargy/span.py', 'yargy/token.py', 'yargy/morph.py'],
     [('record protocol', 'yargy/record.py'),
      ('span comparison', 'yargy/span.py Span'),
      ('token derivation', 'yargy/token.py')],
     ['==, hash, iteration, repr, <', 'Token.tagged, morphed, constrained', 'join_tokens'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
