import re

from hypothesis import strategies as st

from lib import bnf, gens, interp, model, spec, words as W
from lib.harness import Skip, equal, expect, fail
from props import c07, c18

RULE = (
    'Generated grammars with every rule constructor, shared and recursive '
    'parts, main marks, relations, gazetteers, names (also R0, R1, ...) and '
    'interpretations, one of a kind each. The printed lines, before and '
    'after activation, are read back by a reader of their own and compared '
    'with the grammar they were printed from on random and derived texts: '
    'as sets of texts (whole grammar and every annotated rule) and, built '
    'again with yargy, by matches, kept forms and parse trees. Rules that '
    'share one name print the same lines as with different names. Non-trivial: '
    'three or more lines and texts both inside and outside of the language.'
)
TECHNIQUE = (
    'property-based testing: round trip of the printed grammar through an '
    'independent reader, reference recognizer'
)
NOTE = (
    'Names and words are such that lines can be read without doubt; in_ and '
    'dictionary (and normalized after activation), printed without their words, are left out, and a grammar '
    'has at most one gazetteer of a kind since words of gazetteers are not '
    'printed. Trees are compared for acyclic grammars.'
)
QUICK = 1270
THOROUGH = 12000
LIMIT = 1000
WORDS = ['ба', 'во', 'гу', 'x', '5', '-']
ODD = ['|', '->', '^', "'", 'e', '(', ')', '<', ' ', 'a b', 'pipeline', 'R0']
NAMES = ['R0', 'R1', 'R2', 'R3', 'NAME', 'Имя', 'x', 'DATE_1', 'R10', 'R',
         'RU', 'A', 'B', 'C', 'D', 'N1', 'N2', 'N3', 'N4', 'N5', 'N6', 'ба']
FACT = 'F'
SIZE = 24

PREDICATE = st.one_of(
    st.sampled_from([
        ['true'], ['single'], ['type', 'RU'], ['type', 'INT'],
        ['caseless', 'ба'], ['norm', 'во'], ['gram', 'NOUN'],
        ['gram', 'VERB'], ['tag', 'A'], ['tag', 'B'], ['gte', 3],
        ['lte', -1], ['len', 2], ['custom', 'even', None], ['lower'], ['upper'], ['title'], ['cap'],
    ]),
    st.sampled_from([
        ['not', ['eq', 'ба']], ['and', [['true'], ['gram', 'NOUN']]],
        ['or', [['eq', 'x'], ['tag', 'A']]],
        ['and', [['not', ['type', 'RU']], ['or', [['gte', 1], ['eq', '-']]]]],
    ]),
)
TERMINALS = st.one_of(
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(WORDS), st.integers(0, 2)),
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(WORDS + ODD), st.integers(0, 2)),
    st.builds(lambda p, s: ['p', p, s], PREDICATE, st.integers(0, 2)),
    st.builds(lambda kind: ['pipe', kind],
              st.sampled_from(['pipeline', 'caseless', 'morph'])),
)
RELATION = st.sampled_from([
    ['gender'], ['number'], ['case'], ['gnc'],
    ['and', [['gender'], ['not', ['number']]]], ['or', [['case'], ['gnc']]],
])


def wrap(draw, expr, cfg):
    kind = draw(st.integers(0, 5))
    if kind < 2:
        return ['named', expr, '']
    elif kind < 4:
        return ['int', expr, draw(st.sampled_from([
            [], [], [['normalized']], [['const', 4]],
            [['custom', 'upper']], [['inflected', ['gent']]],
            [['custom', 'upper'], ['custom', 'size']],
        ]))]
    return ['match', expr, draw(st.sampled_from(['r0', 'r1']))]


CFG = gens.Config(
    terminals=TERMINALS, wrap=wrap, main=True, depth=3, nested_ext=True,
    named=False)
LINES = st.lists(st.sampled_from(c07.LINES), min_size=1, max_size=3)


@st.composite
def strategy(draw, tier):
    return {
        'grammar': draw(gens.grammars(CFG)),
        'names': draw(st.one_of(
            st.permutations(NAMES), st.permutations(NAMES[:4]))),
        'dense': draw(st.lists(st.booleans(), max_size=6)),
        'pipes': draw(st.fixed_dictionaries({
            'pipeline': LINES, 'caseless': LINES, 'morph': LINES})),
        'relations': draw(st.lists(
            RELATION, min_size=2, max_size=2, unique_by=repr)),
        'lexicon': draw(c07.LEXICON),
        'texts': draw(st.lists(
            gens.texts(WORDS, 5), min_size=1, max_size=3)),
        'seeds': draw(st.lists(
            st.integers(0, 1000), min_size=1, max_size=5)),
    }


def make_grammar(case):
    """Every name and attribute once."""
    names = list(case['names'])
    attributes = ['a%d' % _ for _ in range(SIZE)]
    dense = list(case.get('dense', []))

    def visit(expr):
        kind = expr[0]
        if kind == 'pipe':
            return ['pipe', expr[1], case['pipes'][expr[1]]]
        if kind in ('seq', 'or'):
            result = [kind, [visit(_) for _ in expr[1]]] + expr[2:]
            if dense and dense.pop() and names:
                return ['named', result, names.pop()]
            return result
        if kind in ('opt', 'rep', 'match'):
            return [kind, visit(expr[1])] + expr[2:]
        if kind == 'named':
            child = visit(expr[1])
            return ['named', child, names.pop()] if names else child
        if kind == 'int':
            child = visit(expr[1])
            if not attributes:
                return child
            return ['int', child, [
                'attr', FACT, attributes.pop(), expr[2] or None]]
        return expr

    grammar = case['grammar']
    return {
        'lets': [visit(_) for _ in grammar['lets']],
        'defs': [visit(_) for _ in grammar['defs']],
        'root': visit(grammar['root']),
        'relations': dict(zip(['r0', 'r1'], case['relations'])),
        'facts': {FACT: {'attrs': [
            {'name': 'a%d' % _, 'repeatable': False, 'default': None}
            for _ in range(SIZE)
        ]}},
    }


########
# LABELS
########


def relation_label(value):
    kind = value[0]
    if kind == 'not':
        return 'not_(%s)' % relation_label(value[1])
    if kind in ('and', 'or'):
        return '%s_(%s)' % (
            kind, ', '.join(relation_label(_) for _ in value[1]))
    return kind


def interpretation_label(value):
    _, fact, name, norms = value
    label = '%s.%s' % (fact, name)
    for norm in norms or []:
        kind = norm[0]
        label += '.' + {
            'normalized': lambda: 'normalized()',
            'const': lambda: 'const(%s)' % norm[1],
            'custom': lambda: 'custom(%s)' % norm[1],
            'inflected': lambda: 'inflected(%s)' % ', '.join(norm[1]),
        }[kind]()
    return label


def annotated(grammar):
    """Annotated rules that the root uses."""
    visited = []
    result = []
    queue = [grammar['root']]
    while queue:
        expr = queue.pop()
        if any(_ is expr for _ in visited):
            continue
        visited.append(expr)
        kind = expr[0]
        if kind == 'let':
            queue.append(grammar['lets'][expr[1]])
        elif kind == 'ref':
            queue.append(grammar['defs'][expr[1]])
        else:
            queue.extend(gens.subexprs(expr))
        if kind in ('named', 'int', 'match'):
            result.append(expr)
    return result


def hidden_names(grammar, items):
    """Names that share the line with an interpretation."""
    hidden = set()
    for expr in items:
        names = [expr[2]] if expr[0] == 'named' else []
        over = expr[0] == 'int'
        under = False
        depth = 0
        while expr[0] in ('let', 'ref', 'named', 'int', 'match', 'rep'):
            depth += 1
            if depth > 50:
                break
            if expr[0] == 'let':
                expr = grammar['lets'][expr[1]]
                continue
            if expr[0] == 'ref':
                expr = grammar['defs'][expr[1]]
                continue
            if expr[0] == 'named' and over:
                hidden.add(expr[2])
            if expr[0] == 'int':
                under = True
            expr = expr[1]
        if under:
            hidden.update(names)
    return hidden


########
# CHECK
########


def signature(item, names):
    """Parse tree of named rules, others are left out."""
    if hasattr(item, 'token'):
        return [item.token.value]
    children = []
    for child in item.children:
        children.extend(signature(child, names))
    if item.label in names:
        return [[item.label, children]]
    return children


def read(rule, what, pipes, relations):
    source = list(rule.as_bnf.source)
    again = list(rule.as_bnf.source)
    equal(again, source, what + ': printed again')
    try:
        printed = bnf.Grammar(source)
        used = printed.used()
        value = printed.spec(pipes, relations)
    except bnf.BNFError as error:
        fail('%s: %s: %r', what, error, source)
    unused = [
        _.name for index, _ in enumerate(printed.lines) if index not in used
    ]
    equal(unused, [], what + ': lines that the start rule does not use')
    return printed, value, source


def check(case, ctx):
    from yargy.parser import Context
    grammar = make_grammar(case)
    if gens.has_k1(grammar):
        raise Skip('known finding of C05')
    lexicon = W.Lexicon(case['lexicon'])
    relations = grammar['relations']
    labels = {relation_label(_): name for name, _ in relations.items()}
    tokenizer = spec.stub_tokenizer(lexicon)
    tags = {'ба': 'A', 'x': 'B', '5': 'A'}
    tagger = spec.word_tagger(tags)
    rule = spec.Builder(grammar).root
    active = rule.activate(Context(tokenizer, tagger))

    reference = model.Model(grammar, lexicon)
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, c07.sample_word)
        if item is not None and len(item) <= 7:
            texts.append(item)
    texts = [' '.join(_) for _ in texts]
    tokens = []
    for text in texts:
        items = model.tokenize(text, lexicon=lexicon)
        for item in items:
            item.tag = tags.get(item.value)
        tokens.append(items)

    check_same_names(case, ctx)
    printed = {}
    for what, value in [('rule', rule), ('activated', active)]:
        value = value.normalized
        if what == 'activated' and '(...)' in ' '.join(value.as_bnf.source):
            # normalized(word) looks words up in the set of its forms
            continue
        ctx.label(what)
        printed[what] = read(value, what, case['pipes'], labels)
    want = [bool(_) and reference.accepts(_) for _ in tokens]
    models = {}
    for what, (lines, value, source) in printed.items():
        other = models[what] = model.Model(value, lexicon)
        got = [bool(_) and other.accepts(_) for _ in tokens]
        equal(dict(zip(texts, got)), dict(zip(texts, want)),
              'texts derived by the lines of %s %r' % (what, source))
        for text, items, accepted in zip(texts, tokens, got):
            if not accepted:
                continue
            wanted = mains(reference, items)
            found = mains(other, items)
            if wanted is not None and found is not None:
                equal(
                    found, wanted,
                    'main words of %r in the lines of %s %r' % (
                        text, what, source))
                if wanted != {0}:
                    ctx.label('main is not the first')
        check_annotations(
            grammar, lines, value, tokens, texts, lexicon, source, what)
    ctx.label('%d lines' % min(len(source), 8))
    if len(source) >= 3 and any(want) and not all(want):
        ctx.nontrivial()

    if reference.cyclic() or not reference.exact_order:
        ctx.label('languages only')
        return
    check_parsers(
        grammar, rule, printed['rule'], reference, tokenizer, tagger,
        tokens, texts, want, lexicon, ctx)


def mains(value, tokens):
    """Positions of the main word in derivations of the whole text."""
    if value.cyclic():
        return
    ends = value.recognize(tokens)
    try:
        value.effort(tokens, ends, LIMIT)
        trees = value.derivations(tokens, ends)(0, len(tokens))
    except model.TooBig:
        return
    return {interp.main_word(_) for _ in trees}


def check_same_names(case, ctx):
    """Rules with one name or attribute still have a line each."""
    names = ['UNIQ%d' % _ for _ in range(SIZE)]
    different = make_grammar(dict(case, names=names))

    def visit(item):
        if isinstance(item, dict):
            return {key: visit(_) for key, _ in item.items()}
        elif not isinstance(item, list):
            return item
        if item and item[0] == 'named':
            return ['named', visit(item[1]), 'SAME']
        elif item and item[0] == 'attr':
            return ['attr', FACT, 'a0', item[3]]
        return [visit(_) for _ in item]

    same = visit(different)
    want = [
        re.sub(r'\bF\.a\d+', 'F.a0', re.sub(r'UNIQ\d+', 'SAME', line))
        for line in spec.Builder(different).root.normalized.as_bnf.source
    ]
    got = list(spec.Builder(same).root.normalized.as_bnf.source)
    equal(got, want, 'lines of a grammar with rules named the same')
    if len(set(got)) < len(got):
        ctx.label('equal lines')


def check_annotations(
        grammar, lines, value, tokens, texts, lexicon, source, what):
    items = annotated(grammar)
    hidden = hidden_names(grammar, items)
    for expr in items:
        if expr[0] == 'named':
            label = expr[2]
            if label in hidden:
                continue
            found = [
                index for index, _ in enumerate(lines.lines)
                if _.base == label
            ]
        elif expr[0] == 'int':
            label = interpretation_label(expr[2])
            found = [
                index for index, _ in enumerate(lines.lines)
                if _.base == label
            ]
        else:
            label = relation_label(grammar['relations'][expr[2]])
            found = [
                index for index, _ in enumerate(lines.lines)
                if _.relation == label
            ]
        expect(found, '%s: no line of %r in %r', what, label, source)
        part = model.Model(dict(grammar, root=expr), lexicon)
        want = [part.accepts(_) for _ in tokens]
        views = []
        for index in found:
            other = model.Model(dict(value, root=['ref', index]), lexicon)
            views.append([other.accepts(_) for _ in tokens])
        expect(want in views, '%s: line of %r does not derive the texts of '
               'the rule it was put on: %r', what, label, source)


def check_parsers(
        grammar, rule, printed, reference, tokenizer, tagger,
        tokens, texts, want, lexicon, ctx):
    from yargy import Parser
    lines, value, source = printed
    other = spec.Builder(dict(
        value, relations=grammar['relations'])).root
    names = set()
    for expr in annotated(grammar):
        if expr[0] == 'named':
            names.add(expr[2])
        elif expr[0] == 'int':
            names.add(interpretation_label(expr[2]))
    for label in list(names):
        for name in grammar['relations'].values():
            names.add('%s^%s' % (label, relation_label(name)))
    first = Parser(rule, tokenizer=tokenizer, tagger=tagger)
    second = Parser(other, tokenizer=tokenizer, tagger=tagger)
    for text, items, accepted in zip(texts, tokens, want):
        ends = reference.recognize(items)
        try:
            reference.effort(items, ends, LIMIT)
        except model.TooBig:
            ctx.label('text too ambiguous')
            continue
        views = []
        for parser in (first, second):
            match = parser.match(text)
            found = list(parser.findall(text))
            if match:
                expect(accepted, 'match of %r that lines do not derive', text)
                found.append(match)
            views.append([
                (spec.match_view(_, fact=False),
                 signature(_.tree.root, names))
                for _ in found
            ])
            if accepted and not has_relations(grammar):
                expect(match, 'no match of %r that lines derive', text)
        equal(views[1], views[0],
              'matches of the grammar read from %r in %r' % (source, text))
        if views[0]:
            ctx.label('matches compared')


def has_relations(grammar):
    return any(_[0] == 'match' for _ in annotated(grammar))
