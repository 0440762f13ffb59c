import itertools

from hypothesis import strategies as st

from lib import interp, model, spec, words as W
from lib.harness import Skip, equal, expect

RULE = (
    'One to three phrases of one to three words (forms narrowed by gram, '
    'is_single or a relation, words without morphology, any gaps), each with '
    'a chain of normalizers given on the attribute, on the rule, on the '
    'predicate, or in two layers; synthetic and real morphology. '
    'Non-trivial: a chain on a phrase where the value differs from the text '
    'as found.'
)
TECHNIQUE = (
    'property-based testing: documented values computed from pymorphy2 or '
    'the synthetic lexicon directly; equivalence of the ways to write a chain'
)
NOTE = (
    'Values are computed from the kept forms by a direct implementation; a '
    'word inside a relation may use any of its kept forms, other words use '
    'the first kept one. The attribute form, the rule form and the layered '
    'form of the same chain are all compared with the same value.'
)
QUICK = 1490
THOROUGH = 20000

RU = ['ба', 'во', 'гу', 'ду']
MARKS = list(',.;:!?%)("»…') + ['\n']
WORDS = RU + ['Ба', 'ВО', 'x', 'X', '5', '-', '«']
REAL = W.NOUNS + W.ADJS + W.OTHERS + [
    'Москвы', 'ПЛОЩАДЬ', 'МОСКВЫ', 'ДОМА', 'УЧИТЕЛЯ', 'КРАСНОЙ', 'Учителя',
    'x', '5', '-']
GAPS = ['', ' ', ' ', ' ', '  ', '\t', '\u00a0']
FUNCTIONS = ['upper', 'wrap', 'size', 'double', 'none', 'zero']
GRAMS = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'sing', 'plur',
         'femn', 'masc', 'neut']
VALUES = [1, 0, None, '', 'k', 'к', [1], 2.5, True]

FUNCTION = st.sampled_from(FUNCTIONS)
CHAIN = st.one_of(
    st.just([['normalized']]),
    st.builds(lambda g: [['inflected', g]], st.one_of(
        st.none(), st.lists(
            st.sampled_from(GRAMS), max_size=2, unique=True))),
    st.builds(lambda v: [['const', v]], st.sampled_from(VALUES)),
    st.builds(lambda f: [['custom', f]], FUNCTION),
    st.builds(lambda f, g: [['custom', f], ['custom', g]],
              FUNCTION, FUNCTION),
    st.builds(lambda f: [['normalized'], ['custom', f]], FUNCTION),
    st.builds(lambda g, f: [['inflected', g], ['custom', f]],
              st.lists(st.sampled_from(GRAMS), max_size=2,
                       unique=True), FUNCTION),
    st.builds(lambda f: [['inflected', None], ['custom', f]], FUNCTION),
)
TERMINAL = st.one_of(
    st.just(['true']), st.just(['true']), st.just(['true']),
    st.builds(lambda g: ['gram', g], st.sampled_from(
        ['sing', 'plur', 'NOUN', 'ADJF', 'nomn', 'gent'])),
    st.just(['single']),
    st.builds(lambda g: ['not', ['gram', g]], st.sampled_from(['sing'])),
    st.builds(lambda g: ['and', [['gram', g]]], st.sampled_from(['sing'])),
)
FORM = st.tuples(
    st.sampled_from(RU + ['ба-ва', 'ух']),
    st.lists(st.sampled_from(
        ['NOUN', 'ADJF', 'masc', 'femn', 'sing', 'plur', 'nomn', 'gent',
         'Fixd']), max_size=4, unique=True)
)
LEXICON = st.fixed_dictionaries({
    word: st.lists(FORM, min_size=1, max_size=3) for word in RU
})
RELATION = st.sampled_from([['gender'], ['number'], ['case'], ['gnc']])


@st.composite
def strategy(draw, tier):
    real = draw(st.integers(0, 3)) == 0
    words = REAL if real else WORDS
    spots = draw(st.lists(st.fixed_dictionaries({
        'words': st.lists(st.tuples(
            TERMINAL, st.booleans()), min_size=1, max_size=3),
        'chain': CHAIN,
        'repeatable': st.integers(0, 5).map(lambda _: _ == 0),
    }), min_size=1, max_size=3))
    size = sum(len(_['words']) for _ in spots)
    return {
        'spots': spots,
        'relation': draw(st.one_of(st.none(), RELATION)),
        'lexicon': None if real else draw(LEXICON),
        'texts': draw(st.lists(st.lists(
            st.tuples(
                st.one_of(
                    st.sampled_from(words), st.sampled_from(words),
                    st.sampled_from(words), st.sampled_from(MARKS)),
                st.sampled_from(GAPS)),
            min_size=size, max_size=size), min_size=1, max_size=5)),
    }


FORMS = ['attribute', 'rule', 'layers', 'predicate']


def chains(form, norms):
    """Norms of the inner rule and of the attribute."""
    if form in ('attribute', 'predicate'):
        return None, norms
    elif form == 'rule' or len(norms) == 1:
        return norms, None
    return norms[:1], norms[1:]


def phrase_of(case, spot):
    items = []
    for predicate, related in spot['words']:
        item = ['p', predicate, 1]
        if related and case['relation']:
            item = ['match', item, 'r']
        items.append(item)
    if len(items) == 1:
        return items[0]
    return ['seq', items, None]


def grammar_of(case, form):
    items = []
    attrs = []
    for index, spot in enumerate(case['spots']):
        name = 'a%d' % index
        attrs.append({
            'name': name, 'repeatable': spot['repeatable'], 'default': 'd'
        })
        expr = phrase_of(case, spot)
        style = form
        if spot['repeatable']:
            # has no normalizers
            style = 'rule'
        elif form == 'predicate' and expr[0] != 'p':
            style = 'attribute'
        inner, outer = chains(style, spot['chain'])
        if expr[0] == 'p' and style == 'attribute':
            # on the rule of one word
            expr = ['p', expr[1], 0]
        if inner:
            expr = ['int', expr, ['norm', inner]]
        items.append(['int', expr, ['attr', 'F', name, outer]])
    return {
        'lets': [], 'defs': [],
        'root': ['int', ['seq', items, None], ['fact', 'F']],
        'facts': {'F': {'attrs': attrs}},
        'relations': {'r': case['relation'] or ['gender']},
    }


def check(case, ctx):
    from yargy import Parser
    if case['lexicon'] is None:
        lexicon = W.real_lexicon
        tokenizer = spec.real_tokenizer()
    else:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
    ctx.label('real words' if case['lexicon'] is None else 'stub words')
    parsers = []
    for form in FORMS:
        grammar = grammar_of(case, form)
        parsers.append(
            Parser(spec.Builder(grammar).root, tokenizer=tokenizer))
    reference = model.Model(grammar, lexicon)
    relations = grammar['relations']
    single = None
    if len(case['spots']) == 1:
        # the value itself
        single = Parser(spec.Builder(dict(grammar, root=[
            'int', phrase_of(case, case['spots'][0]),
            ['norm', case['spots'][0]['chain']]
        ])).root, tokenizer=tokenizer)

    for item in case['texts']:
        text = make_text(item)
        tokens = model.tokenize(text, lexicon=lexicon)
        ends = reference.recognize(tokens)
        trees = []
        if (0, len(tokens)) in reference.ranges(tokens, ends):
            derive = reference.derivations(tokens, ends)
            trees = derive(0, len(tokens))
        forms = trees and interp.solve(trees[0], tokens, relations)
        for form, parser in zip(FORMS, parsers):
            match = parser.match(text)
            expect(bool(match) == bool(forms),
                   'match(%r) %s: got %s', text, form, match)
            if not match:
                continue
            related = {
                position for _, positions
                in interp.groups(trees[0], relations)
                for position in positions
            }
            start = 0
            for index, spot in enumerate(case['spots']):
                positions = range(start, start + len(spot['words']))
                start += len(spot['words'])
                want = values(
                    tokens, positions, forms, related, spot['chain'], case)
                got = getattr(match.fact, 'a%d' % index)
                if spot['repeatable']:
                    want = [[_] for _ in want]
                expect(
                    any(same(got, _) for _ in want),
                    '%s of %r (%s form): got %r, expected %r',
                    spot['chain'], text, form, got, want
                )
                ctx.label(spot['chain'][0][0])
                found = join(tokens, positions, lambda _: tokens[_].value)
                if got not in (found, [found]):
                    ctx.nontrivial()
        if single and forms:
            got = single.match(text).fact
            want = values(
                tokens, range(len(tokens)), forms, related,
                case['spots'][0]['chain'], case)
            expect(
                any(same(got, _) for _ in want),
                '%s of %r as a fact: got %r, expected %r',
                case['spots'][0]['chain'], text, got, want
            )
            ctx.label('value itself')
        if forms:
            ctx.label('match')
            if related:
                ctx.label('related')
            if any(len(forms[_] or []) < len(tokens[_].forms or [])
                   for _ in forms):
                ctx.label('narrowed')


def make_text(item):
    text = ''
    for index, (word, gap) in enumerate(item):
        if not gap and index + 1 < len(item):
            pair = word + item[index + 1][0]
            if len(model.tokenize(pair)) == 1:
                gap = ' '
        text += word + gap
    return text


def same(a, b):
    return type(a) is type(b) and a == b


def join(tokens, positions, word):
    parts = []
    previous = None
    for position in positions:
        token = tokens[position]
        if previous and token.start > previous.stop:
            parts.append(' ')
        previous = token
        parts.append(word(position))
    return ''.join(parts)


def values(tokens, positions, forms, related, chain, case):
    """Allowed values of the chain."""
    first, rest = chain[0], chain[1:]
    if first[0] == 'const':
        items = [first[1]]
    elif first[0] == 'custom':
        items = [join(tokens, positions, lambda _: tokens[_].value)]
        rest = chain
    else:
        options = []
        for position in positions:
            kept = forms[position]
            token = tokens[position]
            if kept is None:
                options.append([token.value.lower()])
                continue
            if position not in related:
                kept = kept[:1]
            options.append([
                norm if first[0] == 'normalized' else inflect(
                    token, norm, grams,
                    ['nomn', 'sing'] if first[1] is None else first[1], case)
                for norm, grams in kept
            ])
        items = []
        for words in itertools.islice(itertools.product(*options), 100):
            words = dict(zip(positions, words))
            items.append(join(tokens, positions, words.get))
    for function in rest:
        items = [interp.get_function(function[1])(_) for _ in items]
    return items


def inflect(token, norm, form, grams, case):
    if case['lexicon'] is not None:
        raw = W.FakeParse(token.value, norm, form)
    else:
        raw = [
            _ for _ in W.pymorphy().parse(token.value)
            if _.normal_form == norm and frozenset(_.tag.grammemes) == form
        ][0]
    record = raw.inflect(set(grams))
    return record.word if record else norm
