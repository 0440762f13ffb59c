from hypothesis import strategies as st

from lib import gens, model, spec
from lib.harness import Skip, equal, expect, fail

RULE = (
    'Random grammar over a 3-letter alphabet (shared objects, forwards, '
    'optional/repeatable with bounds, empty) and texts: random words, words '
    'sampled from the grammar and all words of up to 3 letters. Non-trivial: '
    'at least one text of 2 or more tokens is accepted, at least one '
    'non-empty text is rejected, and the grammar has a recursive forward, '
    'a shared object or a nullable part.'
)
TECHNIQUE = (
    'property-based testing: generated grammars and texts against an '
    'independent fixpoint recogniser'
)
NOTE = (
    'Acceptance, matched tokens and span of match() are compared with a '
    'least-fixpoint recogniser over the grammar specification; bounded to '
    'grammars of about 20 nodes, texts of up to 10 tokens and texts whose '
    'number of derivations stays below a limit. Trusts the reference '
    'recogniser and the builder of grammars.'
)
QUICK = 400
THOROUGH = 15000

ALPHABET = ['a', 'b', 'c']
ALL_SHORT = (
    [[]]
    + [[x] for x in ALPHABET]
    + [[x, y] for x in ALPHABET for y in ALPHABET]
    + [[x, y, z] for x in ALPHABET for y in ALPHABET for z in ALPHABET]
)
SMALL = [
    [['a', 'b'][size >> shift & 1] for shift in range(length)]
    for length in range(4) for size in range(1 << length)
]
CFG = gens.Config(alphabet=ALPHABET)
LIMIT = 2500


def strategy(tier):
    return st.fixed_dictionaries({
        'grammar': gens.grammars(CFG),
        'texts': st.lists(gens.texts(ALPHABET), min_size=1, max_size=4),
        'seeds': st.lists(st.integers(0, 1000), min_size=2, max_size=5),
        'skin': gens.skins(len(ALPHABET)),
    })


def sample_word(pred, rng):
    return pred[1]


def repeated(count):
    from yargy import Parser, rule
    parser = Parser(rule('a').repeatable(), tokenizer=spec.plain_tokenizer())
    match = parser.match('a ' * count)
    expect(match is not None, '%d repetitions are not accepted', count)
    equal(len(match.tokens), count, 'number of tokens')


def longs():
    """Parser, long texts inside and outside of the language."""
    from yargy import Parser, rule, or_, forward
    from yargy.predicates import eq, type

    def make(item):
        return Parser(item, tokenizer=spec.plain_tokenizer())

    word = or_(rule('a'), rule('b'), rule(type('INT')))
    size = 150
    row = (['a', 'b', '7', 'a'] * size)[:size]
    odd = [row[:at] + ['x'] + row[at + 1:] for at in (0, 1, 77, size - 1)]
    yield 'repeatable', make(word.repeatable()), [row], odd
    yield 'reverse', make(word.repeatable(reverse=True)), [row], odd
    yield 'min', make(word.repeatable(min=5)), [row, row[:5]], odd + [row[:4]]
    yield 'optional', make(rule(
        word.repeatable().optional(), 'c'
    )), [row + ['c'], ['c']], odd + [row]
    item = forward()
    item.define(or_(word, rule(item, ',', word)))
    pairs = [_ for word in row[:90] for _ in (word, ',')]
    yield 'left', make(item), [pairs[:-1]], [
        pairs, pairs[1:], pairs[:7] + pairs[8:-1]]
    item = forward()
    item.define(or_(word, rule(word, ',', item)))
    yield 'right', make(item), [pairs[:-1]], [
        pairs, pairs[1:], pairs[:7] + pairs[8:-1]]
    item = forward()
    item.define(or_(rule('a'), rule('(', item, ')')))
    deep = ['('] * 60 + ['a'] + [')'] * 60
    yield 'nested', make(item), [deep], [
        deep[:-1], deep[1:], deep + [')'], deep[:60] + deep[61:]]
    item = rule(*[eq(_) for _ in row])
    yield 'sequence', make(item), [row], odd + [row[:-1], row + ['a']]
    item = word.repeatable(min=18, max=22)
    yield 'bounds', make(item), [row[:18], row[:20], row[:22]], [
        row[:17], row[:23], row[:1], row]
    item = or_(*[rule('a', str(_), '.') for _ in range(300)])
    yield 'alternatives', make(item.repeatable()), [
        [_ for index in range(0, 300, 10) for _ in ('a', str(index), '.')],
        ['a', '299', '.'],
    ], [['a', '300', '.'], ['a', '0', '.', 'a', '1']]


def check_long(name, ctx):
    for key, parser, inside, outside in longs():
        if key != name:
            continue
        for words in inside + outside:
            text = ' '.join(words)
            match = parser.match(text)
            equal(match is not None, words in inside, 'match(%r)' % text)
            if match is not None:
                equal([_.value for _ in match.tokens], words, 'tokens')
                equal(tuple(match.span), (0, len(text)), 'span of match')
    ctx.label('long ' + name)
    ctx.nontrivial()


LONG = ['repeatable', 'reverse', 'min', 'optional', 'left', 'right',
        'nested', 'sequence', 'bounds', 'alternatives']
KNOWN = {
    'long-repetition': {'repeated': 1000},
}


def small(tier):
    """All forwards with a small body over a, b, empty and itself."""
    leafs = [['t', 'a', 0], ['t', 'b', 0], ['empty'], ['ref', 0]]
    unary = list(leafs)
    bounds = [(None, None), (None, 1), (None, 2), (1, 2), (2, None), (2, 3)]
    for item in [leafs[0], leafs[3]]:
        for reverse in (False, True):
            unary.append(['opt', item, reverse])
            for min, max in bounds:
                unary.append(['rep', item, min, max, reverse])
    for item in unary:
        yield ['seq', [item], None] if item[0] == 'ref' else item
    binary = []
    for kind in ('seq', 'or'):
        for a in unary:
            for b in unary:
                if ['ref', 0] in leaves(a) + leaves(b):
                    binary.append(
                        [kind, [a, b]] + ([None] if kind == 'seq' else []))
    step = 1 if tier == 'thorough' else 3
    for item in binary[::step]:
        yield item
    step = 1 if tier == 'thorough' else 11
    for item in binary[::step]:
        yield ['or', [['t', 'b', 0], item]]
        yield ['opt', item, False]
        yield ['rep', item, None, None, True]
        yield ['rep', item, None, 1, False]
        yield ['seq', [item, ['t', 'a', 0]], None]


def leaves(expr):
    return [expr[1]] if expr[0] in ('opt', 'rep') else [expr]


def cases(tier):
    yield {'repeated': 1}
    yield {'repeated': 150}
    for name in LONG:
        yield {'long': name}
    for body in small(tier):
        yield {
            'grammar': {'lets': [], 'defs': [body], 'root': ['ref', 0]},
            'texts': [], 'seeds': [], 'small': True
        }


def check(case, ctx):
    from yargy import Parser
    if 'repeated' in case:
        return repeated(case['repeated'])
    if 'long' in case:
        return check_long(case['long'], ctx)
    skin = case.get('skin')
    grammar = gens.reskin(case['grammar'], ALPHABET, skin)
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar)
    words = list(case['texts']) + ALL_SHORT
    if case.get('small'):
        words = SMALL
    words = gens.reskin(words, ALPHABET, skin)
    for seed in case['seeds']:
        item = reference.sample(seed, sample_word)
        if item is not None and len(item) <= 10:
            words.append(item)
    rule = spec.Builder(grammar).root
    parser = Parser(rule, tokenizer=spec.plain_tokenizer())

    accepted = rejected = big = 0
    for item in words:
        text = ' '.join(item)
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            big += 1
            continue
        want = bool(tokens) and len(tokens) in ends[reference.root.id, 0]
        match = parser.match(text)
        equal(match is not None, want, 'match(%r) accepts' % text)
        if match is not None:
            equal([_.value for _ in match.tokens], item, 'tokens of match')
            equal(tuple(match.span), (0, len(text)), 'span of match')
            accepted += len(item) > 1
        elif item:
            rejected += 1
    ctx.label(*gens.grammar_features(grammar))
    if big:
        ctx.label('some texts too ambiguous')
    features = reference.nullable() & reference.reachable()
    if len(features) > 1 or grammar['defs'] or grammar['lets']:
        ctx.nontrivial(accepted and rejected)
    if reference.cyclic():
        ctx.label('cyclic')
    if accepted:
        ctx.label('accepts')
