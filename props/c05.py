import itertools

from hypothesis import strategies as st

from lib import gens, model, spec
from lib.harness import Skip, equal, expect_raises, fail

RULE = (
    'Towers of optional/repeatable with bounds over one letter (all towers '
    'of up to 2 operators in quick and 3 in thorough, all reverse flags for '
    'up to 2), random towers of up to 4 operators over random bodies, shared '
    'objects between them, and random bounds. Non-trivial: tower of two or '
    'more operators, or body that is not one letter.'
)
TECHNIQUE = (
    'exhaustive small towers and property-based testing against arithmetic '
    'of repetition counts and an independent recogniser'
)
NOTE = (
    'For towers over one letter the set of accepted counts up to 6 is '
    'compared with set arithmetic; for random bodies acceptance of all short '
    'and of sampled texts is compared with the reference recogniser. The '
    'known finding (min of 2 and more without max directly over an unbounded '
    'repetition) is left out of generation and run as a listed case.'
)
QUICK = 1430
THOROUGH = 8000
N = 6
LIMIT = 1500
BOUNDS = [
    (None, None), (1, None), (2, None), (3, None),
    (None, 1), (None, 2), (None, 3),
    (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3), (2, 4)
]
OPERATORS = [['opt']] + [['rep', min, max] for min, max in BOUNDS]
KNOWN = {
    'min-over-unbounded': {
        'tower': [['rep', None, None, False], ['rep', 2, None, False]],
        'body': ['t', 'a', 2], 'let': None, 'known': True
    },
    'large-max': {'wide': [None, 200, False], 'style': 2, 'over': None},
}
ALPHABET = ['a', 'b']
BODY = gens.Config(alphabet=ALPHABET, depth=2, defs=1, lets=1)


def strategy(tier):
    operator = st.builds(
        lambda item, reverse: item + [reverse],
        st.sampled_from(OPERATORS), st.booleans()
    )
    towers = st.fixed_dictionaries({
        'tower': st.lists(operator, min_size=2, max_size=4),
        'body': st.builds(lambda _: ['t', 'a', _], st.integers(0, 2)),
        # the part below is a shared object, used once more
        'let': st.one_of(st.none(), st.integers(1, 3)),
    })
    bodies = st.fixed_dictionaries({
        'tower': st.lists(operator, min_size=1, max_size=3),
        'grammar': gens.grammars(BODY),
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=5),
    })
    bounds = st.fixed_dictionaries({
        'min': st.one_of(st.none(), st.integers(-2, 4)),
        'max': st.one_of(st.none(), st.integers(-2, 4)),
        'reverse': st.booleans(),
        'base': st.sampled_from(['rule', 'predicate', 'pipeline', 'or']),
    })
    number = st.integers(1, 9)
    long = st.builds(
        lambda min, max, reverse, tower, body, base: {
            'tower': [[
                'rep', min, max if None in (min, max) else min + max - 1,
                reverse
            ]] + tower,
            'body': base, 'let': None, 'n': 12
        },
        st.one_of(st.none(), number), st.one_of(st.none(), number, number),
        st.booleans(), st.lists(operator, max_size=1), st.none(),
        st.builds(lambda _: ['t', 'a', _], st.integers(0, 2))
    )
    return st.one_of(
        towers, towers, bodies, bodies, bounds, long, wide(), towers, bodies)


@st.composite
def wide(draw):
    # bounds of tens of repetitions, deeper ones end with RecursionError
    min = draw(st.one_of(st.none(), st.integers(1, 70)))
    max = draw(st.one_of(st.none(), st.integers(8, 70)))
    if None not in (min, max) and max < min:
        min, max = max, min
    return {
        'wide': [min, max, draw(st.booleans())],
        'style': draw(st.integers(0, 2)),
        'over': draw(st.sampled_from([None, None, 'opt', 'seq'])),
    }


def cases(tier):
    simple = list(range(len(OPERATORS)))
    for size in (1, 2, 3):
        flags = [False, True] if size < 3 else [False]
        if size == 3 and tier == 'quick':
            break
        for items in itertools.product(simple, repeat=size):
            for reverse in itertools.product(flags, repeat=size):
                yield {
                    'tower': [
                        OPERATORS[item] + [flag]
                        for item, flag in zip(items, reverse)
                    ],
                    'body': ['t', 'a', 2], 'let': None
                }


def apply(tower, expr):
    for item in tower:
        if item[0] == 'opt':
            expr = ['opt', expr, item[1]]
        else:
            expr = ['rep', expr, item[1], item[2], item[3]]
    return expr


def counts(tower, N=N):
    """Accepted numbers of letters up to N."""
    values = {1}
    for item in tower:
        if item[0] == 'opt':
            values = values | {0}
            continue
        min = item[1] or 1
        sums = {0}
        result = set()
        # after N non-empty or any number of empty parts nothing new comes
        last = item[2] or (min + N)
        for count in range(1, last + 1):
            sums = {x + y for x in sums for y in values if x + y <= N}
            if count >= min:
                result |= sums
        values = result
    return values


def sample_word(pred, rng):
    return pred[1]


def check(case, ctx):
    if 'base' in case:
        check_bounds(case, ctx)
    elif 'wide' in case:
        check_wide(case, ctx)
    elif 'grammar' in case:
        check_body(case, ctx)
    else:
        check_tower(case, ctx)


def check_tower(case, ctx):
    from yargy import Parser
    expr = case['body']
    lets = []
    tower = case['tower']
    if case['let'] is not None:
        size = case['let']
        lets.append(apply(tower[:size], expr))
        expr = apply(tower[size:], ['let', 0])
        # shared part is used first alone, after a mark
        root = ['or', [['seq', [['t', 'x', 2], ['let', 0]], None], expr]]
    else:
        expr = apply(tower, expr)
        root = expr
    grammar = {'lets': lets, 'defs': [], 'root': root}
    known = case.get('known')
    if gens.has_k1(grammar) and not known:
        raise Skip
    size = case.get('n', N)
    want = counts(tower, size)
    reference = model.Model(grammar)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer()
    )
    for count in range(1, size + 1):
        text = ' '.join(['a'] * count)
        tokens = model.tokenize(text)
        try:
            ends = reference.recognize(tokens)
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            break
        got = parser.match(text) is not None
        equal(got, count in want, '%d repetitions are accepted' % count)
    if case['let'] is not None:
        text = 'x a'
        want = counts(tower[:case['let']])
        equal(
            parser.match(text) is not None, 1 in want,
            'match(%r) with the shared part' % text
        )
        equal(
            parser.match('x') is not None, 0 in want,
            'match("x") with the shared part'
        )
    ctx.label('tower of %d' % len(tower))
    ctx.nontrivial(len(tower) > 1)


def check_wide(case, ctx):
    from yargy import Parser
    min, max, reverse = case['wide']
    root = ['rep', ['t', 'a', case['style']], min, max, reverse]
    if case['over'] == 'opt':
        root = ['opt', root, reverse]
    elif case['over'] == 'seq':
        root = ['seq', [['opt', ['t', 'b', 0], False], root], None]
    parser = Parser(
        spec.Builder({'lets': [], 'defs': [], 'root': root}).root,
        tokenizer=spec.plain_tokenizer())
    first = min or 1
    last = max or first + 10
    for count in sorted({1, first - 1, first, first + 1, (first + last) // 2,
                         last - 1, last, last + 1}):
        if count < 1:
            continue
        want = first <= count and (not max or count <= max)
        got = parser.match('a ' * count) is not None
        equal(got, want, '%d repetitions of %r' % (count, case['wide']))
        if case['over'] == 'seq':
            got = parser.match('b ' + 'a ' * count) is not None
            equal(got, want, '%d repetitions after b' % count)
    ctx.label('wide bounds')
    ctx.nontrivial()


def check_body(case, ctx):
    from yargy import Parser
    grammar = dict(case['grammar'])
    grammar['root'] = apply(case['tower'], grammar['root'])
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer()
    )
    words = [
        list(item)
        for size in (0, 1, 2, 3) for item in itertools.product('ab', repeat=size)
    ]
    for seed in case['seeds']:
        item = reference.sample(seed, sample_word)
        if item is not None and len(item) <= 7:
            words.append(item)
    accepted = 0
    for item in words:
        text = ' '.join(item)
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        want = bool(tokens) and len(tokens) in ends[reference.root.id, 0]
        got = parser.match(text) is not None
        equal(got, want, 'match(%r) accepts' % text)
        accepted += want
    ctx.label('random body')
    ctx.nontrivial(accepted)


def check_bounds(case, ctx):
    from yargy import rule, or_, Parser
    from yargy.predicates import eq
    from yargy.pipelines import pipeline
    base = {
        'rule': lambda: rule('a'),
        'predicate': lambda: eq('a'),
        'pipeline': lambda: pipeline(['a']),
        'or': lambda: or_(rule('a'), rule('b')),
    }[case['base']]()
    options = {
        key: case[key] for key in ('min', 'max', 'reverse')
        if case[key] is not None
    }
    min, max = case['min'], case['max']
    valid = (
        (min is None or min >= 1) and (max is None or max >= 1)
        and (min is None or max is None or min <= max)
    )
    ctx.label('bounds')
    if not valid:
        expect_raises(
            ValueError, 'repeatable(%r)' % options,
            base.repeatable, **options
        )
        return
    parser = Parser(
        base.repeatable(**options), tokenizer=spec.plain_tokenizer()
    )
    for count in range(1, 7):
        want = (min or 1) <= count <= (max or count)
        got = parser.match('a ' * count) is not None
        if got != want:
            fail('%d repetitions: accepted %r', count, got)
