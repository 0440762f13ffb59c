from hypothesis import strategies as st

from lib import gens, interp, model, spec
from lib.harness import Skip, equal, expect, raises

RULE = (
    'Grammars over up to four fact classes (defaults, repeatable attributes, '
    'subclasses) where constructors, attributes and normalizers are put '
    'either anywhere or by a typed generator (nested facts, facts merged '
    'into facts, attributes over attributes, repeated and optional parts, '
    'recursive constructors, attributes of other facts). Non-trivial: a fact '
    'with two or more collected values, or a mixture that has to be '
    'rejected.'
)
TECHNIQUE = (
    'property-based testing: fact of every match against an independent '
    'evaluator of the first derivation'
)
NOTE = (
    'The reference evaluates the first derivation (by written order) to a '
    'fact; all attributes of the fact of match() and of every findall match '
    'are compared, recursively; TypeError exactly where the reference meets '
    'a mixture.'
)
QUICK = 1800
THOROUGH = 25000
LIMIT = 1000
ALPHABET = ['a', 'b', 'C', '7']
FACTS = {
    'A': {'attrs': [
        {'name': 'x', 'repeatable': False, 'default': None},
        {'name': 'y', 'repeatable': False, 'default': 'dy'},
        {'name': 'z', 'repeatable': True, 'default': None},
    ]},
    'B': {'attrs': [
        {'name': 'x', 'repeatable': False, 'default': None, 'plain': False},
        {'name': 'w', 'repeatable': True, 'default': None},
        {'name': 'v', 'repeatable': False, 'default': 0},
        {'name': 'u', 'repeatable': True, 'default': None},
    ]},
    # json of it may be empty
    'E': {'attrs': [
        {'name': 'x', 'repeatable': False, 'default': None, 'plain': True},
        {'name': 'e', 'repeatable': False, 'default': None},
    ]},
    'S': {'attrs': [], 'base': 'A'},
    'T': {'attrs': [], 'base': 'S'},
}
NAMES = {'E': ['x', 'e'], 'A': ['x', 'y', 'z'], 'B': ['x', 'w', 'v', 'u']}
NAMES['S'] = NAMES['T'] = NAMES['A']
REPEATABLE = {'z', 'w', 'u'}
FUNCTIONS = ['upper', 'wrap', 'size', 'double', 'none', 'zero']

NORMS = st.one_of(
    st.builds(lambda v: [['const', v]],
              st.sampled_from([1, None, 'k', 0, [1, 2]])),
    st.builds(lambda f: [['custom', f]], st.sampled_from(FUNCTIONS)),
    st.builds(lambda f, g: [['custom', f], ['custom', g]],
              st.sampled_from(FUNCTIONS), st.sampled_from(FUNCTIONS)),
    st.sampled_from([
        [['normalized']], [['inflected', None]],
        [['normalized'], ['custom', 'wrap']],
    ]),
)
FACT = st.sampled_from(['A', 'A', 'A', 'B', 'B', 'S', 'T', 'E', 'E'])


@st.composite
def attributes(draw, fact=None, norms=True):
    fact = fact or draw(FACT)
    name = draw(st.sampled_from(NAMES[fact]))
    chain = None
    if norms and name not in REPEATABLE and draw(st.integers(0, 3)) == 0:
        chain = draw(NORMS)
    return ['attr', fact, name, chain]


def wrap(draw, expr, cfg):
    kind = draw(st.integers(0, 9))
    if kind < 5:
        return ['int', expr, draw(attributes())]
    elif kind < 8:
        return ['int', expr, ['fact', draw(FACT)]]
    return ['int', expr, ['norm', draw(NORMS)]]


FREE = gens.Config(
    alphabet=ALPHABET, nested_ext=False, wrap=wrap, depth=4, defs=1)


@st.composite
def typed(draw):
    """Constructors with what belongs below them."""
    has_def = draw(st.integers(0, 2)) == 0
    home = draw(FACT)
    counter = [0]

    def word():
        return ['t', draw(st.sampled_from(ALPHABET)), draw(
            st.integers(0, 2))]

    def words(fact=None):
        if draw(st.booleans()):
            return word()
        return ['seq', [word() for _ in range(draw(st.integers(1, 3)))], None]

    def part(fact, depth):
        counter[0] += 1
        kind = draw(st.integers(0, 13))
        if depth == 0 or counter[0] > 14 or kind < 4:
            item = ['int', words(), draw(attributes(fact))]
        elif kind == 4:
            item = word()
        elif kind == 5:
            # attribute over attribute
            item = ['int', ['int', words(), draw(attributes())],
                    draw(attributes(fact, norms=False))]
        elif kind == 6:
            # nested fact
            item = ['int', constructor(draw(FACT), depth - 1),
                    draw(attributes(fact, norms=draw(st.booleans())))]
        elif kind == 7:
            # merged, or ignored
            item = constructor(
                draw(st.sampled_from([fact, fact, 'B', 'S'])), depth - 1)
        elif kind == 8:
            # of another fact
            item = ['int', words(), draw(attributes())]
        elif kind == 9:
            if draw(st.booleans()):
                item = ['int', ['int', words(), ['norm', draw(NORMS)]],
                        draw(attributes(fact, norms=False))]
            else:
                # functions over values
                name = draw(st.sampled_from([
                    _ for _ in NAMES[fact] if _ not in REPEATABLE]))
                chain = [['custom', draw(st.sampled_from(FUNCTIONS))]
                         for _ in range(draw(st.integers(1, 2)))]
                item = ['int', ['int', words(), ['norm', draw(NORMS)]],
                        ['attr', fact, name, chain]]
        elif kind == 10 and has_def:
            item = ['ref', 0]
        elif kind == 13:
            # one value in place of all that is inside
            name = draw(st.sampled_from([
                _ for _ in NAMES[fact] if _ not in REPEATABLE]))
            inside = [
                word() if draw(st.booleans()) else part(fact, depth - 1)
                for _ in range(draw(st.integers(1, 3)))]
            item = ['int', ['seq', inside, None], ['attr', fact, name, [
                ['const', draw(st.sampled_from([1, None, 'k', 0]))]]]]
        elif kind == 11:
            # list of equal things: facts without values, facts of one word
            name = draw(st.sampled_from(
                [_ for _ in NAMES[fact] if _ in REPEATABLE] or NAMES[fact]))
            inner = draw(FACT)
            element = word()
            if draw(st.booleans()):
                element = ['int', element, draw(attributes(inner))]
            element = ['int', ['int', element, ['fact', inner]],
                       ['attr', fact, name, None]]
            if draw(st.booleans()):
                item = ['rep', element, 1, draw(st.integers(2, 3)), False]
            else:
                item = ['seq', [element, element], None]
        else:
            item = ['or', [part(fact, depth - 1), part(fact, depth - 1)]]
        extra = draw(st.integers(0, 7))
        if extra == 0 and item[0] not in ('opt', 'rep'):
            return ['opt', item, draw(st.booleans())]
        elif extra == 1 and item[0] not in ('opt', 'rep'):
            return ['rep', item, None, None, draw(st.booleans())]
        elif extra == 2:
            return ['named', item, 'N']
        return item

    def constructor(fact, depth):
        items = [
            part(fact, depth) for _ in range(draw(st.integers(1, 3)))
        ]
        return ['int', ['seq', items, None], ['fact', fact]]

    defs = []
    if has_def:
        has_def = False
        body = [part(home, 1)]
        body.insert(
            draw(st.integers(0, 1)), ['opt', ['ref', 0], draw(st.booleans())])
        body.append(['t', 'C', 0])
        defs = [['int', ['seq', body, None], draw(st.sampled_from([
            ['fact', home], ['fact', home], ['norm', [['custom', 'wrap']]]
        ]))]]
        if draw(st.booleans()):
            # not a constructor itself
            defs[0] = ['seq', body, None]
        has_def = True
    return {'lets': [], 'defs': defs, 'root': constructor(home, 2)}


def short_cases():
    free = st.builds(
        lambda grammar, root: dict(
            grammar, root=['int', grammar['root'], root]),
        gens.grammars(FREE),
        st.one_of(
            st.builds(lambda f: ['fact', f], FACT),
            st.builds(lambda f: ['fact', f], FACT),
            attributes(), st.builds(lambda n: ['norm', n], NORMS)
        )
    )
    return st.fixed_dictionaries({
        'grammar': st.one_of(free, typed(), typed()),
        'texts': st.lists(gens.texts(ALPHABET, 6), max_size=2),
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=6),
    })


def strategy(tier):
    short = short_cases()
    long = st.fixed_dictionaries({
        'pattern': st.lists(
            st.sampled_from(['a', 'b', 'C', '7', 'aC']),
            min_size=1, max_size=6),
        'size': st.one_of(
            st.integers(7, 30), st.integers(30, 80)),
        'kinds': st.lists(
            st.sampled_from(['z', 'x', 'y', 'fact', 'words', 'merged']),
            min_size=4, max_size=4),
        'shape': st.sampled_from(['rep', 'rep', 'opt', 'halves', 'def']),
        'reverse': st.booleans(),
    })
    return st.integers(0, 30).flatmap(lambda _: short if _ else long)


def check_long(case, ctx):
    """Many values below one constructor."""
    from yargy import Parser
    pattern = [char for item in case['pattern'] for char in item]
    items = [pattern[_ % len(pattern)] for _ in range(case['size'])]
    alternatives = []
    for word, kind in zip(ALPHABET, case['kinds']):
        item = ['t', word, 0]
        if kind == 'fact':
            item = ['int', ['int', ['int', item, ['attr', 'E', 'x', None]],
                            ['fact', 'E']], ['attr', 'A', 'z', None]]
        elif kind == 'merged':
            item = ['int', ['int', item, ['attr', 'A', 'z', None]],
                    ['fact', 'A']]
        elif kind != 'words':
            item = ['int', item, ['attr', 'A', kind, None]]
        alternatives.append(item)
    one = ['or', alternatives]
    many = ['rep', one, None, None, case['reverse']]
    defs = []
    skipped = None
    if case['shape'] == 'opt':
        skipped = 0
        items[0] = '7'
        many = ['seq', [['opt', ['t', 'q', 0], False], ['opt', [
            'seq', [['t', '7', 0], many], None], False]], None]
    elif case['shape'] == 'halves':
        skipped = len(items) // 2
        items[skipped] = '-'
        many = ['seq', [many, ['t', '-', 0], many], None]
    elif case['shape'] == 'def':
        defs = [['or', [one, ['seq', [one, ['ref', 0]], None]]]]
        many = ['ref', 0]
    grammar = {'lets': [], 'defs': defs, 'facts': FACTS,
               'root': ['int', many, ['fact', 'A']]}
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer())
    values = {'x': None, 'y': 'dy', 'z': []}
    kinds = dict(zip(ALPHABET, case['kinds']))
    for index, word in enumerate(items):
        if index == skipped:
            continue
        kind = kinds[word]
        if kind == 'fact':
            values['z'].append(('fact', 'E', [('x', word), ('e', None)]))
        elif kind in ('z', 'merged'):
            values['z'].append(word)
        elif kind != 'words':
            values[kind] = word
    want = ('fact', 'A', [(key, values[key]) for key in 'xyz'])
    text = ' '.join(items)
    match = parser.match(text)
    expect(match, 'match(%r)', text)
    equal(spec.plain_value(match.fact), want, 'fact of %r' % text)
    if len(items) < 25:
        found = list(parser.findall(text))
        equal([tuple(_.span) for _ in found], [(0, len(text))], 'findall')
        equal(spec.plain_value(found[0].fact), want, 'fact of findall')
    ctx.label('long')
    ctx.nontrivial(len(items) > 20)


def words(pred, rng):
    return pred[1]


def check(case, ctx):
    if 'pattern' in case:
        return check_long(case, ctx)
    from yargy import Parser
    grammar = dict(case['grammar'], facts=FACTS)
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, words, 8)
        if item is not None and len(item) <= 9:
            texts.append(item)
    builder = spec.Builder(grammar)
    parser = Parser(builder.root, tokenizer=spec.plain_tokenizer())
    for item in texts:
        text = '  '.join(item)
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
            derive = reference.derivations(tokens, ends, 2000)
            ranges = reference.ranges(tokens, ends)
            trees = {_: derive(*_)[0] for _ in ranges}
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        match = parser.match(text)
        whole = (0, len(tokens))
        equal(bool(match), whole in ranges, 'match(%r)' % text)
        if match:
            compare(match, trees[whole], tokens, text, ctx)
        if len(tokens) > 6:
            continue
        matches = list(parser.findall(text))
        want = model.best_selection(ranges)
        equal(len(matches), len(want), 'number of matches in %r' % text)
        for match, key in zip(matches, want):
            compare(match, trees[key], tokens, text, ctx)
    ctx.label(*gens.grammar_features(grammar))


class Word(object):
    """Without morphology."""

    def __init__(self, token):
        self.token = token

    def norm(self):
        return self.token.value.lower()

    def inflect(self, grams):
        return self.norm()


def evaluate(tree, tokens):
    evaluator = interp.Evaluator(FACTS, tokens, lambda _: Word(tokens[_]))
    return evaluator, evaluator.run(tree)


def compare(match, tree, tokens, text, ctx):
    got = raises(lambda: match.fact)
    what = 'fact of %r in %r' % (spec.values(match), text)
    try:
        evaluator, value = evaluate(tree, tokens)
    except interp.Mixture:
        equal(type(got.error), TypeError, 'error of ' + what)
        ctx.label('mixture')
        ctx.nontrivial()
        return
    if got.error is not None:
        raise got.error
    equal(spec.plain_value(got.value), evaluator.plain(value), what)
    ctx.label('fact')
    count = size(value)
    if count > 1:
        ctx.nontrivial()
        ctx.label('several values')


def size(value):
    if isinstance(value, interp.FactValue):
        count = 0
        for key in value.modified:
            item = value.values[key]
            for other in item if isinstance(item, list) else [item]:
                count += 1 + size(other)
        return count
    return 0
