import copy

from hypothesis import strategies as st

from lib.harness import equal, expect, expect_raises

RULE = (
    'History over generated fact classes (plain names, attributes with '
    'defaults, repeatable attributes, subclasses with methods): make '
    'instances with any subset of keywords, set attributes, append to lists, '
    'use unknown names, parse texts that yield facts; after every step all '
    'instances are compared with dictionaries, pairwise for equality. '
    'Non-trivial: three or more instances, a list changed.'
)
TECHNIQUE = (
    'model-based property testing: fact instances against plain ordered '
    'mappings over random histories'
)
NOTE = (
    'Model is an ordered mapping per instance. Includes instances made by '
    'the parser for classes and subclasses, compared with instances made by '
    'hand. Bounded to 3 classes with 5 attributes and 14 operations.'
)
QUICK = 1500
THOROUGH = 20000

NAMES = ['a', 'b', 'c', 'name', 'value', 'x1', 'first_name', 'type', 'имя']
DEFAULTS = [None, 0, 1, '', 'd', False, 2.5, [1, 'tuple'], True]
VALUES = st.one_of(
    st.none(), st.integers(-2, 3), st.sampled_from(['', 'v', 'd', 'й']),
    st.booleans(), st.lists(st.integers(0, 2), max_size=2)
)
KINDS = ['name', 'attribute', 'default', 'repeatable']
SHORT = ['a', 'b', 'c']


@st.composite
def classes(draw):
    items = []
    for index in range(draw(st.integers(1, 3))):
        base = None
        if index and draw(st.booleans()):
            base = draw(st.integers(0, index - 1))
        names = draw(st.lists(
            st.sampled_from(draw(st.sampled_from([SHORT, NAMES]))),
            max_size=5, unique=True))
        items.append({
            'name': draw(st.sampled_from(['F', 'G', 'Имя'])),
            'base': base,
            'attrs': [
                [name, draw(st.sampled_from(KINDS)),
                 draw(st.sampled_from(DEFAULTS))]
                for name in names
            ],
        })
    return items


OPERATION = st.one_of(
    st.tuples(st.just('new'), st.integers(0, 2),
              st.dictionaries(st.sampled_from(NAMES + SHORT * 3), VALUES,
                              max_size=4)),
    # other names of the class are not attributes
    st.builds(lambda n, d, k: ('new', n, dict(d, **{k: 1})),
              st.integers(0, 2), st.dictionaries(
                  st.sampled_from(SHORT), VALUES, max_size=1),
              st.sampled_from(['as_json', 'spans', '_raw', 'size', 'shout',
                               '__attributes__', '__class__', 'normalized'])),
    st.tuples(st.just('new'), st.integers(0, 2), st.just({})),
    st.tuples(st.just('copy'), st.integers(0, 9), st.integers(0, 2)),
    st.tuples(st.just('set'), st.integers(0, 9), st.integers(0, 4), VALUES),
    st.tuples(st.just('append'), st.integers(0, 9), st.integers(0, 4),
              st.integers(0, 2)),
    st.tuples(st.just('parse'), st.integers(0, 2), st.integers(0, 31),
              st.integers(1, 3)),
)


def strategy(tier):
    return st.fixed_dictionaries({
        'classes': classes(),
        'operations': st.lists(OPERATION, min_size=2, max_size=14),
    })


def make_classes(items):
    """Classes and their schemes: [(name, repeatable, default)]."""
    from yargy.interpretation import fact, attribute
    result = []
    schemes = []
    for item in items:
        if item['base'] is not None:
            cls = type(
                str(item['name']), (result[item['base']],),
                {'size': property(lambda self: len(list(self))),
                 'shout': lambda self: repr(self).upper()}
            )
            scheme = schemes[item['base']]
        else:
            attrs = []
            scheme = []
            for name, kind, default in item['attrs']:
                default = fixed(default)
                if kind == 'name':
                    attrs.append(name)
                    scheme.append((name, False, None))
                elif kind == 'attribute':
                    attrs.append(attribute(name))
                    scheme.append((name, False, None))
                elif kind == 'default':
                    attrs.append(attribute(name, default))
                    scheme.append((name, False, default))
                else:
                    attrs.append(attribute(name).repeatable())
                    scheme.append((name, True, None))
            cls = fact(item['name'], attrs)
        result.append(cls)
        schemes.append(scheme)
    return result, schemes


def fixed(value):
    return tuple(value) if isinstance(value, list) else value


class Model(object):
    """One instance: class number and ordered values."""

    def __init__(self, number, name, scheme, values=()):
        self.number = number
        self.name = name
        self.values = {
            key: [] if repeatable else default
            for key, repeatable, default in scheme
        }
        self.values.update(values)

    def same(self, other):
        return (
            self.number == other.number and self.values == other.values
        )

    def show(self):
        return '%s(%s)' % (self.name, ', '.join(
            '%s=%r' % _ for _ in self.values.items()))


def check(case, ctx):
    cls, schemes = make_classes(case['classes'])
    names = [_['name'] for _ in case['classes']]
    live = []
    changed = parsed = 0
    for operation in case['operations']:
        kind = operation[0]
        if kind == 'new':
            number = operation[1] % len(cls)
            values = copy.deepcopy(operation[2])
            unknown = [
                _ for _ in values
                if _ not in [name for name, _, _ in schemes[number]]
            ]
            if unknown:
                expect_raises(
                    KeyError, 'unknown attribute %s' % unknown,
                    cls[number], **values
                )
                ctx.label('unknown name')
                values = {
                    key: value for key, value in values.items()
                    if key not in unknown
                }
            live.append((
                cls[number](**values),
                Model(number, names[number], schemes[number],
                      copy.deepcopy(values))
            ))
        elif kind == 'copy' and live:
            # equal values, maybe of another class
            _, other = live[operation[1] % len(live)]
            number = operation[2] % len(cls)
            allowed = [name for name, _, _ in schemes[number]]
            values = {
                key: value for key, value in other.values.items()
                if key in allowed
            }
            live.append((
                cls[number](**copy.deepcopy(values)),
                Model(number, names[number], schemes[number],
                      copy.deepcopy(values))
            ))
        elif kind in ('set', 'append') and live:
            fact, item = live[operation[1] % len(live)]
            keys = [
                key for key, value in item.values.items()
                if kind == 'set' or isinstance(value, list)
            ]
            if not keys:
                continue
            key = keys[operation[2] % len(keys)]
            if kind == 'set':
                setattr(fact, key, copy.deepcopy(operation[3]))
                item.values[key] = copy.deepcopy(operation[3])
            else:
                getattr(fact, key).append(operation[3])
                item.values[key].append(operation[3])
                changed += 1
        elif kind == 'parse':
            number = operation[1] % len(cls)
            found = parse(cls, schemes, names, number, *operation[2:])
            if found:
                live.append(found)
                parsed += 1
        compare(live[-1:], live)
    compare(live, live)
    # classes as they were
    for number, scheme in enumerate(schemes):
        live.append((
            cls[number](), Model(number, names[number], scheme)))
    compare(live, live)
    ctx.nontrivial(len(live) > 2 and changed)
    if changed:
        ctx.label('list changed')
    if parsed:
        ctx.label('made by parser')
    if any(_['base'] is not None for _ in case['classes']):
        ctx.label('subclass')
    if any(a.same(b) for i, (_, a) in enumerate(live)
           for _, b in live[i + 1:]):
        ctx.label('equal instances')


def parse(cls, schemes, names, number, mask, count):
    """Fact of a match: attributes of the base in a rule of the class."""
    from yargy import Parser, rule
    from yargy.tokenizer import Tokenizer
    scheme = schemes[number]
    items = []
    words = []
    values = {}
    for index, (key, repeatable, _) in enumerate(scheme):
        if not mask >> index & 1:
            continue
        times = count if repeatable else 1
        for _ in range(times):
            word = 'abcdefgh'[len(words) % 8]
            words.append(word)
            items.append(
                rule(word).interpretation(getattr(cls[number], key)))
            if repeatable:
                values.setdefault(key, []).append(word)
            else:
                values[key] = word
    if not items:
        items.append('z')
        words.append('z')
    parser = Parser(
        rule(*items).interpretation(cls[number]), tokenizer=Tokenizer())
    text = ' '.join(words)
    match = parser.match(text)
    expect(match is not None, '%r does not match', text)
    fact = match.fact
    # by hand
    other = cls[number](**copy.deepcopy(values))
    expect(fact == other and not fact != other and other == fact,
           'fact of a match %r is not equal to %r', fact, other)
    return fact, Model(number, names[number], scheme, values)


def compare(items, live):
    for fact, item in items:
        expect(type(fact).__name__ == item.name, 'class name')
        for key, value in item.values.items():
            got = getattr(fact, key)
            expect(
                got == value and type(got) is type(value),
                '%s of %s: got %r, expected %r', key, item.name, got, value
            )
        equal(list(fact), list(item.values.values()), 'iteration')
        equal(repr(fact), item.show(), 'repr')
        if hasattr(fact, 'shout'):
            equal(fact.size, len(item.values), 'property of a subclass')
        for other, second in live:
            want = item.same(second)
            equal(fact == other, want, '%r == %r' % (fact, other))
            equal(fact != other, not want, '%r != %r' % (fact, other))
        for alien in (None, 1, 'F', item.values, list(fact)):
            expect(not fact == alien and fact != alien,
                   '%r equals %r', fact, alien)
