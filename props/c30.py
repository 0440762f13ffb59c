from hypothesis import strategies as st

from lib import spec, words as W
from lib.harness import equal, expect, fail
from props import c07

RULE = (
    'Pairs of records of 70 classes (tokens, spans, forms, grammemes, token '
    'rules, predicates, rules, pipelines, relations, attributes, normalizers, '
    'results, styles, records of '
    'the user with inheritance) with equal, nearly equal and other fields; '
    'histories of tagging, attaching and narrowing forms on tokens, the '
    'text of phrases made of them; matches of two parsers. Non-trivial: '
    'nested records of one class with different fields, or a history of two '
    'or more steps.'
)
TECHNIQUE = (
    'property-based testing: algebraic laws of values against the '
    'specifications the records were built from; histories on tokens'
)
NOTE = (
    'Equality is decided on specifications (class and fields in a table of '
    'the check), not on objects. Values of fields are numbers, text, lists '
    'and records, no numbers that equal booleans.'
)
QUICK = 4500
THOROUGH = 25000

TEXT = st.one_of(
    st.sampled_from(['a', 'b', 'ба', '', "'", '%s', '{0}', '\n']),
    st.text(max_size=3)
)
NUMBER = st.integers(2, 5)
FLAG = st.booleans()
GRAMS = st.lists(st.sampled_from(
    ['masc', 'femn', 'neut', 'ms-f', 'Ms-f', 'GNdr', 'sing', 'plur', 'Sgtm',
     'Pltm', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd',
     'NOUN']), max_size=4, unique=True)
SPAN = st.tuples(st.just('span'), NUMBER, NUMBER)
SCALAR = st.one_of(NUMBER, TEXT, st.none())
FORM = st.tuples(
    st.just('form'), TEXT, st.tuples(st.just('grams'), GRAMS, FLAG))
FORMS = st.tuples(
    st.sampled_from(['list', 'tuple']), st.lists(FORM, max_size=2))
TYPE = st.sampled_from(['RU', 'INT', 'X'])
TOKEN = st.one_of(
    st.tuples(st.just('token'), TEXT, SPAN, TYPE),
    st.tuples(st.just('morph'), TEXT, SPAN, TYPE, FORMS),
    st.tuples(st.just('tagtoken'), TEXT, SPAN, TYPE, TEXT),
    st.tuples(st.just('morphtag'), TEXT, SPAN, TYPE, TEXT, FORMS),
)
# names of the check
NAMES = [['len', 'str', 'bool'], ['F0', 'F1'], ['one', 'two'],
         ['pipeline', 'caseless_pipeline', 'morph_pipeline']]
NAME, FACT, ATTRIBUTE, PIPELINE = [st.sampled_from(_) for _ in NAMES]
LOWER = st.sampled_from(['b', 'ба', 'во', 'x'])
WORDS = st.lists(LOWER, max_size=2, unique=True).map(sorted)
NORMALIZER = st.one_of(
    st.tuples(st.just('normalized')),
    st.tuples(st.just('inflected'), GRAMS),
    st.tuples(st.just('const'), st.one_of(NUMBER, TEXT, st.none())),
    st.tuples(st.just('fn'), NAME),
    st.tuples(st.just('fnfn'), NAME, NAME),
    st.tuples(st.just('normalizedfn'), NAME),
    st.tuples(st.just('inflectedfn'), NAME, GRAMS),
)
BOUND = st.one_of(
    st.tuples(st.just('attribute'), FACT, ATTRIBUTE, NORMALIZER),
    st.tuples(st.just('attribute'), FACT, ATTRIBUTE),
    st.tuples(st.just('attribute'), FACT, st.just('many')),
)
RELATION = st.recursive(
    st.tuples(st.just('relation'), st.sampled_from(
        ['gender', 'number', 'case', 'gnc'])),
    lambda item: st.one_of(
        st.tuples(st.just('andr'), st.lists(item, min_size=1, max_size=2)),
        st.tuples(st.just('orrel'), st.lists(item, min_size=1, max_size=2)),
        st.tuples(st.just('notr'), item),
    ), max_leaves=3)
PREDICATE = st.recursive(
    st.one_of(
        st.tuples(st.just('eq'), TEXT),
        st.tuples(st.just('gte'), NUMBER),
        st.tuples(st.just('lte'), NUMBER),
        st.tuples(st.just('length_eq'), NUMBER),
        st.tuples(st.just('gram'), st.sampled_from(['NOUN', 'masc'])),
        st.tuples(st.just('type'), TYPE),
        st.tuples(st.just('true')),
        st.tuples(st.just('is_title')),
        st.tuples(st.sampled_from(['in_', 'in_caseless', 'dictionary']),
                  WORDS),
        st.tuples(st.sampled_from(['tag', 'caseless', 'normalizedp']), LOWER),
        st.tuples(st.just('custom'), NAME, st.one_of(
            st.none(), TYPE, st.tuples(
                st.sampled_from(['list', 'tuple']),
                st.lists(TYPE, min_size=1, max_size=2)))),
    ),
    lambda item: st.one_of(
        st.tuples(st.just('andp'), st.lists(item, min_size=1, max_size=2)),
        st.tuples(st.just('orp'), st.lists(item, min_size=1, max_size=2)),
        st.tuples(st.just('notp'), item),
    ), max_leaves=3
)
RULES = st.recursive(
    st.one_of(
        st.tuples(st.just('rule'), st.lists(
            PREDICATE, min_size=1, max_size=3)),
        st.tuples(st.just('empty')),
    ),
    lambda item: st.one_of(
        st.tuples(st.just('rule'), st.lists(
            st.one_of(item, PREDICATE), min_size=1, max_size=2)),
        st.tuples(st.just('orr'), st.lists(item, min_size=1, max_size=2)),
        st.tuples(st.just('opt'), item, FLAG),
        st.tuples(st.just('rep'), item, FLAG),
        st.tuples(st.just('min'), item, NUMBER, FLAG),
        st.tuples(st.just('named'), item, TEXT),
        st.tuples(st.just('max'), item, NUMBER, FLAG),
        st.tuples(st.just('minmax'), item, NUMBER, st.integers(6, 8), FLAG),
        st.tuples(st.just('match'), item, RELATION),
        st.tuples(st.just('meant'), item, st.one_of(
            BOUND, NORMALIZER, st.tuples(st.just('fact'), FACT))),
        st.tuples(st.just('mainrule'), item, item),
    ), max_leaves=4
)
USER = st.deferred(lambda: st.one_of(
    st.tuples(st.just('one'), VALUE),
    st.tuples(st.just('two'), VALUE, VALUE),
    st.tuples(st.just('two again'), VALUE, VALUE),
    st.tuples(st.just('two below'), VALUE, VALUE),
    st.tuples(st.just('back'), VALUE, VALUE),
    st.tuples(st.just('none')),
))
CHAIN = st.tuples(st.just('chain'), TYPE, st.lists(TOKEN, max_size=2))
RECORD = st.deferred(lambda: st.one_of(
    SPAN, FORM, TOKEN, TOKEN, PREDICATE, RULES, USER, USER,
    st.tuples(st.just('grams'), GRAMS, FLAG),
    st.tuples(st.just('gender'), GRAMS),
    st.tuples(st.just('number'), GRAMS),
    st.tuples(st.just('case'), GRAMS),
    st.tuples(st.just('tokenrule'), TYPE, TEXT),
    st.tuples(st.just('const'), SCALAR),
    st.tuples(st.just('normalized')),
    st.tuples(st.just('inflected'), GRAMS),
    RELATION, NORMALIZER, BOUND, BOUND,
    st.tuples(st.just('scheme'), TEXT, SCALAR),
    st.tuples(st.just('manyscheme'), TEXT),
    st.tuples(PIPELINE, st.lists(LOWER, min_size=1, max_size=2)),
    st.tuples(st.just('style'), TEXT, TEXT),
    st.tuples(st.just('attrresult'), CHAIN, BOUND),
    st.tuples(st.just('normresult'), SCALAR, CHAIN),
    CHAIN,
    st.tuples(st.just('chain'), TYPE, st.lists(TOKEN, max_size=2)),
    st.tuples(st.just('key'), TEXT, st.lists(TEXT, max_size=2)),
))
VALUE = st.deferred(lambda: st.one_of(
    SCALAR, SCALAR, st.tuples(st.sampled_from(['list', 'tuple']), st.lists(
        SCALAR, max_size=2)), RECORD))

STEP = st.one_of(
    st.tuples(st.just('tag'), st.integers(0, 9), TEXT),
    st.tuples(st.just('forms'), st.integers(0, 9),
              st.lists(FORM, min_size=1, max_size=3)),
    st.tuples(st.just('narrow'), st.integers(0, 9),
              st.lists(st.integers(0, 2), max_size=2)),
)
WORD = st.tuples(
    st.sampled_from(['ба', 'Во', 'x', '5', '-', 'ГУ']), st.integers(0, 2),
    st.one_of(st.none(), st.lists(FORM, min_size=1, max_size=2)))


@st.composite
def changed(draw, value):
    """The same specification with one part replaced, at any depth."""
    if isinstance(value, (list, tuple)) and len(value) > 1:
        index = draw(st.integers(1, len(value) - 1))
        item = value[index]
        if isinstance(item, (list, tuple)):
            new = draw(changed(item))
        elif isinstance(item, bool):
            new = not item
        elif isinstance(item, int):
            new = draw(NUMBER)
        elif isinstance(item, str) and item in ('RU', 'INT', 'X'):
            new = draw(TYPE)
        elif isinstance(item, str) and value[0] in ('relation', 'gram'):
            new = item
        elif isinstance(item, str) and item in GRAM_SET:
            new = item
        elif isinstance(item, str) and value[0] == 'attribute' and (
                item == 'many'):
            new = item
        elif isinstance(item, str) and any(item in _ for _ in NAMES):
            new = draw(st.sampled_from(
                [_ for _ in NAMES if item in _][0]))
        elif isinstance(item, str) and item in WORD_SET:
            new = draw(LOWER)
        elif isinstance(item, str):
            new = draw(TEXT)
        else:
            new = item
        return list(value[:index]) + [new] + list(value[index + 1:])
    if isinstance(value, (list, tuple)) and len(value) == 1 and isinstance(
            value[0], (list, tuple)):
        return [draw(changed(value[0]))]
    return list(value) if isinstance(value, tuple) else value


WORD_SET = {'b', 'ба', 'во', 'x'}
GRAM_SET = {
    'masc', 'femn', 'neut', 'ms-f', 'Ms-f', 'GNdr', 'sing', 'plur', 'Sgtm',
    'Pltm', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd',
    'NOUN'}


@st.composite
def strategy(draw, tier):
    kind = draw(st.integers(0, 7))
    if kind < 5:
        first = draw(RECORD)
        second = draw(st.one_of(changed(first), changed(first), RECORD))
        return {'records': [first, second]}
    elif kind == 5:
        return {
            'token': draw(st.tuples(
                st.just('token'), TEXT, SPAN, TYPE)),
            'steps': draw(st.lists(STEP, min_size=1, max_size=6)),
        }
    elif kind == 6:
        return {'phrase': draw(st.lists(WORD, min_size=1, max_size=5)),
                'grams': draw(GRAMS)}
    return {
        'texts': draw(st.lists(st.lists(st.sampled_from(
            ['ба', 'во', 'x', '5']), max_size=4), min_size=1, max_size=3)),
        'lexicon': draw(c07.LEXICON),
    }


########
# RECORDS
########


_USER = {}


def user_classes():
    from yargy.record import Record
    if _USER:
        return _USER

    class One(Record):
        __attributes__ = ['a']

        def __init__(self, a):
            self.a = a

    class Two(Record):
        __attributes__ = ['a', 'b']

        def __init__(self, a, b):
            self.a = a
            self.b = b
            self.other = object()

    class TwoAgain(Record):
        __attributes__ = ['a', 'b']

        def __init__(self, a, b):
            self.a = a
            self.b = b

    class TwoBelow(Two):
        pass

    class Back(Record):
        __attributes__ = ['b', 'a']

        def __init__(self, b, a):
            self.a = a
            self.b = b

    class Nothing(Record):
        pass

    _USER.update({
        'one': One, 'two': Two, 'two again': TwoAgain, 'two below': TwoBelow,
        'back': Back, 'none': Nothing})
    return _USER


USER_FIELDS = {
    'one': ['a'], 'two': ['a', 'b'], 'two again': ['a', 'b'],
    'two below': ['a', 'b'], 'back': ['b', 'a'], 'none': [],
}
FIELDS = {
    'span': ['start', 'stop'],
    'token': ['value', 'span', 'type'],
    'morph': ['value', 'span', 'type', 'forms'],
    'tagtoken': ['value', 'span', 'type', 'tag'],
    'morphtag': ['value', 'span', 'type', 'tag', 'forms'],
    'form': ['normalized', 'grams'],
    'tokenrule': ['type', 'pattern'],
    'const': ['value'],
    'key': ['value', 'terms'],
    'eq': ['value'], 'gte': ['value'], 'lte': ['value'],
    'length_eq': ['value'], 'gram': ['value'], 'type': ['value'],
    'named': ['rule', 'name'],
    'opt': ['rule', 'reverse'],
    'rep': ['rule', 'reverse'],
    'min': ['rule', 'min', 'reverse'],
    'orr': ['rules'],
    'andp': ['predicates'], 'orp': ['predicates'], 'notp': ['predicate'],
    'true': [], 'is_title': [], 'empty': [], 'normalized': [],
    'inflected': ['grams'],
    'relation': [],
    'in_': ['value'], 'in_caseless': ['value'], 'dictionary': ['value'],
    'tag': ['value'], 'caseless': ['value'], 'normalizedp': ['value'],
    'custom': ['function', 'types'],
    'max': ['rule', 'max', 'reverse'],
    'minmax': ['rule', 'min', 'max', 'reverse'],
    'match': ['rule', 'relation'],
    'meant': ['rule', 'interpretator'],
    'andr': ['relations'], 'orrel': ['relations'], 'notr': ['relation'],
    'scheme': ['name', 'default'], 'manyscheme': ['name'],
    'style': ['attributes'],
    'attrresult': ['value', 'attribute'], 'normresult': ['value', 'input'],
    'fn': ['function'], 'fnfn': ['first', 'second'],
    'normalizedfn': ['morph', 'function'],
    'inflectedfn': ['morph', 'function'],
}
FIELDS.update(USER_FIELDS)


FUNCTIONS = {'len': len, 'str': str, 'bool': bool}
PIPELINES = NAMES[-1]
_FACTS = {}


def fact_class(name):
    from yargy.interpretation import attribute, fact
    if name not in _FACTS:
        _FACTS[name] = fact('F', [
            'one', attribute('two', 1), attribute('many').repeatable()])
    return _FACTS[name]


def meant(item, value):
    """Normalizer over an attribute, or alone."""
    kind, args = value[0], value[1:]
    if kind == 'normalized':
        return item.normalized()
    elif kind == 'inflected':
        return item.inflected(set(args[0]))
    elif kind == 'const':
        return item.const(args[0])
    elif kind == 'normalizedfn':
        return item.normalized().custom(FUNCTIONS[args[0]])
    elif kind == 'inflectedfn':
        return item.inflected(set(args[1])).custom(FUNCTIONS[args[0]])
    item = item.custom(FUNCTIONS[args[0]])
    if kind == 'fnfn':
        item = item.custom(FUNCTIONS[args[1]])
    return item


def build(value):
    from yargy import and_, or_, not_, rule, empty
    from yargy import predicates as p, relations as r, interpretation as i
    from yargy.morph import Form, Grams, Gender, Number, Case
    from yargy.pipelines import Key
    from yargy import pipelines
    from yargy.dot import style
    from yargy.interpretation.interpretator import (
        AttributeResult, Chain, NormalizerResult)
    from yargy.span import Span
    from yargy.token import Token, MorphToken, TagToken, MorphTagToken
    from yargy.tokenizer import TokenRule
    if not isinstance(value, (list, tuple)):
        return value
    kind = value[0]
    args = value[1:]
    if kind in ('list', 'tuple'):
        items = [build(_) for _ in args[0]]
        return items if kind == 'list' else tuple(items)
    if kind in USER_FIELDS:
        return user_classes()[kind](*[build(_) for _ in args])
    plain = {
        'span': Span, 'token': Token, 'morph': MorphToken,
        'tagtoken': TagToken, 'morphtag': MorphTagToken, 'form': Form,
        'tokenrule': TokenRule, 'const': i.const,
    }
    if kind in plain:
        return plain[kind](*[build(_) for _ in args])
    if kind == 'key':
        return Key(args[0], list(args[1]))
    if kind == 'grams':
        return Grams((frozenset if args[1] else set)(args[0]))
    if kind in ('gender', 'number', 'case'):
        view = {'gender': Gender, 'number': Number, 'case': Case}[kind]
        return view(Grams(set(args[0])))
    if kind in ('eq', 'gte', 'lte', 'length_eq', 'gram', 'type', 'true',
                'is_title'):
        return getattr(p, kind)(*args)
    if kind == 'andp':
        return and_(*[build(_) for _ in args[0]])
    if kind in ('orp', 'orr'):
        return or_(*[build(_) for _ in args[0]])
    if kind == 'notp':
        return not_(build(args[0]))
    if kind == 'rule':
        return rule(*[build(_) for _ in args[0]])
    if kind == 'empty':
        return empty()
    if kind == 'opt':
        return build(args[0]).optional(reverse=args[1])
    if kind == 'rep':
        return build(args[0]).repeatable(reverse=args[1])
    if kind == 'min':
        return build(args[0]).repeatable(min=args[1], reverse=args[2])
    if kind == 'named':
        return build(args[0]).named(args[1])
    if kind == 'normalized':
        return i.normalized()
    if kind == 'inflected':
        return i.inflected(set(args[0]))
    if kind == 'relation':
        return getattr(r, args[0] + '_relation')()
    if kind == 'chain':
        return Chain([build(_) for _ in args[1]], args[0])
    if kind in ('in_', 'in_caseless', 'dictionary', 'tag', 'caseless'):
        return getattr(p, kind)(*args)
    if kind == 'normalizedp':
        return p.normalized(*args)
    if kind == 'custom':
        return p.custom(FUNCTIONS[args[0]], build(args[1]))
    if kind == 'max':
        return build(args[0]).repeatable(max=args[1], reverse=args[2])
    if kind == 'minmax':
        return build(args[0]).repeatable(
            min=args[1], max=args[2], reverse=args[3])
    if kind == 'match':
        return build(args[0]).match(build(args[1]))
    if kind == 'meant':
        if args[1][0] == 'fact':
            return build(args[0]).interpretation(fact_class(args[1][1]))
        return build(args[0]).interpretation(build(args[1]))
    if kind == 'mainrule':
        return rule(build(args[0]), r.main(build(args[1])))
    if kind == 'andr':
        return and_(*[build(_) for _ in args[0]])
    if kind == 'orrel':
        return or_(*[build(_) for _ in args[0]])
    if kind == 'notr':
        return not_(build(args[0]))
    if kind == 'scheme':
        return i.attribute(args[0], args[1])
    if kind == 'manyscheme':
        return i.attribute(args[0]).repeatable()
    if kind in PIPELINES:
        return getattr(pipelines, kind)(list(args[0]))
    if kind == 'style':
        return style(label=args[0], color=args[1])
    if kind == 'attrresult':
        return AttributeResult(build(args[0]), build(args[1]))
    if kind == 'normresult':
        return NormalizerResult(args[0], build(args[1]))
    if kind == 'attribute':
        item = getattr(fact_class(args[0]), args[1])
        return meant(item, args[2]) if len(args) > 2 else item
    if kind in ('fn', 'fnfn', 'normalizedfn', 'inflectedfn'):
        return meant(i, value)
    raise KeyError(kind)


def canon(value):
    """Class and fields, equal for equal records only."""
    if not isinstance(value, (list, tuple)):
        return ('scalar', value)
    kind = value[0]
    args = list(value[1:])
    if kind in ('list', 'tuple'):
        return (kind, [canon(_) for _ in args[0]])
    if kind in ('grams',):
        return (kind, sorted(args[0]))
    if kind == 'inflected':
        return (kind, sorted(args[0]))
    if kind == 'gender':
        grams = set(args[0])
        return (kind, 'masc' in grams, 'femn' in grams, 'neut' in grams,
                bool(grams & {'Ms-f', 'ms-f'}), 'GNdr' in grams)
    if kind == 'number':
        return (kind, [_ in args[0] for _ in (
            'sing', 'plur', 'Sgtm', 'Pltm')])
    if kind == 'case':
        return (kind, [_ in args[0] for _ in (
            'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd')])
    if kind == 'custom':
        types = args[1]
        if types is not None and not isinstance(types, (list, tuple)):
            types = ('list', [types])
        return (kind, args[0], canon(types))
    if kind == 'inflectedfn':
        return (kind, args[0], sorted(args[1]))
    if kind in ('in_', 'in_caseless', 'dictionary') + tuple(PIPELINES):
        return (kind, list(args[0]))
    if kind in ('relation', 'key'):
        return (kind, args)
    if kind in ('rule', 'orr', 'orp', 'andp', 'andr', 'orrel'):
        return (kind, [canon(_) for _ in args[0]])
    if kind == 'chain':
        return (kind, args[0], [canon(_) for _ in args[1]])
    return (kind, [canon(_) for _ in args])


class Printer(object):
    """Stands for the pretty printer of IPython."""

    def __init__(self):
        self.parts = []
        self.depth = 0

    def text(self, value):
        self.parts.append(value)

    def break_(self):
        self.parts.append('\n')

    def breakable(self, sep=' '):
        self.parts.append(sep)

    def pretty(self, value):
        if hasattr(type(value), '_repr_pretty_'):
            value._repr_pretty_(self, False)
        else:
            self.text(repr(value))

    def indent(self, _):
        return self

    def group(self, *_):
        return self

    def __enter__(self):
        self.depth += 1

    def __exit__(self, *_):
        self.depth -= 1


def hashable(value):
    try:
        return hash(value)
    except TypeError:
        return


def check_changed(a, b, spec):
    """Record with fields of another one, set after it was in use."""
    if type(a) is not type(b) or type(a).__name__ in (
            'PipelineRule', 'ForwardRule'):
        return
    for item in (a, b):
        hashable(item)
        repr(item)
        expect(item == item, '%r is not equal to itself', item)
    for key in type(b).__attributes__:
        setattr(a, key, getattr(b, key))
    check_equal(a, build(spec), True, spec, spec)


def check_records(case, ctx):
    first, second = case['records']
    a, again, b = build(first), build(first), build(second)
    same = canon(first) == canon(second)
    check_equal(a, again, True, first, first)
    check_equal(a, b, same, first, second)
    check_fields(a, first)
    check_fields(b, second)
    if first[0] != 'attribute' or len(first) > 3:
        # not an attribute of the class itself, that is one object
        check_changed(build(first), b, second)
    for other in (None, 0, 'x', [], object(), tuple(a), list(a), dict()):
        if first[0] == 'span' and isinstance(other, tuple):
            continue
        expect(not (a == other), '%r == %r', a, other)
        expect(a != other, 'not %r != %r', a, other)
    if first[0] == 'span':
        check_span(a, tuple(first[1:]), b, second)
    ctx.label('record ' + first[0])
    if first[0] == second[0] and not same:
        ctx.label('different fields')
        ctx.nontrivial()


def check_equal(a, b, same, first, second):
    for x, y in ((a, b), (b, a)):
        expect((x == y) is same, '%r == %r is %r', x, y, x == y)
        expect((x != y) is (not same), '%r != %r is %r', x, y, x != y)
    if same:
        if hashable(a) is not None and hashable(b) is not None:
            equal(hash(a), hash(b), 'hashes of %r' % a)
            equal(len({a, b}), 1, 'size of set of %r' % a)


def check_fields(a, value):
    from yargy.record import Record
    kind = value[0]
    text = repr(a)
    if kind in FIELDS:
        names = FIELDS[kind]
        want = [getattr(a, _) for _ in names]
        got = list(a)
        expect(len(got) == len(want) and all(
            x is y or x == y for x, y in zip(got, want)),
            'fields of %r are %r', a, got)
        equal(list(type(a).__attributes__), names, 'attributes')
    got = list(a)
    if kind not in ('span', 'form', 'grams'):
        want = '%s(%s)' % (type(a).__name__, ', '.join(
            '%s=%r' % item for item in zip(type(a).__attributes__, got)))
        equal(text, want, 'repr')
    elif kind == 'span':
        equal(text, '[%d, %d)' % tuple(value[1:]), 'repr')
    elif kind == 'form':
        expect(repr(value[1]) in text and repr(a.grams) in text,
               'repr %r of %r', text, value)
    else:
        expect(all(_ in text for _ in value[1]), 'repr %r of %r', text, value)
    # each field printed
    printer = Printer()
    printer.pretty(a)
    pretty = ''.join(printer.parts)
    if kind in ('span', 'form', 'grams'):
        equal(pretty, text, 'pretty print')
    else:
        position = 0
        for name, item in zip(type(a).__attributes__, got):
            found = pretty.find(name + '=', position)
            expect(found >= 0, 'no %s in %r', name, pretty)
            position = found + len(name) + 1
            inner = Printer()
            inner.pretty(item)
            item = ''.join(inner.parts)
            expect(pretty.startswith(item, position),
                   'no %r at %d in %r', item, position, pretty)
            position += len(item)
    equal(printer.depth, 0, 'indents of the printer')
    # hashable as soon as fields are
    fields = [getattr(a, _) for _ in type(a).__attributes__]
    if all(hashable(_) is not None for _ in fields):
        expect(hashable(a) is not None, '%r is not hashable', a)
    expect(isinstance(a, Record), 'type %r', type(a))


def check_span(a, pair, b, other):
    expect(a == pair and pair == a and not (a != pair),
           '%r is not equal to %r', a, pair)
    wrong = (pair[0], pair[1] + 1)
    expect(not (a == wrong) and a != wrong and wrong != a,
           '%r is equal to %r', a, wrong)
    expect(a != pair + (1,), '%r is equal to a longer tuple', a)
    equal(hash(a), hash(pair), 'hash of a span and of the tuple')
    equal({pair: 1}.get(a), 1, 'span as a key')
    if other[0] == 'span':
        two = tuple(other[1:])
        equal(a < b, pair < two, '%r < %r' % (a, b))
        equal(a > b, pair > two, '%r > %r' % (a, b))
        equal(a < two, pair < two, '%r < %r' % (a, two))
        equal([tuple(_) for _ in sorted([a, b])], sorted([pair, two]),
              'sorted spans')


########
# TOKENS
########


def token_view(token):
    return (
        type(token).__name__,
        [(name, repr(getattr(token, name)))
         for name in ('value', 'span', 'type', 'tag', 'forms')
         if hasattr(token, name)]
    )


def check_history(case, ctx):
    tokens = [build(case['token'])]
    states = [{'tag': None, 'forms': None}]
    views = [token_view(tokens[0])]
    for kind, index, value in case['steps']:
        index %= len(tokens)
        token = tokens[index]
        state = dict(states[index])
        if kind == 'tag':
            new = token.tagged(value)
            state['tag'] = value
        elif kind == 'forms':
            if state['tag'] is not None:
                # forms come from the tokenizer, before tags
                continue
            forms = [build(_) for _ in value]
            new = token.morphed(forms)
            state['forms'] = forms
        else:
            if state['forms'] is None:
                continue
            size = len(state['forms'])
            forms = [state['forms'][_] for _ in sorted(
                {_ % size for _ in value})] if size else []
            new = token.constrained(forms)
            state['forms'] = forms
        expect(new is not token, '%s gives the same token', kind)
        tokens.append(new)
        states.append(state)
        views.append(token_view(new))
    base = tokens[0]
    from yargy.token import is_morph_token, is_tag_token, is_token
    for token, state, view in zip(tokens, states, views):
        equal(token_view(token), view, 'token after all')
        equal((token.value, token.span, token.type),
              (base.value, base.span, base.type), 'value, span and type')
        equal(is_morph_token(token), state['forms'] is not None,
              'is_morph_token')
        equal(is_tag_token(token), state['tag'] is not None, 'is_tag_token')
        expect(is_token(token), 'is_token')
        if state['forms'] is not None:
            equal(list(token.forms), state['forms'], 'forms')
            if state['forms']:
                equal(token.normalized, state['forms'][0].normalized,
                      'normalized')
        else:
            equal(token.normalized, base.value.lower(), 'normalized')
        if state['tag'] is not None:
            equal(token.tag, state['tag'], 'tag')
        names = ['value', 'span', 'type']
        if state['tag'] is not None:
            names.append('tag')
        if state['forms'] is not None:
            names.append('forms')
        equal(list(token), [getattr(token, _) for _ in names],
              'fields of the token')
    ctx.label('history')
    ctx.nontrivial(len(tokens) > 2)


class Raw(object):
    """Stands for a parse of the analyser."""

    def __init__(self, word):
        self.word = word

    def inflect(self, grams):
        if 'NOUN' in grams:
            return
        return Raw(self.word + ''.join(sorted(grams)))


def check_phrase(case, ctx):
    from yargy.morph import Form, Grams
    from yargy.span import Span
    from yargy import token as t
    tokens = []
    position = 3
    want = {'text': '', 'normalized': '', 'inflected': ''}
    grams = set(case['grams'])
    for index, (word, gap, forms) in enumerate(case['phrase']):
        if index:
            position += gap
            if gap:
                for key in want:
                    want[key] += ' '
        stop = position + len(word)
        token = t.Token(word, Span(position, stop), 'RU')
        position = stop
        norm = inflected = word.lower()
        if forms is not None:
            norm = forms[0][1]
            inflected = norm
            if 'NOUN' not in grams:
                inflected = norm + 'x' + ''.join(sorted(grams))
            token = token.morphed([
                Form(item[1], Grams(set(item[2][1])), raw=Raw(item[1] + 'x'))
                for item in forms
            ])
        tokens.append(token)
        want['text'] += word
        want['normalized'] += norm
        want['inflected'] += inflected
    views = [token_view(_) for _ in tokens]
    for make in (list, tuple, iter):
        equal(t.join_tokens(make(tokens)), want['text'], 'text')
        equal(t.join_normalized_tokens(make(tokens)), want['normalized'],
              'normalized text')
        equal(t.join_inflected_tokens(make(tokens), grams),
              want['inflected'], 'inflected text')
    equal(tuple(t.get_tokens_span(tokens)), (3, position), 'span')
    equal([token_view(_) for _ in tokens], views, 'tokens after all')
    ctx.label('phrase')
    ctx.nontrivial(len(tokens) > 1)


def check_matches(case, ctx):
    from yargy import Parser, or_, rule
    from yargy.predicates import true
    lexicon = W.Lexicon(case['lexicon'])
    found = []
    for _ in range(2):
        parser = Parser(
            rule(true().repeatable(max=2)),
            tokenizer=spec.stub_tokenizer(lexicon))
        for words in case['texts']:
            for match in parser.extract(' '.join(words)):
                found.append((spec.match_view(match, fact=False), match))
    for view, match in found:
        fields = list(match)
        expect(len(fields) == 2 and fields[0] == match.tokens
               and fields[1] == match.span, 'fields of a match %r', fields)
        for other_view, other in found:
            expect((match == other) is same_view(view, other_view),
                   '%r == %r is %r', match, other, match == other)
            expect((match != other) is not same_view(view, other_view),
                   '%r != %r', match, other)
    ctx.label('matches')
    ctx.nontrivial(len(found) > 2)


def same_view(a, b):
    # order of forms is that of the analyser, the same for equal words
    return a == b


BODIES = ['left', 'right', 'middle', 'mutual', 'none']


def make_forward(body, word):
    from yargy import forward, or_, rule
    item = forward()
    if body == 'left':
        item.define(or_(rule(word), rule(item, word)))
    elif body == 'right':
        item.define(or_(rule(word), rule(word, item)))
    elif body == 'middle':
        item.define('(', item.optional(), ')')
    elif body == 'mutual':
        other = forward().define(item.optional(), word)
        item.define(word, other.optional())
    return item


def check_forwards(case, ctx):
    """Rules that contain themselves compare by identity."""
    from yargy import rule
    items = [make_forward(body, word) for body, word in case['forwards']]
    for index, one in enumerate(items):
        repr(one)
        for place, other in enumerate(items):
            for a, b in [
                    (one, other), (rule(one, 'x'), rule(other, 'x')),
                    (one.optional(), other.optional()),
                    (one.named('X'), other.named('X'))]:
                expect((a == b) is (index == place),
                       '%r == %r is %r', a, b, a == b)
                expect((a != b) is (index != place), '%r != %r', a, b)
    ctx.label('forwards')
    ctx.nontrivial()


def cases(tier):
    for body in BODIES:
        for other in BODIES:
            yield {'forwards': [[body, 'a'], [other, 'a'], [body, 'b']]}


def check(case, ctx):
    if 'forwards' in case:
        check_forwards(case, ctx)
    elif 'records' in case:
        check_records(case, ctx)
    elif 'token' in case:
        check_history(case, ctx)
    elif 'phrase' in case:
        check_phrase(case, ctx)
    else:
        check_matches(case, ctx)
