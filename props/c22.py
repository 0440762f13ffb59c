from collections import OrderedDict

from hypothesis import strategies as st

from lib import gens, interp, model, spec
from lib.harness import Skip, equal, expect
from props import c20

RULE = (
    'Grammars of the C20 generator (facts, nested and merged facts, '
    'repeatable attributes, all kinds of normalizers, values of several '
    'words) on texts with irregular spacing; functions that give values of '
    'any Python type. Non-trivial: a fact with a '
    'nested fact or a list, or with two or more spans.'
)
TECHNIQUE = (
    'property-based testing: json and spans of every fact and nested fact '
    'against an independent evaluator'
)
NOTE = (
    'as_json (with key order) and spans of the fact of every match and of '
    'every fact nested in it are compared with the evaluation of the first '
    'derivation, and as_json with the attribute values.'
)
QUICK = 1610
THOROUGH = 25000
LIMIT = 1000
GAPS = st.lists(
    st.sampled_from([' ', ' ', '', '', '  ', '\t', '\u00a0 ']),
    min_size=12, max_size=12)


def strategy(tier):
    return st.builds(
        lambda case, gaps, seeds: dict(
            case, gaps=gaps, seeds=case['seeds'] + seeds),
        c20.short_cases(), GAPS,
        st.lists(st.integers(0, 1000), min_size=2, max_size=6)
    )


class Place(object):
    """Value of the user."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return type(other) is Place and self.name == other.name

    __hash__ = None


VALUES = [
    (1, 2), (), {1, 2}, frozenset(['a']), {'a': [1]}, [], [(1, 2)], b'x', 1.5,
    True, False, 0, '', Place('x'), [Place('x')], range(3), Place, len,
    {'as_json': 1}, OrderedDict([('b', 1), ('a', 2)]),
]


def cases(tier):
    for index in range(len(VALUES)):
        for where in ('const', 'custom', 'twice', 'normalized', 'rule',
                      'repeatable', 'inside'):
            yield {'value': index, 'where': where}


def check_value(case, ctx):
    """json has the values that functions gave, whatever they are."""
    from yargy import Parser, rule
    from yargy import interpretation as i
    from yargy.interpretation import fact, attribute
    F = fact('F', ['x', attribute('xs').repeatable(), 'y'])
    value = VALUES[case['value']]
    where = case['where']

    def give(_):
        return value

    word = rule('a', 'b')
    item = {
        'const': lambda: word.interpretation(F.x.const(value)),
        'custom': lambda: word.interpretation(F.x.custom(give)),
        'twice': lambda: word.interpretation(F.x.custom(len).custom(give)),
        'normalized': lambda: word.interpretation(
            F.x.normalized().custom(give)),
        'rule': lambda: word.interpretation(
            i.custom(give)).interpretation(F.x),
        'repeatable': lambda: word.interpretation(
            i.custom(give)).interpretation(F.xs),
        'inside': lambda: word.interpretation(
            F.x.custom(give)).interpretation(F).interpretation(F.y),
    }[where]()
    match = Parser(
        rule('c', item).interpretation(F), tokenizer=spec.plain_tokenizer()
    ).match('c a b')
    got = match.fact
    json = got.as_json
    if where == 'inside':
        values = got.y.x, json['y']['x']
    elif where == 'repeatable':
        values = got.xs[0], json['xs'][0]
    else:
        values = got.x, json['x']
    for item in values:
        expect(type(item) is type(value) and item == value,
               '%r in place of %r (%s)', item, value, where)
    equal([tuple(_) for _ in got.spans], [(2, 5)], 'spans')
    ctx.label('values of any kind')
    ctx.nontrivial()


def check(case, ctx):
    if 'value' in case:
        return check_value(case, ctx)
    from yargy import Parser
    from yargy.interpretation.fact import Fact
    grammar = dict(case['grammar'], facts=c20.FACTS)
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, c20.words, 8)
        if item is not None and len(item) <= 9:
            texts.append(item)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer())
    for item in texts:
        text = ''
        for gap, word in zip(case['gaps'], item):
            if not gap and text[-1:].isdigit() == word.isdigit():
                # words of one type need a gap
                gap = ' '
            text += gap + word
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
            derive = reference.derivations(tokens, ends, 2000)
            trees = {_: derive(*_)[0]
                     for _ in reference.ranges(tokens, ends)}
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        found = [(parser.match(text), (0, len(tokens)))]
        if len(tokens) <= 6:
            found.extend(zip(
                parser.findall(text), model.best_selection(trees)))
        for match, key in found:
            if match is None:
                continue
            try:
                evaluator, value = c20.evaluate(trees[key], tokens)
            except interp.Mixture:
                continue
            fact = match.fact
            if not isinstance(fact, Fact):
                ctx.label('not a fact')
                continue
            while isinstance(value, interp.Attr):
                value = value.value
            check_fact(fact, value, evaluator, match, text, ctx)
    ctx.label(*gens.grammar_features(grammar))


def check_fact(fact, value, evaluator, match, text, ctx):
    for _ in range(2):
        equal(
            spec.plain_json(fact.as_json), evaluator.json(value),
            'as_json of %r in %r' % (type(fact).__name__, text)
        )
        got = [tuple(_) for _ in fact.spans]
        want = sorted(evaluator.spans(value))
        equal(sorted(got), want,
              'spans of %r in %r' % (type(fact).__name__, text))
        starts = [_[0] for _ in got]
        equal(starts, sorted(starts), 'order of spans')
    start, stop = match.span
    for span in got:
        expect(start <= span[0] < span[1] <= stop,
               'span %s is outside of the match', span)
    equal(
        spec.plain_json(fact.as_json), mirror(fact),
        'as_json against attributes in %r' % text
    )
    nested = isinstance(fact.as_json, dict) and any(
        _ and isinstance(_, (dict, list)) for _ in fact.as_json.values())
    if nested:
        ctx.label('nested')
    if len(want) > 1:
        ctx.label('several spans')
    ctx.nontrivial(nested or len(want) > 1)
    ctx.label('fact')
    # facts below
    from yargy.interpretation.fact import Fact
    for key in type(fact).__attributes__:
        got = getattr(fact, key)
        inner = value.values[key]
        if isinstance(inner, list) and evaluator.is_repeatable(
                value.name, key):
            pairs = list(zip(got, inner))
        else:
            pairs = [(got, inner)]
        for item, other in pairs:
            while isinstance(other, interp.Attr):
                other = other.value
            if isinstance(item, Fact) and isinstance(
                    other, interp.FactValue):
                ctx.label('fact in a fact')
                check_fact(item, other, evaluator, match, text, ctx)


def mirror(value):
    """json from what the user sees."""
    from yargy.interpretation.fact import Fact
    if isinstance(value, Fact):
        result = []
        for key in type(value).__attributes__:
            item = getattr(value, key)
            if item is not None:
                result.append((key, mirror(item)))
        return ('map', result)
    if isinstance(value, list):
        return [mirror(_) for _ in value]
    return value
