from collections import Counter

from hypothesis import strategies as st

from lib import gens, interp, marks, model, spec
from lib.harness import Skip, equal

RULE = (
    'Random acyclic grammar over 3 letters without two equal alternatives; '
    'random parts record their use in the fact. Texts: random and sampled. '
    'Non-trivial: some text has a range with two or more derivations that '
    'give different facts.'
)
TECHNIQUE = (
    'property-based testing: generated grammars, multiset of derivations '
    'against an independent enumerator'
)
NOTE = (
    'The multiset of (span, fact) of extract() is compared with all '
    'derivations enumerated by the reference model; facts record which parts '
    'of the grammar were used. Bounded to 8 tokens and 3000 derivations.'
)
QUICK = 1730
THOROUGH = 25000
ALPHABET = ['a', 'b']
CFGS = [
    gens.Config(alphabet=ALPHABET, nested_ext=False, empty=False),
    gens.Config(alphabet=ALPHABET[:1], nested_ext=False, empty=False),
]
LIMIT = 1500


def strategy(tier):
    return st.fixed_dictionaries({
        'grammar': st.one_of([gens.grammars(_) for _ in CFGS]),
        'marks': st.integers(0, 10000),
        'texts': st.lists(
            gens.texts(ALPHABET, 7), min_size=1, max_size=3),
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=4),
        'skin': gens.skins(len(ALPHABET)),
    })


def words(pred, rng):
    return pred[1]


def canonical(expr, lets):
    expr = gens.resolve(expr, lets)
    kind = expr[0]
    if kind in ('seq', 'or'):
        items = [canonical(_, lets) for _ in expr[1]]
        if kind == 'or':
            # equal ones are dropped
            items = [
                item for index, item in enumerate(items)
                if item not in items[:index]
            ]
        if len(items) == 1:
            return items[0]
        return [kind, items]
    elif kind == 't':
        return expr[:2]
    elif kind in ('opt', 'rep', 'named', 'int', 'match'):
        if kind == 'named':
            return canonical(expr[1], lets)
        if kind == 'rep' and expr[3] == 1:
            return canonical(expr[1], lets)
        return [kind, canonical(expr[1], lets)] + expr[2:]
    return expr


def distinct(grammar):
    """Drop alternatives that are the same as an earlier one."""
    lets = grammar['lets']

    def visit(expr):
        kind = expr[0]
        if kind == 'or':
            items = []
            seen = []
            for item in expr[1]:
                value = canonical(item, lets)
                if value not in seen:
                    seen.append(value)
                    items.append(visit(item))
            return ['or', items]
        elif kind == 'seq':
            return ['seq', [visit(_) for _ in expr[1]]] + expr[2:]
        elif kind in ('opt', 'rep', 'named'):
            return [kind, visit(expr[1])] + expr[2:]
        return expr

    return {
        'lets': [visit(_) for _ in lets],
        'defs': [visit(_) for _ in grammar['defs']],
        'root': visit(grammar['root']),
    }


def check(case, ctx):
    from yargy import Parser
    if gens.has_k1(case['grammar']):
        raise Skip
    skin = case.get('skin')
    grammar = gens.reskin(distinct(case['grammar']), ALPHABET, skin)
    grammar = marks.mark(grammar, case['marks'])
    reference = model.Model(grammar)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    texts = gens.reskin(list(case['texts']), ALPHABET, skin)
    for seed in case['seeds']:
        item = reference.sample(seed, words)
        if item is not None and len(item) <= 8:
            texts.append(item)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer()
    )
    for item in texts:
        text = ' '.join(item)
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
            derive = reference.derivations(tokens, ends, 3000)
            want = Counter()
            full = Counter()
            for start, stop in reference.ranges(tokens, ends):
                span = (tokens[start].start, tokens[stop - 1].stop)
                for tree in derive(start, stop):
                    fact = interp.Evaluator(marks.FACTS, tokens).run(tree)
                    key = span, tuple(fact_marks(fact))
                    want[key] += 1
                    if (start, stop) == (0, len(tokens)):
                        full[key] += 1
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        compare(parser.extract(text), want, 'extract(%r)' % text)
        compare(
            parser.extract(text, all=False), full,
            'extract(%r, all=False)' % text
        )
        facts = {}
        for span, fact in want:
            facts.setdefault(span, set()).add(fact)
        if any(len(_) > 1 for _ in facts.values()):
            ctx.nontrivial()
    ctx.label(*gens.grammar_features(grammar))


def fact_marks(fact):
    return [_.value for _ in fact.values['p']]


def compare(matches, want, what):
    got = Counter(
        (tuple(_.span), tuple(_.fact.p)) for _ in matches
    )
    missing = want - got
    extra = got - want
    equal(
        (sorted(missing.items()), sorted(extra.items())), ([], []),
        what + ' (missing, not derivable)'
    )
