from hypothesis import strategies as st

from lib import gens, interp, marks, model, spec, words as W
from lib.harness import Skip, equal

RULE = (
    'Random acyclic grammar over 4 words with ambiguous parts; random parts '
    'record their use in the fact; in half of the cases rules carry '
    'relations over a synthetic lexicon. Texts: random and sampled. '
    'Non-trivial: for some range the first two derivations give different '
    'facts, or the first derivation is rejected by relations.'
)
TECHNIQUE = (
    'property-based testing: generated ambiguous grammars, first derivation '
    'of an independent ordered enumerator'
)
NOTE = (
    'The fact of match() and of every match of findall() is compared with '
    'the fact of the first derivation, in the stated order, that relations '
    'accept. Cyclic grammars (infinitely many derivations) and towers '
    'of optional/repeatable higher than two, whose order is not stated, are '
    'left out; of two, absence comes first (or last), then the repetition.'
)
QUICK = 1080
THOROUGH = 25000
ALPHABET = ['ба', 'во', 'гу']
SMALL = ALPHABET[:1]
LIMIT = 1500


def wrap(draw, expr, cfg):
    return ['match', expr, draw(st.sampled_from(['r0', 'r1']))]


PLAIN = gens.Config(
    alphabet=ALPHABET, nested_ext=False)
UNARY = gens.Config(
    alphabet=SMALL, nested_ext=False)
RELATED = gens.Config(
    alphabet=ALPHABET, nested_ext=False, wrap=wrap, main=True)
RELATED_UNARY = gens.Config(
    alphabet=SMALL, nested_ext=False, wrap=wrap, main=True)
FORM = st.tuples(
    st.sampled_from(['x', 'y']),
    st.lists(st.sampled_from(
        ['masc', 'femn', 'sing', 'plur', 'nomn', 'gent', 'Fixd']
    ), max_size=4, unique=True)
)
LEXICON = st.fixed_dictionaries({
    word: st.lists(FORM, min_size=1, max_size=3) for word in ALPHABET
})
RELATION = st.sampled_from([
    ['gender'], ['number'], ['case'], ['gnc'],
    ['and', [['gender'], ['number']]],
])


def strategy(tier):
    variants = []
    for plain, related, alphabet in [
            (PLAIN, RELATED, ALPHABET), (UNARY, RELATED_UNARY, SMALL)
    ]:
        common = {
            'marks': st.integers(0, 10000),
            'texts': st.lists(
                gens.texts(alphabet, 5), min_size=1, max_size=3),
            'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=5),
            'lexicon': LEXICON,
        }
        variants.append(st.fixed_dictionaries(dict(
            common, grammar=gens.grammars(plain), relations=st.just({})
        )))
        variants.append(st.fixed_dictionaries(dict(
            common, grammar=gens.grammars(related),
            relations=st.fixed_dictionaries({'r0': RELATION, 'r1': RELATION})
        )))
    variants.append(agreements())
    variants.append(divisions())
    return st.one_of(variants)


ONE_FORM = st.tuples(
    st.just('x'),
    st.lists(st.sampled_from(['masc', 'femn']), max_size=1)
)


@st.composite
def divisions(draw):
    # ways to divide a row of equal words between parts
    flags = st.booleans()
    word = ['t', SMALL[0], draw(st.integers(0, 2))]
    if draw(flags):
        word = marks.mark_terminal(word, 'w')

    bounds = st.sampled_from([
        (None, None), (None, None), (1, None), (2, None), (None, 1),
        (None, 2), (None, 3), (1, 2), (2, 3), (2, 2)
    ])

    def base():
        kind = draw(st.integers(0, 7))
        if kind < 4:
            return word
        if kind < 6:
            return ['seq', [word, word], None]
        items = [word, ['seq', [word, word], None]]
        if draw(flags):
            items.reverse()
        return ['or', items]

    def part():
        kind = draw(st.sampled_from(['rep', 'rep', 'opt', 'star', 'star']))
        item = base()
        if kind == 'opt':
            return ['opt', item, draw(flags)]
        elif kind == 'star':
            min, max = draw(bounds)
            if draw(flags):
                item = ['rep', item, min, max, draw(flags)]
                return ['opt', item, draw(flags)]
            return ['rep', ['opt', item, draw(flags)], min, max, draw(flags)]
        min = draw(st.sampled_from([None, None, 1, 2]))
        max = draw(st.sampled_from([None, None, 2, 3, 4, 5]))
        return ['rep', item, min, max, draw(flags)]

    items = [part() for _ in range(draw(st.integers(2, 3)))]
    return {
        'grammar': {
            'lets': [], 'defs': [],
            'root': ['seq', [marks.mark_part(_, 'm%d' % index)
                             for index, _ in enumerate(items)], None]
        },
        'marks': None,
        'texts': [SMALL * count for count in range(1, 6)],
        'seeds': [], 'lexicon': {SMALL[0]: [['x', []]]}, 'relations': {}
    }


@st.composite
def agreements(draw):
    # alternatives for the same words that differ in what should agree
    size = draw(st.integers(2, 3))

    def word():
        item = ['p', ['true'], draw(st.integers(0, 2))]
        relation = draw(st.sampled_from(['r0', 'r0', 'r1', None]))
        return ['match', item, relation] if relation else item

    def phrase():
        items = [word() for _ in range(size)]
        if size == 3 and draw(st.booleans()):
            pair = ['or', [
                ['seq', items[:2], draw(st.sampled_from([None, 0, 1]))],
                ['seq', [word(), word()], None]
            ]]
            return ['seq', [pair, items[2]], None]
        return ['seq', items, None]

    root = ['or', [phrase() for _ in range(draw(st.integers(2, 4)))]]
    return {
        'grammar': {'lets': [], 'defs': [], 'root': root},
        'marks': draw(st.integers(0, 10000)),
        'texts': draw(st.lists(st.lists(
            st.sampled_from(ALPHABET), min_size=size, max_size=size + 1
        ), min_size=1, max_size=4)),
        'seeds': [],
        'lexicon': {
            word: draw(st.lists(ONE_FORM, min_size=1, max_size=2))
            for word in ALPHABET
        },
        'relations': {
            'r0': ['gender'],
            'r1': draw(st.sampled_from([['gender'], ['not', ['gender']]]))
        },
    }


def words(pred, rng):
    return pred[1]


def check(case, ctx):
    from yargy import Parser
    if gens.has_k1(case['grammar']):
        raise Skip
    relations = case['relations']
    if case['marks'] is None:
        grammar = marks.collect(case['grammar'])
    else:
        grammar = marks.mark(case['grammar'], case['marks'])
    grammar['relations'] = relations
    lexicon = W.Lexicon(case['lexicon'])
    reference = model.Model(grammar, lexicon)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, words)
        if item is not None and len(item) <= 7:
            texts.append(item)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.stub_tokenizer(lexicon)
    )
    for item in texts:
        text = ' '.join(item)
        tokens = model.tokenize(text, lexicon=lexicon)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
            derive = reference.derivations(tokens, ends, 3000)
            best = {}
            for start, stop in reference.ranges(tokens, ends):
                fact = None
                facts = []
                for index, tree in enumerate(derive(start, stop)):
                    value = interp.Evaluator(marks.FACTS, tokens).run(tree)
                    value = [_.value for _ in value.values['p']]
                    facts.append(value)
                    if fact is None and interp.solve(
                            tree, tokens, relations) is not None:
                        fact = value
                        if index:
                            ctx.label('first derivation is rejected')
                            ctx.nontrivial()
                if fact is not None:
                    best[start, stop] = fact
                if len(facts) > 1 and facts[0] != facts[1]:
                    ctx.nontrivial()
                    ctx.label('order is visible')
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        match = parser.match(text)
        equal(
            match and match.fact.p, best.get((0, len(tokens))),
            'fact of match(%r)' % text
        )
        want = [
            (tokens[start].start, tokens[stop - 1].stop, best[start, stop])
            for start, stop in model.best_selection(best)
        ]
        got = [
            (_.span.start, _.span.stop, _.fact.p)
            for _ in parser.findall(text)
        ]
        equal(got, want, 'findall(%r) with facts' % text)
    ctx.label(*gens.grammar_features(grammar))
