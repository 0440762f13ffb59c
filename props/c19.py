from hypothesis import strategies as st

from lib import gens, interp, marks, model, spec, words as W
from lib.harness import Skip, equal

RULE = (
    'Random phrase rule (nested rules with and without main marks, optional '
    'parts, repetitions, alternatives, gazetteers, shared and recursive '
    'rules, names, interpretations) put in a relation with one more word on '
    'its left or right. Every word has its own combination of cases, so the '
    'relation holds only for the partner of the main word; every partner is '
    'tried. Non-trivial: the main word is not the first word of the phrase, '
    'or some part is absent.'
)
TECHNIQUE = (
    'property-based testing: main word observed through agreement, against '
    'the main word of enumerated derivations'
)
NOTE = (
    'For every text and every candidate word the phrase has to agree with '
    'the partner of this word exactly when some derivation has the word as '
    'its main one (followed through marks, absent items skipped). Acyclic '
    'grammars, up to 8 words.'
)
QUICK = 1110
THOROUGH = 15000
LIMIT = 800
RU = ['ба', 'во', 'гу', 'ду', 'жи', 'зо']
PARTNERS = ['ка', 'ла', 'ма', 'на', 'па', 'ра']
ALPHABET = RU + ['x']
MASKS = [
    ['nomn'], ['gent'], ['datv', 'nomn'], ['accs'], ['ablt', 'loct'],
    ['nomn', 'gent', 'voct']
]
ANY = ['or', [['case'], ['not', ['case']]]]
LEXICON = dict(
    [(word, [[word, grams]]) for word, grams in zip(RU, MASKS)]
    + [(word, [[word, grams]]) for word, grams in zip(PARTNERS, MASKS)]
)

TERMINALS = st.one_of(
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(ALPHABET), st.integers(0, 2)),
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(RU), st.integers(0, 2)),
    st.builds(lambda g, s: ['p', ['in', g], s],
              st.lists(st.sampled_from(RU), min_size=1, max_size=4),
              st.integers(0, 2)),
    st.builds(lambda k, g: ['pipe', k, g],
              st.sampled_from(['pipeline', 'caseless', 'morph']),
              st.lists(st.sampled_from(
                  ['ба', 'ба во', 'гу ду', 'во гу', 'x ба', 'жи']),
                  min_size=1, max_size=3)),
)


def wrap(draw, expr, cfg):
    if draw(st.booleans()):
        return ['int', expr, ['norm', [['const', 1]]]]
    return ['int', expr, ['fact', marks.FACT]]


WIDE = gens.Config(
    terminals=TERMINALS, wrap=wrap, main=True, depth=3, lets=2, defs=1)
DEEP = gens.Config(
    terminals=TERMINALS, main=True, depth=5, lets=1, recursion=False,
    width=4)


@st.composite
def towers(draw):
    """Main marks at every level, parts that can be absent."""
    words = draw(st.permutations(RU))
    count = [0, 0]
    # words without morphology have no relations
    extra = draw(st.booleans())
    kinds = ['named', 'int', 'rep', 'or', 'seq', 'match']
    if extra:
        kinds.remove('match')

    def build(depth):
        size = draw(st.sampled_from([3, 2, 2, 3, 1]))
        items = []
        for _ in range(size):
            if depth and draw(st.booleans()):
                item = build(depth - 1)
            else:
                item = ['t', words[count[0] % len(words)],
                        draw(st.integers(0, 2))]
                count[0] += 1
            if draw(st.booleans()):
                item = ['opt', item, draw(st.booleans())]
            items.append(item)
        main = draw(st.sampled_from(
            list(range(size))[::-1] + [size - 1, None]))
        expr = ['seq', items, main]
        for kind in draw(st.lists(st.sampled_from(
                kinds), max_size=2)):
            count[1] += 1
            expr = {
                'named': lambda: ['named', expr, 'N'],
                'int': lambda: ['int', expr, ['fact', marks.FACT]],
                'rep': lambda: ['rep', expr, None, 2, False],
                # holds for any words with forms
                'match': lambda: ['match', expr, 'any%d' % (count[1] % 9)],
                'or': lambda: ['or', [
                    expr, ['t', 'x' if extra else words[-1], 0]]],
                'seq': lambda: ['seq', [expr], draw(
                    st.sampled_from([None, 0]))],
            }[kind]()
        return expr

    return {'lets': [], 'defs': [], 'root': build(2)}


@st.composite
def repeats(draw):
    """One rule object in several places of a phrase."""
    group = st.builds(
        lambda g: ['p', ['in', g], 0],
        st.lists(st.sampled_from(RU), min_size=2, max_size=5, unique=True))

    def phrase(parts, size):
        items = []
        for _ in range(size):
            item = draw(st.sampled_from(parts))
            if draw(st.integers(0, 2)) == 0:
                item = ['opt', item, draw(st.booleans())]
            items.append(item)
        return ['seq', items, draw(st.sampled_from(
            list(range(size))[::-1] + [None]))]

    lets = [draw(group)]
    if draw(st.booleans()):
        lets.append(draw(group))
    if draw(st.booleans()):
        lets.append(phrase([['let', _] for _ in range(len(lets))], 2))
    parts = [['let', _] for _ in range(len(lets))]
    root = phrase(parts, draw(st.integers(2, 3)))
    if draw(st.booleans()):
        root = ['or', [root, phrase(parts, 2)]]
    return {'lets': lets, 'defs': [], 'root': root}


@st.composite
def rows(draw):
    """Many words, one of them is marked."""
    size = draw(st.integers(4, 8))
    main = draw(st.one_of(st.none(), st.integers(0, size - 1),
                          st.just(size - 1)))
    items = []
    for index in range(size):
        item = ['t', draw(st.sampled_from(RU if index == (main or 0)
                                          else ALPHABET)),
                draw(st.integers(0, 2))]
        if draw(st.integers(0, 5)) == 0:
            item = ['opt', item, draw(st.booleans())]
        items.append(item)
    root = ['seq', items, main]
    if draw(st.booleans()):
        other = ['t', draw(st.sampled_from(RU)), 0]
        place = draw(st.integers(0, 1))
        pair = [other, other]
        pair[place] = root
        root = ['seq', pair, draw(st.sampled_from([None, place, place]))]
    return {'lets': [], 'defs': [], 'root': root}


def strategy(tier):
    return st.fixed_dictionaries({
        'grammar': st.one_of(
            towers(), towers(), towers(), repeats(), rows(),
            gens.grammars(WIDE), gens.grammars(DEEP)),
        'left': st.booleans(),
        'texts': st.lists(gens.texts(ALPHABET, 5), min_size=1, max_size=2),
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=6),
    })


def words(pred, rng):
    return rng.choice(pred[1]) if pred[0] == 'in' else pred[1]


def check(case, ctx):
    from yargy import Parser
    phrase = case['grammar']
    if gens.has_k1(phrase):
        raise Skip
    lexicon = W.Lexicon(LEXICON)
    reference = model.Model(phrase, lexicon)
    if reference.cyclic():
        raise Skip
    partner = ['match', ['p', ['in', PARTNERS], 0], 'r']
    related = ['match', phrase['root'], 'r']
    grammar = dict(
        phrase,
        root=['seq', [partner, related] if case['left']
              else [related, partner], None],
        relations=dict(
            {'any%d' % _: ANY for _ in range(9)},
            r=['case']),
        facts=marks.FACTS
    )
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.stub_tokenizer(lexicon)
    )
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, words, 6)
        if item is not None and len(item) <= 9:
            texts.append(item)
    for item in texts:
        tokens = model.tokenize(' '.join(item), lexicon=lexicon)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
            derive = reference.derivations(tokens, ends, 1500)
            trees = derive(0, len(tokens)) if tokens else []
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        mains = set()
        for tree in trees:
            position = interp.main_word(tree)
            mains.add(item[position])
            if position:
                ctx.label('main is not the first')
                ctx.nontrivial()
        want = [
            partner for word, partner in zip(RU, PARTNERS) if word in mains
        ]
        if not item and reference.root.id in reference.nullable():
            # the phrase is absent, nothing to agree with
            want = PARTNERS
        if len(mains) > 1:
            ctx.label('several mains')
        if trees and not want:
            ctx.label('main without morphology')
        got = [
            partner for partner in PARTNERS
            if parser.match(' '.join(
                [partner] + item if case['left'] else item + [partner]))
        ]
        equal(
            got, want, 'partners that agree with %r, main words %s' % (
                ' '.join(item), sorted(mains))
        )
        if trees and any(absent(_) for _ in trees[:5]):
            ctx.label('absent parts')
            ctx.nontrivial()
        if want:
            ctx.label('agrees')
    ctx.label(*gens.grammar_features(grammar))


def absent(tree):
    node, start, stop, children = tree
    if start == stop:
        return True
    if node.kind in ('tok', 'pipe'):
        return False
    return any(absent(_) for _ in children)
