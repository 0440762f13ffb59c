from hypothesis import strategies as st

from lib import gens, interp, model, spec, words as W
from lib.harness import Skip, equal

RULE = (
    'Phrases of two to six words where words and nested rules carry up to '
    'three relation objects (two of the same kind), with main marks, '
    'optional and repeated parts, alternatives, predicates that narrow forms '
    'and words without morphology; lexicons of up to four forms per word '
    'with few grammemes, so that sets of forms shrink in several steps, up to eight; real '
    'adjectives and nouns. Non-trivial: a match where relations drop some '
    'form of a word, or a candidate range rejected by relations.'
)
TECHNIQUE = (
    'property-based testing: greatest consistent sets of forms computed by '
    'an independent solver over enumerated derivations'
)
NOTE = (
    'For every range the derivations are enumerated in order, the first one '
    'whose related words keep forms gives acceptance and kept forms; match, '
    'findall and extract are compared with this, token by token and form by '
    'form. Up to 7 words, rows of related words up to 10.'
)
QUICK = 1160
THOROUGH = 20000
LIMIT = 1500
RU = ['ба', 'во', 'гу', 'ду']
ALPHABET = RU + ['x', '5']
NAMES = ['r0', 'r1', 'r2']
GRAMS = ['masc', 'femn', 'neut', 'ms-f', 'GNdr', 'sing', 'plur', 'Sgtm',
         'nomn', 'gent', 'datv', 'Fixd', 'NOUN', 'ADJF']
FEW = ['masc', 'femn', 'sing', 'plur', 'nomn', 'gent']

PREDICATE = st.one_of(
    st.sampled_from([['true'], ['true'], ['true'], ['single'], ['type', 'RU'],
                     ['cap']]),
    st.builds(lambda g: ['gram', g], st.sampled_from(GRAMS)),
    st.builds(lambda g: ['not', ['gram', g]], st.sampled_from(GRAMS)),
    st.builds(lambda a, b: ['and', [['gram', a], ['gram', b]]],
              st.sampled_from(FEW), st.sampled_from(FEW)),
    st.builds(lambda a: ['and', [['gram', a]]], st.sampled_from(FEW)),
    st.builds(lambda a: ['or', [['gram', a], ['single']]],
              st.sampled_from(FEW)),
    st.builds(lambda w: ['norm', w], st.sampled_from(RU)),
    st.sampled_from([['first'], ['own', ['single']], ['own', ['gram', 'sing']],
                     ['own', ['first']]]),
)
TERMINALS = st.one_of(
    st.builds(lambda p, s: ['p', p, s], PREDICATE, st.integers(0, 2)),
    st.builds(lambda p, s: ['p', p, s], PREDICATE, st.integers(0, 2)),
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(ALPHABET), st.integers(0, 2)),
)


def wrap(draw, expr, cfg):
    return ['match', expr, draw(st.sampled_from(NAMES))]


FREE = gens.Config(
    terminals=TERMINALS, nested_ext=False, wrap=wrap, main=True, depth=3,
    recursion=False, empty=False, lets=1)
RELATION = st.sampled_from([
    ['gender'], ['number'], ['case'], ['gnc'], ['gnc'],
    ['and', [['gender'], ['number']]], ['or', [['gender'], ['case']]],
    ['not', ['number']], ['not', ['gender']],
])


def lexicons(grams):
    form = st.tuples(
        st.sampled_from(RU),
        st.lists(st.sampled_from(grams), max_size=3, unique=True)
    )
    return st.fixed_dictionaries({
        word: st.lists(form, min_size=1, max_size=4) for word in RU
    })


@st.composite
def phrases(draw, terminals, low=2, high=5):
    """Words in a row, without ambiguity about the structure."""
    def word():
        item = draw(terminals)
        for name in draw(st.lists(
                st.sampled_from(NAMES), max_size=2)):
            item = ['match', item, name]
        return item

    items = [word() for _ in range(draw(st.integers(low, high)))]
    # group neighbours: a phrase agrees through its main word
    for _ in range(draw(st.integers(0, 2))):
        if len(items) < 2:
            break
        start = draw(st.integers(0, len(items) - 2))
        stop = draw(st.integers(start + 1, min(start + 3, len(items))))
        main = draw(st.one_of(
            st.none(), st.integers(0, stop - start - 1)))
        group = ['seq', items[start:stop], main]
        if draw(st.booleans()):
            group = ['match', group, draw(st.sampled_from(NAMES))]
        if draw(st.integers(0, 3)) == 0:
            group = ['opt', group, draw(st.booleans())]
        items[start:stop] = [group]
    return ['seq', items, draw(st.one_of(
        st.none(), st.integers(0, len(items) - 1)))]


@st.composite
def chains(draw):
    """Long chains of words, each related to its neighbour only."""
    size = draw(st.integers(3, 6))
    items = []
    for index in range(size):
        item = ['p', ['true'], 0]
        for name in ('c%d' % index, 'c%d' % (index + 1)):
            if draw(st.integers(0, 9)):
                item = ['match', item, name]
        items.append(item)
    order = draw(st.permutations(list(range(size + 1))))
    kinds = draw(st.lists(
        st.sampled_from([['gender'], ['number'], ['case'], ['gnc']]),
        min_size=size + 1, max_size=size + 1))
    relations = {
        'c%d' % index: kinds[order[index]] for index in range(size + 1)
    }
    return {
        'grammar': {'lets': [], 'defs': [], 'root': ['seq', items, None]},
        'relations': relations,
        'lexicon': draw(lexicons(FEW)),
        'texts': draw(st.lists(st.lists(
            st.sampled_from(RU), min_size=size, max_size=size
        ), min_size=1, max_size=4)),
        'seeds': [],
    }


@st.composite
def dominoes(draw):
    """One word settles its neighbour, that one the next, and so on."""
    size = draw(st.integers(5, 9))
    order = draw(st.permutations(list(range(size))))
    relations = {}
    items = [['p', ['true'], 0] for _ in range(size)]
    # neighbours of a hidden order, words come in any order
    names = draw(st.permutations(list(range(size - 1))))
    for index in range(size - 1):
        name = 'c%d' % names[index]
        relations[name] = draw(st.sampled_from(
            [['gender'], ['number'], ['case'], ['gnc']]))
        for spot in (order[index], order[index + 1]):
            items[spot] = ['match', items[spot], name]
    one, two = ['masc', 'sing', 'nomn'], ['femn', 'plur', 'gent']
    free, pinned = RU[:2]
    text = [free] * size
    text[order[draw(st.sampled_from([0, 0, size - 1, size // 2]))]] = pinned
    last = list(text)
    last[order[draw(st.integers(0, size - 1))]] = RU[2]
    return {
        'grammar': {'lets': [], 'defs': [], 'root': ['seq', items, None]},
        'relations': relations,
        'lexicon': {
            free: draw(st.permutations([['ба', one], ['во', two]])),
            pinned: [['во', draw(st.sampled_from([one, two]))]],
            RU[2]: [['гу', draw(st.sampled_from([one, two]))]],
            RU[3]: [['ду', []]],
        },
        'texts': [text, last],
        'seeds': [],
    }


@st.composite
def wide(draw):
    """Many words in one relation, which need not be transitive."""
    size = draw(st.integers(5, 10))
    names = draw(st.lists(
        st.sampled_from([['r0'], ['r0'], ['r0'], ['r0', 'r1'], []]),
        min_size=size, max_size=size))
    items = []
    for index in range(size):
        item = ['p', ['true'], 0]
        for name in names[index]:
            item = ['match', item, name]
        items.append(item)
    # mostly forms that go with anything
    free = {'gender': ['GNdr', 'ms-f', 'plur'], 'number': ['sing', 'plur'],
            'case': ['Fixd']}
    kind = draw(st.sampled_from(['gender', 'gender', 'number', 'case']))
    other = ['masc', 'femn', 'neut', 'nomn', 'gent', 'datv', 'sing']
    some = st.lists(
        st.sampled_from(free[kind]), min_size=1, max_size=2, unique=True)
    form = st.tuples(st.sampled_from(RU), st.one_of(
        some, some, st.lists(st.sampled_from(other), max_size=2,
                             unique=True)))
    return {
        'grammar': {'lets': [], 'defs': [], 'root': ['seq', items, None]},
        'relations': {'r0': [kind], 'r1': draw(RELATION)},
        'lexicon': draw(st.fixed_dictionaries({
            word: st.lists(form, min_size=1, max_size=3) for word in RU})),
        'texts': draw(st.lists(st.lists(
            st.sampled_from(RU), min_size=size, max_size=size
        ), min_size=1, max_size=4)),
        'seeds': [],
    }


@st.composite
def strategy(draw, tier):
    kind = draw(st.integers(0, 11))
    if kind == 11:
        return draw(dominoes())
    if kind == 10:
        return draw(wide())
    if kind == 0:
        return draw(chains())
    real = kind == 1
    words = ALPHABET
    if real:
        words = W.NOUNS[:24] + W.ADJS + W.ADJS + ['x', 'мы', 'и']
    terminals = st.one_of(
        st.just(['p', ['true'], 0]), st.just(['p', ['true'], 0]), TERMINALS)
    if kind in (2, 3, 4):
        grammar = draw(gens.grammars(FREE))
    else:
        grammar = {
            'lets': [], 'defs': [],
            'root': draw(phrases(terminals, 2, 3 if real else 5)),
        }
    return {
        'grammar': grammar,
        'relations': draw(st.fixed_dictionaries({
            name: RELATION for name in NAMES
        })),
        'lexicon': None if real else draw(st.one_of(
            lexicons(GRAMS), lexicons(FEW), lexicons(FEW[:4]))),
        'texts': draw(st.lists(
            gens.texts(words, 6), min_size=1, max_size=3)),
        'seeds': draw(st.lists(
            st.integers(0, 1000), min_size=1, max_size=6)),
    }


def check(case, ctx):
    from yargy import Parser
    grammar = dict(case['grammar'], relations=case['relations'])
    if gens.has_k1(grammar):
        raise Skip
    if case['lexicon'] is None:
        lexicon = W.real_lexicon
        tokenizer = spec.real_tokenizer()
        words = W.NOUNS[:24] + W.ADJS
        ctx.label('real words')
    else:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
        words = RU
        ctx.label('stub words')
    reference = model.Model(grammar, lexicon)
    if reference.cyclic() or not reference.exact_order:
        raise Skip

    def word(pred, rng):
        if pred[0] == 'eq':
            return pred[1]
        items = list(words)
        rng.shuffle(items)
        for item in items + ['Ба', 'x', '5']:
            token = model.tokenize(item, lexicon=lexicon)[0]
            if model.test_predicate(pred, token, lexicon):
                return item
        return 'x'

    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, word, 6)
        if item is not None and len(item) <= 7:
            texts.append(item)
    parser = Parser(spec.Builder(grammar).root, tokenizer=tokenizer)
    for item in texts:
        check_text(
            parser, reference, ' '.join(item), lexicon, case['relations'], ctx
        )
    ctx.label(*gens.grammar_features(grammar))


def check_text(parser, reference, text, lexicon, relations, ctx,
               tokens=None, view=None):
    view = view or show_forms
    if tokens is None:
        tokens = model.tokenize(text, lexicon=lexicon)
    ends = reference.recognize(tokens)
    best = {}
    try:
        reference.effort(tokens, ends, LIMIT)
        derive = reference.derivations(tokens, ends, 3000)
        for start, stop in reference.ranges(tokens, ends):
            for tree in derive(start, stop):
                forms = interp.solve(tree, tokens, relations)
                if forms is not None:
                    break
            if forms is None:
                ctx.label('rejected')
                ctx.nontrivial()
                continue
            narrowed = interp.leaf_forms(tree, tokens)
            if any(len(interp.unique(narrowed[_] or [])) > len(forms[_] or [])
                   for _ in forms):
                ctx.label('forms dropped')
                ctx.nontrivial()
            best[start, stop] = [
                view(tokens[_], sort_forms(forms[_]))
                for _ in range(start, stop)
            ]
    except model.TooBig:
        ctx.label('some texts too ambiguous')
        return

    def span(start, stop):
        return tokens[start].start, tokens[stop - 1].stop

    whole = best.get((0, len(tokens)))
    match = parser.match(text)
    equal(
        match and [view(_, sorted_forms(_)) for _ in match.tokens], whole,
        'forms in match(%r)' % text
    )
    want = [
        (span(*_), best[_]) for _ in model.best_selection(best)
    ]
    got = [
        (tuple(_.span), [
            view(token, sorted_forms(token)) for token in _.tokens
        ])
        for _ in parser.findall(text)
    ]
    equal(got, want, 'findall(%r) with forms' % text)
    equal(
        sorted({tuple(_.span) for _ in parser.extract(text)}),
        sorted({span(*_) for _ in best}),
        'ranges of extract(%r)' % text
    )
    if whole:
        ctx.label('match')


def show_forms(token, forms):
    return forms


def sort_forms(forms):
    if forms is not None:
        return sorted(
            (norm, sorted(grams)) for norm, grams in interp.unique(forms)
        )


def sorted_forms(token):
    return sort_forms(spec.forms_of(token))
