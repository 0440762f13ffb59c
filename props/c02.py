from hypothesis import strategies as st

from lib import gens, model, spec
from lib.harness import Skip, equal

RULE = (
    'Random grammar over 3 letters (shared objects, forwards, bounded '
    'repetitions, empty) and texts of up to 9 letters joined by random '
    'spaces: random, sampled from the grammar, and concatenations of samples '
    'with noise. Non-trivial: some text has two derivable ranges that '
    'overlap, and the expected selection is not empty.'
)
TECHNIQUE = (
    'property-based testing: generated grammars and texts against an '
    'independent recogniser of all ranges and an exact optimiser'
)
NOTE = (
    'findall() and find() are compared with the optimal selection computed '
    'by dynamic programming over all ranges derived by the reference '
    'recogniser. Bounded to about 20 grammar nodes and 14 tokens, texts with '
    'a limited number of derivations, except for all texts of a case five '
    'times over in one text with a foreign word between. A second generator builds grammars '
    'that derive an arbitrary set of phrases, for arbitrary sets of ranges.'
)
QUICK = 1380
THOROUGH = 20000
ALPHABET = ['a', 'b', 'c']
CFG = gens.Config(alphabet=ALPHABET)
LIMIT = 4000


def strategy(tier):
    general = st.fixed_dictionaries({
        'grammar': gens.grammars(CFG),
        'texts': st.lists(
            gens.texts(ALPHABET, 9), min_size=1, max_size=4),
        'seeds': st.lists(st.lists(
            st.integers(0, 1000), min_size=1, max_size=3
        ), min_size=1, max_size=4),
        'skin': gens.skins(len(ALPHABET)),
    })
    # any set of phrases over two letters: many overlapping ranges
    phrase = st.lists(
        st.sampled_from(['a', 'b']), min_size=1, max_size=5)
    phrases = st.fixed_dictionaries({
        'phrases': st.lists(phrase, min_size=1, max_size=6),
        'texts': st.lists(
            st.lists(st.sampled_from(['a', 'b', 'b', 'c']), max_size=14),
            min_size=1, max_size=4),
        'skin': gens.skins(len(ALPHABET)),
    })
    # any set of ranges of a text of different words
    interval = st.tuples(st.integers(0, 14), st.integers(1, 9))
    cluster = st.tuples(
        st.integers(0, 12),
        st.lists(st.integers(1, 9), min_size=3, max_size=6, unique=True)
    ).map(lambda _: [(_[0], size) for size in _[1]])
    intervals = st.fixed_dictionaries({
        'size': st.integers(4, 15),
        'intervals': st.tuples(
            st.lists(interval, max_size=8),
            st.lists(cluster, max_size=3)
        ).map(lambda _: _[0] + sum(_[1], [])),
    })
    return st.one_of(general, phrases, intervals)


def check_intervals(case, ctx):
    from yargy import Parser
    size = case['size']
    text = [chr(ord('a') + _) for _ in range(size)]
    ranges = {
        (start, start + length) for start, length in case['intervals']
        if start + length <= size
    }
    if not ranges:
        raise Skip
    # in the order of generation, once
    order = []
    for start, length in case['intervals']:
        item = (start, start + length)
        if item in ranges and item not in order:
            order.append(item)
    grammar = {'lets': [], 'defs': [], 'root': ['or', [
        ['seq', [['t', word, 0] for word in text[start:stop]], None]
        for start, stop in order
    ]]}
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer()
    )
    want = model.best_selection(ranges)
    line = ' '.join(text)
    spans = [(start * 2, stop * 2 - 1) for start, stop in want]
    equal(
        [tuple(_.span) for _ in parser.findall(line)], spans,
        'spans of findall(%r) for ranges %r' % (line, order)
    )
    first = parser.find(line)
    equal(first and tuple(first.span), spans[0], 'span of find')
    ctx.nontrivial(len(ranges) > len(want))
    ctx.label('any ranges')
    starts = [start for start, _ in ranges]
    if any(starts.count(_) > 3 for _ in starts):
        ctx.label('more than 3 ranges from one token')


def words(pred, rng):
    return pred[1]


def check(case, ctx):
    from yargy import Parser
    if 'intervals' in case:
        return check_intervals(case, ctx)
    if 'phrases' in case:
        items = [
            ['seq', [['t', word, 0] for word in phrase], None]
            for phrase in case['phrases']
        ]
        grammar = {'lets': [], 'defs': [], 'root': ['or', items]}
    else:
        grammar = case['grammar']
    skin = case.get('skin')
    grammar = gens.reskin(grammar, ALPHABET, skin)
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar)
    texts = gens.reskin(list(case['texts']), ALPHABET, skin)
    for seeds in case.get('seeds', ()):
        parts = []
        for seed in seeds:
            part = reference.sample(seed, words, 4)
            if part is not None:
                parts.extend(part)
                if seed % 3 == 0:
                    parts.append('x')
        if len(parts) <= 14:
            texts.append(parts)

    parser = Parser(
        spec.Builder(grammar).root, tokenizer=spec.plain_tokenizer()
    )
    known = []
    for item in texts:
        text = (' ' * (len(item) % 3 + 1)).join(item)
        tokens = model.tokenize(text)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        ranges = reference.ranges(tokens, ends)
        want = model.best_selection(ranges)
        matches = list(parser.findall(text))
        got = [tuple(_.span) for _ in matches]
        spans = [
            (tokens[start].start, tokens[stop - 1].stop)
            for start, stop in want
        ]
        equal(got, spans, 'spans of findall(%r)' % text)
        for match, (start, stop) in zip(matches, want):
            equal(spec.values(match), item[start:stop], 'tokens of a match')
        known.append((text, spans))
        first = parser.find(text)
        equal(
            first and tuple(first.span), spans[0] if spans else None,
            'span of find(%r)' % text
        )
        items = sorted(ranges)
        overlap = any(
            a[0] < b[1] and b[0] < a[1]
            for index, a in enumerate(items) for b in items[index + 1:]
        )
        ctx.nontrivial(overlap and want)
        if overlap:
            ctx.label('overlapping ranges')
        if len(want) > 1:
            ctx.label('several matches')
    if known:
        check_joined(parser, known * 5, ctx)
    ctx.label(*gens.grammar_features(grammar))


def check_joined(parser, known, ctx):
    # nothing covers the word between
    separator = ' x '
    text = separator.join(part for part, _ in known)
    want = []
    offset = 0
    for part, spans in known:
        want.extend((a + offset, b + offset) for a, b in spans)
        offset += len(part) + len(separator)
    got = [tuple(_.span) for _ in parser.findall(text)]
    equal(got, want, 'spans of findall(%r)' % text)
    if len(text) > 400:
        ctx.label('text of 400 characters and more')
