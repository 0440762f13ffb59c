import itertools
from random import Random

from hypothesis import strategies as st

from lib import doc, interp, model, spec, words as W
from lib.harness import equal, expect, raises

RULE = (
    'The grammars of the documentation (names, persons, dates, money, '
    'addresses, titles, references, gazetteers, agreement) and their '
    'combinations on texts of documentation fragments mixed, cut and mutated '
    '(deleted, doubled, swapped, replaced characters, other case, arbitrary '
    'Unicode, changed spacing). Non-trivial: a match in a text that is not a '
    'bare fragment.'
)
TECHNIQUE = (
    'property-based testing with mutated realistic text: reference parser, '
    'reference evaluator of facts, locality as a metamorphic relation'
)
NOTE = (
    'Every match (tokens, kept forms, fact, json, spans) is compared with '
    'the reference with real morphology where the first derivation is known; '
    'ranges always. Joining with a token no predicate accepts is done for '
    'grammars that have one. Texts up to 40 tokens for the reference, 400 '
    'for totality.'
)
QUICK = 1540
THOROUGH = 30000
LIMIT = 3000
SEPARATOR = ' ‡ '
NAMES = sorted(doc.GRAMMARS)
ALL = sorted(_ for items in doc.FRAGMENTS.values() for _ in items)
WORDS = sorted({word for item in ALL for word in item.split()})

FRAGMENT = st.one_of(
    st.sampled_from(ALL), st.sampled_from(ALL), st.sampled_from(ALL),
    st.sampled_from(WORDS),
)
CHARS = st.one_of(
    st.sampled_from('аеЕёЁИйъя .,-«»"()[]$0159\n\r\t\u00a0\u200b\u0301_’—ſßİ٣²'),
    st.characters(),
)
MUTATION = st.one_of(
    st.tuples(st.just('delete'), st.integers(0, 999)),
    st.tuples(st.just('double'), st.integers(0, 999)),
    st.tuples(st.just('swap'), st.integers(0, 999)),
    st.tuples(st.just('case'), st.integers(0, 999)),
    st.tuples(st.just('upper'), st.integers(0, 999)),
    st.tuples(st.just('insert'), st.integers(0, 999), CHARS),
    st.tuples(st.just('replace'), st.integers(0, 999), CHARS),
    st.tuples(st.just('word'), st.integers(0, 999), st.sampled_from(WORDS)),
    st.tuples(st.just('space'), st.integers(0, 999),
              st.sampled_from(['', '  ', '\n', '\t', '\u00a0'])),
)


def kin(name):
    """Fragments made for the grammar."""
    return {
        'geo': 'geo', 'geo name': 'geo', 'person': 'person',
        'name': 'person', 'initials': 'person', 'position': 'person',
        'date': 'date', 'dates': 'date', 'era': 'date', 'period': 'date',
        'money': 'money', 'float': 'money', 'expression': 'money',
        'title': 'title', 'items': 'title', 'joined': 'title',
        'films': 'title', 'reference': 'law', 'size': 'law',
        'companies': 'company', 'address': 'street', 'adjectives': 'words',
    }[name]


@st.composite
def texts(draw, name, low=1, high=5):
    own = st.sampled_from(doc.FRAGMENTS[kin(name)])
    items = draw(st.lists(
        st.one_of(own, own, own, FRAGMENT), min_size=low, max_size=high))
    text = draw(st.sampled_from([' ', ' ', ', ', '\n', '. '])).join(items)
    for item in draw(st.lists(MUTATION, max_size=4)):
        text = mutate(text, *item)
    return text


def mutate(text, kind, position, value=None):
    if not text:
        return value or ''
    position %= len(text)
    left, char, right = text[:position], text[position], text[position + 1:]
    if kind == 'delete':
        return left + right
    elif kind == 'double':
        return left + char + char + right
    elif kind == 'swap':
        return left + right[:1] + char + right[1:]
    elif kind == 'case':
        return left + char.swapcase() + right
    elif kind == 'upper':
        return left + (char + right).upper()
    elif kind == 'insert':
        return left + value + char + right
    elif kind == 'replace':
        return left + value + right
    parts = text.split(' ')
    index = position % len(parts)
    if kind == 'word':
        parts[index] = value
        return ' '.join(parts)
    elif kind == 'space':
        return ' '.join(parts[:index]) + value + ' '.join(parts[index:])


@st.composite
def strategy(draw, tier):
    name = draw(st.sampled_from(NAMES))
    kind = draw(st.integers(0, 11))
    if kind == 0:
        # anything at all
        items = draw(st.lists(st.text(max_size=20), min_size=2, max_size=3))
    elif kind == 1:
        items = [draw(texts(name, 12, 40))] * 2
        return {'name': name, 'long': items[0]}
    else:
        items = draw(st.lists(texts(name), min_size=2, max_size=3))
    return {'name': name, 'texts': items}


def cases(tier):
    for name in NAMES:
        for items in doc.FRAGMENTS.values():
            yield {'name': name, 'texts': items}
    for name in NAMES:
        for seed in range(1 if tier == 'quick' else 6):
            yield {'name': name, 'document': seed}


_PARSERS = {}


def get_parser(name):
    from yargy import Parser
    if name not in _PARSERS:
        grammar = doc.GRAMMARS[name]
        _PARSERS[name] = (
            Parser(spec.Builder(grammar).root,
                   tokenizer=spec.real_tokenizer()),
            model.Model(grammar, W.real_lexicon)
        )
    return _PARSERS[name]


def check(case, ctx):
    name = case['name']
    parser, reference = get_parser(name)
    ctx.label(name)
    if 'document' in case:
        return check_document(name, case['document'], parser, reference, ctx)
    if 'long' in case:
        views = [spec.match_view(_) for _ in parser.findall(case['long'])]
        check_views(views, case['long'], None)
        ctx.label('long text')
        ctx.nontrivial(views)
        return
    views = []
    for text in case['texts']:
        views.append(check_text(name, parser, reference, text, ctx))
        if views[-1]:
            ctx.label('found', name + ' found')
            ctx.nontrivial(text not in ALL)
    if not accepts_all(reference):
        # neighbours do not matter
        text = SEPARATOR.join(case['texts'])
        want = []
        offset = 0
        for part, items in zip(case['texts'], views):
            want.extend(shift(_, offset) for _ in items)
            offset += len(part) + len(SEPARATOR)
        got = [spec.match_view(_) for _ in parser.findall(text)]
        equal(got, want, 'findall of texts with a separator: %r' % text)
        ctx.label('joined')


def check_document(name, seed, parser, reference, ctx):
    """A document of hundreds of fragments, every one found as if alone."""
    if accepts_all(reference):
        return
    random = Random(seed)
    parts = [
        random.choice(doc.FRAGMENTS[kin(name)])
        if random.randrange(6) else random.choice(ALL)
        for _ in range(random.choice([700, 1500, 2200]))
    ]
    cache = {}
    want = []
    offset = 0
    for part in parts:
        if part not in cache:
            cache[part] = [spec.match_view(_) for _ in parser.findall(part)]
        want.extend(shift(_, offset) for _ in cache[part])
        offset += len(part) + len(SEPARATOR)
    text = SEPARATOR.join(parts)
    got = [spec.match_view(_) for _ in parser.findall(text)]
    for a, b in zip(got, want):
        equal(a, b, 'match in a document of %d fragments' % len(parts))
    equal(len(got), len(want), 'number of matches in a document')
    ctx.label('document')
    ctx.nontrivial(want)


def accepts_all(reference):
    token = model.tokenize('‡', lexicon=W.real_lexicon)[0]
    return any(
        node.kind == 'tok' and model.test_predicate(
            node.data, token, W.real_lexicon)
        for node in reference.nodes
    )


def shift(view, offset):
    def move(span):
        return span[0] + offset, span[1] + offset
    view = dict(view, span=move(view['span']))
    view['tokens'] = [
        (value, move(span), type, tag)
        for value, span, type, tag in view['tokens']
    ]
    if 'spans' in view:
        view['spans'] = [move(_) for _ in view['spans']]
    return view


def check_views(views, text, tokens):
    stop = 0
    for view in views:
        start = view['span'][0]
        expect(start >= stop, 'matches overlap in %r', text)
        stop = view['span'][1]
        check_view(view, text, tokens)


def check_view(view, text, tokens):
    start, stop = view['span']
    expect(view['tokens'], 'empty match in %r', text)
    equal(view['tokens'][0][1][0], start, 'start of a match in %r' % text)
    equal(view['tokens'][-1][1][1], stop, 'stop of a match in %r' % text)
    for value, span, _, _ in view['tokens']:
        equal(value, text[span[0]:span[1]], 'token of a match')
    for span in view.get('spans', []):
        expect(start <= span[0] < span[1] <= stop,
               'span %s of the fact is outside of %r', span, view)
    if tokens is not None:
        inside = [
            (_.value, (_.start, _.stop), _.type, _.tag) for _ in tokens
            if start <= _.start and _.stop <= stop
        ]
        equal(view['tokens'], inside, 'tokens of a match in %r' % text)


def check_text(name, parser, reference, text, ctx):
    tokens = model.tokenize(text, lexicon=W.real_lexicon)
    views = [spec.match_view(_) for _ in parser.findall(text)]
    check_views(views, text, tokens)
    match = spec.match_view(parser.match(text))
    everything = [spec.match_view(_) for _ in parser.extract(text)]
    for view in everything:
        check_view(view, text, tokens)
    for view in views:
        expect(view in everything, 'findall gives %r, extract does not', view)
    whole = None
    if tokens:
        whole = tokens[0].start, tokens[-1].stop
    same = [_ for _ in everything if _['span'] == whole]
    equal(match is not None, bool(same), 'match of %r' % text)
    if match:
        expect(match in same, 'match gives %r, extract does not', match)
        equal(views, [match], 'findall of a whole match %r' % text)

    if len(tokens) > 40:
        return views
    ends = reference.recognize(tokens)
    best = expected(name, reference, tokens, ends, ctx)
    if best is None:
        ctx.label('reference gave up')
        return views
    want = model.best_selection(best)
    equal(
        [_['span'] for _ in views],
        [(tokens[a].start, tokens[b - 1].stop) for a, b in want],
        'ranges in %r' % text
    )
    for view, key in zip(views, want):
        tree, forms = best[key]
        if tree is not None:
            check_fact(name, view, tree, forms, tokens, ctx)
    return views


def expected(name, reference, tokens, ends, ctx):
    """Ranges that agree, with derivation and forms."""
    relations = doc.GRAMMARS[name]['relations']
    ranges = reference.ranges(tokens, ends)
    exact = not reference.cyclic() and reference.exact_order
    if not exact:
        if relations:
            return None
        return {_: (None, None) for _ in ranges}
    result = {}
    try:
        reference.effort(tokens, ends, LIMIT)
        derive = reference.derivations(tokens, ends, 4000)
        for key in ranges:
            for tree in derive(*key):
                forms = interp.solve(tree, tokens, relations)
                if forms is not None:
                    result[key] = tree, forms
                    break
            else:
                ctx.label('rejected by relations')
    except model.TooBig:
        return None
    return result


class Word(object):
    def __init__(self, token, form):
        self.token = token
        self.form = form

    def norm(self):
        if self.form is None:
            return self.token.value.lower()
        return self.form[0]

    def inflect(self, grams):
        if self.form is None:
            return self.token.value.lower()
        norm, values = self.form
        raw = [
            _ for _ in W.pymorphy().parse(self.token.value)
            if _.normal_form == norm
            and frozenset(_.tag.grammemes) == values
        ][0]
        record = raw.inflect(set(grams))
        return record.word if record else norm


def check_fact(name, view, tree, forms, tokens, ctx):
    grammar = doc.GRAMMARS[name]
    start, stop = tree[1], tree[2]
    kept = [
        None if forms[_] is None else sorted(
            (norm, sorted(grams)) for norm, grams in interp.unique(forms[_]))
        for _ in range(start, stop)
    ]
    found = [
        None if _ is None else sorted(
            (norm, sorted(grams)) for norm, grams in interp.unique(
                [(norm, tuple(grams)) for norm, grams in _]))
        for _ in view['forms']
    ]
    equal(found, kept, 'forms of %r' % (view['tokens'],))
    related = {
        position
        for _, positions in interp.groups(tree, grammar['relations'])
        for position in positions
    }
    # any of the forms kept by relations
    options = []
    for position in range(start, stop):
        items = forms[position]
        if not items:
            options.append([None])
        elif position in related:
            options.append(items)
        else:
            options.append(items[:1])
    allowed = []
    for choice in itertools.islice(itertools.product(*options), 200):
        evaluator = interp.Evaluator(
            grammar['facts'], tokens,
            lambda _: Word(tokens[_], choice[_ - start]))
        result = raises(evaluator.run, tree)
        if isinstance(result.error, interp.NoFact):
            allowed.append(('ValueError', None, None))
        elif isinstance(result.error, interp.Mixture):
            allowed.append(('TypeError', None, None))
        elif result.error is not None:
            raise result.error
        else:
            allowed.append((
                evaluator.plain(result.value), evaluator.json(result.value),
                sorted(evaluator.spans(result.value))
            ))
    got = view['fact'], view.get('json'), view.get('spans')
    expect(got in allowed, 'fact of %r: got %r, expected %r',
           view['tokens'], got, allowed[:3])
    ctx.label('fact' if view.get('json') else 'no fact')
