from hypothesis import strategies as st

from lib import doc, gens, marks, model, spec, words as W
from lib.harness import Skip, equal, expect
from props import c03, c07, c18, c26

RULE = (
    'Documentation grammars on mutated fragments and generated grammars '
    '(agreement, gazetteers, tags, facts that show the derivation) on random '
    'words: blanks between tokens replaced, added and removed where tokens '
    'stay the same; tokens given through a pass-through tokenizer as list, '
    'tuple, iterator or generator; random tokens filtered out; the same '
    'tokens given to several parsers; tokens built by hand with any type and '
    'forms. Non-trivial: a match in the text, and the text or the tokens '
    'changed.'
)
TECHNIQUE = (
    'metamorphic property testing on token sequences, and the reference '
    'parser for tokens made by hand'
)
NOTE = (
    'Matches are compared token index by token index (values, types, forms, '
    'tags, fact, json, spans). Facts are compared where adjacent tokens stay '
    'adjacent and separate ones separate, since text of facts has a blank '
    'between separate tokens.'
)
QUICK = 920
THOROUGH = 12000
LIMIT = 800
BLANKS = [' ', '  ', '\t', '\u00a0', '\u2003', '\x0b', '\x1f', '\u3000 ',
          ' \t ', '\u2028', '\x85']
EDGES = ['', '', '', '', '', '', '', '\ufeff', '\u200b', '\x00']
EOLS = ['\n', '\r\n', ' \n ']
GAPS = ['', ' ', ' ', '  ', '\t']
FEEDS = ['list', 'tuple', 'iterator', 'generator']
RELATIONS = st.fixed_dictionaries({'r0': c03.RELATION, 'r1': c03.RELATION})
CHANGES = {
    'blanks': st.lists(st.integers(0, 99), min_size=1, max_size=12),
    'toggle': st.lists(st.booleans(), min_size=1, max_size=12),
    'mask': st.lists(st.integers(0, 4), min_size=1, max_size=12),
    'feed': st.sampled_from(FEEDS),
    'eol': st.booleans(),
    'edges': st.tuples(st.sampled_from(EDGES), st.sampled_from(EDGES)),
}
FORM = st.tuples(
    st.sampled_from(c18.RU),
    st.lists(st.sampled_from(c18.FEW), max_size=3, unique=True)
)
TOKEN = st.tuples(
    st.sampled_from(c18.ALPHABET + ['Ба', '-', '\n']),
    st.sampled_from(['RU', 'LATIN', 'INT', 'RU', 'RU', 'W', 'EOL', 'PUNCT',
                     'OTHER']),
    st.one_of(st.none(), st.lists(FORM, max_size=3),
              st.lists(FORM, min_size=1, max_size=3)),
    st.integers(0, 3)
)


@st.composite
def documents(draw):
    name = draw(st.sampled_from(c26.NAMES))
    return dict(
        {key: draw(value) for key, value in CHANGES.items()},
        kind='doc', name=name, other=draw(st.sampled_from(c26.NAMES)),
        texts=draw(st.lists(c26.texts(name, 1, 4), min_size=1, max_size=2))
    )


@st.composite
def programs(draw):
    word = st.tuples(st.sampled_from(c07.ALPHABET), st.sampled_from(GAPS))
    return dict(
        {key: draw(value) for key, value in CHANGES.items()},
        kind='grammar',
        grammar=draw(st.one_of(
            gens.grammars(c03.RELATED), gens.grammars(c07.CFG),
            gens.grammars(c07.CFG))),
        marks=draw(st.integers(0, 10000)),
        lexicon=draw(c07.LEXICON), relations=draw(RELATIONS),
        texts=draw(st.lists(
            st.lists(word, max_size=6), min_size=1, max_size=2)),
        seeds=draw(st.lists(
            st.integers(0, 1000), min_size=1, max_size=3)),
    )


@st.composite
def by_hand(draw):
    terminals = st.one_of(
        st.just(['p', ['true'], 0]), st.just(['p', ['true'], 0]),
        st.just(['p', ['true'], 0]), c18.TERMINALS,
        st.builds(lambda t: ['p', ['type', t], 0],
                  st.sampled_from(['RU', 'LATIN', 'INT'])))
    return {
        'kind': 'tokens',
        'grammar': draw(st.one_of(
            st.builds(
                lambda root: {'lets': [], 'defs': [], 'root': root},
                c18.phrases(terminals, 2, 4)),
            gens.grammars(c18.FREE))),
        'relations': draw(st.fixed_dictionaries({
            name: c18.RELATION for name in c18.NAMES})),
        'tokens': draw(st.lists(
            st.lists(TOKEN, min_size=draw(st.integers(0, 3)), max_size=5),
            min_size=2, max_size=8)),
        'feed': draw(st.sampled_from(FEEDS)),
        # tokens given several times in a row
        'same': draw(st.lists(
            st.sampled_from([1, 1, 1, 2, 2, 3]), max_size=4)),
    }


def strategy(tier):
    return st.one_of(documents(), programs(), by_hand())


def pass_through(tokenizer):
    from yargy.tokenizer import Tokenizer

    class PassThrough(Tokenizer):
        # as in the cookbook
        def __init__(self):
            pass

        def split(self, text):
            return tokenizer.split(text)

        def check_type(self, type):
            return tokenizer.check_type(type)

        @property
        def morph(self):
            return tokenizer.morph

        def __call__(self, tokens):
            return tokens

    return PassThrough()


def feed(tokens, kind):
    if kind == 'tuple':
        return tuple(tokens)
    elif kind == 'iterator':
        return iter(tokens)
    elif kind == 'generator':
        return (_ for _ in tokens)
    return list(tokens)


def view(match, tokens, fact=True):
    """Spans as positions of tokens."""
    item = spec.match_view(match, fact=fact)
    if item is None:
        return
    starts = {tuple(_.span)[0]: index for index, _ in enumerate(tokens)}
    stops = {tuple(_.span)[1]: index for index, _ in enumerate(tokens)}

    def place(span):
        return starts.get(span[0]), stops.get(span[1])

    item['span'] = place(item['span'])
    item['tokens'] = [
        (value, place(span), type, tag)
        for value, span, type, tag in item['tokens']
    ]
    if 'spans' in item:
        item['spans'] = [place(_) for _ in item['spans']]
    return item


def outcome(parser, make, tokens, fact=True):
    return {
        'match': view(parser.match(make()), tokens, fact),
        'find': view(parser.find(make()), tokens, fact),
        'findall': [
            view(_, tokens, fact) for _ in parser.findall(make())],
        'extract': [
            view(_, tokens, fact) for _ in parser.extract(make())],
    }


def same_tokens(text, tokens, classes):
    """Tokens keep their values and types."""
    return [(_.value, _.type) for _ in model.tokenize(text, classes)] == [
        (_.value, _.type) for _ in tokens]


def respaced(tokens, blanks, pool):
    text = pool[blanks[0] % len(pool)] if blanks[0] % 3 else ''
    for index, token in enumerate(tokens):
        if index and tuple(token.span)[0] > tuple(tokens[index - 1].span)[1]:
            text += pool[blanks[index % len(blanks)] % len(pool)]
        text += token.value
    if blanks[-1] % 2:
        text += pool[blanks[-1] % len(pool)]
    return text


def toggled(tokens, toggle):
    """Blanks added and removed."""
    text = ''
    for index, token in enumerate(tokens):
        if index:
            gap = tuple(token.span)[0] > tuple(tokens[index - 1].span)[1]
            if gap != toggle[index % len(toggle)]:
                text += ' '
        text += token.value
    return text


def own_token(token):
    from yargy.token import Token, MorphToken
    if not _OWN:
        class Word(Token):
            page = None

        class MorphWord(MorphToken):
            page = None

        _OWN.extend([Word, MorphWord])
    Word, MorphWord = _OWN
    if type(token) is MorphToken:
        return MorphWord(token.value, token.span, token.type, token.forms)
    elif type(token) is Token:
        return Word(token.value, token.span, token.type)
    return token


_OWN = []


def token_view(token):
    return (token.value, tuple(token.span), token.type,
            spec.forms_of(token), getattr(token, 'tag', None))


def make_tokenizer(case):
    if case['kind'] == 'doc':
        lexicon = None
        if 'noeol' not in _TOKENIZERS:
            from yargy.tokenizer import MorphTokenizer
            _TOKENIZERS['noeol'] = MorphTokenizer(
                morph=spec.real_tokenizer().morph).remove_types('EOL')
        return spec.real_tokenizer() if case['eol'] else (
            _TOKENIZERS['noeol'])
    tokenizer = spec.stub_tokenizer(W.Lexicon(case['lexicon']))
    if not case['eol']:
        tokenizer.remove_types('EOL')
    return tokenizer


_TOKENIZERS = {}
_PARSERS = {}


def parsers_of(case, tokenizer):
    """Parser of texts, parser of tokens, parser of tokens for other rules."""
    from yargy import Parser
    through = pass_through(tokenizer)
    if case['kind'] == 'doc':
        result = []
        for name, wrap in [(case['name'], False), (case['name'], True),
                           (case['other'], True)]:
            key = name, wrap, case['eol']
            if key not in _PARSERS:
                _PARSERS[key] = Parser(
                    spec.Builder(doc.GRAMMARS[name]).root,
                    tokenizer=through if wrap else tokenizer)
            result.append(_PARSERS[key])
        return result
    grammar = marks.mark(case['grammar'], case['marks'])
    grammar['relations'] = case['relations']
    if gens.has_k1(grammar):
        raise Skip
    builder = spec.Builder(grammar)
    tagger = spec.word_tagger(c07.TAGGERS[1])
    try:
        return [
            Parser(rule, tokenizer=item, tagger=tagger)
            for rule, item in [
                (builder.root, tokenizer), (builder.root, through),
                (builder.root.repeatable(max=2), through)]
        ]
    except ValueError:
        # unknown token type
        raise Skip


def texts_of(case, tokenizer):
    if case['kind'] == 'doc':
        return case['texts']
    grammar = case['grammar']
    reference = model.Model(
        dict(grammar, relations=case['relations']), W.Lexicon({}))
    texts = [''.join(a + b for a, b in _) for _ in case['texts']]
    for seed in case['seeds']:
        item = reference.sample(seed, c07.sample_word, 5)
        if item is not None and len(item) <= 7:
            texts.append(' '.join(item))
    probe = model.Model(
        dict(grammar, relations=case['relations'],
             root=['rep', grammar['root'], None, 2, False]), W.Lexicon({}))
    result = []
    for text in texts:
        try:
            c07.any_model(probe, model.tokenize(text))
        except model.TooBig:
            continue
        result.append(text)
    return result


def check(case, ctx):
    if case['kind'] == 'tokens':
        return check_tokens(case, ctx)
    tokenizer = make_tokenizer(case)
    classes = [_ for _ in model.CLASSES if case['eol'] or _[0] != 'EOL']
    pool = BLANKS if case['eol'] else BLANKS + EOLS
    first, last = case.get('edges', ['', ''])
    texts = [first + _ + last for _ in texts_of(case, tokenizer)]
    parser, through, other = parsers_of(case, tokenizer)
    ctx.label(case['kind'])
    for text in texts:
        tokens = list(tokenizer(text))
        if len(tokens) > 30:
            continue
        before = [token_view(_) for _ in tokens]
        want = outcome(parser, lambda: text, tokens)
        if want['extract']:
            ctx.label('matches')

        # other blanks
        changed = respaced(tokens, case['blanks'], pool)
        if same_tokens(changed, tokens, classes):
            moved = list(tokenizer(changed))
            equal(outcome(parser, lambda: changed, moved), want,
                  '%r re-spaced as %r' % (text, changed))
            ctx.nontrivial(changed != text and want['extract'])
            ctx.label('re-spaced')
        changed = toggled(tokens, case['toggle'])
        if same_tokens(changed, tokens, classes):
            moved = list(tokenizer(changed))
            equal(
                outcome(parser, lambda: changed, moved, fact=False),
                outcome(parser, lambda: text, tokens, fact=False),
                '%r with blanks changed %r' % (text, changed)
            )
            if changed != text:
                ctx.label('blanks added or removed')

        # ready tokens, also after other parsers had them
        for _ in range(2):
            got = outcome(
                through, lambda: feed(tokens, case['feed']), tokens)
            equal(got, want, 'tokens (%s) of %r' % (case['feed'], text))
            list(other.findall(tokens))
            other.match(feed(tokens, case['feed']))
        # tokens of classes of the user
        equal(outcome(through, lambda: [own_token(_) for _ in tokens], tokens),
              want, 'tokens of other classes of %r' % text)
        equal([token_view(_) for _ in tokens], before,
              'tokens of %r after parsing' % text)
        for match in through.extract(tokens):
            for token in match.tokens:
                expect(any(
                    token.value == _.value and token.span == _.span
                    for _ in tokens), 'token %r was not given', token)

        # filtered tokens
        mask = case['mask']
        kept = [_ for index, _ in enumerate(tokens)
                if mask[index % len(mask)]]
        changed = respaced(kept, [3], [' '])
        if kept != tokens and same_tokens(changed, kept, classes):
            moved = list(tokenizer(changed))
            equal(
                outcome(through, lambda: feed(kept, case['feed']), kept),
                outcome(parser, lambda: changed, moved),
                'tokens of %r filtered to %r' % (text, changed)
            )
            ctx.label('filtered')
            for match in through.findall(kept):
                equal(tuple(match.span), (
                    match.tokens[0].span.start, match.tokens[-1].span.stop
                ), 'span of filtered tokens')
                ctx.label('match in filtered tokens')


def check_tokens(case, ctx):
    from yargy import Parser
    from yargy.morph import Form, Grams
    from yargy.span import Span
    from yargy.token import Token
    grammar = dict(case['grammar'], relations=case['relations'])
    if gens.has_k1(grammar):
        raise Skip
    lexicon = W.Lexicon({})
    reference = model.Model(grammar, lexicon)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    tokenizer = spec.stub_tokenizer(lexicon)
    parser = Parser(
        spec.Builder(grammar).root, tokenizer=pass_through(tokenizer))
    for items in case['tokens']:
        tokens = []
        plain = []
        offset = 0
        for value, type, forms, gap in items:
            offset += gap
            token = Token(value, Span(offset, offset + len(value)), type)
            kept = None
            if forms is not None:
                token = token.morphed([
                    Form(norm, Grams(set(grams)), raw=W.FakeParse(
                        value, norm, frozenset(grams)))
                    for norm, grams in forms
                ])
                kept = [(norm, frozenset(grams)) for norm, grams in forms]
            tokens.append(token)
            plain.append(model.Tok(
                value, offset, offset + len(value), type, kept))
            offset += len(value)
        same = case.get('same')
        if same and tokens:
            check_same(parser, reference, tokens, plain, case, ctx)
        if not tokens:
            expect(parser.match(tokens) is None, 'match of no tokens')
            equal(list(parser.findall(tokens)), [], 'matches of no tokens')
            continue
        c18.check_text(
            parser, reference, tokens, lexicon, case['relations'], ctx,
            tokens=plain, view=full_view)
        moved = []
        for index, token in enumerate(tokens):
            # words of several texts, pages, columns
            size = len(token.value)
            place = (index * 7 + 3) % 11 * 20
            other = Token(token.value, Span(place, place + size), token.type)
            if spec.forms_of(token) is not None:
                other = other.morphed(token.forms)
            moved.append(other)
        equal(offset_free(parser, moved), offset_free(parser, tokens),
              'matches in tokens with other offsets')
        for match in list(parser.findall(moved)) + [parser.match(moved)]:
            if match is not None:
                equal(tuple(match.span), (
                    match.tokens[0].span.start, match.tokens[-1].span.stop
                ), 'span of tokens with other offsets')
    ctx.label('tokens by hand')


def check_same(parser, reference, tokens, plain, case, ctx):
    """Equal tokens in a row are several tokens."""
    same = case['same']
    if "'match'" in repr(case['grammar']):
        # equal tokens are one word for relations
        return
    counts = [same[_ % len(same)] for _ in range(len(tokens))]
    order = [
        index for index, count in enumerate(counts) for _ in range(count)]
    if len(order) > 6 or len(order) == len(tokens):
        return
    repeated = [tokens[_] for _ in order]
    c18.check_text(
        parser, reference, repeated, None, case['relations'], ctx,
        tokens=[plain[_] for _ in order], view=full_view)
    ctx.label('equal tokens in a row')


def offset_free(parser, tokens):
    def view(match):
        return [
            (_.value, _.type, c18.sorted_forms(_)) for _ in match.tokens]

    match = parser.match(tokens)
    return (
        match and view(match), [view(_) for _ in parser.findall(tokens)],
        sorted(map(repr, map(view, parser.extract(tokens))))[:100]
    )


def full_view(token, forms):
    if isinstance(token, model.Tok):
        span = (token.start, token.stop)
    else:
        span = tuple(token.span)
    return token.value, span, token.type, forms
