from collections import Counter

from hypothesis import strategies as st

from lib import gens, model, spec, words as W
from lib.harness import Skip, equal, expect

RULE = (
    'Random list of phrases (shared words and prefixes, repeats, phrases '
    'inside each other, punctuation, case and spacing oddities) as pipeline, '
    'caseless_pipeline or morph_pipeline, alone and at random places of a '
    'generated grammar; synthetic or real morphology; token types removed '
    'from the tokenizer; tokenizers of the user that join, change or leave '
    'out tokens; blank lines. Texts: random words of the phrases and sampled '
    'derivations. Non-trivial: phrases of two or more words, or several '
    'phrases, are found.'
)
TECHNIQUE = (
    'property-based differential testing: gazetteer against written-out '
    'rules and against direct search of the phrase list'
)
NOTE = (
    'Ranges found by extract, findall and match are compared with (a) the '
    'same grammar where every gazetteer is written out as or_ of rules over '
    'eq / caseless / normalized, and (b) the reference model, which looks '
    'phrases up directly. Bounded phrase lists (up to 7 lines, one case of '
    '2000 lines).'
)
QUICK = 780
THOROUGH = 15000
LIMIT = 1500

WORDS = ['ба', 'во', 'гу', 'ба', 'во', 'Ба', 'БА', 'x', 'X', 'y', '5', '-',
         '№', '.', '«', '»']
ODD = ['ß', 'İ', 'ı', 'ǅ', 'ёж', 'Ёж', 'ς', 'Σ', '中', 'x5', 'ба-во', '$x',
       'ſ', 'K', 'µ', '\n', '٣']
REAL = ['дом', 'дома', 'домов', 'стали', 'сталь', 'мыла', 'мыло', 'белым',
        'площадь', 'ПЛОЩАДИ', 'Саша', 'саше', 'год', 'лет', 'лето', 'и', 'x',
        '5', '-']
GAPS = ['', ' ', ' ', ' ', ' ', '  ', '\t']
LEXICON = st.dictionaries(
    st.sampled_from(['ба', 'во', 'гу']),
    st.lists(st.tuples(
        st.sampled_from(['ба', 'во', 'гу', 'ду']),
        st.lists(st.sampled_from(['NOUN', 'VERB', 'sing']), max_size=2)
    ), min_size=1, max_size=3)
)
KIND = st.sampled_from(['pipeline', 'caseless', 'morph', 'morph'])
REMOVED = st.sampled_from(
    [[], [], [], [], ['INT'], ['PUNCT'], ['EOL'], ['RU'], ['LATIN'],
     ['OTHER'], ['RU', 'LATIN']])


# tokenizers of the user: types that are left out, words that are joined
OWN = ['PUNCT', 'INT', 'LATIN', 'RU', 'join', 'join', 'lower']


def own_tokenizer(base, kind):
    from yargy.span import Span
    from yargy.token import Token
    from yargy.tokenizer import MorphTokenizer

    class Own(MorphTokenizer):
        def __call__(self, text):
            for token in self.changed(list(
                    MorphTokenizer.__call__(self, text))):
                yield token

        def changed(self, tokens):
            if kind == 'join':
                # neighbours without a blank between them are one word
                start = 0
                for index in range(1, len(tokens) + 1):
                    if index == len(tokens) or (
                            tokens[index].span.start
                            > tokens[index - 1].span.stop):
                        yield self.joined(tokens[start:index])
                        start = index
            elif kind == 'lower':
                for token in tokens:
                    yield self.named(token, token.value.lower())
            else:
                for token in tokens:
                    if token.type != kind:
                        yield token

        def joined(self, tokens):
            if len(tokens) == 1:
                return tokens[0]
            return Token(
                ''.join(_.value for _ in tokens),
                Span(tokens[0].span.start, tokens[-1].span.stop), 'WORDS')

        def named(self, token, value):
            item = Token(value, token.span, token.type)
            if hasattr(token, 'forms'):
                item = item.morphed(token.forms)
            return item

    return Own(rules=base.rules, morph=base.morph)


def check_own(case, ctx):
    """Words of lines are those of the tokenizer at hand."""
    from yargy import Parser
    grammar = case['grammar']
    base, lexicon = make_tokenizer(case)
    tokenizer = own_tokenizer(base, case['own'])
    usual = reduced(case['removed'])

    def words_of(line):
        return [_.value for _ in tokenizer(line)]

    if not usable(grammar, words_of):
        raise Skip
    # rules over the same words
    other = {
        key: written(value, words_of) if key == 'root'
        else [written(_, words_of) for _ in value]
        for key, value in grammar.items()
    }
    reference = model.Model(other, lexicon, usual)
    parsers = [
        Parser(spec.Builder(_).root, tokenizer=tokenizer)
        for _ in (grammar, other)]
    texts = [''.join(word + gap for word, gap in _) for _ in case['texts']]
    if grammar['root'][0] == 'pipe':
        for line in grammar['root'][2]:
            texts.append(line)
            # joined words have no normal forms
            if words_of(line) and grammar['root'][1] != 'morph':
                expect(parsers[0].match(line),
                       'phrase %r does not match itself', line)
    for text in texts:
        tokens = [
            model.Tok(_.value, _.span.start, _.span.stop, _.type,
                      spec.forms_of(_)) for _ in tokenizer(text)]
        try:
            reference.effort(tokens, reference.recognize(tokens), LIMIT)
        except model.TooBig:
            continue
        got, want = [outcome(_, text) for _ in parsers]
        equal(got, want, 'gazetteer in %r' % text)
        ctx.nontrivial(got['extract'])
    ctx.label('tokenizer of the user')


def lines(words):
    phrase = st.builds(
        lambda items: ''.join(
            word + gap for word, gap in items
        ),
        st.lists(
            st.tuples(st.sampled_from(words), st.sampled_from(GAPS)),
            min_size=1, max_size=4)
    )
    blank = st.sampled_from(['', ' ', '\t'])
    plain = st.lists(
        st.sampled_from(words[:4]), min_size=1, max_size=3
    ).map(' '.join)
    item = st.one_of(phrase, phrase, plain, plain, plain, plain, blank)
    return st.one_of(
        *[st.lists(item, min_size=size, max_size=7)
          for size in (0, 1, 1, 1, 1, 2, 2, 3)]
    ).flatmap(repeated)


def repeated(lines):
    """Maybe some line once more, the same or with other blanks."""
    if not lines:
        return st.just(lines)
    return st.one_of(
        st.just(lines), st.just(lines),
        st.builds(
            lambda line, gap: lines + [line.replace(' ', gap)],
            st.sampled_from(lines), st.sampled_from([' ', '  ', '\t'])))


@st.composite
def gazetteers(draw, words):
    return ['pipe', draw(KIND), draw(lines(words))]


@st.composite
def strategy(draw, tier):
    real = draw(st.integers(0, 3)) == 0
    words = REAL if real else draw(
        st.sampled_from([WORDS, WORDS, WORDS[:5], WORDS + ODD]))
    gazetteer = gazetteers(words)
    if draw(st.booleans()):
        grammar = {'lets': [], 'defs': [], 'root': draw(gazetteer)}
    else:
        cfg = gens.Config(
            terminals=st.one_of(
                gazetteer, gazetteer,
                st.builds(lambda w: ['t', w, 0], st.sampled_from(words))
            ),
            depth=3, empty=False
        )
        grammar = draw(gens.grammars(cfg))
    return {
        'grammar': grammar,
        'lexicon': None if real else draw(LEXICON),
        # letters without morphology can not be normalized
        'own': draw(st.sampled_from([None] * 5 + OWN)),
        'removed': draw(REMOVED.filter(lambda _: not real or 'RU' not in _)),
        'texts': draw(st.lists(st.lists(
            st.tuples(st.sampled_from(words), st.sampled_from(GAPS)),
            max_size=9), min_size=1, max_size=4)),
        'seeds': draw(st.lists(
            st.integers(0, 1000), min_size=1, max_size=5)),
    }


def cases(tier):
    for kind in ('pipeline', 'caseless', 'morph'):
        yield {'big': 2000, 'kind': kind}


def words(pred, rng):
    return pred[1]


def split(line, classes):
    if callable(classes):
        return classes(line)
    return [_.value for _ in model.tokenize(line, classes)]


def written(expr, classes):
    """The grammar without gazetteers."""
    kind = expr[0]
    if kind == 'pipe':
        items = []
        for line in expr[2]:
            parts = [
                {
                    'pipeline': ['t', _, 0],
                    'caseless': ['p', ['caseless', _], 0],
                    'morph': ['p', ['norm', _], 0],
                }[expr[1]]
                for _ in split(line, classes)
            ]
            if not parts:
                continue
            items.append(['seq', parts, None])
        return ['or', items]
    elif kind in ('seq', 'or'):
        return [kind, [written(_, classes) for _ in expr[1]]] + expr[2:]
    elif kind in ('opt', 'rep', 'named', 'int', 'match'):
        return [kind, written(expr[1], classes)] + expr[2:]
    return expr


def usable(grammar, classes):
    """Empty lists have no written-out form."""
    return all(
        any(split(line, classes) for line in expr[2])
        for expr in gens.walk_exprs(grammar)
        if expr[0] == 'pipe'
    )


def reduced(removed):
    return [_ for _ in model.CLASSES if _[0] not in removed]


def make_tokenizer(case):
    if case['lexicon'] is None:
        if case['removed']:
            from yargy.tokenizer import MorphTokenizer
            tokenizer = MorphTokenizer(morph=spec.real_tokenizer().morph)
        else:
            tokenizer = spec.real_tokenizer()
        lexicon = W.real_lexicon
    else:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
    if case['removed']:
        tokenizer.remove_types(*case['removed'])
    return tokenizer, lexicon


def check(case, ctx):
    if 'big' in case:
        return check_big(case, ctx)
    from yargy import Parser
    grammar = case['grammar']
    if gens.has_k1(grammar):
        raise Skip
    if case.get('own'):
        return check_own(case, ctx)
    classes = reduced(case['removed'])
    both = usable(grammar, classes)
    tokenizer, lexicon = make_tokenizer(case)
    reference = model.Model(grammar, lexicon, classes)
    parser = Parser(spec.Builder(grammar).root, tokenizer=tokenizer)
    other = None
    if both:
        plain = {
            key: [written(_, classes) for _ in value]
            if isinstance(value, list) else written(value, classes)
            for key, value in grammar.items() if key != 'root'
        }
        plain['root'] = written(grammar['root'], classes)
        other = Parser(spec.Builder(plain).root, tokenizer=tokenizer)

    texts = [''.join(word + gap for word, gap in _) for _ in case['texts']]
    for seed in case['seeds']:
        item = reference.sample(seed, words, 6)
        if item is not None and len(item) <= 9:
            texts.append(' '.join(item))
            texts.append('во ' + ' '.join(item).lower() + ' ба')
    root = grammar['root']
    if root[0] == 'pipe':
        # every phrase finds itself
        for line in root[2]:
            if not split(line, classes):
                ctx.label('blank phrase')
                continue
            match = parser.match(line)
            expect(match, 'phrase %r of %r does not match itself', line, root)
            texts.append(line)
    for text in texts:
        tokens = model.tokenize(text, classes, lexicon)
        ends = reference.recognize(tokens)
        try:
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        ranges = reference.ranges(tokens, ends)

        def spans(items):
            return [
                (tokens[start].start, tokens[stop - 1].stop)
                for start, stop in items
            ]

        want = {
            'extract': sorted(spans(ranges)),
            'findall': spans(model.best_selection(ranges)),
            'match': (0, len(tokens)) in ranges,
        }
        got = outcome(parser, text)
        count = got.pop('count')
        equal(got, want, 'gazetteer in %r' % text)
        if other:
            got = outcome(other, text)
            equal(count, got.pop('count'),
                  'number of matches of extract in %r' % text)
            equal(got, want, 'written-out in %r' % text)
        ctx.nontrivial(
            any(stop - start > 1 for start, stop in ranges)
            or len(ranges) > 1
        )
        if ranges:
            ctx.label('found')
    for expr in gens.walk_exprs(grammar):
        if expr[0] == 'pipe':
            ctx.label(expr[1])
    ctx.label('alone' if root[0] == 'pipe' else 'in a grammar')
    ctx.label('real words' if case['lexicon'] is None else 'stub words')
    if case['removed']:
        ctx.label('types removed')
    if not both:
        ctx.label('empty gazetteer')


def outcome(parser, text):
    found = [tuple(_.span) for _ in parser.extract(text)]
    return {
        'count': sorted(Counter(found).items()),
        'extract': sorted(set(found)),
        'findall': [tuple(_.span) for _ in parser.findall(text)],
        'match': bool(parser.match(text)),
    }


def check_big(case, ctx):
    """Long list: all pairs of words."""
    from yargy import Parser
    from yargy.pipelines import (
        pipeline, caseless_pipeline, morph_pipeline
    )
    letters = 'абвгдежзиклмнопрстуфхц'
    words = [a + b for a in letters for b in letters][:case['big'] // 4]
    phrases = ['%s %s' % (words[_ * 7 % len(words)], words[_ % len(words)])
               for _ in range(case['big'] // 2)]
    phrases += ['%s %s %s' % (words[_ * 3 % len(words)], words[_ % 10], 'я')
                for _ in range(case['big'] // 4)]
    phrases += words
    make = {
        'pipeline': pipeline, 'caseless': caseless_pipeline,
        'morph': morph_pipeline
    }[case['kind']]
    parser = Parser(
        make(phrases), tokenizer=spec.stub_tokenizer(W.Lexicon({})))
    for line in phrases[::9] + words[::5]:
        match = parser.match(line)
        expect(match is not None, 'phrase %r does not match itself', line)
        equal([_.value for _ in match.tokens], line.split(), 'tokens')
    for text in ['аа яя', 'я', 'цц', 'ааа']:
        want = text in phrases
        equal(bool(parser.match(text)), want, 'match %r' % text)
    ctx.nontrivial()
    ctx.label('long list')
