import sys

from hypothesis import strategies as st

from lib import model, spec, words as W
from lib.harness import Violation, equal, expect, fail
from props import c27

RULE = (
    'Every predicate of the bank with random parameters on tokens of random '
    'text (Unicode case oddities, numbers of any length and script, '
    'synthetic and real morphology, tags); asked directly and through a '
    'parser; also on tokens made by hand, where the same word has any type, '
    'forms and tag; and every single code point. Non-trivial: the predicate is true on one token and false on '
    'another one.'
)
TECHNIQUE = (
    'property-based testing: conditions of predicates restated over the '
    'reference tokens'
)
NOTE = (
    'The answer on every token is compared with the documented condition '
    'evaluated on reference tokens (own scanner, forms from pymorphy2 or the '
    'synthetic lexicon), directly after activation, through findall and, all '
    'of them in one grammar, through extract.'
)
QUICK = 1500
THOROUGH = 20000

VALUES = ['x', 'X', 'Xx', 'xX', 'ß', 'ẞ', 'SS', 'ss', 'İ', 'i', 'ı', 'I',
          'ǆ', 'ǅ', 'Ǆ', 'ﬁ', 'ба', 'Ба', 'БА', 'бА', 'во', 'Во', 'гу', 'ду',
          'ёж', 'Ёж', '5', '05', '005', '50', '7', '٣', '-', '.', '№', 'ªb',
          'ⅷ', 'Ⅷ', '中', '0', '10', '100', '99', '12', 'жи', 'зо', 'Σ', 'σ',
          'ς', 'ΑΣ', 'ας', '²', '①', '½', '๕', '५', '5²', '7①', '𝟓']
NUMBERS = st.one_of(
    st.integers(-2, 120), st.sampled_from([0, 5, 10, 50, 100, 10 ** 30]))
WORD = st.one_of(
    st.sampled_from(VALUES), st.sampled_from(VALUES),
    st.sampled_from(['\n', ' ', 'x ', ' 5', ' ба', '\t-', '\r\n']),
    st.sampled_from(W.STEMS), st.builds(str, st.integers(0, 120)),
    st.sampled_from(['9' * 30, '1' + '0' * 30, '0' * 25 + '5', '9' * 5000]),
)
BIG = '9' * 5000
PREDICATE = st.one_of(
    st.builds(lambda v: ['eq', v], WORD),
    st.builds(lambda v: ['caseless', v], WORD),
    st.builds(lambda v: ['in', v], st.lists(WORD, max_size=4)),
    st.builds(lambda v: ['incl', v], st.lists(WORD, max_size=4)),
    st.builds(lambda v: ['gte', v], NUMBERS),
    st.builds(lambda v: ['lte', v], NUMBERS),
    st.builds(lambda v: ['len', v], st.integers(0, 4)),
    st.sampled_from([['lower'], ['upper'], ['title'], ['cap'], ['true'],
                     ['single']]),
    st.builds(lambda v: ['gram', v], st.sampled_from(W.GRAM_POOL)),
    st.builds(lambda v: ['norm', v], st.sampled_from(W.STEMS + ['x', 'Xx'])),
    st.builds(lambda v: ['dict', v], st.lists(
        st.sampled_from(W.STEMS + ['x', '5', 'Ба']), max_size=3)),
    st.builds(lambda v: ['type', v], st.sampled_from(
        ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER'])),
    st.builds(lambda v: ['tag', v], st.sampled_from(['A', 'B'])),
    st.builds(lambda f, t: ['custom', f, t],
              st.sampled_from(['even', 'vowel', 'short', 'text', 'count',
                               'found']),
              st.sampled_from([None, ['RU'], ['INT'], ['INT', 'LATIN'], ['OTHER']])),
    st.just(['custom', 'int_even', ['INT']]),
)
FORMS = st.lists(st.tuples(
    st.sampled_from(W.STEMS),
    st.lists(st.sampled_from(W.GRAM_POOL), max_size=5, unique=True)
), min_size=1, max_size=3)
LEXICON = st.dictionaries(st.sampled_from(W.STEMS), FORMS)
TAGS = st.dictionaries(
    st.sampled_from(VALUES), st.sampled_from(['A', 'B']), max_size=12)
# tokens by hand, nothing follows from the word
SAME = st.sampled_from(['ба', 'x', '5', 'Ба', '-'])
GIVEN = st.tuples(
    st.one_of(SAME, SAME, WORD),
    st.sampled_from(['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']),
    st.one_of(st.none(), st.lists(st.tuples(
        st.sampled_from(W.STEMS),
        st.lists(st.sampled_from(W.GRAM_POOL), max_size=3, unique=True)
    ), max_size=3)),
    st.sampled_from([None, 'A', 'B'])
)


def strategy(tier):
    return st.fixed_dictionaries({
        'predicates': st.lists(PREDICATE, min_size=1, max_size=5),
        'words': st.lists(WORD, min_size=1, max_size=10),
        'lexicon': st.one_of(LEXICON, LEXICON, st.none()),
        'tags': TAGS,
        'given': st.lists(GIVEN, min_size=1, max_size=8),
    })


REAL = ['gram', 'norm', 'dict', 'single']


def cases(tier):
    # real words, every grammeme
    for gram in W.GRAM_POOL + ['ADJS', 'INFN', 'PREP', 'UNKN', 'anim']:
        yield {
            'predicates': [['gram', gram], ['single']], 'lexicon': None,
            'words': W.WORDS, 'tags': {}, 'given': []
        }
    for word in W.WORDS:
        yield {
            'predicates': [['norm', word], ['dict', [word, 'дом']]],
            'lexicon': None, 'words': W.WORDS + ['x', '5'], 'tags': {},
            'given': []
        }


    # numbers of any length, next to the bound
    for text in ['9' * 4000, '9' * 4001, '1' + '0' * 4299, '7' * 4300,
                 '12345678' * 600, '0' * 4100 + '17', '3' + '0' * 9000 + '1',
                 '٣' * 4500, '9' * 18, '9' * 19, '18446744073709551616',
                 '4294967296', '0' * 30]:
        yield {'number': text}


def check_number(case, ctx):
    from yargy import Parser, and_, rule
    from yargy.predicates import gte, lte
    text = case['number']
    number = 0
    for char in text:
        number = number * 10 + int(char)
    for low, high in [(number, number), (number - 1, number + 1),
                      (number + 1, number + 1), (number - 1, number - 1),
                      (number // 10, number * 10), (number * 10 + 9, number)]:
        for predicate, want in [
                (gte(low), number >= low), (lte(high), number <= high),
                (and_(gte(low), lte(high)), low <= number <= high)]:
            match = Parser(
                rule(predicate), tokenizer=spec.plain_tokenizer()
            ).match(text)
            expect(
                bool(match) == want, 'number of %s digits, bound off by %s',
                len(text), [min(abs(low - number), 99),
                            min(abs(high - number), 99)])
            ctx.nontrivial()
    ctx.label('long number')


def setup(case):
    """Tokens of yargy and of the model."""
    text = ' '.join(case['words'])
    tags = case['tags']
    if case['lexicon'] is None:
        lexicon = W.real_lexicon
        tokenizer = spec.real_tokenizer()
    else:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
    tagger = spec.word_tagger(dict(tags, **{'\0A': 'A', '\0B': 'B'}))
    reference = model.tokenize(text, lexicon=lexicon)
    for token in reference:
        token.tag = tags.get(token.value)
    tokens = list(tagger(tokenizer(text)))
    equal([_.value for _ in tokens], [_.value for _ in reference], 'tokens')
    return text, tokenizer, tagger, tokens, reference, lexicon


def check(case, ctx):
    if 'number' in case:
        return check_number(case, ctx)
    if 'points' in case:
        return check_points(*case['points'])
    from yargy import Parser, rule
    from yargy.parser import Context
    text, tokenizer, tagger, tokens, reference, lexicon = setup(case)
    context = Context(tokenizer, tagger)
    answers = []
    for item in case['predicates']:
        predicate = spec.predicate(item)
        active = predicate.activate(context)
        want = [
            bool(model.test_predicate(item, _, lexicon)) for _ in reference
        ]
        got = [bool(active(_)) for _ in tokens]
        equal(
            show(got, tokens), show(want, tokens),
            'tokens where %s holds' % item
        )
        matches = Parser(
            rule(predicate), tokenizer=tokenizer, tagger=tagger
        ).findall(text)
        equal(
            [tuple(_.span) for _ in matches],
            [(_.start, _.stop) for _, ok in zip(reference, want) if ok],
            'matches of rule(%s)' % item
        )
        answers.append(want)
        ctx.nontrivial(True in want and False in want)
        ctx.label(item[0])
    together(case['predicates'], answers, text, reference, tokenizer, tagger)
    by_hand(case, lexicon, tokenizer, ctx)


def by_hand(case, lexicon, tokenizer, ctx):
    """One word with other types, forms and tags."""
    from yargy import Parser, rule
    from yargy.morph import Form, Grams
    from yargy.span import Span
    from yargy.tagger import Tagger
    from yargy.token import Token

    class Keep(Tagger):
        tags = {'A', 'B'}

        def __call__(self, tokens):
            return tokens

    reference = []
    tokens = []
    for start, (value, type, forms, tag) in enumerate(
            case.get('given', [])):
        if type == 'INT' and not value.isdecimal():
            type = 'OTHER'
        token = Token(value, Span(start, start + 1), type)
        if forms is not None:
            token = token.morphed([
                Form(norm, Grams(set(grams)), raw=W.FakeParse(
                    value, norm, frozenset(grams)))
                for norm, grams in forms
            ])
            forms = [(norm, frozenset(grams)) for norm, grams in forms]
        if tag:
            token = token.tagged(tag)
        tokens.append(token)
        reference.append(model.Tok(value, start, start + 1, type, forms))
        reference[-1].tag = tag
    values = {_.value for _ in reference}
    for item in case['predicates']:
        want = [
            bool(model.test_predicate(item, _, lexicon)) for _ in reference]
        parser = Parser(
            rule(spec.predicate(item)),
            tokenizer=c27.pass_through(tokenizer), tagger=Keep())
        equal(
            [tuple(_.span) for _ in parser.findall(tokens)],
            [(_.start, _.stop) for _, ok in zip(reference, want) if ok],
            'matches of rule(%s) in tokens made by hand' % item)
        answers = {
            (_.value, ok) for _, ok in zip(reference, want)}
        if len(answers) > len(values):
            ctx.label('one word, both answers')


def together(predicates, answers, text, reference, tokenizer, tagger):
    """All predicates in one grammar, asked about the same tokens."""
    from yargy import Parser, rule, or_
    from yargy.interpretation import fact
    fact = fact('F', ['x'])
    parser = Parser(or_(*[
        rule(spec.predicate(item)).interpretation(
            fact.x.const(index))
        for index, item in enumerate(predicates)
    ]).interpretation(fact), tokenizer=tokenizer, tagger=tagger)
    got = sorted(
        (_.span.start, _.fact.x) for _ in parser.extract(text)
    )
    want = sorted(
        (token.start, index)
        for index, answer in enumerate(answers)
        for token, ok in zip(reference, answer) if ok
    )
    equal(got, want, 'tokens and predicates of one grammar')


TURNS = [
    lambda c: c, lambda c: 'a' + c, lambda c: 'A' + c, lambda c: c + 'a',
    lambda c: c + 'A', lambda c: c + c, lambda c: '1' + c,
]
SIMPLE = [
    ['lower'], ['upper'], ['title'], ['cap'], ['true'], ['single'],
    ['len', 1], ['len', 2], ['eq', 'Ss'], ['in', ['a', 'i', 'K']],
    ['caseless', 'ss'], ['caseless', 'k'], ['incl', ['İ', 'Å', 'S']],
    ['gte', 5], ['lte', 5], ['norm', 'k'], ['dict', ['ς', 'i']],
]


def exhaustive(tier, shard, shards, ctx):
    """Every code point, alone and next to letters."""
    step = 512
    for index, start in enumerate(range(0, sys.maxunicode + 1, step)):
        if index % shards != shard:
            continue
        try:
            check_points(start, start + step)
        except Violation as violation:
            for point in range(start, start + step):
                try:
                    check_points(point, point + 1)
                except Violation as single:
                    single.key = {'points': [point, point + 1]}
                    raise single
            violation.key = {'points': [start, start + step]}
            raise violation
        ctx.evaluations += step
        ctx.labels['code points'] = ctx.labels.get('code points', 0) + step


def check_points(start, stop):
    from yargy.parser import Context
    from yargy.span import Span
    from yargy.tagger import PassTagger
    from yargy.token import Token
    lexicon = W.Lexicon({})
    context = Context(spec.stub_tokenizer(lexicon), PassTagger())
    active = [
        (item, spec.predicate(item).activate(context)) for item in SIMPLE]
    for point in range(start, stop):
        char = chr(point)
        # others have no case and are no numbers
        special = char.lower() != char.upper() or char.isalnum()
        for turn in TURNS if special else TURNS[:1]:
            value = turn(char)
            type = 'INT' if value.isdecimal() else 'OTHER'
            token = Token(value, Span(0, len(value)), type)
            other = model.Tok(value, 0, len(value), type)
            for item, predicate in active:
                if bool(predicate(token)) != bool(
                        model.test_predicate(item, other, lexicon)):
                    fail('%s is %s on %r', item, predicate(token), token)


def show(answers, tokens):
    return [
        (index, token.value[:30])
        for index, (answer, token) in enumerate(zip(answers, tokens))
        if answer
    ]
