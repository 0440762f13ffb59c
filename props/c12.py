from hypothesis import strategies as st

from lib import model, spec, words as W
from lib.harness import Skip, equal, expect
from props import c10

RULE = (
    'Texts of dictionary words, their mutations and arbitrary Unicode with '
    'the real analyser (cached, uncached, asked in any order and again) and '
    'with synthetic analysers; random sets of grammemes. Non-trivial: text '
    'with two or more Russian words of which one has several forms.'
)
TECHNIQUE = (
    'property-based testing: differential against pymorphy2 called directly '
    'and against synthetic analysers'
)
NOTE = (
    'Forms, their order, normal forms, grammemes and inflections are '
    'compared with direct calls of pymorphy2; the cache is also driven past '
    'its size of 10000 words. Trusts pymorphy2 itself.'
)
QUICK = 1050
THOROUGH = 12000

WORD = st.one_of(
    st.sampled_from(W.WORDS), st.sampled_from(W.WORDS),
    st.builds(str.upper, st.sampled_from(W.WORDS)),
    st.builds(str.title, st.sampled_from(W.WORDS)),
    st.builds(
        lambda a, b, c: a[:c] + b + a[c:],
        st.sampled_from(W.WORDS), st.sampled_from('абвгдеёоуьъ'),
        st.integers(0, 4)
    ),
    st.text(st.sampled_from('абвгдеёжзийклмнопрстуфхцчшщъыьэюя'),
            min_size=1, max_size=7),
    st.sampled_from(['5', 'abc', '-', 'x', 'їжак', 'из-за']),
    # long words with common beginnings and endings
    st.builds(
        lambda a, n, b: a * n + b,
        st.sampled_from(['достопримечательн', 'само', 'пере', 'сверх']),
        st.integers(1, 6),
        st.sampled_from(['ость', 'ый', 'ая', 'стали', 'дом', 'ости', 'ого'])),
)
# ordinary and rare grammemes
GRAMS = sorted(set(W.GRAM_POOL) | {
    'gen1', 'gen2', 'acc2', 'loc2', 'anim', 'inan', 'UNKN', 'Surn', 'Abbr',
    'masculine', 'Nomn', ''
})


def strategy(tier):
    texts = st.builds(' '.join, st.lists(WORD, max_size=6))
    real = st.fixed_dictionaries({
        'texts': st.lists(
            st.one_of(texts, texts, c10.TEXT), min_size=1, max_size=3),
        'grams': st.lists(
            st.sampled_from(W.GRAM_POOL[3:]), max_size=3, unique=True),
    })
    forms = st.lists(st.tuples(
        st.sampled_from(W.STEMS),
        st.lists(st.sampled_from(W.GRAM_POOL), max_size=5, unique=True)
    ), min_size=1, max_size=4)
    fake = st.fixed_dictionaries({
        'lexicon': st.dictionaries(st.sampled_from(W.STEMS), forms),
        'texts': st.lists(st.builds(
            ' '.join, st.lists(st.sampled_from(
                W.STEMS + ['x', '5', 'ВО', '-']), max_size=5)
        ), min_size=1, max_size=3),
        'grams': st.lists(
            st.sampled_from(W.GRAM_POOL), max_size=3, unique=True),
    })
    views = st.fixed_dictionaries({
        'view': st.lists(st.sampled_from(GRAMS), max_size=6, unique=True),
        'other': st.lists(st.sampled_from(GRAMS), max_size=6, unique=True),
    })
    return st.one_of(real, real, fake, views)


def cases(tier):
    yield {'evict': 10500}
    for size in (2, 5, 16, 40, 80):
        for one, two in [('ость', 'ый'), ('дом', 'домами'), ('ый', 'ость')]:
            base = ('сверхдостопримечательн' * 4)[:size]
            yield {'texts': [base + one + ' ' + base + two, base + one],
                   'grams': ['plur', 'datv']}
            yield {'texts': [one + base + ' ' + two + base], 'grams': []}
    for gram in W.GRAM_POOL:
        yield {'view': [gram], 'other': []}


_ANALYSERS = []


def analysers():
    from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer
    if not _ANALYSERS:
        _ANALYSERS.append(MorphAnalyzer(W.pymorphy()))
        _ANALYSERS.append(CachedMorphAnalyzer())
    return _ANALYSERS


def check(case, ctx):
    if 'evict' in case:
        check_evict(case['evict'])
    elif 'view' in case:
        check_views(case['view'], case['other'])
        ctx.label('views')
    elif 'lexicon' in case:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
        use(tokenizer, case['texts'])
        for text in case['texts']:
            check_tokens(text, tokenizer, lexicon, ctx)
            for token in tokenizer(text):
                for form in getattr(token, 'forms', ()):
                    raw = W.FakeParse(
                        token.value, form.normalized, form.grams.values)
                    check_inflect(form, raw, case['grams'])
        ctx.label('synthetic analyser')
    else:
        check_real(case, ctx)


def check_tokens(text, tokenizer, lexicon, ctx):
    tokens = list(tokenizer(text))
    reference = model.tokenize(text, lexicon=lexicon)
    equal(
        c10.view(tokens),
        [(_.value, _.start, _.stop, _.type) for _ in reference],
        'tokens of %r' % text
    )
    equal(
        tokenizer.split(text), [_.value for _ in reference],
        'split of %r' % text
    )
    several = 0
    for token, want in zip(tokens, reference):
        equal(
            spec.forms_of(token), want.forms, 'forms of %r' % token.value)
        several += bool(want.forms and len(want.forms) > 1)
        equal(
            token.normalized,
            want.forms[0][0] if want.forms else token.value.lower(),
            'normal form of %r' % token.value
        )
    russian = [_ for _ in reference if _.forms is not None]
    ctx.nontrivial(several and len(russian) > 1)
    return tokens


def check_inflect(form, raw, grams):
    for value in (set(grams), None):
        record = raw.inflect(value if value is not None else {'nomn', 'sing'})
        want = record.word if record else form.normalized
        got = form.inflect(value) if value is not None else form.inflect()
        equal(got, want, 'inflection of %r to %r' % (
            form.normalized, value and sorted(value)))


def check_real(case, ctx):
    tokenizer = spec.real_tokenizer()
    plain, cached = analysers()
    use(tokenizer, case['texts'])
    for text in case['texts']:
        tokens = check_tokens(text, tokenizer, W.real_lexicon, ctx)
        for token in tokens:
            if token.type != 'RU':
                continue
            word = token.value
            want = W.real_lexicon(word)
            for analyser in (plain, cached, tokenizer.morph):
                got = [
                    (_.normalized, frozenset(_.grams.values))
                    for _ in analyser(word)
                ]
                equal(got, want, 'analysis of %r' % word)
                equal(
                    analyser.normalized(word), {norm for norm, grams in want},
                    'normal forms of %r' % word
                )
            records = W.pymorphy().parse(word)
            for form, raw in zip(token.forms, records):
                check_inflect(form, raw, case['grams'])
    ctx.label('real analyser')


_USERS = {}


def use(tokenizer, texts):
    """Parse texts; forms the tokenizer gives afterwards are the same."""
    from yargy import Parser, rule
    from yargy.predicates import normalized, true
    from yargy.relations import gnc_relation
    from yargy.interpretation import fact
    key = id(tokenizer)
    if key not in _USERS:
        if len(_USERS) > 20:
            _USERS.clear()
        relation = gnc_relation()
        pair = fact('pair', ['first', 'second'])
        _USERS[key] = tokenizer, Parser(rule(
            rule(true()).match(relation).interpretation(
                pair.first.inflected()),
            rule(normalized('один')).optional(),
            rule(true()).match(relation).interpretation(
                pair.second.normalized()),
        ).interpretation(pair), tokenizer=tokenizer)
    _, parser = _USERS[key]
    for text in texts:
        for match in parser.findall(text):
            match.fact


def check_views(grams, other):
    from yargy.morph import Grams
    item = Grams(frozenset(grams))
    check_view(item, set(grams))
    # views of one do not depend on another
    check_view(Grams(frozenset(other)), set(other))
    check_view(item, set(grams))


def check_view(item, grams):
    gender, number, case = item.gender, item.number, item.case
    equal(
        (gender.male, gender.female, gender.neutral, gender.bi,
         gender.general),
        ('masc' in grams, 'femn' in grams, 'neut' in grams,
         'ms-f' in grams or 'Ms-f' in grams, 'GNdr' in grams),
        'gender of %r' % sorted(grams)
    )
    equal(
        (number.single, number.plural, number.only_single,
         number.only_plural),
        ('sing' in grams, 'plur' in grams, 'Sgtm' in grams, 'Pltm' in grams),
        'number of %r' % sorted(grams)
    )
    equal(
        (list(case.mask), case.fixed),
        ([_ in grams for _ in model.CASES], 'Fixd' in grams),
        'case of %r' % sorted(grams)
    )
    for gram in GRAMS:
        equal(gram in item, gram in grams, '%r in grams' % gram)


def check_evict(count):
    """More words than the cache keeps, then the first ones again."""
    plain, cached = analysers()
    letters = 'абвгдежзик'
    words = W.WORDS + [
        ''.join(letters[int(_)] for _ in '%05d' % index)
        for index in range(count)
    ]
    for word in words:
        cached(word)
    for word in W.WORDS + words[-20:] + words[:200:10]:
        got = [
            (_.normalized, frozenset(_.grams.values)) for _ in cached(word)
        ]
        equal(got, W.real_lexicon(word), 'analysis of %r' % word)
