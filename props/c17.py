import itertools

from hypothesis import strategies as st

from lib import model, spec, words as W
from lib.harness import Violation, equal, expect

RULE = (
    'All pairs of sets of the grammemes a relation looks at (gender 128 x '
    '128, number 16 x 16, case 256 x 256), all pairs of tags of the '
    'dictionary reduced to these grammemes, and random pairs with unrelated '
    'grammemes added; random pairs are also asked through a parser with two '
    'words of up to three forms. Non-trivial (random part): forms that agree '
    'in some of gender, number, case and not in others.'
)
TECHNIQUE = (
    'exhaustive enumeration and property-based testing: relation tables '
    'against the stated conditions, symmetry and reflexivity'
)
NOTE = (
    'gender, number and case are enumerated completely over the grammemes '
    'they depend on; gnc is enumerated over the tags of the dictionary and '
    'random sets; acceptance by a parser is existence of an agreeing pair of '
    'forms.'
)
QUICK = 1200
THOROUGH = 15000

GENDER = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'plur']
NUMBER = ['sing', 'plur', 'Sgtm', 'Pltm']
CASE = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd']
NOISE = ['NOUN', 'ADJF', 'anim', 'inan', 'Name', 'Surn', 'Geox', 'Abbr',
         'VERB', 'tran', 'past', 'gen1', 'gen2', 'loc2', 'Orgn', 'UNKN',
         'LATN', 'Infr', 'Qual']
RELATIONS = ['gender', 'number', 'case', 'gnc']


def subsets(items):
    for size in range(len(items) + 1):
        for value in itertools.combinations(items, size):
            yield frozenset(value)


def form(grams):
    from yargy.morph import Form, Grams
    return Form('x', Grams(frozenset(grams)))


def check_pair(name, relation, a, b, first, second, want=None):
    if want is None:
        want = model.relation_holds([name], a, b)
    got = bool(relation(first, second))
    if got != want:
        raise Violation(
            '%s of %s and %s: got %s, expected %s' % (
                name, sorted(a), sorted(b), got, want),
            key={'pair': [sorted(a), sorted(b)]}
        )


def table(name, grams, shard, shards, ctx):
    relation = spec.relation([name])
    sets = list(subsets(grams))
    forms = [form(_) for _ in sets]
    answers = {}
    for index, a in enumerate(sets):
        if index % shards != shard:
            continue
        for other, b in enumerate(sets):
            check_pair(name, relation, a, b, forms[index], forms[other])
            check_pair(
                name, relation, b, a, forms[other], forms[index],
                # symmetry
                bool(relation(forms[index], forms[other]))
            )
            ctx.evaluations += 1
            count(ctx, name + ' pairs')


def dictionary_tags():
    """Distinct tags of the dictionary reduced to what relations look at."""
    relevant = set(GENDER + NUMBER + CASE)
    tags = set()
    for paradigm in W.pymorphy().dictionary.gramtab:
        tags.add(frozenset(paradigm.grammemes) & relevant)
    return sorted(tags, key=sorted)


def exhaustive(tier, shard, shards, ctx):
    for name, grams in [
            ('gender', GENDER), ('number', NUMBER), ('case', CASE)
    ]:
        table(name, grams, shard, shards, ctx)
    tags = dictionary_tags()
    forms = [form(_) for _ in tags]
    relations = {_: spec.relation([_]) for _ in RELATIONS}
    for index, a in enumerate(tags):
        if index % shards != shard:
            continue
        reflexive(a, relations)
        for other, b in enumerate(tags):
            for name in RELATIONS:
                check_pair(
                    name, relations[name], a, b, forms[index], forms[other])
            ctx.evaluations += 1
            count(ctx, 'pairs of dictionary tags')


def count(ctx, name):
    ctx.labels[name] = ctx.labels.get(name, 0) + 1


def reflexive(grams, relations):
    item = form(grams)
    carries = {
        'gender': grams & {'masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr'},
        'number': grams & {'sing', 'plur'},
        'case': grams & set(CASE),
    }
    carries['gnc'] = all(carries.values())
    for name in RELATIONS:
        if carries[name] and not relations[name](item, item):
            raise Violation(
                '%s does not agree with itself in %s' % (sorted(grams), name),
                key={'pair': [sorted(grams), sorted(grams)]}
            )


GRAMS = st.one_of(
    st.lists(st.sampled_from(GENDER + NUMBER + CASE), max_size=5,
             unique=True),
    st.builds(
        lambda a, b, c, d: [_ for _ in (a, b, c) if _] + d,
        st.sampled_from(GENDER + [None]), st.sampled_from(NUMBER + [None]),
        st.sampled_from(CASE + [None]),
        st.lists(st.sampled_from(NUMBER + CASE + NOISE), max_size=3)
    )
)


def strategy(tier):
    pair = st.fixed_dictionaries({
        'pair': st.lists(GRAMS, min_size=2, max_size=2),
        'noise': st.lists(
            st.sampled_from(NOISE), max_size=4, unique=True),
    })
    words = st.fixed_dictionaries({
        'first': st.lists(GRAMS, min_size=1, max_size=3),
        'second': st.lists(GRAMS, min_size=1, max_size=3),
    })
    real = st.fixed_dictionaries({
        'real': st.lists(
            st.sampled_from(W.NOUNS + W.ADJS + W.OTHERS),
            min_size=2, max_size=2),
    })
    return st.one_of(pair, words, real)


def check(case, ctx):
    relations = {_: spec.relation([_]) for _ in RELATIONS}
    if 'pair' in case:
        a, b = [frozenset(_) for _ in case['pair']]
        answers = set()
        noise = frozenset(case.get('noise', ()))
        for x, y in [(a, b), (b, a), (a | noise, b), (a, b | noise),
                     (a | noise, b | noise)]:
            for name in RELATIONS:
                want = model.relation_holds([name], a, b)
                check_pair(name, relations[name], x, y, form(x), form(y),
                           want)
                answers.add(want)
        for grams in (a, b):
            reflexive(grams, relations)
        ctx.nontrivial(len(answers) == 2)
        ctx.label('pair')
        return

    if 'real' in case:
        first, second = case['real']
        lexicon = W.real_lexicon
        tokenizer = spec.real_tokenizer()
        ctx.label('real words')
    else:
        first, second = 'ба', 'во'
        lexicon = W.Lexicon({
            'ба': [['ба', _] for _ in case['first']],
            'во': [['во', _] for _ in case['second']],
        })
        tokenizer = spec.stub_tokenizer(lexicon)
        ctx.label('words')
    from yargy import Parser, rule
    from yargy.predicates import eq
    answers = set()
    for name in RELATIONS:
        want = any(
            model.relation_holds([name], a, b)
            for _, a in lexicon(first) for _, b in lexicon(second)
        )
        for x, y in [(first, second), (second, first)]:
            relation = relations[name]
            parser = Parser(
                rule(eq(x).match(relation), eq(y).match(relation)),
                tokenizer=tokenizer
            )
            text = '%s %s' % (x, y)
            equal(parser.match(text) is not None, want,
                  '%r agrees in %s' % (text, name))
        answers.add(want)
    ctx.nontrivial(len(answers) == 2)
