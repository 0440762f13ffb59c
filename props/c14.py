from hypothesis import strategies as st

from lib import model, spec, words as W
from lib.harness import Skip, equal, expect, expect_raises
from props import c13

RULE = (
    'Random nested and_/or_/not_ over predicates (also empty and one-part '
    'combinations) on tokens of random text, and over relations on pairs of '
    'random forms; combinations with an operand of another kind. '
    'Non-trivial: nesting of two or more levels that is true somewhere and '
    'false somewhere.'
)
TECHNIQUE = 'property-based testing: Boolean evaluation as the oracle'
NOTE = (
    'Combinations are compared with the Boolean formula over the documented '
    'conditions of the parts, before activation (where parts need none), '
    'after it, through a parser, and for relations through a pair of related '
    'words; parts unknown to tokenizer or tagger must be reported at any '
    'depth.'
)
QUICK = 1500
THOROUGH = 20000
SIMPLE = ('eq', 'caseless', 'in', 'incl', 'gte', 'lte', 'len', 'lower',
          'upper', 'title', 'cap', 'true', 'single')


def nested(leaf):
    return st.recursive(
        leaf,
        lambda inner: st.one_of(
            st.builds(lambda _: ['and', _], st.lists(
                inner, min_size=0, max_size=3)),
            st.builds(lambda _: ['or', _], st.lists(
                inner, min_size=0, max_size=3)),
            st.builds(lambda _: ['and', _], st.lists(
                inner, min_size=1, max_size=3)),
            st.builds(lambda _: ['or', _], st.lists(
                inner, min_size=1, max_size=3)),
            st.builds(lambda _: ['not', _], inner),
        ),
        max_leaves=6
    )


# the last part fails on tokens that the first one sorts out
GUARD = st.one_of(
    st.builds(lambda parts: ['and', [['type', 'INT']] + parts + [
        ['custom', 'int_even', []]]], st.lists(c13.PREDICATE, max_size=1)),
    st.builds(lambda parts: ['or', [['not', ['type', 'INT']]] + parts + [
        ['custom', 'int_even', []]]], st.lists(c13.PREDICATE, max_size=1)),
)
RELATION = nested(st.sampled_from([
    ['gender'], ['number'], ['case'], ['gnc'], ['ordered', 'nomn', 'sing'],
    ['ordered', 'masc', 'nomn']
]))
UNKNOWN = st.sampled_from([['tag', 'NOPE'], ['gram', 'NOPE'],
                           ['type', 'NOPE'], ['custom', 'even', ['NOPE']]])
GRAMS = st.lists(
    st.sampled_from(W.GRAM_POOL[3:-1]), max_size=5, unique=True)


def strategy(tier):
    predicates = st.fixed_dictionaries({
        'predicate': st.one_of(
            nested(c13.PREDICATE), nested(c13.PREDICATE),
            nested(st.one_of(c13.PREDICATE, GUARD)),
            # schemes of the user
            nested(st.one_of(c13.PREDICATE, st.builds(
                lambda _: ['own', _], c13.PREDICATE)))),
        'words': st.lists(c13.WORD, min_size=1, max_size=8),
        'lexicon': c13.LEXICON,
        'tags': c13.TAGS,
    })
    unknown = st.fixed_dictionaries({
        'unknown': st.lists(
            st.tuples(st.sampled_from(['and', 'or', 'not']),
                      st.integers(0, 2)), min_size=1, max_size=4),
        'part': UNKNOWN,
        'others': st.lists(c13.PREDICATE, min_size=2, max_size=2),
    })
    relations = st.fixed_dictionaries({
        'relation': RELATION,
        'forms': st.lists(GRAMS, min_size=2, max_size=4),
    })
    mixed = st.fixed_dictionaries({
        'mixed': st.lists(
            st.sampled_from(['predicate', 'relation', 'rule', 'forward',
                             'str', 'none', 'class']),
            min_size=1, max_size=3),
        'operator': st.sampled_from(['and', 'or', 'not']),
    })
    return st.one_of(predicates, predicates, relations, unknown, mixed)


def depth(item):
    if item[0] in ('and', 'or'):
        return 1 + max([depth(_) for _ in item[1]] or [0])
    elif item[0] == 'not':
        return 1 + depth(item[1])
    return 0


def leaves(item):
    if item[0] in ('and', 'or'):
        for other in item[1]:
            for leaf in leaves(other):
                yield leaf
    elif item[0] == 'not':
        for leaf in leaves(item[1]):
            yield leaf
    else:
        yield item


def has_empty(item):
    if item[0] in ('and', 'or'):
        return not item[1] or any(has_empty(_) for _ in item[1])
    elif item[0] == 'not':
        return has_empty(item[1])
    return False


def check(case, ctx):
    if 'predicate' in case:
        check_predicate(case, ctx)
    elif 'relation' in case:
        check_relation(case, ctx)
    elif 'unknown' in case:
        check_unknown(case, ctx)
    else:
        check_mixed(case, ctx)


def check_predicate(case, ctx):
    from yargy import Parser, rule
    from yargy.parser import Context
    item = case['predicate']
    text, tokenizer, tagger, tokens, reference, lexicon = c13.setup(case)
    predicate = spec.predicate(item)
    want = [
        bool(model.test_predicate(item, _, lexicon)) for _ in reference
    ]
    active = predicate.activate(Context(tokenizer, tagger))
    what = 'tokens where %s holds' % item
    equal(
        c13.show([bool(active(_)) for _ in tokens], tokens),
        c13.show(want, tokens), what
    )
    if all(_[0] in SIMPLE for _ in leaves(item)):
        equal(
            c13.show([bool(predicate(_)) for _ in tokens], tokens),
            c13.show(want, tokens), what + ' before activation'
        )
        ctx.label('before activation')
    matches = Parser(
        rule(predicate), tokenizer=tokenizer, tagger=tagger
    ).findall(text)
    equal(
        [tuple(_.span) for _ in matches],
        [(_.start, _.stop) for _, ok in zip(reference, want) if ok],
        'matches of rule(%s)' % item
    )
    ctx.nontrivial(depth(item) > 1 and True in want and False in want)
    ctx.label('depth %d' % min(depth(item), 4))
    if ['custom', 'int_even', []] in list(leaves(item)):
        ctx.label('guard')


def check_relation(case, ctx):
    from yargy import Parser, rule
    from yargy.morph import Form, Grams
    from yargy.predicates import eq
    item = case['relation']
    relation = spec.relation(item) if not empty_root(item) else None
    if relation is None:
        raise Skip
    answers = set()
    forms = [frozenset(_) for _ in case['forms']]
    for a in forms:
        for b in forms:
            want = model.relation_holds(item, a, b)
            first, second = [
                Form('x', Grams(_)) for _ in (a, b)
            ]
            equal(
                bool(relation(first, second)), want,
                '%s of %r and %r' % (item, sorted(a), sorted(b))
            )
            # the same through a parser
            lexicon = W.Lexicon({
                'ба': [['ба', a]], 'во': [['во', b]]
            })
            parser = Parser(
                rule(eq('ба').match(relation), eq('во').match(relation)),
                tokenizer=spec.stub_tokenizer(lexicon)
            )
            equal(
                parser.match('ба во') is not None, want,
                'words with forms %r and %r agree in %s' % (
                    sorted(a), sorted(b), item)
            )
            answers.add(want)
    ctx.nontrivial(depth(item) > 1 and len(answers) > 1)
    ctx.label('relation')


def empty_root(item):
    # and_() without parts is a predicate
    return has_empty(item)


def check_unknown(case, ctx):
    from yargy import Parser, rule
    item = case['part']
    for operator, position in case['unknown']:
        if operator == 'not':
            item = ['not', item]
        else:
            parts = list(case['others'])
            parts.insert(position, item)
            item = [operator, parts]
    tokenizer = spec.stub_tokenizer(W.Lexicon({}))
    tagger = spec.word_tagger({'x': 'A', 'y': 'B'})
    predicate = spec.predicate(item)
    expect_raises(
        ValueError, 'Parser(rule(%s))' % item,
        Parser, rule('a', predicate), tokenizer=tokenizer, tagger=tagger
    )
    ctx.label('unknown part')
    ctx.nontrivial(depth(item) > 1)


def check_mixed(case, ctx):
    from yargy import and_, or_, not_, rule, forward
    from yargy.predicates import eq
    from yargy.relations import gender_relation
    make = {
        'predicate': lambda: eq('a'),
        'relation': gender_relation,
        'rule': lambda: rule('a'),
        'forward': lambda: forward(),
        'str': lambda: 'a',
        'none': lambda: None,
        'class': lambda: eq,
    }
    kinds = case['mixed']
    groups = {'forward': 'rule'}
    kinds_set = {groups.get(_, _) for _ in kinds}
    items = [make[_]() for _ in kinds]
    operator = case['operator']
    if operator == 'not':
        items = items[:1]
        kinds_set = {groups.get(kinds[0], kinds[0])}
        valid = kinds_set <= {'predicate'} or kinds_set <= {'relation'}
        function = not_
    elif operator == 'and':
        valid = kinds_set in ({'predicate'}, {'relation'})
        function = and_
    else:
        valid = kinds_set in ({'predicate'}, {'relation'}, {'rule'})
        function = or_
    if valid:
        function(*items)
    else:
        expect_raises(
            TypeError, '%s_(%s)' % (operator, ', '.join(kinds)),
            function, *items
        )
    ctx.label('operands')
