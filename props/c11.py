import re

from hypothesis import strategies as st

from lib import spec, words as W
from lib.harness import Skip, equal, expect, expect_raises
from props import c10

RULE = (
    'History over two or three tokenizers (default, own list of rules, '
    'morphological): add_rules, remove_types, check_type, also with unknown '
    'types and wrong operands, and tokenization in between. Non-trivial: two '
    'or more changes of one tokenizer and a text on which the result differs '
    'from the initial tokenizer.'
)
TECHNIQUE = 'model-based property testing of reconfiguration histories'
NOTE = (
    'The model is the list of rules; tokens are compared with rules tried '
    'one at a time with the re module, types with check_type for every type '
    'of the pool. Default rules and lists given by the caller are compared '
    'with their initial content in the end.'
)
QUICK = 1200
THOROUGH = 20000
TYPES = sorted({type for type, _ in c10.POOL}) + ['NONE', '', 'ru']
INDEX = st.integers(0, len(c10.POOL) - 1)
WHO = st.integers(0, 2)
OPERATION = st.one_of(
    st.tuples(st.just('add'), WHO, st.lists(INDEX, min_size=0, max_size=3)),
    st.tuples(st.just('add'), WHO, st.lists(INDEX, min_size=1, max_size=2)),
    st.tuples(st.just('remove'), WHO, st.lists(
        st.sampled_from(TYPES[:12]), min_size=0, max_size=3)),
    st.tuples(st.just('remove'), WHO, st.lists(
        st.sampled_from(['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']),
        min_size=1, max_size=2)),
    st.tuples(st.just('split'), WHO),
    st.tuples(st.just('wrong'), WHO, st.lists(INDEX, max_size=1)),
    st.tuples(st.just('restart'), WHO),
    # operand of reset, kept and changed later by the caller
    st.tuples(st.just('reset'), WHO, st.lists(INDEX, max_size=4), st.booleans()),
    st.tuples(st.just('caller'), WHO, INDEX),
    # token rules known from before, not equal ones
    st.tuples(st.just('again'), WHO, st.lists(INDEX, max_size=2)),
)


def strategy(tier):
    return st.fixed_dictionaries({
        'initial': st.lists(INDEX, max_size=6),
        'given': st.sampled_from(['list', 'list', 'tuple', 'iterator']),
        'operations': st.lists(OPERATION, min_size=1, max_size=10),
        'texts': st.lists(c10.TEXT, min_size=1, max_size=3),
    })


NAMED = c10.POOL.index(('NAMED', r'(?P<x>я)б'))


def cases(tier):
    # parsers that are given no tokenizer
    for types in (['LATIN'], ['PUNCT'], ['EOL', 'OTHER'], []):
        for added in ([], [['WORD', r'[a-z]\d']]):
            yield {'parsers': True, 'types': types, 'added': added}


def check_parsers(case, ctx):
    from yargy import Parser, rule, tokenizer as t
    from yargy.predicates import type as type_
    default = [(_.type, _.pattern) for _ in t.RULES]
    text = 'ab, 12 a1 да\n$'
    want, _ = c10.scan(text, default)
    parsers = [Parser(rule(type_('LATIN'))) for _ in range(3)]
    first = parsers[0].tokenizer
    first.remove_types(*case['types'])
    first.add_rules(*[t.TokenRule(*_) for _ in case['added']])
    changed = [tuple(_) for _ in case['added']]
    changed += [_ for _ in default if _[0] not in case['types']]
    equal(c10.view(first(text)), c10.scan(text, changed)[0],
          'tokens of the changed tokenizer')
    others = parsers[1:] + [Parser(rule(type_('LATIN')))]
    for parser in others:
        equal(c10.view(parser.tokenizer(text)), want,
              'tokens of the tokenizer of another parser')
        equal([tuple(_.span) for _ in parser.findall(text)],
              [(0, 2), (7, 8)], 'spans of another parser')
    for make in (t.Tokenizer, t.MorphTokenizer):
        equal([_.value for _ in make()(text)], [_[0] for _ in want],
              'tokens of a new tokenizer')
    ctx.nontrivial(case['types'] or case['added'])
    ctx.label('default tokenizers of parsers')


def check(case, ctx):
    if 'parsers' in case:
        return check_parsers(case, ctx)
    from yargy import tokenizer as t
    default = [(_.type, _.pattern) for _ in t.RULES]
    pool = [t.TokenRule(*_) for _ in c10.POOL]
    named = c10.POOL[NAMED]
    if [c10.POOL[_] for _ in case['initial']].count(named) > 1:
        raise Skip
    given = [pool[_] for _ in case['initial']]
    own = {
        'list': given, 'tuple': tuple(given), 'iterator': given
    }[case.get('given', 'list')]
    # lists of the caller, by the tokenizer they were given to
    callers = {1: given} if own is given else {}
    lexicon = W.Lexicon({})

    def make(who):
        if who == 0:
            return t.Tokenizer()
        elif who == 1:
            if case.get('given') == 'iterator':
                return t.Tokenizer(iter(own))
            return t.Tokenizer(own)
        return t.MorphTokenizer(morph=spec.stub_morph(lexicon))

    initial = [
        list(default), [c10.POOL[_] for _ in case['initial']], list(default)
    ]
    items = [make(_) for _ in range(3)]
    rules = [list(_) for _ in initial]
    changes = [0, 0, 0]

    def verify(who):
        different = False
        for text in case['texts']:
            want, _ = c10.scan(text, rules[who])
            got = c10.view(items[who](text))
            equal(got, want, 'tokens of %r' % text)
            equal(items[who].split(text), [_[0] for _ in want], 'split')
            start, _ = c10.scan(text, initial[who])
            different = different or start != want
            if who == 2:
                for token in items[who](text):
                    expect(
                        hasattr(token, 'forms') == (token.type == 'RU'),
                        'forms of %r', token
                    )
        known = {type for type, _ in rules[who]}
        for type in TYPES:
            if type in known:
                items[who].check_type(type)
            else:
                expect_raises(
                    ValueError, 'check_type(%r)' % type,
                    items[who].check_type, type
                )
        ctx.nontrivial(changes[who] > 1 and different)

    kept = [list(callers[_]) for _ in sorted(callers)]
    for operation in case['operations']:
        kind, who = operation[:2]
        if kind in ('add', 'again'):
            added = [c10.POOL[_] for _ in operation[2]]
            if (added + rules[who]).count(named) > 1:
                # a named group can be used once in an expression
                continue
            result = items[who].add_rules(*(
                [pool[_] for _ in operation[2]] if kind == 'again'
                else [t.TokenRule(*_) for _ in added]
            ))
            expect(result is items[who], 'add_rules returns %r', result)
            rules[who] = added + rules[who]
            changes[who] += bool(added)
        elif kind == 'remove':
            types = operation[2]
            known = {type for type, _ in rules[who]}
            if all(_ in known for _ in types):
                result = items[who].remove_types(*types)
                expect(
                    result is items[who], 'remove_types returns %r', result)
                rules[who] = [_ for _ in rules[who] if _[0] not in types]
                changes[who] += bool(types)
            else:
                expect_raises(
                    ValueError, 'remove_types(%r)' % types,
                    items[who].remove_types, *types
                )
                ctx.label('unknown type')
        elif kind == 'wrong':
            operands = [t.TokenRule(*c10.POOL[_]) for _ in operation[2]]
            operands.append(('X', r'x'))
            expect_raises(
                TypeError, 'add_rules of a tuple',
                items[who].add_rules, *operands
            )
        elif kind == 'restart':
            items[who] = make(who)
            rules[who] = (
                [(_.type, _.pattern) for _ in own] if who == 1
                else list(initial[who])
            )
            changes[who] = 0
        elif kind == 'reset':
            added = [c10.POOL[_] for _ in operation[2]]
            if added.count(named) > 1:
                continue
            if operation[3]:
                # the list given to another tokenizer before
                other = callers.get((who + 1) % 3)
                callers[who] = (
                    [pool[_] for _ in operation[2]] if other is None
                    else other
                )
            else:
                callers[who] = [pool[_] for _ in operation[2]]
            items[who].reset(callers[who])
            rules[who] = [(_.type, _.pattern) for _ in callers[who]]
            changes[who] += 1
        elif kind == 'caller':
            # changes of the list made by the caller do not leak
            if who in callers:
                item = pool[operation[2]]
                if item in callers[who] and len(callers[who]) > 1:
                    callers[who].remove(item)
                elif operation[2] != NAMED:
                    callers[who].insert(0, item)
                ctx.label('list of the caller changed')
        else:
            items[who].split(case['texts'][0])
        if kind in ('reset', 'caller', 'restart'):
            kept = [list(callers[_]) for _ in sorted(callers)]
        verify(who)
    for who in range(3):
        verify(who)
    equal([(_.type, _.pattern) for _ in t.RULES], default, 'default rules')
    equal([callers[_] for _ in sorted(callers)], kept,
          'list of rules given by the caller')
    want, _ = c10.scan(case['texts'][0], default)
    equal(
        c10.view(t.Tokenizer()(case['texts'][0])), want,
        'tokens of a new tokenizer'
    )
