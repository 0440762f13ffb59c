import itertools
import re
import sys

from hypothesis import strategies as st

from lib import model, spec
from lib.harness import Skip, equal, expect

RULE = (
    'Unicode texts rich in letters of all classes, digits, punctuation and '
    'blanks, with the default rules (reference scanner over character '
    'classes) and with random ordered lists of rules (rules tried one by one '
    'at each position); also every single code point. Non-trivial: text with '
    'tokens of three or more types, or a list of rules that overlap on it.'
)
TECHNIQUE = (
    'property-based testing against a reference scanner, and enumeration of '
    'all code points'
)
NOTE = (
    'Values, spans and types of all tokens are compared with the reference, '
    'and the invariants (order, no overlaps, nothing but blanks left out, '
    'split) are checked on their own. All 1114112 code points are tried '
    'between letters and digits. Random rule lists use the re module for one '
    'rule at a time as the oracle.'
)
QUICK = 2020
THOROUGH = 40000

CHARS = (
    'абвгдежзяёАБЁЯ' 'abcxyzABZ' '0159' '٣४' '½²Ⅷ' '-/\\!#$%&()[]*+,.:;<=>?@'
    '^_`{|}~№…"\'«»„“ʼʻ”' '\n\r\t\v\f \u00a0\u2028\u2029\u0085\u200b\ufeff'
    'éßİıſKᲀїўіґ' '—–‘’' '中文字' '\u0301' '😀' '\u0000' '°€'
)
CHAR = st.one_of(
    st.sampled_from(CHARS), st.sampled_from(CHARS),
    st.characters()
)
CHUNK = st.one_of(
    st.text(CHAR, min_size=1, max_size=6),
    st.text(st.sampled_from('абвяёАЯЁ'), min_size=1, max_size=4),
    st.text(st.sampled_from('abzABZ'), min_size=1, max_size=4),
    st.text(st.sampled_from('0123456789'), min_size=1, max_size=6),
    st.sampled_from([
        ' ', '  ', '\n', '\r\n', '\n \n', '-', '...', 'a@b.ru', 'A.b+c@d-e.f',
        'a_1@b-2.co.uk', 'x@y.1', '@b.ru', 'a@b', 'я@b.ru', 'a@b.c-d.',
        '123456789012', '1234567890123', '12345678901234', '123456789012345',
        '+ 7_900(123)45  67', '+7 (900) 123-45-67', '89001234567', '8-900-123-45-67', '1 000 000',
        'ёж', 'Ёлка', 'x5', '5x', 'ая', 'из-за', '№5', '3.14'
    ])
)
# beginnings and ends of files
EDGE = st.sampled_from([''] * 7 + ['\ufeff', '\n', ' ', '\u200b', '\x00', '\x1a'])
TEXT = st.builds(
    lambda start, items, stop: start + ''.join(items) + stop,
    EDGE, st.lists(CHUNK, max_size=12), EDGE)

# name -> type, pattern
POOL = [
    ('RU', r'[а-яё]+'),
    ('LATIN', r'[a-z]+'),
    ('INT', r'\d+'),
    ('PUNCT', r'[-\\/!#$%&()\[\]\*\+,\.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”]'),
    ('EOL', r'[\n\r]+'),
    ('OTHER', r'\S'),
    ('EMAIL', r'[a-zA-Z0-9_.+-]+@[a-zA-Z0-9-]+\.[a-zA-Z0-9-.]+'),
    ('PHONE', r'(\+)?([-\s_()]?\d[-\s_()]?){10,14}'),
    ('WORD', r'[а-яёa-z]+'),
    ('HYPHEN', r'[а-яё]+-[а-яё]+'),
    ('FLOAT', r'\d+\.\d+'),
    ('DIGIT', r'\d'),
    ('AB', r'a|b'),
    ('SPACE', r'\s+'),
    ('ANY', r'(?:.|\n)'),
    ('DOTS', r'\.{3}|\.{2}'),
    ('INT', r'\d+\s?%'),
    ('NAMED', r'(?P<x>я)б'),
]
FLAGS = re.UNICODE | re.IGNORECASE


def token_rule(type, pattern):
    from yargy import tokenizer
    # those that are shipped, else a new one
    if type in ('EMAIL', 'PHONE'):
        return getattr(tokenizer, type + '_RULE')
    return tokenizer.TokenRule(type, pattern)


def strategy(tier):
    return st.fixed_dictionaries({
        'text': TEXT,
        'rules': st.one_of(
            st.none(), st.none(),
            st.lists(
                st.integers(0, len(POOL) - 1), max_size=9, unique=True)
        ),
        'add': st.lists(st.integers(0, len(POOL) - 1), max_size=2),
    })


def scan(text, rules):
    compiled = [(type, re.compile(pattern, FLAGS)) for type, pattern in rules]
    index = 0
    tokens = []
    overlap = False
    while index < len(text):
        for position, (type, pattern) in enumerate(compiled):
            found = pattern.match(text, index)
            if found:
                if not overlap:
                    overlap = any(
                        other.match(text, index)
                        for _, other in compiled[position + 1:]
                    )
                tokens.append((found.group(), index, found.end(), type))
                index = found.end()
                break
        else:
            index += 1
    return tokens, overlap


def view(tokens):
    return [(_.value, _.span.start, _.span.stop, _.type) for _ in tokens]


_DEFAULT = []


def default_tokenizer():
    from yargy.tokenizer import Tokenizer
    if not _DEFAULT:
        _DEFAULT.append(Tokenizer())
    return _DEFAULT[0]


def check_default(text):
    tokenizer = default_tokenizer()
    got = view(tokenizer(text))
    want = [(_.value, _.start, _.stop, _.type) for _ in model.tokenize(text)]
    equal(got, want, 'tokens of %r' % text)
    # invariants, independent of the scanner
    end = 0
    for value, start, stop, type in got:
        expect(start >= end and stop > start, 'overlap or empty: %r', got)
        expect(value == text[start:stop], 'value is not the text at span')
        check_gap(text[end:start])
        end = stop
    check_gap(text[end:])
    equal(tokenizer.split(text), [_[0] for _ in got], 'split')
    # two texts at a time
    one, two = iter(tokenizer(text)), tokenizer('x ' + text[:3])
    first = view(itertools.islice(one, 1))
    other = view(two)
    equal(first + view(one), got, 'tokens of %r read in parts' % text)
    equal(other, [
        (_.value, _.start, _.stop, _.type)
        for _ in model.tokenize('x ' + text[:3])
    ], 'tokens of another text')
    return got


def check_gap(gap):
    expect(
        not gap.strip() and '\n' not in gap and '\r' not in gap,
        'text %r is lost', gap
    )


def check(case, ctx):
    from yargy.tokenizer import Tokenizer
    text = case['text']
    if 'points' in case:
        start, stop = case['points']
        return check_default(text_of(start, stop))
    if case['rules'] is None and not case['add']:
        got = check_default(text)
        types = {_[3] for _ in got}
        ctx.nontrivial(len(types) > 2)
        ctx.label('default rules')
        return
    if case['rules'] is None:
        rules = POOL[:6]
        tokenizer = Tokenizer()
    else:
        rules = [POOL[_] for _ in case['rules']]
        tokenizer = Tokenizer([token_rule(*_) for _ in rules])
    # a group name can be used once
    added = [POOL[_] for _ in case['add'] if POOL[_] not in rules]
    if any(added.count(_) > 1 for _ in added):
        added = added[:1]
    if added:
        tokenizer.add_rules(*[token_rule(*_) for _ in added])
    rules = added + rules
    want, overlap = scan(text, rules)
    got = view(tokenizer(text))
    equal(got, want, 'tokens of %r with rules %r' % (text, rules))
    equal(tokenizer.split(text), [_[0] for _ in want], 'split')
    ctx.nontrivial(overlap)
    ctx.label('other rules')


def text_of(start, stop):
    # every code point between others of all kinds
    parts = []
    for point in range(start, stop):
        char = chr(point)
        parts.append('%s я%sa%s1 %s%s' % (char, char, char, char, char))
    return ''.join(parts)


def exhaustive(tier, shard, shards, ctx):
    step = 512
    for index, start in enumerate(range(0, sys.maxunicode + 1, step)):
        if index % shards != shard:
            continue
        from lib.harness import Violation
        try:
            check_default(text_of(start, start + step))
        except Violation as violation:
            for point in range(start, start + step):
                case = {'text': '', 'points': [point, point + 1]}
                try:
                    check(case, ctx)
                except Violation as single:
                    single.key = case
                    raise single
            violation.key = {'text': '', 'points': [start, start + step]}
            raise violation
        ctx.evaluations += step
        ctx.labels['code points'] = ctx.labels.get('code points', 0) + step
