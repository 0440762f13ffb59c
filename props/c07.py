from hypothesis import strategies as st

from lib import gens, marks, model, spec, words as W
from lib.harness import Skip, equal, expect
from props import c03

RULE = (
    'History over a set of rules that share parts (and contain each other): '
    'build parsers for them with one of three tokenizers (two synthetic '
    'analysers, other token rules) and three taggers, print BNF and DOT, '
    'ask parsers built before. Every answer is compared with a parser built '
    'from a fresh equal definition with an equal tokenizer and tagger. '
    'Non-trivial: two or more parsers built and a match found after the '
    'second one was built.'
)
TECHNIQUE = (
    'model-based property testing of histories: each parser against one '
    'built afresh'
)
NOTE = (
    'Differential between the shared objects of a history and fresh objects; '
    'correctness of the fresh parser itself is the matter of the other '
    'checks. Bounded to 4 rules and 8 operations.'
)
QUICK = 540
THOROUGH = 10000
LIMIT = 1200
ALPHABET = ['ба', 'во', 'гу', 'x', '5', '-']
LINES = ['ба', 'во', 'ба во', 'во ба', 'ба-во', 'x 5', 'X', 'гу']

TERMINALS = st.one_of(
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(ALPHABET), st.integers(0, 2)),
    st.builds(lambda p, s: ['p', p, s], st.one_of(
        st.builds(lambda w: ['norm', w], st.sampled_from(ALPHABET[:4])),
        st.builds(lambda w: ['dict', w], st.lists(
            st.sampled_from(ALPHABET[:4]), min_size=1, max_size=2)),
        st.builds(lambda g: ['gram', g], st.sampled_from(['NOUN', 'VERB'])),
        st.builds(lambda g: ['type', g], st.sampled_from(
            ['RU', 'RU', 'INT', 'W'])),
        st.builds(lambda g: ['tag', g], st.sampled_from(['A', 'B'])),
        st.builds(lambda g: ['custom', 'short', g], st.sampled_from(
            [None, ['RU'], ['INT', 'LATIN']])),
        st.builds(lambda a, b: ['or', [['tag', a], ['norm', b]]],
                  st.sampled_from(['A', 'B']), st.sampled_from(ALPHABET[:3])),
        st.builds(lambda a: ['not', ['gram', a]],
                  st.sampled_from(['NOUN', 'VERB'])),
    ), st.integers(0, 2)),
    st.builds(
        lambda kind, lines: ['pipe', kind, lines],
        st.sampled_from(['pipeline', 'caseless', 'morph', 'morph']),
        st.lists(st.sampled_from(LINES), min_size=1, max_size=3)
    )
)


def wrap(draw, expr, cfg):
    return ['match', expr, draw(st.sampled_from(['r0', 'r1']))]


CFG = gens.Config(
    terminals=TERMINALS, nested_ext=False, wrap=wrap, main=True, depth=3)
FORM = st.tuples(
    st.sampled_from(['ба', 'во', 'гу']),
    st.lists(st.sampled_from(
        ['NOUN', 'VERB', 'masc', 'femn', 'sing', 'plur']
    ), max_size=3, unique=True)
)
LEXICON = st.fixed_dictionaries({
    word: st.lists(FORM, min_size=1, max_size=2) for word in ALPHABET[:3]
})


@st.composite
def strategy(draw, tier):
    grammar = draw(gens.grammars(CFG))
    scope = gens.Scope(CFG)
    scope.lets = grammar['lets'] + [['t', 'x', 0]]
    scope.refs = len(grammar['defs'])
    grammar['lets'] = scope.lets
    more = draw(st.lists(gens.exprs(scope, 2), max_size=3))
    roots = [grammar.pop('root')] + more
    count = len(roots)
    operation = st.one_of(
        st.tuples(st.just('parser'), st.integers(0, count - 1),
                  st.integers(0, 2), st.integers(0, 2)),
        st.tuples(st.just('parser'), st.integers(0, count - 1),
                  st.integers(0, 2), st.integers(0, 2)),
        st.tuples(st.just('show'), st.integers(0, count - 1)),
        st.tuples(st.just('larger'), st.integers(0, count - 1),
                  st.integers(0, 3)),
        st.tuples(st.just('ask'), st.integers(0, 5), st.integers(0, 9)),
        st.tuples(st.just('ask'), st.integers(0, 5), st.integers(0, 9)),
    )
    return {
        'grammar': grammar,
        'roots': roots,
        'marks': draw(st.integers(0, 1000)),
        'lexicons': draw(st.lists(LEXICON, min_size=2, max_size=2)),
        'relations': {
            'r0': draw(c03.RELATION), 'r1': ['gender']
        },
        'operations': draw(st.lists(operation, min_size=3, max_size=9)),
        'texts': draw(st.lists(
            gens.texts(ALPHABET, 5), min_size=1, max_size=3)),
        'seeds': draw(st.lists(
            st.integers(0, 1000), min_size=1, max_size=3)),
    }


def make_tokenizer(index, lexicons):
    from yargy.tokenizer import TokenRule
    if index < 2:
        return spec.stub_tokenizer(W.Lexicon(lexicons[index]))
    tokenizer = spec.stub_tokenizer(W.Lexicon(lexicons[0]))
    tokenizer.remove_types('INT')
    return tokenizer.add_rules(TokenRule('W', r'[a-zа-я]+-[а-яa-z]+'))


TAGGERS = [{}, {'ба': 'A', 'x': 'B'}, {'ба': 'B', 'во': 'A', '5': 'A'}]


def make_tagger(index):
    if index:
        return spec.word_tagger(TAGGERS[index])


def full_spec(case):
    """Grammar with one definition per root: larger rules refer to roots."""
    grammar = dict(case['grammar'], relations=case['relations'])
    size = len(grammar['lets'])
    # every root is a shared object
    wrapper = marks.mark(dict(
        grammar, lets=grammar['lets'] + case['roots'], root=['empty']
    ), case['marks'])
    lets = wrapper['lets']
    lets[size:] = [
        # fact of the root
        ['int', _, ['fact', 'F']] for _ in lets[size:]
    ]
    return dict(wrapper, lets=lets), size


def larger(kind, root):
    return ['int', [
        ['seq', [root, ['t', 'x', 0]], None],
        ['opt', root, False],
        ['or', [['named', root, 'N'], ['t', 'x', 0]]],
        ['match', root, 'r1'],
    ][kind], ['fact', 'F']]


def check(case, ctx):
    from yargy import Parser
    grammar, size = full_spec(case)
    if gens.has_k1(dict(grammar, root=['empty'])):
        raise Skip
    texts = list(case['texts'])
    probe = model.Model(grammar, W.Lexicon({}))
    for seed in case['seeds']:
        probe.root = probe.lets[size + seed % len(case['roots'])]
        item = probe.sample(seed, sample_word, 5)
        if item is not None and len(item) <= 7:
            texts.append(item)

    builder = spec.Builder(dict(grammar, root=['empty']))
    tokenizers = [make_tokenizer(_, case['lexicons']) for _ in range(3)]
    taggers = [make_tagger(_) for _ in range(3)]
    rules = [(['let', size + _], builder.lets[size + _])
             for _ in range(len(case['roots']))]
    parsers = []
    found = built = 0

    def ask(item, text):
        expr, tokenizer, tagger, parser = item
        expected, fresh = attempt(lambda: Parser(
            spec.Builder(dict(grammar, root=expr)).root,
            tokenizer=make_tokenizer(tokenizer, case['lexicons']),
            tagger=make_tagger(tagger)
        ))
        tokens = spec.stub_tokenizer(
            W.Lexicon(case['lexicons'][0])).split(text)
        reference = model.Model(dict(grammar, root=expr), W.Lexicon({}))
        effort_text = model.tokenize(' '.join(tokens))
        # upper bound: every terminal accepts every token
        try:
            any_model(reference, effort_text)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            return 0
        want = spec.outcome(fresh, text)
        got = spec.outcome(parser, text)
        equal(got, want, 'answer for %r' % text)
        return bool(want['findall'])

    for operation in case['operations']:
        kind = operation[0]
        if kind == 'parser':
            _, root, tokenizer, tagger = operation
            root %= len(rules)
            expr, rule = rules[root]
            got, parser = attempt(lambda: Parser(
                rule, tokenizer=tokenizers[tokenizer],
                tagger=taggers[tagger]
            ))
            want, _ = attempt(lambda: Parser(
                spec.Builder(dict(grammar, root=expr)).root,
                tokenizer=make_tokenizer(tokenizer, case['lexicons']),
                tagger=make_tagger(tagger)
            ))
            equal(got, want, 'error of Parser')
            if parser:
                parsers.append((expr, tokenizer, tagger, parser))
        elif kind == 'larger' and len(rules) < 8:
            expr, rule = rules[operation[1]]
            template = larger(operation[2], ['let', size])
            lets = dict(grammar, root=template)
            # the same construction with the live object
            live = build_larger(builder, operation[2], rule)
            rules.append((larger(operation[2], expr), live))
        elif kind == 'show':
            expr, rule = rules[operation[1]]
            attempt(lambda: list(rule.normalized.as_bnf.source))
            attempt(lambda: rule.as_dot.source)
        elif kind == 'ask' and parsers:
            item = parsers[operation[1] % len(parsers)]
            text = ' '.join(texts[operation[2] % len(texts)])
            value = ask(item, text)
            if len(parsers) > 1:
                found += value
    # at the end all of them
    for item in parsers:
        for words in texts:
            value = ask(item, ' '.join(words))
            if len(parsers) > 1:
                found += value
    ctx.nontrivial(found)
    ctx.label('%d parsers' % min(len(parsers), 4))
    if found:
        ctx.label('matches')


def build_larger(builder, kind, rule):
    from yargy import rule as make, or_
    return [
        lambda: make(rule, 'x'),
        lambda: rule.optional(),
        lambda: or_(rule.named('N'), make('x')),
        lambda: rule.match(builder.relations['r1']),
    ][kind]().interpretation(builder.facts['F'])


def attempt(function):
    try:
        return None, function()
    except (ValueError, TypeError) as error:
        return type(error).__name__, None


def sample_word(pred, rng):
    kind = pred[0]
    if kind in ('eq', 'norm'):
        return pred[1]
    elif kind == 'dict':
        return pred[1][0]
    return rng.choice(ALPHABET)


def any_model(reference, tokens, limit=LIMIT):
    for node in reference.nodes:
        if node.kind == 'tok':
            node.data = ['true']
    ends = reference.recognize(tokens)
    reference.effort(tokens, ends, limit)
