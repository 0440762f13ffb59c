import random

from hypothesis import strategies as st

from lib import gens, model, servers, spec, words as W
from lib.harness import Skip, equal, run_case, Violation

RULE = (
    'Random grammar over ambiguous Russian words (gazetteers with ambiguous '
    'keys, dictionaries, relations, normalizers, facts) and texts, run in '
    'four processes with different PYTHONHASHSEED, memory layout and order '
    'of earlier work. Non-trivial: some text has a match.'
)
TECHNIQUE = (
    'property-based testing: differential between processes with different '
    'hash seeds and memory layout'
)
NOTE = (
    'Matches, spans, forms in their order, facts, json of match, find, '
    'findall and extract are compared between processes on the real '
    'analyser, and the printed BNF and DOT. Bounded to four hash '
    'seeds per shard.'
)
QUICK = 370
THOROUGH = 4000
LIMIT = 1200
WORDS = ['стали', 'сталь', 'стать', 'белым', 'мыла', 'мыть', 'мыло', 'дома',
         'дом', 'три', 'тереть', 'саша', 'саши', 'большой', 'большая',
         'вести', 'весть', 'печь', 'банка', 'банк', 'жили', 'жила', 'красной',
         'красная', 'стекла', 'стекло', '5', '-', 'ABBA', 'abba',
         # three and more normal forms
         'души', 'душа', 'душить', 'душ', 'полей', 'поле', 'поля', 'полый',
         'полить', 'пику', 'пика', 'пики']
SINGLE = [_ for _ in WORDS if _ not in '5-']
SEEDS = [0, 1, 424242, 77777]

TERMINALS = st.one_of(
    st.builds(lambda w: ['t', w, 2], st.sampled_from(WORDS)),
    st.builds(lambda p, s: ['p', p, s], st.one_of(
        st.builds(lambda w: ['norm', w], st.sampled_from(SINGLE)),
        st.builds(lambda w: ['dict', w], st.lists(
            st.sampled_from(SINGLE), min_size=1, max_size=4)),
        st.builds(lambda w: ['in', w], st.lists(
            st.sampled_from(WORDS), min_size=1, max_size=4)),
        st.builds(lambda w: ['incl', w], st.lists(
            st.sampled_from(WORDS), min_size=1, max_size=4)),
        st.builds(lambda g: ['gram', g], st.sampled_from(
            ['NOUN', 'VERB', 'ADJF', 'sing', 'gent'])),
        st.builds(lambda n: ['custom', n, None], st.sampled_from(
            ['even', 'even'])),
    ), st.integers(0, 2)),
    st.builds(
        lambda kind, lines: ['pipe', kind, lines],
        st.sampled_from(['pipeline', 'caseless', 'morph', 'morph', 'morph']),
        st.lists(st.builds(
            ' '.join, st.lists(
                st.sampled_from(WORDS), min_size=1, max_size=2)
        ), min_size=2, max_size=6)
    )
)
NORMS = st.sampled_from([
    [['normalized']], [['normalized']],
    [['inflected', None]], [['inflected', ['gent', 'plur']]],
    [['inflected', ['datv', 'sing', 'NOUN']]],
    [['normalized'], ['custom', 'upper']], [['const', 'k']],
    [['custom', 'wrap']],
])


def wrap(draw, expr, cfg):
    kind = draw(st.sampled_from(['match', 'norm', 'norm', 'fact']))
    if kind == 'match':
        return ['match', expr, draw(st.sampled_from(['r0', 'r1']))]
    elif kind == 'norm':
        name = draw(st.sampled_from(['a', 'p', 'p']))
        return ['int', ['int', expr, ['norm', draw(NORMS)]],
                ['attr', 'F', name, None]]
    return ['int', expr, ['fact', draw(st.sampled_from(['F', 'G']))]]


CFG = gens.Config(
    terminals=TERMINALS, nested_ext=False, wrap=wrap, main=True, depth=4)
ATTRS = [
    {'name': 'a', 'repeatable': False, 'default': None},
    {'name': 'p', 'repeatable': True, 'default': None},
]
FACTS = {'F': {'attrs': ATTRS}, 'G': {'attrs': ATTRS}}
# what the found text is ambiguous in: words that share forms
RELATION = st.sampled_from([
    ['gender'], ['number'], ['case'], ['gnc'], ['or', [['case'], ['number']]]
])


ROOTS = [
    None, ['fact', 'F'], ['fact', 'F'], ['norm', [['normalized']]],
    ['norm', [['inflected', ['gent', 'plur']]]]
]


def rooted(grammar, interpretation):
    if interpretation is None:
        return grammar
    return dict(grammar, root=['int', grammar['root'], interpretation])


def strategy(tier):
    return st.fixed_dictionaries({
        'grammar': st.builds(
            rooted, gens.grammars(CFG), st.sampled_from(ROOTS)),
        'relations': st.fixed_dictionaries({'r0': RELATION, 'r1': RELATION}),
        'texts': st.lists(gens.texts(WORDS, 5), min_size=1, max_size=3),
        'seeds': st.lists(st.integers(0, 1000), min_size=2, max_size=5),
    })


def cases(tier):
    # one word, all keys that it is a form of
    for words in (
            ['сталь', 'стать', 'стали'], ['три', 'тереть'],
            ['мыло', 'мыть', 'мыла'], ['вести', 'весть', 'везти'],
            ['печь', 'печь'], ['дома', 'дом'], ['стекло', 'стечь'],
            ['души', 'душ', 'душа', 'душить'],
            ['полей', 'полить', 'полый', 'поля', 'поле', 'поль'],
            ['пики', 'пику', 'пик', 'пика', 'пике'],
            ['роя', 'рой', 'рыть', 'роить'], ['туши', 'тушь', 'туша', 'туш',
                                              'тушить']
    ):
        yield {
            'grammar': {'lets': [], 'defs': [], 'root': [
                'int', ['pipe', 'morph', words], ['norm', [['normalized']]]
            ]},
            'relations': {'r0': ['gender'], 'r1': ['gender']},
            'texts': [[word, 'x', words[0]] for word in words], 'seeds': [],
        }
    # printed names do not have the address of the function
    yield {
        'grammar': {'lets': [], 'defs': [], 'root': [
            'seq', [
                ['p', ['custom', 'even', None], 0],
                ['p', ['and', [['custom', 'even', None], ['type', 'RU']]], 1]
            ], None]},
        'relations': {'r0': ['gender'], 'r1': ['gender']},
        'texts': [['дома', 'мыло']], 'seeds': [],
    }


def sample_word(pred, rng):
    kind = pred[0]
    if kind == 'eq':
        return pred[1]
    elif kind in ('dict', 'in', 'incl'):
        return rng.choice(pred[1])
    elif kind == 'norm':
        return rng.choice([pred[1]] + WORDS)
    return rng.choice(WORDS)


_SERVERS = []


def get_servers():
    if not _SERVERS:
        _SERVERS.extend(
            servers.Server('C09', _, str(index))
            for index, _ in enumerate(SEEDS)
        )
    return _SERVERS


def check(case, ctx):
    grammar = dict(
        case['grammar'], relations=case['relations'], facts=FACTS)
    if gens.has_k1(grammar):
        raise Skip
    reference = model.Model(grammar, W.real_lexicon)
    texts = [' '.join(_) for _ in case['texts']]
    for seed in case['seeds']:
        item = reference.sample(seed, sample_word, 5)
        if item is not None and len(item) <= 7:
            texts.append(' '.join(item))
    accepted = []
    for text in texts:
        tokens = model.tokenize(text, lexicon=W.real_lexicon)
        try:
            ends = reference.recognize(tokens)
            reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        accepted.append(text)
    if not accepted:
        raise Skip
    request = {'grammar': grammar, 'texts': accepted}
    items = get_servers()
    for item in items:
        item.send(request)
    answers = [_.receive() for _ in items]
    first = answers[0]
    for item, answer in zip(items[1:], answers[1:]):
        pairs = [
            ('text %r' % text, a, b) for text, a, b in zip(
                accepted, first['texts'], answer['texts'])
        ]
        for what in ('bnf', 'active', 'dot'):
            pairs.append((what, first[what], answer[what]))
        for what, a, b in pairs:
            if a != b:
                raise Violation(
                    '%s: %r with hash seed %s, %r with hash seed %s' % (
                        what, a, items[0].hashseed, b, item.hashseed))
    found = [_ for _ in first['texts'] if _.get('findall')]
    ctx.nontrivial(found)
    ctx.label(*gens.grammar_features(grammar))
    if any(_ != 'ValueError' for item in found
           for _ in [item['findall'][0].get('fact')]):
        ctx.label('with fact')


def serve(index):
    rng = random.Random(int(index) + 1)
    junk = []
    tokenizer = spec.real_tokenizer()

    def answer(request):
        # other memory layout in every process
        for _ in range(rng.randint(0, 300)):
            junk.append([object()] * rng.randint(1, 20))
        if len(junk) > 3000:
            rng.shuffle(junk)
            del junk[:1500]
        from yargy import Parser
        rule = spec.Builder(request['grammar']).root
        parser = Parser(rule, tokenizer=tokenizer)
        order = list(range(len(request['texts'])))
        rng.shuffle(order)
        result = [None] * len(order)
        for index in order:
            try:
                result[index] = view(parser, request['texts'][index])
            except Exception as error:
                result[index] = {'error': repr(type(error))}
        return {
            'texts': result,
            'bnf': list(rule.normalized.as_bnf.source),
            'active': list(parser.rule.as_bnf.source),
            'dot': list(rule.as_dot.source),
        }

    return servers.serve(answer)


def view(parser, text):
    result = spec.outcome(parser, text)
    result['extract'] = [
        spec.match_view(_) for _ in parser.extract(text)
    ][:50]
    result['dot'] = [
        list(match.tree.as_dot.source) for match in parser.findall(text)
    ][:5]
    result['forms'] = [
        [
            [(form.normalized, sorted(form.grams.values))
             for form in getattr(token, 'forms', [])]
            for token in match.tokens
        ]
        for match in parser.findall(text)
    ]
    return result
