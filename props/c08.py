from random import Random
import threading

from hypothesis import strategies as st

from lib import gens, marks, model, spec, words as W
from lib.harness import Skip, Violation, equal, expect
from props import c03, c07, c18

RULE = (
    'History of calls on two parsers that share rules, relations and the '
    'tokenizer: start match, find, findall or extract, take one more match '
    'of some running iterator, look at the fact, json, spans, tokens, tree '
    'graph of a match obtained before. In the end every match obtained is '
    'compared with the same call of a fresh parser, and fragments with the '
    'whole-text parse of the fragment alone. Also random schedules of '
    'several threads that use one parser, calls from inside of '
    'callbacks of a call, callbacks that raise at some point, and changes '
    'of the facts that were obtained. Non-trivial: matches of two or more calls, with facts looked at in between.'
)
TECHNIQUE = (
    'model-based property testing of call histories against fresh parsers'
)
NOTE = (
    'Differential between a history and single calls on fresh objects; '
    'bounded to 12 operations, short texts and a synthetic analyser.'
)
QUICK = 460
THOROUGH = 12000
LIMIT = 1200
METHODS = ['match', 'find', 'findall', 'extract', 'extract_all', 'partial']

OPERATION = st.one_of(
    st.tuples(st.just('start'), st.integers(0, 1),
              st.sampled_from(METHODS), st.integers(0, 9)),
    st.tuples(st.just('start'), st.integers(0, 1),
              st.sampled_from(METHODS), st.integers(0, 9)),
    st.tuples(st.just('next'), st.integers(0, 7), st.integers(1, 3)),
    st.tuples(st.just('look'), st.integers(0, 9), st.sampled_from(
        ['fact', 'json', 'spans', 'dot', 'relations', 'tokens', 'repr'])),
)

WORD = st.sampled_from([
    ['p', ['true'], 0], ['p', ['true'], 1], ['p', ['gram', 'masc'], 0],
    ['p', ['type', 'RU'], 0], ['t', 'ба', 0]
])
PHRASE = st.one_of(WORD, WORD, st.builds(
    lambda item, reverse: ['opt', item, reverse], WORD, st.booleans()))


def strategy(tier):
    alphabet = c03.ALPHABET
    common = {
        'marks': st.integers(0, 10000),
        'operations': st.lists(OPERATION, min_size=4, max_size=14),
    }
    general = st.fixed_dictionaries(dict(
        common,
        grammar=st.one_of(
            gens.grammars(c03.RELATED), gens.grammars(c03.RELATED_UNARY),
            gens.grammars(c07.CFG)
        ),
        texts=st.lists(gens.texts(alphabet, 5), min_size=1, max_size=3),
        seeds=st.lists(st.integers(0, 1000), min_size=1, max_size=4),
        lexicon=c03.LEXICON,
        relations=st.fixed_dictionaries({
            'r0': c03.RELATION, 'r1': c03.RELATION
        })
    ))
    agreements = st.builds(
        lambda case, operations: dict(case, operations=operations),
        c03.agreements(), common['operations']
    )
    # candidates that share words under different relations
    phrases = st.fixed_dictionaries(dict(
        common,
        grammar=st.builds(
            lambda root: {'lets': [], 'defs': [], 'root': root},
            c18.phrases(PHRASE, 2, 4)),
        texts=st.lists(gens.texts(alphabet, 5), min_size=1, max_size=3),
        seeds=st.lists(st.integers(0, 1000), min_size=1, max_size=4),
        lexicon=c03.LEXICON,
        relations=st.fixed_dictionaries({
            name: c03.RELATION for name in c18.NAMES
        })
    ))
    return st.one_of(general, agreements, phrases)


def cases(tier):
    count = 8 if tier == 'quick' else 60
    for seed in range(count):
        yield {'reuse': seed, 'size': 600}
    for seed in range(160 if tier == 'quick' else 3000):
        yield {'schedule': seed}
    for seed in range(120 if tier == 'quick' else 3000):
        yield {'changes': seed}
    for seed in range(300 if tier == 'quick' else 6000):
        yield {'faults': seed}


def check_reuse(seed, size, ctx):
    """Long histories where nothing of a call is kept, memory is used again.

    What the library remembers must not be taken for something else.
    """
    from yargy import Parser, rule
    from yargy.predicates import eq
    random = Random(seed)
    words = [a + b for a in 'бвгд' for b in 'аеиоу']
    grams = ['masc', 'femn', 'sing', 'plur', 'nomn', 'gent']
    lexicon = W.Lexicon({
        word: [
            (word + 'н%d' % index, random.sample(grams, 3))
            for index in range(random.choice([1, 1, 2, 3]))
        ] for word in words
    })
    kind = random.choice([
        ['gender'], ['number'], ['case'], ['gnc'], ['not', ['case']],
        ['or', [['gender'], ['number']]]])
    narrow = random.choice([['true'], ['not', ['gram', 'plur']], ['gram', 'sing']])

    def part(name):
        item = ['match', ['p', narrow, 0], 'r0']
        return ['int', item, ['attr', 'F', name, [['normalized']]]]

    grammar = {
        'lets': [], 'defs': [], 'facts': {'F': {'attrs': [
            {'name': _, 'repeatable': False, 'default': None}
            for _ in ('a', 'b')]}},
        'relations': {'r0': kind},
        'root': ['int', ['seq', [part('a'), part('b')], None], ['fact', 'F']]
    }
    parser = Parser(
        spec.Builder(grammar).root,
        tokenizer=spec.stub_tokenizer(lexicon, cached=False))
    matches = 0
    for _ in range(size):
        pair = random.choice(words), random.choice(words)
        forms = [
            model.test_predicate(narrow, token)
            and model.constrain(narrow, token.forms)
            for token in model.tokenize(' '.join(pair), lexicon=lexicon)
        ]
        kept = None
        if all(forms):
            kept = model.reduce_forms(
                [(kind, [0, 1])], {0: forms[0], 1: forms[1]})
        match = None
        match = parser.match(' '.join(pair))
        got = None
        if match:
            matches += 1
            got = [spec.forms_of(_) for _ in match.tokens]
            fact = match.fact
            equal(
                [fact.a, fact.b], [_[0][0] for _ in got],
                'fact of %r' % (pair,))
            if random.randrange(2):
                del fact
            got = [sorted(_, key=repr) for _ in got]
        equal(
            got, kept and [sorted(kept[_], key=repr) for _ in (0, 1)],
            'forms of %r' % (pair,))
    # rules, predicates and parsers that live for one call
    tokenizer = spec.plain_tokenizer()
    for _ in range(size // 2):
        a, b, c = [random.choice(words) for _ in range(3)]
        parser = Parser(
            rule(eq(a), eq(b).optional(), c), tokenizer=tokenizer)
        for text, want in [
                ((a, b, c), True), ((a, c), True), ((b, c), b == a),
                ((a, b), b == c)
        ]:
            equal(
                parser.match(' '.join(text)) is not None, want,
                'rule(%r, %r optional, %r) matches %r' % (a, b, c, text))
    ctx.nontrivial(matches)
    ctx.label('memory used again')


class Schedule(object):
    """Threads where one runs at a time, who is next is decided in hooks."""

    def __init__(self, random):
        self.random = random
        self.condition = threading.Condition()
        self.alive = []
        self.current = None
        self.switches = 0
        self.nested = None

    def choose(self):
        name = self.random.choice(self.alive) if self.alive else None
        if name != self.current:
            self.switches += 1
        self.current = name
        self.condition.notify_all()

    def wait(self, name):
        while self.current != name:
            if not self.condition.wait(20):
                raise Violation('thread waits for too long')

    def hook(self):
        name = threading.current_thread().name
        with self.condition:
            if name in self.alive and self.random.randrange(4) == 0:
                self.choose()
                self.wait(name)
        if self.nested and self.random.randrange(12) == 0:
            # a call from inside of a call
            nested, self.nested = self.nested, None
            try:
                nested()
            finally:
                self.nested = nested

    def run(self, functions):
        errors = []

        def work(name, function):
            with self.condition:
                self.wait(name)
            try:
                function()
            except BaseException as error:
                errors.append(error)
            finally:
                with self.condition:
                    self.alive.remove(name)
                    self.choose()

        threads = []
        for index, function in enumerate(functions):
            name = 'schedule %d' % index
            self.alive.append(name)
            threads.append(threading.Thread(
                target=work, name=name, args=(name, function), daemon=True))
        for thread in threads:
            thread.start()
        with self.condition:
            self.choose()
        for thread in threads:
            thread.join(25)
            expect(not thread.is_alive(), 'thread does not end')
        for error in errors:
            raise error


def with_callbacks(plan, grams, hook):
    """Random grammar whose predicates and normalizers call hook."""
    from yargy import rule, and_, or_
    from yargy.interpretation import fact, attribute
    from yargy.pipelines import morph_pipeline
    from yargy.predicates import custom, gram, true
    from yargy.relations import gnc_relation, number_relation
    F = fact('F', ['a', 'b', attribute('c').repeatable()])

    def look(value):
        hook()
        return value != 'x'

    def note(value):
        hook()
        return '<%s>' % value

    def build():
        random = Random(plan)

        def word():
            return random.choice([
                lambda: custom(look),
                lambda: and_(custom(look), gram(random.choice(grams))),
                lambda: or_(custom(look), gram(random.choice(grams))),
                lambda: gram(random.choice(grams)),
                lambda: true()
            ])()

        relations = [gnc_relation(), number_relation()]

        def part(value):
            item = rule(word())
            if random.randrange(5) == 0:
                item = or_(morph_pipeline(['ба', 'во гу', 'гу']), item)
            if random.randrange(2):
                item = item.match(random.choice(relations))
            item = item.interpretation(value)
            kind = random.randrange(5)
            if kind == 0:
                item = item.optional()
            elif kind == 1:
                item = item.repeatable(max=2)
            return item

        values = [F.a.custom(note), F.b.normalized().custom(note), F.c, F.c]
        random.shuffle(values)
        return rule(
            *map(part, values[:random.randint(2, 4)])
        ).interpretation(F)

    return build


def check_schedule(seed, ctx):
    """Calls of several threads and calls from callbacks, at random."""
    from yargy import Parser
    random = Random(seed)
    schedule = Schedule(random)
    words = ['ба', 'во', 'гу', 'ду']
    grams = ['masc', 'femn', 'sing', 'plur', 'nomn', 'gent']
    lexicon = W.Lexicon({
        word: [
            (random.choice(words), random.sample(grams, 3))
            for _ in range(random.choice([1, 2, 3]))
        ] for word in words
    })
    build = with_callbacks(random.randrange(10 ** 9), grams, schedule.hook)

    def fresh():
        return Parser(build(), tokenizer=spec.stub_tokenizer(lexicon))

    def text():
        return ' '.join(
            random.choice(words + ['x', '5'][:random.randrange(3)])
            for _ in range(random.randint(1, 5)))

    calls = [
        [(random.choice(METHODS[:-1]), text())
         for _ in range(random.randint(1, 3))]
        for _ in range(random.randint(1, 3))
    ]
    nested = [(random.choice(METHODS[:-1]), text()) for _ in range(4)]

    def answer(parser, method, text):
        return [
            spec.match_view(_)
            for _ in start(parser, method, text) if _ is not None
        ]

    want = {}
    for method, text in sum(calls, []) + nested:
        if (method, text) not in want:
            want[method, text] = answer(fresh(), method, text)
    parser = fresh()
    got = []

    def ask(method, text, where):
        got.append((where, method, text, answer(parser, method, text)))

    schedule.nested = lambda: ask(
        *random.choice(nested), where='inside of a call')
    schedule.run([
        lambda items=items: [
            ask(method, text, 'thread') for method, text in items]
        for items in calls
    ])
    for where, method, text, views in got:
        equal(views, want[method, text],
              '%s(%r), %s' % (method, text, where))
    if schedule.switches > 2:
        ctx.label('threads')
    if any(_[0] != 'thread' for _ in got):
        ctx.label('call from a callback')
    ctx.nontrivial(any(_[3] for _ in got) and schedule.switches > 2)


ERRORS = [ValueError, TypeError, KeyError, IndexError, AttributeError,
          RuntimeError, KeyboardInterrupt]


def check_faults(seed, ctx):
    """Callbacks that fail at some point: the error reaches the caller, and
    calls that follow are as if there was none."""
    from yargy import Parser
    from yargy.tagger import Tagger
    random = Random(seed)
    words = ['ба', 'во', 'гу', 'ду']
    grams = ['masc', 'femn', 'sing', 'plur', 'nomn', 'gent']
    lexicon = W.Lexicon({
        word: [
            (random.choice(words), random.sample(grams, 3))
            for _ in range(random.choice([1, 2, 3]))
        ] for word in words
    })
    state = {'count': 0, 'limit': None, 'error': None, 'raised': None}

    def hook():
        state['count'] += 1
        if state['count'] == state['limit']:
            state['raised'] = state['error']('fault of the check')
            raise state['raised']

    build = with_callbacks(random.randrange(10 ** 9), grams, hook)
    tags = random.randrange(2)

    class Hooked(Tagger):
        tags = ['T']

        def __call__(self, tokens):
            for token in tokens:
                hook()
                yield token.tagged('T')
            hook()

    def fresh():
        tokenizer = spec.stub_tokenizer(lexicon)
        if random.randrange(2):
            analyse = tokenizer.morph

            class Analyser(analyse.__class__):
                def __call__(self, word):
                    hook()
                    return analyse(word)

            tokenizer.morph = Analyser()
        return Parser(
            build(), tokenizer=tokenizer, tagger=Hooked() if tags else None)

    def answer(parser, method, text):
        return [
            (view(_), [spec.forms_of(token) for token in _.tokens])
            for _ in start(parser, method, text) if _ is not None
        ]

    texts = [
        ' '.join(random.choice(words + ['x']) for _ in range(
            random.randint(1, 5)))
        for _ in range(2)]
    parser = fresh()
    faults = 0
    found = False
    for _ in range(random.randint(2, 5)):
        method = random.choice(METHODS[:-1])
        text = random.choice(texts)
        state.update(count=0, limit=None)
        want = answer(fresh(), method, text)
        found = found or bool(want)
        if state['count'] and random.randrange(4):
            # late ones are in facts
            limit = random.choice([
                random.randint(1, state['count']), state['count']])
            state.update(
                count=0, limit=limit, raised=None,
                error=random.choice(ERRORS))
            caught = None
            try:
                answer(parser, method, text)
            except tuple(ERRORS) as error:
                caught = error
            state['limit'] = None
            expect(caught is state['raised'],
                   '%r of a callback, %r for the caller', state['raised'],
                   caught)
            faults += caught is not None
        equal(answer(parser, method, text), want,
              '%s(%r) after %d faults' % (method, text, faults))
    if faults:
        ctx.label('fault in a callback')
    ctx.nontrivial(faults and found)


def spoil(fact, random):
    """What a user may do to a fact of his own."""
    for key in fact.__attributes__:
        value = getattr(fact, key)
        if isinstance(value, list):
            for item in value:
                if hasattr(item, '__attributes__'):
                    spoil(item, random)
            if random.randrange(2):
                value.append('spoiled')
            else:
                del value[:]
        elif isinstance(value, dict):
            value['spoiled'] = 1
        elif hasattr(value, '__attributes__'):
            spoil(value, random)
        if random.randrange(2):
            setattr(fact, key, 'spoiled')


def check_changes(seed, ctx):
    """Facts are property of the caller, changes are not seen elsewhere."""
    from yargy import Parser, rule, or_
    from yargy.interpretation import fact, attribute
    from yargy.predicates import true
    random = Random(seed)
    plan = random.randrange(10 ** 9)
    F = fact('F', ['a', 'b', attribute('c').repeatable(), 'd'])
    G = fact('G', ['x', attribute('y').repeatable()])

    def build():
        random = Random(plan)

        def word():
            return random.choice([
                lambda: rule(true()), lambda: rule('ба'),
                lambda: rule('во').repeatable(max=2)])()

        def inner():
            return rule(
                word().interpretation(random.choice([
                    G.x, G.y, G.x.custom(list)])),
                word().interpretation(random.choice([G.x, G.y])).optional()
            ).interpretation(G)

        def part():
            return random.choice([
                lambda: word().interpretation(F.a.custom(list)),
                lambda: word().interpretation(
                    F.b.normalized().custom(lambda _: {'text': _})),
                lambda: word().interpretation(F.c),
                lambda: word().interpretation(F.c),
                lambda: inner().interpretation(F.c),
                lambda: inner().interpretation(F.d),
                lambda: inner().interpretation(
                    F.d.custom(lambda _: [_, [_.x]])),
            ])()

        return rule(
            *[part() for _ in range(random.randint(1, 3))]
        ).interpretation(F)

    lexicon = W.Lexicon({})
    text = ' '.join(
        random.choice(['ба', 'ба', 'во']) for _ in range(random.randint(2, 7)))

    def fresh():
        return Parser(build(), tokenizer=spec.stub_tokenizer(lexicon))

    method = random.choice(['match', 'findall', 'extract'])
    want = [
        view(_) for _ in start(fresh(), method, text) if _ is not None]
    parser = fresh()
    matches = [_ for _ in start(parser, method, text) if _ is not None]
    facts = [_.fact for _ in matches]
    for index in range(min(len(matches), 6)):
        chosen = random.randrange(len(matches))
        mine = matches[chosen].fact
        json = matches[chosen].fact.as_json
        for key in list(json):
            if isinstance(json[key], (list, dict)):
                json[key].clear()
        json.clear()
        spoil(mine, random)
    for index, match in enumerate(matches):
        equal(view(match), want[index], 'match after changes of facts')
        equal(spec.plain_value(facts[index]), want[index][0],
              'fact taken before changes of others')
    equal(
        [view(_) for _ in start(parser, method, text) if _ is not None],
        want, '%s(%r) after changes of facts' % (method, text))
    ctx.nontrivial(matches)
    if matches:
        ctx.label('facts changed')


def view(match):
    return (
        spec.plain_value(match.fact), repr(match.fact.as_json),
        list(map(tuple, match.fact.spans)), tuple(match.span)
    )


def check(case, ctx):
    from yargy import Parser
    if 'changes' in case:
        return check_changes(case['changes'], ctx)
    if 'faults' in case:
        return check_faults(case['faults'], ctx)
    if 'schedule' in case:
        return check_schedule(case['schedule'], ctx)
    if 'reuse' in case:
        return check_reuse(case['reuse'], case['size'], ctx)
    grammar = marks.mark(case['grammar'], case['marks'])
    grammar['relations'] = case['relations']
    if gens.has_k1(grammar):
        raise Skip
    lexicon = W.Lexicon(case['lexicon'])
    reference = model.Model(grammar, lexicon)
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = reference.sample(seed, c07.sample_word, 5)
        if item is not None and len(item) <= 7:
            texts.append(item)
            if len(item) <= 4:
                texts.append((['x'] if seed % 2 else item) + item)
    c07_any = [' '.join(_) for _ in texts]
    probe = model.Model(grammar, lexicon)
    texts = []
    for text in c07_any:
        try:
            c07.any_model(probe, model.tokenize(text))
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        texts.append(text)
    if not texts:
        raise Skip

    # one more parser over the same objects
    second = ['int', ['seq', [
        ['opt', ['t', 'во', 0], False], ['let', len(grammar['lets'])]
    ], None], ['fact', 'F']]
    grammar['lets'] = grammar['lets'] + [grammar['root']]
    specs = [
        dict(grammar, root=['let', len(grammar['lets']) - 1]),
        dict(grammar, root=second)
    ]

    def make_tokenizer():
        return spec.stub_tokenizer(lexicon)

    def fresh(index):
        return Parser(
            spec.Builder(specs[index]).root, tokenizer=make_tokenizer(),
            tagger=spec.word_tagger(c07.TAGGERS[1])
        )

    try:
        fresh(0)
    except ValueError:
        # unknown tag or token type
        raise Skip

    builder = spec.Builder(specs[1])
    tokenizer = make_tokenizer()
    tagger = spec.word_tagger(c07.TAGGERS[1])
    parsers = [
        Parser(_, tokenizer=tokenizer, tagger=tagger)
        for _ in (builder.lets[-1], builder.root)
    ]

    calls = []      # parser, method, text, iterator, matches so far
    found = []      # call, position, match
    looks = 0

    def take(index, count):
        call = calls[index]
        for _ in range(count):
            for match in call['iterator']:
                if match is not None:
                    call['count'] += 1
                    found.append((call, call['count'] - 1, match))
                break

    for operation in case['operations']:
        if operation[0] == 'start':
            _, parser, method, text = operation
            text = texts[text % len(texts)]
            calls.append({
                'parser': parser, 'method': method, 'text': text,
                'iterator': iter(start(parsers[parser], method, text)),
                'count': 0,
            })
            if method in ('match', 'find'):
                take(len(calls) - 1, 1)
        elif operation[0] == 'next' and calls:
            take(operation[1] % len(calls), operation[2])
        elif operation[0] == 'look' and found:
            look(found[operation[1] % len(found)][2], operation[2])
            looks += 1
    for index, call in enumerate(calls):
        take(index, 50 if call['method'] != 'partial' else 1)

    cache = {}
    for call, position, match in found:
        key = call['parser'], call['method'], call['text']
        if key not in cache:
            parser = fresh(call['parser'])
            cache[key] = [
                spec.match_view(_) for _ in start(parser, *key[1:])
            ]
        want = cache[key][position]
        equal(
            spec.match_view(match), want,
            'match %d of %s(%r) in the end of the history' % (
                position, call['method'], call['text'])
        )
        equal(spec.match_view(match), want, 'the same match, second look')
    for call in calls:
        key = call['parser'], call['method'], call['text']
        if key in cache and call['method'] != 'partial':
            want = len([_ for _ in cache[key] if _])
            expect(
                call['count'] == min(want, 50) or want > 50,
                'number of matches of %s(%r): got %d, expected %d',
                call['method'], call['text'], call['count'], want
            )
    fragments(fresh, texts[:3], ctx)
    ctx.nontrivial(looks and len(cache) > 1)
    if found:
        ctx.label('matches')
    if looks:
        ctx.label('looked at')


def fragments(fresh, texts, ctx):
    """Matches of a fragment do not depend on the text around it."""
    for text in texts:
        for match in fresh(0).findall(text):
            start, stop = match.span
            alone = fresh(0).match(text[start:stop])
            want = shifted(spec.match_view(match), -start)
            equal(
                spec.match_view(alone), want,
                'match(%r) against the match in %r' % (
                    text[start:stop], text)
            )
            if start:
                ctx.label('fragment inside')
        spans = {}
        matches = list(fresh(0).extract(text))
        if len(matches) > 40:
            continue
        for match in matches:
            start, stop = match.span
            view = shifted(spec.match_view(match), -start)
            spans.setdefault((start, stop), []).append(view)
        for (start, stop), views in spans.items():
            fragment = text[start:stop]
            alone = [
                spec.match_view(_)
                for _ in fresh(0).extract(fragment, all=False)
            ]
            equal(
                sorted(alone, key=repr), sorted(views, key=repr),
                'extract(%r, all=False) against extract(%r)' % (
                    fragment, text)
            )
            if len(spans) > 1:
                ctx.label('candidate of many')


def shifted(view, offset):
    view = dict(view)

    def move(span):
        return (span[0] + offset, span[1] + offset)

    view['span'] = move(view['span'])
    view['tokens'] = [
        (value, move(span), type, tag)
        for value, span, type, tag in view['tokens']
    ]
    if 'spans' in view:
        view['spans'] = [move(_) for _ in view['spans']]
    return view


def start(parser, method, text):
    if method == 'match':
        return [parser.match(text)]
    elif method == 'find':
        return [parser.find(text)]
    elif method in ('findall', 'partial'):
        return parser.findall(text)
    elif method == 'extract':
        return parser.extract(text)
    return parser.extract(text, all=False)


def look(match, what):
    if what == 'fact':
        match.fact
    elif what == 'json':
        match.fact.as_json
    elif what == 'spans':
        list(match.fact.spans)
    elif what == 'dot':
        match.tree.as_dot.source
    elif what == 'relations':
        match.tree.relations
    elif what == 'tokens':
        [repr(_) for _ in match.tokens]
    elif what == 'repr':
        repr(match)
