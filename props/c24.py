from hypothesis import strategies as st

from lib import gens, model, spec, words as W
from lib.harness import Skip, equal, expect, expect_raises
from props import c18

RULE = (
    'Random compositions of taggers (by word, by position, by the tag of the '
    'token before, renaming and removing tags, dropping tokens, gluing tokens) over '
    'grammars with tag predicates, predicates that narrow forms and '
    'relations; tags that nobody knows at random depth. Non-trivial: tagged '
    'tokens by a composition, or forms dropped or ranges rejected.'
)
TECHNIQUE = (
    'property-based testing: taggers restated over reference tokens, matches '
    'compared token by token'
)
NOTE = (
    'Tokens after the tagger, the ranges found and the value, span, type, '
    'forms and tag of every token of every match are compared with the '
    'reference; a tag is unknown exactly if no tagger of the (nested) '
    'composition declares it.'
)
QUICK = 1500
THOROUGH = 20000
TAGS = ['A', 'a', 'B']
ALPHABET = c18.ALPHABET + ['-']
TAG = st.sampled_from(TAGS)

TAGGER = st.one_of(
    st.builds(lambda d: ['words', d], st.dictionaries(
        st.sampled_from(ALPHABET), TAG, max_size=4)),
    st.builds(lambda d: ['words', d], st.dictionaries(
        st.sampled_from(ALPHABET), TAG, min_size=2, max_size=5)),
    st.builds(lambda n, k, t: ['index', n, k % n, t],
              st.integers(1, 3), st.integers(0, 2), TAG),
    st.builds(lambda a, b: ['after', a, b], TAG, TAG),
    st.builds(lambda a, b: ['rename', a, b], TAG, TAG),
    st.builds(lambda a, b: ['clear', a], TAG, TAG),
    st.builds(lambda t: ['drop', t], st.sampled_from(['PUNCT', 'LATIN'])),
    st.just(['glue']),
    st.just(['pass']),
)
COMPOSITION = st.recursive(
    TAGGER,
    lambda inner: st.builds(
        lambda _: ['all', _], st.lists(inner, min_size=0, max_size=3)),
    max_leaves=4
)
TERMINALS = st.one_of(
    st.builds(lambda t, s: ['p', ['tag', t], s], TAG, st.integers(0, 2)),
    st.builds(lambda t, s: ['p', ['tag', t], s], TAG, st.integers(0, 2)),
    st.builds(lambda t, s: ['p', ['not', ['tag', t]], s],
              TAG, st.integers(0, 2)),
    st.builds(lambda t, g: ['p', ['and', [['tag', t], ['gram', g]]], 0],
              TAG, st.sampled_from(c18.FEW)),
    st.builds(lambda t, g: ['p', ['or', [['tag', t], ['gram', g]]], 0],
              TAG, st.sampled_from(c18.FEW)),
    c18.TERMINALS,
    st.just(['p', ['true'], 0]),
)
FREE = gens.Config(
    terminals=TERMINALS, nested_ext=False, wrap=c18.wrap, main=True,
    depth=3, recursion=False, empty=False, lets=1)


def all_tags(words, more, position):
    words = {word: tag for word, tag in zip(words, TAGS + TAGS)}
    more = list(more)
    more.insert(position, ['words', words])
    return ['all', more]


def strategy(tier):
    complete = st.builds(
        all_tags, st.permutations(ALPHABET),
        st.lists(COMPOSITION, max_size=3), st.integers(0, 3))
    return st.fixed_dictionaries({
        'tagger': st.one_of(
            complete, complete, complete, complete, complete,
            st.builds(lambda _: ['all', _], st.lists(
                COMPOSITION, min_size=1, max_size=3)),
            COMPOSITION
        ),
        'grammar': st.one_of(
            gens.grammars(FREE),
            st.builds(
                lambda root: {'lets': [], 'defs': [], 'root': root},
                c18.phrases(TERMINALS, 1, 3))
        ),
        'relations': st.fixed_dictionaries({
            name: c18.RELATION for name in c18.NAMES
        }),
        'lexicon': st.one_of(
            c18.lexicons(c18.GRAMS), c18.lexicons(c18.FEW[:4])),
        'texts': st.lists(
            st.lists(st.tuples(
                st.sampled_from(ALPHABET), st.sampled_from(['', ' ', ' '])
            ), max_size=6), min_size=1, max_size=4),
        'seeds': st.lists(
            st.integers(0, 1000), min_size=1, max_size=5),
        'names': st.sampled_from([
            TAGS, TAGS, TAGS, [1, '1', 2], ['1', 1, 'A'],
            ['B-A', 'I-A', 'A'], ['A ', 'A', 'b'], [[1], '[1]', 'A'],
            [0, '', 'A'], ['A', 0, '0'],
        ]),
    })


def cases(tier):
    # parsers without a tokenizer
    words = [[['ба', ' '], ['во', ' '], ['x', ''], ['5', ' '], ['гу', '']]]
    for tagger, root in [
            (['words', {'ба': 'A', 'x': 'B'}], ['p', ['tag', 'A'], 0]),
            (['all', [['words', {'ба': 'A', 'x': 'B'}], ['glue']]],
             ['p', ['true'], 0]),
            (['index', 2, 0, 'A'], ['seq', [
                ['p', ['tag', 'A'], 0], ['p', ['gram', 'NOUN'], 0]], None]),
            (['words', {'ба': 'A'}], ['p', ['and', [
                ['type', 'RU'], ['not', ['tag', 'A']]]], 0])]:
        yield {
            'tagger': tagger, 'relations': {}, 'texts': words, 'seeds': [],
            'grammar': {'lets': [], 'defs': [], 'root': root},
            'lexicon': {}, 'default': True,
        }


def known(item):
    """Tags that taggers declare."""
    kind = item[0]
    if kind == 'words':
        return set(item[1].values())
    elif kind == 'index':
        return {item[3]}
    elif kind in ('after', 'rename'):
        return {item[2]}
    elif kind == 'all':
        return {tag for _ in item[1] for tag in known(_)}
    return set()


def make_tagger(item):
    from yargy.tagger import Tagger, PassTagger, TaggersComposition
    from yargy.token import Token
    from yargy.span import Span
    kind = item[0]
    if kind == 'all':
        return TaggersComposition([make_tagger(_) for _ in item[1]])
    elif kind == 'pass':
        return PassTagger()

    class Custom(Tagger):
        tags = known(item)

        def __call__(self, tokens):
            return self.tag(list(tokens))

        def tag(self, tokens):
            previous = None
            for index, token in enumerate(tokens):
                if kind == 'words':
                    tag = item[1].get(token.value)
                elif kind == 'index':
                    tag = item[3] if index % item[1] == item[2] else None
                elif kind == 'after':
                    tag = item[2] if previous == item[1] else None
                elif kind == 'clear':
                    if getattr(token, 'tag', None) == item[1]:
                        token = token.tagged(None)
                    tag = None
                else:
                    tag = None
                    if getattr(token, 'tag', None) == item[1]:
                        tag = item[2]
                previous = getattr(token, 'tag', None)
                yield token if tag is None else token.tagged(tag)

    class Drop(Tagger):
        def __call__(self, tokens):
            return [_ for _ in tokens if _.type != item[1]]

    class Glue(Tagger):
        def __call__(self, tokens):
            tokens = list(tokens)
            while tokens:
                token = tokens.pop(0)
                while tokens and tokens[0].span.start == token.span.stop:
                    other = tokens.pop(0)
                    token = Token(
                        token.value + other.value,
                        Span(token.span.start, other.span.stop), token.type
                    )
                yield token

    return {'drop': Drop, 'glue': Glue}.get(kind, Custom)()


def copy(token, **changes):
    value = model.Tok(token.value, token.start, token.stop, token.type,
                      token.forms, token.tag)
    for key in changes:
        setattr(value, key, changes[key])
    return value


def tagged(item, tokens):
    kind = item[0]
    if kind == 'all':
        for part in item[1]:
            tokens = tagged(part, tokens)
        return tokens
    elif kind == 'words':
        return [copy(_, tag=item[1].get(_.value, _.tag)) for _ in tokens]
    elif kind == 'index':
        return [
            copy(_, tag=item[3]) if index % item[1] == item[2] else _
            for index, _ in enumerate(tokens)
        ]
    elif kind == 'after':
        return [
            copy(_, tag=item[2])
            if index and tokens[index - 1].tag == item[1] else _
            for index, _ in enumerate(tokens)
        ]
    elif kind == 'rename':
        return [
            copy(_, tag=item[2]) if _.tag == item[1] else _ for _ in tokens
        ]
    elif kind == 'clear':
        return [copy(_, tag=None) if _.tag == item[1] else _ for _ in tokens]
    elif kind == 'drop':
        return [_ for _ in tokens if _.type != item[1]]
    elif kind == 'glue':
        result = []
        for token in tokens:
            if result and result[-1].stop == token.start:
                last = result.pop()
                token = model.Tok(
                    last.value + token.value, last.start, token.stop,
                    last.type)
            result.append(token)
        return result
    return tokens


def used_tags(grammar):
    def visit(predicate):
        if predicate[0] == 'tag':
            yield predicate[1]
        elif predicate[0] in ('and', 'or'):
            for item in predicate[1]:
                for tag in visit(item):
                    yield tag
        elif predicate[0] == 'not':
            for tag in visit(predicate[1]):
                yield tag
    reachable = []
    queue = [grammar['root']]
    while queue:
        expr = queue.pop()
        if expr[0] == 'let':
            expr = grammar['lets'][expr[1]]
        if expr[0] == 'p':
            reachable.extend(visit(expr[1]))
        if expr[0] == 'let':
            queue.append(expr)
        else:
            queue.extend(gens.subexprs(expr))
    return set(reachable)


def full_view(token, forms):
    if isinstance(token, model.Tok):
        span, tag = (token.start, token.stop), token.tag
    else:
        span, tag = tuple(token.span), getattr(token, 'tag', None)
    return token.value, span, token.type, tag, forms


def renamed(item, names):
    """Other values in place of the tags."""
    if isinstance(item, str):
        value = names.get(item, item)
        # tags are hashable
        return tuple(value) if isinstance(value, list) else value
    elif isinstance(item, (list, tuple)):
        return [renamed(_, names) for _ in item]
    elif isinstance(item, dict):
        return {key: renamed(value, names) for key, value in item.items()}
    return item


def check(case, ctx):
    from yargy import Parser, rule
    names = dict(zip(TAGS, case.get('names', TAGS)))
    case = dict(
        case, tagger=renamed(case['tagger'], names),
        grammar=renamed(case['grammar'], names)
    )
    if names['A'] != 'A':
        ctx.label('other kinds of tags')
    from yargy.predicates import tag
    grammar = dict(case['grammar'], relations=case['relations'])
    if gens.has_k1(grammar):
        raise Skip
    lexicon = W.Lexicon(case['lexicon'])
    tokenizer = spec.stub_tokenizer(lexicon)
    declared = known(case['tagger'])
    tagger = make_tagger(case['tagger'])
    for name in list(names.values()) + ['NOPE', '1', 'A']:
        name = tuple(name) if isinstance(name, list) else name
        # directly, and at the only place of a parser
        equal(bool(tagger.check_tag(name)), name in declared,
              'check_tag(%r)' % name)
        if name not in declared:
            expect_raises(
                ValueError, 'parser with unknown tag %r' % name,
                Parser, rule('x', tag(name).optional()),
                tokenizer=tokenizer, tagger=tagger
            )
    if used_tags(grammar) - declared:
        expect_raises(
            ValueError, 'parser with unknown tags',
            Parser, spec.Builder(grammar).root,
            tokenizer=tokenizer, tagger=tagger
        )
        ctx.label('unknown tags')
        return

    parser = Parser(
        spec.Builder(grammar).root, tokenizer=tokenizer, tagger=tagger)
    if case.get('default'):
        check_default(case, grammar, tagger, ctx)
    reference = model.Model(grammar, lexicon)
    if reference.cyclic() or not reference.exact_order:
        raise Skip
    texts = [''.join(a + b for a, b in _) for _ in case['texts']]
    for seed in case['seeds']:
        item = reference.sample(
            seed, lambda pred, rng: word(pred, rng, case['tagger']), 6)
        if item is not None and len(item) <= 7:
            texts.append(' '.join(item))
    has_tags = False
    for text in texts:
        plain = model.tokenize(text, lexicon=lexicon)
        tokens = tagged(case['tagger'], plain)
        equal(
            [full_view(_, c18.sorted_forms(_))
             for _ in tagger(tokenizer(text))],
            [full_view(_, c18.sort_forms(_.forms)) for _ in tokens],
            'tokens after the tagger'
        )
        if not tokens:
            expect(parser.match(text) is None, 'match of nothing')
            continue
        c18.check_text(
            parser, reference, text, lexicon, case['relations'], ctx,
            tokens=tokens, view=full_view)
        if any(_.tag is not None for _ in tokens):
            has_tags = True
    if has_tags:
        ctx.label('tagged tokens')
        ctx.nontrivial(case['tagger'][0] == 'all')
    if case['tagger'][0] == 'all':
        ctx.label('composition')


def check_default(case, grammar, tagger, ctx):
    """No tokenizer is given: real morphology."""
    from yargy import Parser
    from yargy.tokenizer import MorphTokenizer
    given = Parser(spec.Builder(grammar).root, spec.real_tokenizer(), tagger)
    none = Parser(spec.Builder(grammar).root, tagger=tagger)
    expect(isinstance(none.tokenizer, MorphTokenizer), 'default tokenizer')
    for words in case['texts'][:2]:
        text = ''.join(a + b for a, b in words)
        outcome = [
            [[full_view(token, c18.sorted_forms(token)) for token in _.tokens]
             for _ in parser.findall(text)]
            for parser in (given, none)
        ]
        equal(outcome[1], outcome[0], 'findall(%r) by default' % text)
        if outcome[0]:
            ctx.label('default tokenizer')


def word(pred, rng, tagger):
    if pred[0] == 'eq':
        return pred[1]
    if pred[0] == 'tag' and tagger[0] == 'all':
        for item in tagger[1]:
            if item[0] == 'words':
                words = [w for w, t in item[1].items() if t == pred[1]]
                if words:
                    return rng.choice(words)
    return rng.choice(ALPHABET)
