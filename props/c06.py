from hypothesis import strategies as st

from lib import gens, interp, marks, model, rewrite, spec, words as W
from lib.harness import Skip, equal
from props import c03

RULE = (
    'Random grammar with recorded parts and relations, and a random chain of '
    'equivalent rewrites (copies instead of shared objects, rule(...), '
    'named, forward, nesting and flattening of or_, grouping of sequences, '
    'order of annotations, unused interpretations). Non-trivial: three or '
    'more rewrites and a match in some text.'
)
TECHNIQUE = (
    'property-based testing: metamorphic relation between equivalent '
    'grammars'
)
NOTE = (
    'Matches, spans, kept forms and facts of both grammars are compared on '
    'random and sampled texts; facts only where the order of derivations is '
    'stated (no cycles, no nested repetition towers). The relation is '
    'between two runs of yargy, the reference model only bounds the effort.'
)
QUICK = 1000
THOROUGH = 15000
LIMIT = 1500


def strategy(tier):
    alphabet = c03.ALPHABET
    common = {
        'marks': st.integers(0, 10000),
        'rewrites': st.lists(
            st.integers(0, 100000), min_size=1, max_size=2),
        'texts': st.lists(
            gens.texts(alphabet, 5), min_size=1, max_size=3),
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=5),
        'lexicon': c03.LEXICON,
    }
    return st.one_of(
        st.fixed_dictionaries(dict(
            common, grammar=shared(), relations=st.fixed_dictionaries({
                'r0': c03.RELATION, 'r1': c03.RELATION
            })
        )),
        st.fixed_dictionaries(dict(
            common, grammar=gens.grammars(c03.PLAIN), relations=st.just({})
        )),
        st.builds(lambda case: dict(
            case, texts=case['texts'] + [
                [str(_), str(99 - _)] for _ in range(0, 100, 7)]
        ), st.fixed_dictionaries(dict(
            common, grammar=wide(), relations=st.just({})
        ))),
        st.fixed_dictionaries(dict(
            common, grammar=gens.grammars(c03.RELATED),
            relations=st.fixed_dictionaries({
                'r0': c03.RELATION, 'r1': c03.RELATION
            })
        ))
    )


@st.composite
def shared(draw):
    # one object used as is and with everything that can be put over it
    word = st.builds(
        lambda _: ['t', _, 1], st.sampled_from(c03.ALPHABET))
    pair = ['or', [draw(word), draw(word)]]
    body = draw(st.sampled_from([
        draw(word), pair, ['seq', [pair], None],
        ['seq', [draw(word), draw(word)], None],
        ['or', [pair, ['seq', [draw(word), draw(word)], None]]],
        ['opt', draw(word), False], ['rep', pair, None, None, False],
    ]))

    def use():
        item = ['let', 0]
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            kind = draw(st.sampled_from(['named', 'match', 'seq', 'or']))
            if kind == 'named':
                item = ['named', item, draw(st.sampled_from(['X', 'Y']))]
            elif kind == 'match':
                item = ['match', item, draw(st.sampled_from(['r0', 'r1']))]
            elif kind == 'seq':
                item = ['seq', [item], None]
            else:
                item = ['or', [item]]
        return item

    items = [use() for _ in range(draw(st.integers(2, 3)))]
    root = draw(st.sampled_from([
        ['seq', items, None],
        ['or', items],
        ['seq', [items[0], ['or', items[1:]]], None],
    ]))
    return {'lets': [body], 'defs': [], 'root': root}


@st.composite
def wide(draw):
    # dozens of alternatives, long sequences, many uses of one object
    size = draw(st.integers(6, 45))
    start = draw(st.integers(0, 99))
    words = [['t', str((start + _) % 100), _ % 3] for _ in range(size)]
    if draw(st.booleans()):
        # in groups
        step = draw(st.integers(2, 12))
        words = [
            ['or', words[_:_ + step]] for _ in range(0, size, step)]
    item = ['or', words]
    kind = draw(st.sampled_from(['or', 'pair', 'let', 'seq']))
    lets = []
    if kind == 'pair':
        item = ['seq', [item, ['opt', item, draw(st.booleans())]], None]
    elif kind == 'let':
        lets = [item]
        item = ['seq', [['let', 0], ['named', ['let', 0], 'X']], None]
    elif kind == 'seq':
        item = ['or', [
            ['seq', [_ if _[0] == 't' else _[1][0] for _ in words], None],
            ['seq', [item, item], None], item
        ]]
    return {'lets': lets, 'defs': [], 'root': item}


def check(case, ctx):
    from yargy import Parser
    relations = case['relations']
    grammar = marks.mark(case['grammar'], case['marks'])
    grammar['relations'] = relations
    other = grammar
    applied = []
    for seed in case['rewrites']:
        other, names = rewrite.rewrite(other, seed)
        applied.extend(names)
    if gens.has_k1(grammar) or gens.has_k1(other):
        raise Skip
    lexicon = W.Lexicon(case['lexicon'])
    references = [model.Model(_, lexicon) for _ in (grammar, other)]
    facts = all(_.exact_order and not _.cyclic() for _ in references)
    texts = list(case['texts'])
    for seed in case['seeds']:
        item = references[0].sample(seed, c03.words)
        if item is not None and len(item) <= 45:
            texts.append(item)
    tokenizer = spec.stub_tokenizer(lexicon)
    parsers = [
        Parser(spec.Builder(_).root, tokenizer=tokenizer)
        for _ in (grammar, other)
    ]
    found = 0
    for item in texts:
        text = ' '.join(item)
        tokens = model.tokenize(text, lexicon=lexicon)
        try:
            for reference in references:
                ends = reference.recognize(tokens)
                reference.effort(tokens, ends, LIMIT)
        except model.TooBig:
            ctx.label('some texts too ambiguous')
            continue
        a, b = [results(_, text, facts) for _ in parsers]
        equal(b, a, 'results for %r after rewriting' % text)
        found += bool(a[1])
    ctx.label(*['rewrite ' + _ for _ in applied])
    if facts:
        ctx.label('facts compared')
    ctx.nontrivial(len(applied) > 2 and found)


def results(parser, text, facts):
    return (
        result(parser.match(text), facts),
        [result(_, facts) for _ in parser.findall(text)]
    )


def result(match, facts):
    if match is None:
        return
    value = [tuple(match.span), spec.values(match)]
    if facts:
        value.append(match.fact.p)
        value.append([
            sorted((norm, sorted(grams)) for norm, grams in forms or ())
            for forms in [spec.forms_of(_) for _ in match.tokens]
        ])
    return value
