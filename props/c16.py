from hypothesis import strategies as st

from lib import interp, model, spec, words as W
from lib.harness import Skip, equal, expect, fail
from props import c15

RULE = (
    'One to three random gazetteers (phrases that share words, differ only '
    'in case or spacing, match the same tokens) used at one to four places '
    'of a rule, shared, wrapped (rule, named, optional, forward, or_, '
    'relation, repetition) and with normalized(), normalized().custom(f) or '
    'no normalizer in attribute or rule form. Texts: phrases of the lists '
    'with case and spacing changed. Non-trivial: a match where a gazetteer '
    'has several phrases and the value is not the text as found.'
)
TECHNIQUE = (
    'property-based testing: value of every gazetteer place against direct '
    'lookup of the found tokens in the phrase list'
)
NOTE = (
    'Oracle looks the found tokens up in the list of phrases; where several '
    'phrases match any of them is accepted, but parsers built anew and '
    'repeated calls have to choose the same one.'
)
QUICK = 1120
THOROUGH = 20000

CHANGES = ['same', 'same', 'same', 'lower', 'upper', 'gaps', 'other']
WRAPS = ['none', 'none', 'rule', 'named', 'optional', 'ref', 'or', 'pair',
         'match', 'rep', 'deep', 'ropt']
FORMS = ['raw', 'attr', 'attr', 'attr custom', 'rule', 'rule custom', 'inner',
         'inner custom', 'rule raw custom']
SEPARATOR = ';'


@st.composite
def strategy(draw, tier):
    real = draw(st.integers(0, 4)) == 0
    words = c15.REAL if real else draw(st.sampled_from(
        [c15.WORDS, c15.WORDS[:6], c15.WORDS + c15.ODD]))
    words = [_ for _ in words if _ != SEPARATOR]
    gazetteers = draw(st.lists(
        c15.gazetteers(words), min_size=1, max_size=3))
    spots = draw(st.lists(st.fixed_dictionaries({
        'gazetteer': st.integers(0, 2),
        'wrap': st.sampled_from(WRAPS),
        'form': st.sampled_from(FORMS),
        'list': st.sampled_from([False, False, False, True]),
    }), min_size=1, max_size=4))
    part = st.tuples(
        st.integers(0, 9), st.sampled_from(CHANGES), st.integers(0, 3),
        st.integers(0, 5))
    return {
        'gazetteers': gazetteers,
        'spots': spots,
        'lexicon': None if real else draw(c15.LEXICON),
        'texts': draw(st.lists(
            st.lists(part, min_size=len(spots), max_size=len(spots)),
            min_size=1, max_size=6)),
        'words': draw(st.lists(
            st.sampled_from(words), min_size=1, max_size=3)),
    }


def grammar_of(case):
    attrs = []
    items = []
    defs = []
    count = len(case['gazetteers'])
    for index, spot in enumerate(case['spots']):
        if index:
            items.append(['t', SEPARATOR, 0])
        name = 'a%d' % index
        attrs.append({
            'name': name, 'repeatable': spot['list'], 'default': None
        })
        gazetteer = ['let', spot['gazetteer'] % count]
        if spot['form'].startswith('inner'):
            gazetteer = ['int', gazetteer, ['norm', chain(spot['form'])]]
        wrap = spot['wrap']
        expr = {
            'none': lambda: gazetteer,
            'rule': lambda: ['seq', [gazetteer], None],
            'named': lambda: ['named', gazetteer, 'N'],
            'optional': lambda: ['opt', gazetteer, False],
            'ropt': lambda: ['opt', gazetteer, True],
            'ref': lambda: ['ref', len(defs)],
            'or': lambda: ['or', [['t', 'q', 0], gazetteer]],
            'pair': lambda: ['or', [
                gazetteer, ['let', (spot['gazetteer'] + 1) % count]]],
            'match': lambda: ['match', gazetteer, 'r'],
            'rep': lambda: ['rep', gazetteer, None, 1, False],
            'deep': lambda: ['seq', [
                ['named', ['seq', [['or', [gazetteer]]], 0], 'D']], None],
        }[wrap]()
        if wrap == 'pair' and spot['form'].startswith('inner'):
            expr = ['or', [gazetteer, [
                'int', expr[1][1], ['norm', chain(spot['form'])]]]]
        if wrap == 'ref':
            defs.append(['seq', [gazetteer], None])
        form = spot['form']
        plain = ['attr', 'F', name, None]
        if form in ('raw', 'inner', 'inner custom'):
            expr = ['int', expr, plain]
        elif form.startswith('attr') and not spot['list']:
            expr = ['int', expr, ['attr', 'F', name, chain(form)]]
        else:
            # repeatable attributes have no normalizers
            expr = ['int', ['int', expr, ['norm', chain(form)]], plain]
        if spot['list']:
            expr = ['rep', ['seq', [['t', '>', 0], expr], None],
                    None, None, False]
        items.append(expr)
    return {
        'lets': case['gazetteers'], 'defs': defs,
        'root': ['int', ['seq', items, None], ['fact', 'F']],
        'facts': {'F': {'attrs': attrs}},
        # always holds
        'relations': {'r': ['or', [['gender'], ['not', ['gender']]]]},
    }


def chain(form):
    if form == 'rule raw custom':
        return [['custom', 'wrap']]
    if form.endswith('custom'):
        return [['normalized'], ['custom', 'wrap']]
    return [['normalized']]


def check(case, ctx):
    from yargy import Parser
    count = len(case['gazetteers'])
    for kind, _, lines in case['gazetteers']:
        if not lines or any(
                not model.tokenize(line) or SEPARATOR in line
                or '>' in line or 'q' in line
                for line in lines
        ):
            raise Skip
    if case['lexicon'] is None:
        lexicon = W.real_lexicon
        tokenizer = spec.real_tokenizer()
    else:
        lexicon = W.Lexicon(case['lexicon'])
        tokenizer = spec.stub_tokenizer(lexicon)
    grammar = grammar_of(case)
    parser = Parser(spec.Builder(grammar).root, tokenizer=tokenizer)
    again = Parser(spec.Builder(grammar).root, tokenizer=tokenizer)
    reference = model.Model(grammar, lexicon)
    nodes = model.Model(
        {'lets': case['gazetteers'], 'root': ['empty']}, lexicon)

    def phrases(index, tokens):
        """Listed phrases that match exactly these tokens."""
        node = nodes.lets[index % count]
        return [
            node.data[1][line]
            for stop, line in nodes.phrases(node, tokens, 0)
            if stop == len(tokens)
        ]

    for parts in case['texts']:
        text, pieces = make_text(case, parts)
        wants = [
            expected(spot, piece, phrases, lexicon, ctx)
            for spot, piece in zip(case['spots'], pieces)
        ]
        tokens = model.tokenize(text, lexicon=lexicon)
        if tokens:
            try:
                reference.effort(tokens, reference.recognize(tokens), 300)
            except model.TooBig:
                ctx.label('some texts too ambiguous')
                continue
        accepted = bool(text) and all(_ is not None for _ in wants)
        match = parser.match(text)
        expect(
            bool(match) == accepted, 'match(%r): got %s, expected %s',
            text, bool(match), accepted
        )
        if not match:
            ctx.label('no match')
            continue
        if not all(case['spots'][index]['list'] or piece
                   for index, piece in enumerate(pieces)):
            ctx.label('absent')
        ctx.label('match')
        fact = match.fact
        for index, (spot, want) in enumerate(zip(case['spots'], wants)):
            name = 'a%d' % index
            got = getattr(fact, name)
            if spot['list']:
                ok = isinstance(got, list) and len(got) == len(want) and all(
                    a in b for a, b in zip(got, want))
            else:
                ok = got in want
            expect(ok, '%s of %r: got %r, expected one of %r',
                   name, text, got, want)
            flat = want if spot['list'] else [want]
            if spot['form'] != 'raw' and any(len(_) > 1 for _ in flat):
                ctx.label('several phrases fit')
            ctx.label(spot['form'], 'wrap ' + spot['wrap'])
        value = spec.plain_value(fact)
        equal(spec.plain_value(again.match(text).fact), value,
              'fact of a parser built anew')
        equal(spec.plain_value(parser.match(text).fact), value,
              'fact of the second call')
        equal(spec.plain_json(fact.as_json), spec.plain_json(
            again.match(text).fact.as_json), 'json')
        found = [_ for _ in parser.findall('q ' + text)
                 if _.span == (2, match.span.stop + 2)]
        if found:
            equal(spec.plain_value(found[0].fact), value, 'fact in findall')


def make_text(case, parts):
    """Text and for each spot its pieces of text."""
    pieces = []
    for spot, (line, change, other, repeat) in zip(case['spots'], parts):
        gazetteers = case['gazetteers']
        index = spot['gazetteer']
        if spot['wrap'] == 'pair' and other % 2:
            index += 1
        lines = gazetteers[index % len(gazetteers)][2]

        def piece(number):
            value = lines[number % len(lines)]
            if change == 'lower':
                return value.lower()
            elif change == 'upper':
                return value.upper()
            elif change == 'gaps':
                return '  '.join(_.value for _ in model.tokenize(value))
            elif change == 'other' and case['words']:
                words = [_.value for _ in model.tokenize(value)]
                position = other % len(words)
                words[position] = case['words'][line % len(case['words'])]
                return ' '.join(words)
            return value

        if spot['list']:
            items = [piece(line + _) for _ in range(1 + repeat % 3)]
            if spot['wrap'] in ('optional', 'ropt'):
                # a part that is absent has no value
                items = items[:1]
            pieces.append(items)
        elif spot['wrap'] in ('optional', 'ropt') and repeat == 0:
            pieces.append('')
        elif spot['wrap'] == 'or' and repeat == 0:
            pieces.append('q')
        else:
            pieces.append(piece(line))
    text = (' %s ' % SEPARATOR).join(
        ''.join(' > ' + _ for _ in piece) if isinstance(piece, list)
        else piece
        for piece in pieces
    )
    return text, pieces


def expected(spot, piece, phrases, lexicon, ctx):
    """Allowed values, None if there is no match."""
    if spot['list']:
        values = [
            allowed(spot, _, phrases, lexicon, ctx) for _ in piece
        ]
        return values if all(values) else None
    return allowed(spot, piece, phrases, lexicon, ctx) or None


def allowed(spot, text, phrases, lexicon, ctx):
    tokens = model.tokenize(text, lexicon=lexicon)
    if not tokens:
        return [None]
    found = model_text(tokens, lambda _: _.value)
    if spot['wrap'] == 'or' and text == 'q':
        if spot['form'] == 'inner':
            return ['q']
        elif spot['form'] == 'inner custom':
            return ['q']
        values = ['q']
    else:
        values = phrases(spot['gazetteer'], tokens)
        if spot['wrap'] == 'pair':
            values = values + phrases(spot['gazetteer'] + 1, tokens)
        if not values:
            return []
        if spot['wrap'] == 'match' and not tokens[0].forms:
            # word without morphology agrees with nothing
            return []
        if len(values) > 1 or found not in values:
            ctx.nontrivial()
    if spot['form'] == 'raw':
        return [found]
    elif spot['form'] == 'rule raw custom':
        return [interp.FUNCTIONS['wrap'](found)]
    if spot['form'].endswith('custom'):
        values = [interp.FUNCTIONS['wrap'](_) for _ in values]
    return values


def model_text(tokens, word):
    parts = []
    for index, token in enumerate(tokens):
        if index and token.start > tokens[index - 1].stop:
            parts.append(' ')
        parts.append(word(token))
    return ''.join(parts)
