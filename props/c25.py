from hypothesis import strategies as st

from lib import gens, model, spec, words as W
from lib.harness import Skip, equal, expect, raises
from props import c13, c20

RULE = (
    'Well-formed grammars of all constructs with (1) attempts to use an '
    'operand of each kind (rule, predicate, relation, main, fact, attribute, '
    'normalizer, token rule, string, number, class, function ...) with each '
    'constructor at random places, (2) an undefined forward or a predicate '
    'with an unknown gram, type or tag at random depth, reachable from the '
    'root or not, (3) facts asked from roots without interpretation, (4) '
    'parsers with tokenizers and taggers that know different names. The '
    'table constructor x operand is also run through completely. '
    'Non-trivial: a rejection nested in a larger program, or a parser '
    'refused because of a part at depth.'
)
TECHNIQUE = (
    'property-based testing: programs with one deviation, against a table '
    'of what each constructor accepts'
)
NOTE = (
    'Each attempt has to raise the error of the table (or succeed, for '
    'operands of the right kind) at once and leave the program as it was: '
    'the same program without deviations is then accepted and finds what '
    'the reference model finds. Reachability of a bad part is computed on '
    'the specification.'
)
QUICK = 1520
THOROUGH = 25000

ACCEPT = None
KINDS = [
    'str', 'empty str', 'int', 'zero', 'float', 'none', 'bytes', 'list',
    'object', 'int class', 'function', 'true', 'false', 'dict',
    'rule', 'or', 'optional', 'repeatable', 'named', 'pipeline', 'empty',
    'forward', 'undefined', 'predicate', 'scheme', 'predicates', 'relation',
    'relations', 'relation class', 'predicate class', 'main',
    'fact class', 'fact', 'attribute', 'inflected attribute',
    'const attribute', 'function attribute', 'repeatable attribute',
    'attribute scheme', 'repeatable scheme', 'normalizer',
    'const', 'functions', 'normalizer class', 'token rule', 'production',
    'tokenizer', 'tagger', 'tokenizer class', 'span', 'token',
]
RULES = {'rule', 'or', 'optional', 'repeatable', 'named', 'pipeline',
         'empty', 'forward', 'undefined'}
FORWARDS = {'forward', 'undefined'}
PREDICATES = {'predicate', 'scheme', 'predicates'}
RELATIONS = {'relation', 'relations'}
ATTRIBUTES = {'attribute', 'inflected attribute', 'const attribute',
              'function attribute', 'repeatable attribute'}
NORMALIZERS = {'normalizer', 'const', 'functions'}
STRINGS = {'str', 'empty str'}
BOOLS = {'true', 'false'}
FALSY = {'none', 'empty str', 'zero', 'false', 'dict', 'list'}


class Material(object):
    """One operand of every kind."""

    def __init__(self, rule):
        self.rule = rule

    def __call__(self, kind):
        from yargy import and_, or_, not_, rule, forward, empty, Parser
        from yargy import predicates as p, pipelines, relations as r
        from yargy import interpretation as i
        from yargy.tokenizer import Tokenizer, TokenRule
        from yargy.tagger import PassTagger
        from yargy.rule.constructors import Production
        from yargy.span import Span
        from yargy.token import Token
        F = i.fact('F', ['a', i.attribute('b').repeatable()])
        return {
            'str': lambda: 'x', 'empty str': lambda: '', 'int': lambda: 5,
            'zero': lambda: 0, 'float': lambda: 0.5, 'none': lambda: None,
            'bytes': lambda: b'x', 'list': list, 'object': object,
            'int class': lambda: int, 'function': lambda: len,
            'true': lambda: True, 'false': lambda: False, 'dict': dict,
            'rule': lambda: self.rule,
            'or': lambda: or_(self.rule, rule('x')),
            'optional': lambda: self.rule.optional(),
            'repeatable': lambda: self.rule.repeatable(max=2),
            'named': lambda: self.rule.named('N'),
            'pipeline': lambda: pipelines.morph_pipeline(['x']),
            'empty': lambda: empty(),
            'forward': lambda: forward().define(self.rule, 'x'),
            'undefined': lambda: forward(),
            'predicate': lambda: p.eq('x'),
            'scheme': lambda: p.gram('NOUN'),
            'predicates': lambda: and_(p.eq('x'), not_(p.is_lower())),
            'predicate class': lambda: p.is_lower,
            'relation': lambda: r.gnc_relation(),
            'relations': lambda: or_(
                r.gender_relation(), not_(r.case_relation())),
            'relation class': lambda: r.gnc_relation,
            'main': lambda: r.main(self.rule),
            'fact class': lambda: F, 'fact': lambda: F(a=1),
            'attribute': lambda: F.a,
            'inflected attribute': lambda: F.a.inflected(),
            'const attribute': lambda: F.a.const(1),
            'function attribute': lambda: F.a.normalized().custom(len),
            'repeatable attribute': lambda: F.b,
            'attribute scheme': lambda: i.attribute('a', 1),
            'repeatable scheme': lambda: i.attribute('a').repeatable(),
            'normalizer': lambda: i.normalized(),
            'const': lambda: i.const(1),
            'functions': lambda: i.custom(len).custom(str),
            'normalizer class': lambda: i.normalized,
            'token rule': lambda: TokenRule('W', 'x'),
            'production': lambda: Production([p.eq('x')]),
            'tokenizer': lambda: Tokenizer(),
            'tagger': lambda: PassTagger(),
            'tokenizer class': lambda: Tokenizer,
            'span': lambda: Span(0, 1),
            'token': lambda: Token('x', Span(0, 1), 'LATIN'),
        }[kind]()


def only(*kinds):
    """TypeError for all others."""
    allowed = set()
    for item in kinds:
        allowed |= item if isinstance(item, set) else {item}
    return lambda kind: ACCEPT if kind in allowed else TypeError


def always(error):
    return lambda kind: error


def truthy(allowed):
    # falsy stands for default
    return lambda kind: (
        ACCEPT if kind in FALSY or kind in allowed else TypeError)


def table():
    """name -> (what is expected for the kind, call)"""
    from yargy import and_, or_, not_, rule, forward, Parser
    from yargy import predicates as p, pipelines
    from yargy import relations as r, interpretation as i
    from yargy.tokenizer import Tokenizer
    from yargy import rule as _
    from yargy.rule import constructors as c
    from yargy.predicates import constructors as pc
    from yargy.relations import constructors as rc

    x = p.eq('x')
    gnc = r.gnc_relation()
    anything = always(ACCEPT)
    bounds = {
        kind: ACCEPT for kind in ('int', 'none')
    }
    skip = {'true', 'false', 'float', 'zero'}

    def bound(kind):
        return bounds.get(kind, TypeError)

    return {
        'rule': (anything, lambda a, b: rule(a, b)),
        'rule with main': (
            lambda kind: ValueError if kind == 'main' else ACCEPT,
            lambda a, b: rule(r.main(a), b)),
        'rule with two mains': (
            always(ValueError), lambda a, b: rule(r.main(a), b, r.main(x))),
        'define with two mains': (
            always(ValueError),
            lambda a, b: forward().define(r.main(a), b, r.main(x))),
        'define': (
            lambda kind: ValueError if kind in FORWARDS else ACCEPT,
            lambda a, b: forward().define(b)),
        'define sequence': (anything, lambda a, b: forward().define(a, b)),
        'define of optional': (
            lambda kind: ValueError if kind in FORWARDS else ACCEPT,
            lambda a, b: forward().optional().define(b)),
        'or of rules': (only(RULES), lambda a, b: or_(a, b)),
        'or of rules, first': (only(RULES), lambda a, b: or_(b, a, a)),
        'or of predicates': (only(PREDICATES), lambda a, b: or_(x, b, x)),
        'or of relations': (only(RELATIONS), lambda a, b: or_(gnc, b)),
        'or of one': (
            only(RULES, PREDICATES, RELATIONS), lambda a, b: or_(b)),
        'and of rules': (always(TypeError), lambda a, b: and_(a, b)),
        'and of predicates': (only(PREDICATES), lambda a, b: and_(x, b)),
        'and of predicates, first': (
            only(PREDICATES), lambda a, b: and_(b, x)),
        'and of relations': (only(RELATIONS), lambda a, b: and_(b, gnc)),
        'and of one': (only(PREDICATES, RELATIONS), lambda a, b: and_(b)),
        'not': (only(PREDICATES, RELATIONS), lambda a, b: not_(b)),
        'main': (only(RULES, PREDICATES), lambda a, b: r.main(b)),
        'match': (only(RELATIONS), lambda a, b: a.match(b)),
        'match of predicate': (only(RELATIONS), lambda a, b: x.match(b)),
        'named': (only(STRINGS), lambda a, b: a.named(b)),
        'named predicate': (only(STRINGS), lambda a, b: x.named(b)),
        'interpretation': (
            only('fact class', ATTRIBUTES, NORMALIZERS),
            lambda a, b: a.interpretation(b)),
        'interpretation of predicate': (
            only(ATTRIBUTES, NORMALIZERS),
            lambda a, b: x.interpretation(b)),
        'optional': (only(BOOLS), lambda a, b: a.optional(reverse=b)),
        'optional predicate': (
            only(BOOLS), lambda a, b: x.optional(reverse=b)),
        'repeatable': (only(BOOLS), lambda a, b: a.repeatable(reverse=b)),
        'repeatable min reverse': (
            only(BOOLS), lambda a, b: a.repeatable(min=2, reverse=b)),
        'repeatable max reverse': (
            only(BOOLS), lambda a, b: x.repeatable(max=2, reverse=b)),
        'repeatable min max reverse': (
            only(BOOLS), lambda a, b: a.repeatable(1, 2, b)),
        'min': (bound, lambda a, b: a.repeatable(min=b), skip),
        'max': (bound, lambda a, b: x.repeatable(max=b), skip),
        'min with max': (
            bound, lambda a, b: a.repeatable(min=b, max=9), skip),
        'max with min': (
            bound, lambda a, b: x.repeatable(min=1, max=b), skip),
        'Rule': (only('production'), lambda a, b: c.Rule([b])),
        'OrRule': (only(RULES), lambda a, b: c.OrRule([a, b])),
        'Production': (
            only(RULES, PREDICATES, 'main'), lambda a, b: c.Production([b])),
        'AndPredicate': (
            only(PREDICATES), lambda a, b: pc.AndPredicate([x, b])),
        'OrPredicate': (
            only(PREDICATES), lambda a, b: pc.OrPredicate([b])),
        'NotPredicate': (only(PREDICATES), lambda a, b: pc.NotPredicate(b)),
        'AndRelation': (only(RELATIONS), lambda a, b: rc.AndRelation([b])),
        'OrRelation': (
            only(RELATIONS), lambda a, b: rc.OrRelation([gnc, b])),
        'NotRelation': (only(RELATIONS), lambda a, b: rc.NotRelation(b)),
        'OptionalRule': (
            only(RULES), lambda a, b: c.OptionalRule(b, False)),
        'RepeatableRule': (
            only(RULES), lambda a, b: c.RepeatableRule(b, True)),
        'NamedRule': (only(RULES), lambda a, b: c.NamedRule(b, 'N')),
        'pipeline': (only(STRINGS), lambda a, b: pipelines.pipeline([b])),
        'caseless_pipeline': (
            only(STRINGS), lambda a, b: pipelines.caseless_pipeline(
                ['x', b])),
        'morph_pipeline': (
            only(STRINGS), lambda a, b: pipelines.morph_pipeline([b, 'x'])),
        'Tokenizer': (only('token rule'), lambda a, b: Tokenizer([b])),
        'add_rules': (
            only('token rule'), lambda a, b: Tokenizer().add_rules(b)),
        'Parser tokenizer': (
            only('tokenizer', FALSY),
            lambda a, b: Parser(rule('x'), tokenizer=b), FALSY),
        'Parser tagger': (
            only('tagger', FALSY),
            lambda a, b: Parser(
                rule('x'), tokenizer=Tokenizer(), tagger=b), FALSY),
        'default of repeatable': (
            lambda kind: ACCEPT if kind == 'none' else ValueError,
            lambda a, b: i.attribute('a', b).repeatable()),
        'attribute default': (anything, lambda a, b: i.fact(
            'F', [i.attribute('a', b)])()),
    }


NAMES = [
    'rule', 'rule with main', 'rule with two mains', 'define with two mains',
    'define', 'define sequence', 'define of optional', 'or of rules',
    'or of rules, first', 'or of predicates', 'or of relations',
    'or of one', 'and of rules', 'and of predicates',
    'and of predicates, first', 'and of relations', 'and of one', 'not',
    'main', 'match', 'match of predicate', 'named', 'named predicate',
    'interpretation', 'interpretation of predicate', 'optional',
    'optional predicate', 'repeatable', 'repeatable min reverse',
    'repeatable max reverse', 'repeatable min max reverse', 'min', 'max',
    'min with max', 'max with min', 'Rule', 'OrRule', 'Production',
    'AndPredicate', 'OrPredicate', 'NotPredicate', 'AndRelation',
    'OrRelation', 'NotRelation', 'OptionalRule', 'RepeatableRule',
    'NamedRule', 'pipeline', 'caseless_pipeline', 'morph_pipeline',
    'Tokenizer', 'add_rules', 'Parser tokenizer', 'Parser tagger',
    'default of repeatable', 'attribute default',
]

########
# GENERATORS
########


TERMINALS = st.one_of(
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(['a', 'b', 'ба']), st.integers(0, 2)),
    st.builds(lambda w, s: ['t', w, s],
              st.sampled_from(['a', 'b', 'ба']), st.integers(0, 2)),
    st.builds(lambda p, s: ['p', p, s], c13.PREDICATE, st.integers(0, 2)),
    st.builds(lambda k, l: ['pipe', k, l],
              st.sampled_from(['pipeline', 'caseless', 'morph']),
              st.lists(st.sampled_from(['a', 'a b', 'ба', '']), max_size=2)),
)
UNKNOWN_GRAMS = ['XXXX', 'noun', '', 'NOUN ', 'Nom', 'СУЩЕСТВО', 'nomnsing']
UNKNOWN_TYPES = ['X', 'ru', '', 'RUS', 'EMAIL', 'rule_0']
UNKNOWN_TAGS = ['X', '', 'b', 'NOUN']
KNOWN_GRAMS = [
    'NOUN', 'ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'GRND', 'NUMR',
    'ADVB', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'anim', 'inan',
    'masc', 'femn', 'neut', 'ms-f', 'sing', 'plur', 'Sgtm', 'Pltm', 'Fixd',
    'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen2', 'Abbr',
    'Name', 'Surn', 'Patr', 'Geox', 'Orgn', 'perf', 'past', '1per', 'UNKN',
    'LATN', 'NUMB', 'PNCT', 'ROMN',
]


@st.composite
def deviant(draw):
    """Predicate that no parser accepts."""
    bad = draw(st.one_of(
        st.builds(lambda _: ['gram', _], st.sampled_from(UNKNOWN_GRAMS)),
        st.builds(lambda _: ['type', _], st.sampled_from(UNKNOWN_TYPES)),
        st.builds(lambda _: ['tag', _], st.sampled_from(UNKNOWN_TAGS)),
        st.builds(lambda a, b: ['custom', 'vowel', a + [b] + a],
                  st.sampled_from([[], ['RU'], ['INT']]),
                  st.sampled_from(UNKNOWN_TYPES)),
    ))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        kind = draw(st.sampled_from(['and', 'or', 'not']))
        if kind == 'not':
            bad = ['not', bad]
        else:
            items = [draw(c13.PREDICATE) for _ in range(
                draw(st.integers(0, 2)))]
            items.insert(draw(st.integers(0, len(items))), bad)
            bad = [kind, items]
    return ['p', bad, draw(st.integers(0, 2))]


def wrap(draw, expr, cfg):
    kind = draw(st.integers(0, 9))
    if kind < 6:
        return ['bad', expr, draw(st.sampled_from(NAMES)),
                draw(st.lists(st.sampled_from(KINDS),
                              min_size=1, max_size=6))]
    elif kind == 6:
        return ['match', expr, 'r0']
    return c20.wrap(draw, expr, cfg)


def strategy(tier):
    cfg = gens.Config(
        terminals=TERMINALS, nested_ext=False, wrap=wrap, main=True, depth=4)
    where = st.sampled_from(['root', 'root', 'root', 'root', 'let', 'def'])
    subset = st.lists(st.sampled_from(NAMES_OF_PARTS), unique=True)
    tools = st.fixed_dictionaries({
        'tools': st.lists(
            st.tuples(subset, subset, subset), min_size=2, max_size=3),
        'steps': st.lists(
            st.tuples(
                st.integers(0, 2),
                st.sampled_from(['gram', 'type', 'tag', 'custom']),
                st.sampled_from(NAMES_OF_PARTS), st.integers(0, 3),
                st.booleans()),
            min_size=2, max_size=10),
    })
    program = st.fixed_dictionaries({
        'grammar': gens.grammars(cfg),
        'deviation': st.one_of(
            st.none(),
            deviant(), deviant(), st.just(['undef']), st.just(['undef'])),
        'where': where,
        'index': st.integers(0, 200),
        'lexicon': c13.LEXICON,
        'tags': c13.TAGS,
        'seeds': st.lists(st.integers(0, 1000), min_size=1, max_size=3),
        'text': gens.texts(['a', 'b', 'ба', '5'], 5),
    })
    return st.one_of(
        program, program, program, program, program, program, tools)


NAMES_OF_PARTS = ['NOUN', 'VERB', 'RU', 'W']


def cases(tier):
    for name in NAMES:
        yield {'table': name}
    for gram in KNOWN_GRAMS + UNKNOWN_GRAMS:
        yield {'gram': gram}
    for removed in ('RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER', None):
        yield {'types': removed}


########
# CHECK
########


class Builder(spec.Builder):
    """Tries deviations on the way."""

    def __init__(self, grammar):
        self.attempts = 0
        self.rejected = 0
        self.undefined = []
        super(Builder, self).__init__(grammar)

    def rule(self, expr):
        from yargy import forward
        if expr[0] == 'bad':
            base = self.rule(expr[1])
            for kind in expr[3]:
                if attempt(expr[2], kind, base):
                    self.rejected += 1
                self.attempts += 1
            return base
        elif expr[0] == 'undef':
            item = forward()
            self.undefined.append(item)
            return item
        return super(Builder, self).rule(expr)


def wrapped(base):
    """Where a forward counts, the operand of kind 'rule' is not one."""
    from yargy import rule
    from yargy.rule import ForwardRule
    return rule(base) if isinstance(base, ForwardRule) else base


def attempt(name, kind, base):
    item = table()[name]
    if len(item) == 3 and kind in item[2]:
        return False
    expected = item[0](kind)
    operand = Material(wrapped(base))(kind)
    result = raises(item[1], base, operand)
    what = '%s with %s (%r)' % (name, kind, operand)
    if expected is ACCEPT:
        expect(result.error is None, '%s rejected: %r', what, result.error)
        return False
    expect(result.error is not None, '%s accepted', what)
    expect(isinstance(result.error, expected), '%s: %s expected, got %r',
           what, expected.__name__, result.error)
    return True


def strip(expr, deviation=None, target=None):
    """Without attempts. The deviation put beside the target-th node."""
    counter = [0]

    def visit(expr):
        kind = expr[0]
        mine = counter[0]
        counter[0] += 1
        if kind == 'bad':
            result = visit(expr[1])
        elif kind in ('seq', 'or'):
            result = [kind, [visit(_) for _ in expr[1]]] + expr[2:]
        elif kind in ('opt', 'rep', 'named', 'int', 'match'):
            result = [kind, visit(expr[1])] + expr[2:]
        else:
            result = expr
        if mine == target:
            how = (mine * 7) % 4
            if how == 0:
                return ['seq', [result, deviation], None]
            elif how == 1:
                return ['or', [result, deviation]]
            elif how == 2:
                return ['seq', [['opt', deviation, False], result], None]
            return ['or', [['seq', [deviation, result], None], result]]
        return result

    result = visit(expr)
    return result, counter[0]


def stripped(grammar):
    return dict(
        grammar,
        lets=[strip(_)[0] for _ in grammar['lets']],
        defs=[strip(_)[0] for _ in grammar['defs']],
        root=strip(grammar['root'])[0],
    )


def planted(grammar, deviation, where, index):
    """Grammar with the deviation somewhere."""
    grammar = stripped(grammar)
    key, position = 'root', None
    if where == 'let' and grammar['lets']:
        key, position = 'lets', index % len(grammar['lets'])
    elif where == 'def' and grammar['defs']:
        key, position = 'defs', index % len(grammar['defs'])
    expr = grammar[key] if position is None else grammar[key][position]
    size = strip(expr)[1]
    expr, _ = strip(expr, deviation, index % size)
    if position is None:
        grammar[key] = expr
    else:
        grammar[key] = list(grammar[key])
        grammar[key][position] = expr
    return grammar, index % size


def reachable(grammar, deviation):
    seen = set()
    queue = [grammar['root']]
    while queue:
        expr = queue.pop()
        if expr is deviation or expr == deviation:
            return True
        if expr[0] in ('let', 'ref'):
            key = tuple(expr)
            if key not in seen:
                seen.add(key)
                queue.append(
                    grammar['lets' if expr[0] == 'let' else 'defs'][expr[1]])
        else:
            queue.extend(gens.subexprs(expr))
    return False


def check(case, ctx):
    if 'table' in case:
        return check_table(case['table'], ctx)
    elif 'gram' in case:
        return check_gram(case['gram'], ctx)
    elif 'types' in case:
        return check_types(case['types'], ctx)
    elif 'tools' in case:
        return check_tools(case, ctx)
    from yargy import Parser, rule
    grammar = dict(
        case['grammar'], facts=c20.FACTS, relations={'r0': ['gnc']})
    plain = stripped(grammar)
    if gens.has_k1(plain):
        raise Skip
    lexicon = W.Lexicon(case['lexicon'])
    tokenizer = spec.stub_tokenizer(lexicon)
    tagger = spec.word_tagger(dict(case['tags'], zzz='A', zzzz='B'))

    # attempts on the way
    builder = Builder(grammar)
    if builder.attempts:
        ctx.label('attempts')
    if builder.rejected:
        ctx.label('rejected definitions')
        ctx.nontrivial(
            len(list(gens.walk_exprs(plain))) > 2)
    parser = Parser(builder.root, tokenizer=tokenizer, tagger=tagger)

    # bad part at depth
    deviation = case['deviation']
    if deviation:
        other, depth = planted(
            grammar, deviation, case['where'], case['index'])
        changed = Builder(other)
        root = changed.root
        result = raises(Parser, root, tokenizer=tokenizer, tagger=tagger)
        if reachable(other, deviation):
            expect(result.error is not None,
                   'parser with %r in %r', deviation, other)
            expect(isinstance(result.error, (TypeError, ValueError)),
                   'parser with %r in %r: got %r',
                   deviation, other, result.error)
            ctx.label('refused parser')
            ctx.label('refused: ' + deviation[0])
            ctx.nontrivial(depth > 1)
            if changed.undefined:
                # defined after all
                for item in changed.undefined:
                    item.define('b', 'ба')
                result = raises(
                    Parser, root, tokenizer=tokenizer, tagger=tagger)
                expect(result.error is None,
                       'forwards of %r defined later: %r',
                       other, result.error)
        else:
            expect(result.error is None, 'parser, %r not reachable in %r: %r',
                   deviation, other, result.error)
            ctx.label('bad part not reachable')

    # still a good program
    reference = model.Model(plain, lexicon)
    texts = [' '.join(case['text'])]
    for seed in case['seeds']:
        words = reference.sample(seed, lambda pred, rng: (
            pred[1] if pred[0] in ('eq', 'caseless', 'norm')
            and isinstance(pred[1], str) else rng.choice(['a', 'b', 'ба'])
        ), 6)
        if words is not None and len(words) < 9:
            texts.append(' '.join(words))
    for text in texts:
        tokens = model.tokenize(text, lexicon=lexicon)
        for token in tokens:
            token.tag = case['tags'].get(token.value)
        try:
            reference.effort(tokens, reference.recognize(tokens), 600)
        except model.TooBig:
            continue
        if any(_[0] == 'match' for _ in gens.walk_exprs(plain)):
            result = raises(lambda: parser.match(text))
            expect(result.error is None, 'match %r: %r', text, result.error)
            match = result.value
        else:
            match = parser.match(text)
            equal(
                match is not None,
                (0, len(tokens)) in reference.ranges(tokens),
                'match %r' % text
            )
    # no interpretation at the root
    outer = Parser(
        rule(Builder(plain).root, 'ё'), tokenizer=tokenizer, tagger=tagger)
    for text in texts:
        tokens = model.tokenize(text, lexicon=lexicon)
        try:
            reference.effort(tokens, reference.recognize(tokens), 600)
        except model.TooBig:
            continue
        match = outer.match(text + ' ё')
        if match is not None:
            result = raises(lambda: match.fact)
            expect(isinstance(result.error, ValueError),
                   'fact without interpretation of the root: %r %r',
                   result.value, result.error)
            ctx.label('no interpretation')


def check_table(name, ctx):
    from yargy import rule
    for kind in KINDS:
        attempt(name, kind, rule('x', 'y'))
    if name == 'min':
        base = rule('x')
        from yargy.predicates import eq
        for item in (base, eq('x'), base.optional(), base.repeatable()):
            for low in (None, -5, -1, 0, 1, 2, 3, 10):
                for high in (None, -5, -1, 0, 1, 2, 3, 10):
                    for reverse in (False, True):
                        good = (
                            (low is None or low >= 1)
                            and (high is None or high >= 1)
                            and (None in (low, high) or high >= low)
                        )
                        result = raises(
                            item.repeatable, min=low, max=high,
                            reverse=reverse)
                        what = 'bounds %r %r of %r' % (low, high, item)
                        if good:
                            expect(result.error is None, '%s: %r',
                                   what, result.error)
                        else:
                            expect(isinstance(result.error, ValueError),
                                   '%s: %r', what, result.error)
    if name == 'define':
        from yargy import forward, Parser
        tokenizer = spec.plain_tokenizer()
        item = forward()
        root = rule('x', item)
        raises(item.define, forward())
        result = raises(Parser, root, tokenizer=tokenizer)
        expect(isinstance(result.error, TypeError),
               'parser after rejected define: %r', result.error)
        item.define('y')
        expect(Parser(root, tokenizer=tokenizer).match('x y'),
               'match after define')
    ctx.label('table')


def check_gram(name, ctx):
    from yargy import Parser, rule, or_, not_
    from yargy.predicates import gram, is_lower
    tokenizer = spec.real_tokenizer()
    for item in (gram(name), or_(is_lower(), not_(gram(name)))):
        for item in (rule(item), rule('x', item.optional())):
            result = raises(Parser, item, tokenizer=tokenizer)
            if name in KNOWN_GRAMS:
                expect(result.error is None,
                       'gram %r refused: %r', name, result.error)
            else:
                expect(isinstance(result.error, ValueError),
                       'gram %r: %r', name, result.error)
    ctx.label('gram')


def check_types(removed, ctx):
    from yargy import Parser, rule
    from yargy.predicates import type as type_, custom
    from yargy.tokenizer import Tokenizer, TokenRule
    tokenizer = Tokenizer()
    known = {'RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER'}
    if removed:
        tokenizer.remove_types(removed)
        known.discard(removed)
    tokenizer.add_rules(TokenRule('W', r'w+'))
    known.add('W')
    for name in sorted(known) + [removed or 'X', 'EMAIL', 'w', '']:
        for item in (type_(name), custom(len, types=name),
                     custom(len, types=['W', name]),
                     custom(len, types=(name, 'W'))):
            result = raises(Parser, rule('x', item), tokenizer=tokenizer)
            if name in known:
                expect(result.error is None, 'type %r refused: %r',
                       name, result.error)
            else:
                expect(isinstance(result.error, ValueError), 'type %r: %r',
                       name, result.error)
        result = raises(tokenizer.check_type, name)
        expect((result.error is None) == (name in known),
               'check_type %r: %r', name, result.error)
    # failed removal changes nothing
    result = raises(tokenizer.remove_types, 'W', 'NOPE')
    expect(isinstance(result.error, ValueError), 'removal: %r', result.error)
    equal(tokenizer.split('w'), ['w'], 'tokens after failed removal')
    expect(raises(tokenizer.check_type, 'W').error is None,
           'type lost by failed removal')
    ctx.label('types')


def check_tools(case, ctx):
    """Tokenizers and taggers that know different names."""
    from yargy import Parser, rule, or_, not_
    from yargy.morph import MorphAnalyzer
    from yargy.predicates import gram, type as type_, tag, custom, eq
    from yargy.tagger import Tagger
    from yargy.tokenizer import MorphTokenizer, TokenRule

    def make_tool(grams, types, tags):
        class TagClass(object):
            @staticmethod
            def grammeme_is_known(value):
                return value in grams

        class Raw(object):
            def parse(self, word):
                return [W.FakeParse(word, word, frozenset(grams))]

        Raw.TagClass = TagClass

        class Marker(Tagger):
            def __call__(self, tokens):
                return tokens

        Marker.tags = set(tags)
        rules = [TokenRule(_, r'\w+') for _ in types]
        return {
            'tokenizer': MorphTokenizer(rules, morph=MorphAnalyzer(Raw())),
            'tagger': Marker()
        }

    makers = {
        'gram': gram, 'type': type_, 'tag': tag,
        'custom': lambda name: custom(len, types=['W', name])
    }
    tools = [make_tool(*_) for _ in case['tools']]
    parts = {}
    answers = {}
    for index, kind, name, place, fresh in case['steps']:
        index = index % len(tools)
        grams, types, tags = case['tools'][index]
        good = {
            'gram': name in grams, 'type': name in types,
            'tag': name in tags, 'custom': {'W', name} <= set(types)
        }[kind]
        if fresh or (kind, name) not in parts:
            # the same predicate in parsers with different tools
            parts[kind, name] = makers[kind](name)
        item = parts[kind, name]
        item = [
            rule(item), rule('x', item.optional()),
            rule(or_(eq('x'), not_(item))),
            or_(rule('x'), rule('y', item).named('N'))
        ][place]
        result = raises(Parser, item, **tools[index])
        what = '%s(%r) with tools %r, step %r' % (
            kind, name, case['tools'][index], case['steps'])
        if good:
            expect(result.error is None, '%s: %r', what, result.error)
        else:
            expect(isinstance(result.error, ValueError), '%s: %r',
                   what, result.error)
        answers.setdefault((kind, name), set()).add(good)
    ctx.label('tools')
    ctx.nontrivial(any(len(_) > 1 for _ in answers.values()))
