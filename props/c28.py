import json
import shutil
from collections import Counter
from functools import partial
from itertools import combinations

from hypothesis import strategies as st

from lib import dot, gens, marks, model, spec, words as W
from lib.harness import Skip, equal, expect, fail
from props import c03, c07, c18

RULE = (
    'Generated grammars with every rule constructor, shared and recursive '
    'parts, forwards left undefined, main marks, names, words, constants and '
    'fact names with any characters (quotes, backslashes, line breaks, dot '
    'syntax), gazetteers, relations: graphs of the rule, of its normalized '
    'form, of its BNF and of the compiled rule of a parser, and of the parse trees of all matches in texts '
    'with such characters; a sample is read by graphviz itself. Non-trivial: '
    'a graph of five or more nodes where a label needs quoting or a node has '
    'several parents or a tree has relation edges.'
)
TECHNIQUE = (
    'property-based testing: independent reader of DOT and graph isomorphism '
    'with the objects'
)
NOTE = (
    'The expected graph is made by a walk over the documented parts of rules '
    'and trees in the check, not by the walk of the code; labels of '
    'predicates, relations and interpretations are those of the objects.'
)
QUICK = 1110
THOROUGH = 12000
LIMIT = 1000
NASTY = ['"', '\\', '\n', '\r', '\\n', '\\N', '"]; x -> y [label="', '{', '}',
         '<b>', '<', '>', '<b>x</b>', '|', '&amp;', '->', ';', ' ', '\t', 'ё', '№', '/*', '//', '#',
         "'", '%s', '{0}', '=', ',', '\u2028', '\x85', '\\"', '\\\\', 'x',
         '0', '']
NAME = st.one_of(
    st.lists(st.sampled_from(NASTY), max_size=4).map(''.join),
    st.text(max_size=6),
    # long
    st.builds(lambda item, size: item * size,
              st.sampled_from(['ab ', '"', 'ё\n', '\\']), st.integers(20, 90)),
    st.sampled_from(['NAME', 'DATE', 'Имя', '<NAME>', '<b>x</b>', '{a|b}',
                     '"x"', '\\l', '\\G'])
)
ALPHABET = ['ба', 'во', 'x', '5', '-', '"', '\\', '\n', '\r\n', '{', '<',
            '&', '№', '\r', '|']

TERMINALS = st.one_of(
    c07.TERMINALS,
    c07.TERMINALS,
    st.builds(lambda w, s: ['t', w, s], NAME, st.integers(0, 2)),
    st.builds(lambda p, s: ['p', p, s], st.one_of(
        st.builds(lambda w: ['caseless', w], NAME),
        st.builds(lambda w: ['and', [['eq', w], ['true']]], NAME),
        st.builds(lambda w: ['not', ['eq', w]], NAME),
        st.builds(lambda n: ['gte', n], st.integers(-3, 9)),
        st.builds(lambda w: ['in', w], st.lists(
            st.sampled_from(ALPHABET), min_size=1, max_size=3)),
        st.sampled_from([['true'], ['true'], ['single'], ['title'],
                         ['upper'], ['len', 1]]),
    ), st.integers(0, 2)),
)


def wrap(draw, expr, cfg):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return ['named', expr, draw(NAME)]
    elif kind == 1:
        return ['int', expr, ['norm', [['const', draw(NAME)]]]]
    return ['match', expr, draw(st.sampled_from(['r0', 'r1']))]


CFG = gens.Config(
    terminals=TERMINALS, wrap=wrap, main=True, depth=3, nested_ext=True)
# trees of phrases with relations
LOOSE = st.one_of(
    st.sampled_from([['p', ['type', 'RU'], 0], ['p', ['true'], 1],
                     ['p', ['true'], 0], ['p', ['gram', 'NOUN'], 2],
                     ['t', 'ба', 0], ['t', 'во', 1]]),
)
CFG_LOOSE = gens.Config(
    terminals=LOOSE, wrap=wrap, main=True, depth=3, nested_ext=False)


def rename(value, name):
    """Fact F as fact `name`."""
    if isinstance(value, list):
        if value[:2] == ['fact', 'F'] or value[:2] == ['attr', 'F']:
            return [value[0], name] + value[2:]
        return [rename(_, name) for _ in value]
    return value


@st.composite
def strategy(draw, tier):
    kind = draw(st.integers(0, 3))
    loose = kind > 1
    if kind == 3:
        phrase = draw(c18.phrases(LOOSE))
        grammar = {'lets': [], 'defs': [], 'root': phrase}
    else:
        grammar = draw(gens.grammars(CFG_LOOSE if loose else CFG))
    grammar['relations'] = {
        'r0': draw(c03.RELATION), 'r1': ['number'],
        'r2': draw(st.one_of(c03.RELATION, c18.RELATION)),
    }
    return {
        'grammar': grammar,
        'marks': draw(st.one_of(st.none(), st.integers(0, 999))),
        'fact': draw(st.one_of(st.just('F'), NAME.filter(
            lambda _: '\0' not in _ and _))),
        'undefined': draw(st.integers(0, 7)) == 5,
        'texts': draw(st.lists(
            gens.texts(c07.ALPHABET[:3] if loose else ALPHABET, 5),
            min_size=1, max_size=3)),
        'lexicon': draw(c07.LEXICON),
        'graphviz': draw(st.integers(0, 29)) == 17,
    }


def make_grammar(case):
    grammar = case['grammar']
    if case['marks'] is not None:
        grammar = marks.mark(grammar, case['marks'], 0.2)
        name = case['fact']
        if name != 'F':
            for key in ('lets', 'defs', 'root'):
                grammar[key] = rename(grammar[key], name)
            grammar['facts'] = {name: grammar['facts']['F']}
    return grammar


########
# EXPECTED GRAPH
########


TITLES = {
    'Rule': 'Rule', 'Production': 'Production',
    'EmptyProduction': 'EmptyProduction',
    'PipelineProduction': 'PipelineProduction',
    'OrRule': 'Or', 'OptionalRule': 'Optional',
    'RepeatableRule': 'Repeatable',
    'RepeatableOptionalRule': 'RepeatableOptional',
    'ForwardRule': 'Forward', 'EmptyRule': 'Empty',
}


def annotated(name, interpretator, relation):
    if interpretator:
        name = interpretator.label
    if relation:
        name = '%s^%s' % (name, relation.label)
    return name


def describe(item):
    """Label and children of a node."""
    from yargy.predicates import is_predicate
    from yargy.rule import bnf, constructors as c
    from yargy.tree import constructors as t
    if isinstance(item, t.Leaf):
        return item.token.value, []
    if isinstance(item, t.Node):
        rule = item.rule
        return annotated(
            rule.name, rule.interpretator, rule.relation
        ), item.children
    if is_predicate(item):
        return item.label, []
    if isinstance(item, bnf.BNFRule):
        return annotated(
            item.name, item.interpretator, item.relation
        ), item.productions
    if isinstance(item, c.Production):
        return TITLES[type(item).__name__], item.terms
    if isinstance(item, c.OrRule):
        return 'Or', item.rules
    if isinstance(item, c.EmptyRule):
        return 'Empty', []
    if isinstance(item, c.PipelineRule):
        return item.pipeline.label, []
    if isinstance(item, c.ForwardRule):
        return 'Forward', [item.rule] if item.rule else []
    if isinstance(item, c.NamedRule):
        return item.name, [item.rule]
    if isinstance(item, c.InterpretationRule):
        return item.interpretator.label, [item.rule]
    if isinstance(item, c.RelationRule):
        return item.relation.label, [item.rule]
    if isinstance(item, c.MinMaxBoundedRule):
        return 'MinMaxBounded [%d, %d]' % (item.min, item.max), [item.rule]
    if isinstance(item, c.MinBoundedRule):
        return 'MinBounded >=%d' % item.min, [item.rule]
    if isinstance(item, c.MaxBoundedRule):
        return 'MaxBounded <=%d' % item.max, [item.rule]
    if isinstance(item, c.ExtendedRule):
        return TITLES[type(item).__name__], [item.rule]
    return TITLES[type(item).__name__], item.productions


def snapshot(root):
    """All nodes with labels and links, in order of a walk."""
    result = []
    visited = {}
    queue = [root]
    while queue:
        item = queue.pop()
        if id(item) in visited:
            continue
        visited[id(item)] = item
        label, children = describe(item)
        result.append((
            id(item), type(item), label, [id(_) for _ in children]
        ))
        queue.extend(reversed(list(children)))
    # visited keeps objects, ids stay valid
    return result, visited


def related(nodes):
    groups = {}
    for item in nodes:
        relation = item.rule.relation if hasattr(item, 'rule') else None
        if relation:
            groups.setdefault(id(relation), (relation, []))[1].append(item)
    for relation, items in groups.values():
        for first, second in combinations(items, 2):
            yield relation.label, id(first), id(second)


########
# CHECK
########


def match_graph(want, objects, root, graph, what):
    """Finds the graph node of every object."""
    declared = Counter(name for name, _ in graph.nodes)
    for name, count in declared.items():
        expect(count == 1, '%s: node %s is declared %d times',
               what, name, count)
    for source, target, _ in graph.edges:
        expect(source in declared and target in declared,
               '%s: edge %s -> %s to a node that is not declared',
               what, source, target)
    equal(len(graph.nodes), len(want), what + ': number of nodes')

    labels = {
        name: dot.unescape(attributes['label'])
        for name, attributes in graph.nodes
        if 'label' in attributes
    }
    equal(
        sorted(labels.values()), sorted(_[2] for _ in want),
        what + ': labels'
    )
    children = {name: [] for name in declared}
    marked = {name: [] for name in declared}
    extra = []
    for source, target, attributes in graph.edges:
        if attributes.get('dir') == 'none':
            extra.append((source, target, attributes))
        else:
            if attributes:
                marked[source].append(len(children[source]))
            children[source].append(target)
    links = {item: targets for item, _, _, targets in want}
    titles = {item: label for item, _, label, _ in want}

    errors = []
    for start, _ in graph.nodes:
        mapping, error = walk(root, start, links, titles, children, labels)
        if not error and len(mapping) == len(want):
            for item, _, label, _ in want:
                main = getattr(objects[item], 'main', None)
                equal(
                    marked[mapping[item]],
                    [main] if label == 'Production' and main else [],
                    what + ': marked edges of %r' % label
                )
            return mapping, extra
        errors.append(error)
    fail('%s: edges are not those of the object: %s', what, errors[:1])


def walk(root, start, links, titles, children, labels):
    mapping = {}
    back = {}
    queue = [(root, start)]
    while queue:
        item, name = queue.pop()
        if item in mapping:
            if mapping[item] != name:
                return None, 'two nodes for %r' % titles[item]
            continue
        if name in back:
            return None, 'node %s for two items' % name
        if titles[item] != labels[name]:
            return None, 'label %r for %r' % (labels[name], titles[item])
        if len(links[item]) != len(children[name]):
            return None, '%d edges from %r instead of %d' % (
                len(children[name]), titles[item], len(links[item]))
        mapping[item] = name
        back[name] = item
        queue.extend(zip(links[item], children[name]))
    return mapping, None


def check_dot(item, root, what, case, ctx):
    want, objects = snapshot(root)
    source = '\n'.join(item.as_dot.source)
    after, objects = snapshot(root), objects
    equal(after[0], want, what + ': nodes after as_dot')
    equal('\n'.join(item.as_dot.source), source, what + ': second as_dot')
    try:
        graph = dot.read(source)
        mapping, extra = match_graph(
            want, objects, id(root), graph, what)
    except dot.DotError as error:
        fail('%s: not DOT, %s: %r', what, error, source)

    names = Counter()
    for label, first, second in related(
            [objects[_[0]] for _ in want if what == 'tree']):
        names[label, frozenset([mapping[first], mapping[second]])] += 1
    got = Counter(
        (dot.unescape(attributes.get('label', '')),
         frozenset([source_, target]))
        for source_, target, attributes in extra
    )
    equal(got, names, what + ': edges of relations')
    if extra:
        ctx.label('relation edges')

    parents = Counter(_ for _, _, _, items in want for _ in set(items))
    quoting = any(set(_[2]) & set('"\\\n\r') for _ in want)
    if quoting:
        ctx.label(what + ' with quoting')
    if len(want) >= 5 and (
            quoting or extra or max(parents.values()) > 1):
        ctx.nontrivial()
    ctx.label('graph of ' + what)

    if case['graphviz'] and shutil.which('dot') and '\0' not in source:
        check_graphviz(item, source, graph, what, ctx)


def check_graphviz(item, source, graph, what, ctx):
    try:
        other = dot.graphviz(source)
    except dot.DotError as error:
        fail('%s: graphviz fails, %s: %r', what, error, source)
    equal(
        sorted((name, dot.unescape(_['label'])) for name, _ in other.nodes),
        sorted((name, dot.unescape(_['label'])) for name, _ in graph.nodes),
        what + ': nodes read by graphviz'
    )
    equal(
        sorted((a, b) for a, b, _ in other.edges),
        sorted((a, b) for a, b, _ in graph.edges),
        what + ': edges read by graphviz'
    )
    ctx.label('graphviz')


########
# FUNCTIONS OF THE USER
########


class Callable(object):
    def __init__(self, suffix):
        self.suffix = suffix

    def __call__(self, value):
        return '%s%s' % (value, self.suffix)

    def method(self, value):
        return '%s-%s' % (value, self.suffix)


def join(suffix, value):
    return '%s%s' % (value, suffix)


FUNCTIONS = {
    'partial': lambda: partial(join, '!'),
    'object': lambda: Callable('!'),
    'method': lambda: Callable('!').method,
    'lambda': lambda: lambda value: value + '!',
    'builtin': lambda: str,
    'class': lambda: Callable,
}
PLACES = [
    'predicate', 'both', 'custom', 'twice', 'normalized', 'attribute',
    'attribute twice', 'attribute normalized'
]


def place_rule(place, function):
    from yargy import and_, not_, rule
    from yargy import interpretation as i
    from yargy import predicates as p
    if place == 'predicate':
        return rule(p.custom(function))
    elif place == 'both':
        return rule(and_(p.custom(function), not_(p.eq('ба'))))
    attribute = i.fact('F', ['a']).a
    return rule('x').interpretation({
        'custom': lambda: i.custom(function),
        'twice': lambda: i.custom(str).custom(function),
        'normalized': lambda: i.normalized().custom(function),
        'attribute': lambda: attribute.custom(function),
        'attribute twice': lambda: attribute.custom(str).custom(function),
        'attribute normalized': lambda: attribute.normalized().custom(
            function),
    }[place]())


def check_function(case, ctx):
    from yargy import Parser, or_, rule
    place, function = case['place'], FUNCTIONS[case['function']]()
    root = or_(
        place_rule(place, function), rule('x', 'x')
    ).named('R')
    rules = [('rule', root), ('normalized', root.normalized)]
    bnf = root.normalized.as_bnf
    rules.append(('bnf', bnf.start))
    parser = Parser(root, tokenizer=spec.stub_tokenizer(W.Lexicon({})))
    rules.append(('compiled', parser.rule))
    for what, item in rules:
        check_dot(item, item, what, case, ctx)
        graph = dot.read('\n'.join(item.as_dot.source))
        labels = [
            _ for _ in (
                dot.unescape(attributes.get('label', ''))
                for _, attributes in graph.nodes
            ) if 'custom(' in _ or 'normalized().' in _
        ]
        equal(len(labels), 1, '%s: labels with custom' % what)
    lines = [
        _ for _ in bnf.source if 'custom(' in _ or 'normalized().' in _
    ]
    expect(lines, 'no custom in BNF: %r', list(bnf.source))
    ctx.label('function of the user')
    ctx.nontrivial()


def cases(tier):
    for place in PLACES:
        for name in sorted(FUNCTIONS):
            yield {'place': place, 'function': name, 'graphviz': False}


def check(case, ctx):
    if 'function' in case:
        return check_function(case, ctx)
    from yargy import Parser, forward, or_
    from yargy.tokenizer import TokenRule
    grammar = make_grammar(case)
    built = spec.Builder(grammar)
    root = built.root
    if case['undefined']:
        root = or_(root, forward())
        check_dot(root, root, 'rule', case, ctx)
        ctx.label('undefined forward')
        return
    for let in built.lets:
        check_dot(let, let, 'rule', case, ctx)
    check_dot(root, root, 'rule', case, ctx)
    rule = root.normalized
    check_dot(rule, rule, 'normalized', case, ctx)
    bnf = rule.as_bnf
    check_dot(bnf.start, bnf.start, 'bnf', case, ctx)

    if gens.has_k1(grammar):
        raise Skip('known finding of C05')
    parser = Parser(
        root,
        tokenizer=spec.stub_tokenizer(W.Lexicon(case['lexicon'])).add_rules(
            TokenRule('W', '[a-z]+-[a-z]+')),
        tagger=spec.word_tagger({'ба': 'A', 'x': 'B', '5': 'A'}),
    )
    check_dot(root, root, 'rule', case, ctx)
    check_dot(parser.rule, parser.rule, 'compiled', case, ctx)
    reference = model.Model(grammar, W.Lexicon({}))
    for words in case['texts']:
        text = ' '.join(words)
        try:
            c07.any_model(reference, model.tokenize(text), LIMIT)
        except model.TooBig:
            ctx.label('text too ambiguous')
            continue
        matches = list(parser.findall(text))
        for index, match in enumerate(parser.extract(text)):
            if index > 5:
                break
            matches.append(match)
        for match in matches:
            tree = match.tree
            check_dot(tree, tree.root, 'tree', case, ctx)
            leaves = [
                item.token.value for item in leaf_order(tree.root)
            ]
            equal(leaves, [_.value for _ in match.tokens],
                  'tokens and leaves')


def leaf_order(item):
    if hasattr(item, 'token'):
        yield item
    else:
        for child in item.children:
            for leaf in leaf_order(child):
                yield leaf
