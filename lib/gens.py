"""Hypothesis strategies for specifications. Everything drawn is JSON."""
from hypothesis import strategies as st

from . import words as W


class Config(object):
    """What a generated grammar may contain."""

    alphabet = ['a', 'b', 'c']
    terminals = None        # strategy of expressions, default: ['t', x]
    depth = 4
    lets = 2
    defs = 2
    opt = True
    rep = True
    bounds = True
    nested_ext = True       # optional / repeatable directly over each other
    empty = True
    named = True
    main = False
    recursion = True        # forwards anywhere
    width = 3
    wrap = None             # function(draw, expr, cfg) -> expr

    def __init__(self, **kwargs):
        for key, value in kwargs.items():
            getattr(self, key)
            setattr(self, key, value)


def weighted(*pairs):
    items = []
    for value, weight in pairs:
        items.extend([value] * weight)
    return items


class Scope(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.lets = []
        self.refs = 0


def resolve(expr, lets):
    while expr[0] == 'let':
        expr = lets[expr[1]]
    return expr


def is_k1(min, max, child):
    """The known finding: repeatable(min>=2) directly over repeatable()."""
    return (
        child[0] == 'rep' and child[2] is None and child[3] is None
        and min is not None and min > 1 and max is None
    )


@st.composite
def exprs(draw, scope, depth):
    cfg = scope.cfg
    kinds = weighted(('t', 5))
    if depth > 0:
        kinds += weighted(('seq', 6), ('or', 5))
        if cfg.opt:
            kinds += weighted(('opt', 3))
        if cfg.rep:
            kinds += weighted(('rep', 3))
        if cfg.named:
            kinds += weighted(('named', 1))
        if cfg.wrap:
            kinds += weighted(('wrap', 3))
    if cfg.empty:
        kinds += weighted(('empty', 1))
    if scope.lets:
        kinds += weighted(('let', 3))
    if scope.refs:
        kinds += weighted(('ref', 4))
    kind = draw(st.sampled_from(kinds))
    if kind == 't':
        return terminal(draw, cfg)
    elif kind == 'empty':
        return ['empty']
    elif kind == 'let':
        return ['let', draw(st.integers(0, len(scope.lets) - 1))]
    elif kind == 'ref':
        return ['ref', draw(st.integers(0, scope.refs - 1))]
    elif kind in ('seq', 'or'):
        count = draw(st.integers(1, cfg.width))
        items = [draw(exprs(scope, depth - 1)) for _ in range(count)]
        if kind == 'or':
            return ['or', items]
        main = None
        if cfg.main:
            main = draw(st.one_of(
                st.none(), st.integers(0, count - 1)
            ))
        return ['seq', items, main]
    elif kind == 'wrap':
        return cfg.wrap(draw, draw(exprs(scope, depth - 1)), cfg)
    elif kind == 'named':
        return ['named', draw(exprs(scope, depth - 1)),
                draw(st.sampled_from(['X', 'Y', 'Z']))]

    child = draw(exprs(scope, depth - 1))
    inner = resolve(child, scope.lets)
    if not cfg.nested_ext and inner[0] in ('opt', 'rep'):
        # only opt(rep) and rep(opt)
        body = resolve(inner[1], scope.lets)
        if inner[0] == kind or body[0] in ('opt', 'rep'):
            return child
    if kind == 'opt':
        return ['opt', child, draw(st.booleans())]
    min = max = None
    if cfg.bounds:
        min, max = draw(st.sampled_from([
            (None, None), (None, None), (1, None), (2, None), (3, None),
            (None, 1), (None, 2), (None, 3), (1, 1), (1, 2), (2, 2),
            (2, 3), (2, 4), (3, 3)
        ]))
    if is_k1(min, max, inner):
        min = None
    return ['rep', child, min, max, draw(st.booleans())]


def terminal_(cfg):
    if cfg.terminals is not None:
        return cfg.terminals
    return st.builds(lambda word, style: ['t', word, style],
                     st.sampled_from(cfg.alphabet), st.integers(0, 2))


def terminal(draw, cfg):
    if cfg.terminals is not None:
        return draw(cfg.terminals)
    return ['t', draw(st.sampled_from(cfg.alphabet)),
            draw(st.integers(0, 2))]


@st.composite
def grammars(draw, cfg):
    scope = Scope(cfg)
    defs = draw(st.integers(0, cfg.defs)) if cfg.recursion else 0
    scope.refs = defs
    lets = draw(st.integers(0, cfg.lets))
    for _ in range(lets):
        scope.lets.append(draw(exprs(scope, max(1, cfg.depth - 2))))
    bodies = [draw(exprs(scope, cfg.depth - 1)) for _ in range(defs)]
    for index, body in enumerate(bodies):
        if body[0] == 'ref':
            # forward(forward) is an error by definition
            bodies[index] = ['seq', [body], None]
        elif resolve(body, scope.lets)[0] == 'ref':
            bodies[index] = ['seq', [body], None]
    root = draw(exprs(scope, cfg.depth))
    if defs and draw(st.integers(0, 2)) == 1:
        # the root is used inside of itself
        root = ['ref', draw(st.integers(0, defs - 1))]
    elif defs and scope.lets and draw(st.integers(0, 3)) == 1:
        # the same for a rule that is not a forward, its use is annotated
        use = ['ref', 0]
        if draw(st.booleans()):
            use = ['opt', use, draw(st.booleans())]
        items = [scope.lets[-1], use]
        if draw(st.booleans()):
            items.reverse()
        scope.lets[-1] = ['seq', items, None]
        root = ['let', len(scope.lets) - 1]
        if draw(st.integers(0, 2)):
            items = scope.lets[-1]
            scope.lets[-1] = ['or', [items, draw(terminal_(cfg))]]
        bodies[0] = root
        if cfg.wrap is not None and draw(st.integers(0, 2)):
            bodies[0] = cfg.wrap(draw, root, cfg)
        elif cfg.named:
            bodies[0] = ['named', root, 'N']
    return {'lets': list(scope.lets), 'defs': bodies, 'root': root}


def has_k1(spec):
    """The shape of known finding K1 anywhere (also through let)."""
    def visit(expr):
        if expr[0] == 'rep':
            if is_k1(expr[2], expr[3], resolve(expr[1], spec['lets'])):
                return True
        return any(visit(_) for _ in subexprs(expr))
    return any(
        visit(_) for _ in spec['lets'] + spec['defs'] + [spec['root']]
    )


def subexprs(expr):
    kind = expr[0]
    if kind in ('seq', 'or'):
        return expr[1]
    elif kind in ('opt', 'rep', 'named', 'int', 'match'):
        return [expr[1]]
    return []


def walk_exprs(spec):
    queue = list(spec.get('lets', [])) + list(spec.get('defs', []))
    queue.append(spec['root'])
    while queue:
        expr = queue.pop()
        yield expr
        queue.extend(subexprs(expr))


def texts(alphabet, max_size=7):
    return st.lists(st.sampled_from(alphabet), max_size=max_size)


def grammar_features(spec):
    """Labels that describe the grammar."""
    kinds = set()
    for expr in walk_exprs(spec):
        kinds.add(expr[0])
    return sorted('has ' + _ for _ in kinds)


########
# SKINS
########

# words that are one token each, of every type
SURFACES = [
    'a', 'b', 'c', 'A', 'ab', 'ё', 'Яя', 'стали', '7', '12', '\n', '\r\n',
    '.', ',', '-', '—', '«', '№', '漢', '€',
]


def skins(count):
    """Words to use in place of the letters of the alphabet."""
    plain = st.just(None)
    other = st.permutations(SURFACES).map(lambda _: _[:count])
    return st.one_of(plain, other)


def reskin(value, alphabet, skin):
    """Grammar, text or list of texts with other words for letters."""
    if not skin:
        return value
    words = dict(zip(alphabet, skin))

    def visit(item):
        if isinstance(item, str):
            return words.get(item, item)
        elif isinstance(item, dict):
            return {key: visit(_) for key, _ in item.items()}
        elif isinstance(item, (list, tuple)):
            if item and item[0] in ('t', 'named'):
                # name is not a word
                first, second, third = list(item) + [None] * (3 - len(item))
                if first == 't':
                    return ['t', words.get(second, second)] + item[2:]
                return ['named', visit(second), third]
            return [visit(_) for _ in item]
        return item

    return visit(value)
