"""Makes derivations observable through facts.

Random parts of a grammar get an interpretation that records that the part
was used, the root collects the records from left to right.
"""
import random

FACT = 'F'
FACTS = {
    FACT: {'attrs': [{'name': 'p', 'repeatable': True, 'default': None}]}
}
COLLECT = ['attr', FACT, 'p', None]


def mark_terminal(expr, name):
    return ['int', ['int', expr, ['norm', [['const', name]]]], COLLECT]


def mark_part(expr, name):
    return ['int', ['int', ['int', expr, ['fact', FACT]],
                    ['norm', [['custom', 'mark:' + name]]]], COLLECT]


def collect(spec):
    """Grammar with marked parts, not recursive."""
    return dict(spec, root=['int', spec['root'], ['fact', FACT]], facts=FACTS)


def mark(spec, seed, share=0.6):
    rng = random.Random(seed)
    counter = [0]

    def name():
        counter[0] += 1
        return 'm%d' % counter[0]

    def visit(expr, alternative=False):
        kind = expr[0]
        if kind in ('t', 'p'):
            if rng.random() < share:
                return mark_terminal(expr, name())
            return expr
        if kind == 'or':
            items = [visit(_, True) for _ in expr[1]]
            return ['or', items]
        if kind == 'seq':
            result = ['seq', [visit(_) for _ in expr[1]]] + expr[2:]
        elif kind in ('opt', 'rep', 'named', 'match'):
            result = [kind, visit(expr[1])] + expr[2:]
        else:
            result = expr
        if kind in ('empty',):
            return result
        rate = share if alternative else 0.15
        if kind == 'let':
            # one object, used as is and annotated
            if rng.random() < 0.25:
                return mark_terminal(result, name())
            rate = 0.25
        if rng.random() < rate:
            return mark_part(result, name())
        return result

    lets = [visit(_) for _ in spec['lets']]
    defs = [visit(_) for _ in spec['defs']]
    root = visit(spec['root'])
    if root[0] == 'ref':
        # every use of the forward is a constructor
        index = root[1]
        defs[index] = ['int', defs[index], ['fact', FACT]]
    elif root[0] == 'let':
        index = root[1]
        lets[index] = ['int', lets[index], ['fact', FACT]]
    else:
        root = ['int', root, ['fact', FACT]]
    return dict(spec, lets=lets, defs=defs, root=root, facts=FACTS)
