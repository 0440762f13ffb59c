"""Equivalent ways to write a grammar."""
import random

from . import gens, marks


class Rewriter(object):
    def __init__(self, spec, seed, share=0.3):
        self.rng = random.Random(seed)
        self.share = share
        self.spec = spec
        self.defs = list(spec['defs'])
        self.applied = []

    def run(self):
        self.inline = self.rng.random() < 0.5
        if self.inline and self.spec['lets']:
            self.applied.append('copies')
        # fact of a match is that of the root, it stays where it is
        root = self.spec['root']
        lets, defs = [
            [
                [_[0], self.visit(_[1])] + _[2:] if root == [kind, index]
                else self.visit(_)
                for index, _ in enumerate(self.spec[key])
            ]
            for kind, key in (('let', 'lets'), ('ref', 'defs'))
        ]
        if root[0] == 'int':
            root = [root[0], self.visit(root[1])] + root[2:]
        # forwards added meanwhile
        extra = self.defs[len(self.spec['defs']):]
        return dict(
            self.spec, lets=lets, defs=defs + extra, root=root,
            facts=dict(self.spec.get('facts', {}), G=marks.FACTS['F'])
        )

    def visit(self, expr):
        kind = expr[0]
        if kind == 'let':
            if self.inline:
                # equal copy, made anew for every use
                return self.visit(self.spec['lets'][expr[1]])
            return expr
        if kind in ('seq', 'or'):
            result = [kind, [self.visit(_) for _ in expr[1]]] + expr[2:]
        elif kind in ('opt', 'rep', 'named', 'int', 'match'):
            result = [kind, self.visit(expr[1])] + expr[2:]
        else:
            result = expr
        if self.rng.random() < self.share:
            result = self.change(result)
        return result

    def change(self, expr):
        kind = expr[0]
        options = ['wrap', 'name', 'forward', 'or']
        if kind == 'seq':
            if len(expr[1]) == 1:
                options += ['unwrap'] * 2
            if len(expr[1]) > 2:
                options += ['group'] * 3
            if any(_[0] == 'seq' for _ in expr[1]):
                options += ['ungroup'] * 3
        if kind == 'or':
            if any(_[0] == 'or' for _ in expr[1]):
                options += ['flat'] * 4
            if len(expr[1]) > 2:
                options += ['nest'] * 3
            if len(expr[1]) == 1:
                options += ['unwrap'] * 2
        if kind == 'named':
            options += ['unname'] * 2
        if kind in ('named', 'int', 'match') and expr[1][0] in (
                'named', 'int', 'match') and expr[1][0] != kind:
            options += ['swap'] * 5
        if kind in ('t', 'p'):
            options += ['unused'] * 2
        option = self.rng.choice(options)
        self.applied.append(option)
        return getattr(self, option)(expr)

    def wrap(self, expr):
        return ['seq', [expr], None]

    def unwrap(self, expr):
        return expr[1][0]

    def name(self, expr):
        return ['named', expr, self.rng.choice(['X', 'Y', 'N1'])]

    def unname(self, expr):
        return expr[1]

    def forward(self, expr):
        if expr[0] in ('ref', 'let'):
            expr = ['seq', [expr], None]
        self.defs.append(expr)
        return ['ref', len(self.defs) - 1]

    def nest(self, expr):
        items = expr[1]
        start = self.rng.randint(0, len(items) - 2)
        stop = self.rng.randint(start + 2, len(items))
        return ['or', items[:start] + [['or', items[start:stop]]]
                + items[stop:]]

    def flat(self, expr):
        items = []
        for item in expr[1]:
            if item[0] == 'or':
                items.extend(item[1])
            else:
                items.append(item)
        return ['or', items]

    def swap(self, expr):
        inner = expr[1]
        return [inner[0], [expr[0], inner[1]] + expr[2:]] + inner[2:]

    def unused(self, expr):
        return ['int', expr, ['attr', 'G', 'p', None]]

    def group(self, expr):
        items = expr[1]
        main = expr[2]
        start = self.rng.randint(0, len(items) - 2)
        stop = self.rng.randint(start + 2, len(items))
        inner = None
        index = main or 0
        if start <= index < stop:
            inner = index - start
            if inner == 0 and self.rng.random() < 0.5:
                inner = None
            index = start
        elif index >= stop:
            index -= stop - start - 1
        group = ['seq', items[start:stop], inner]
        return ['seq', items[:start] + [group] + items[stop:],
                index if index or main is not None else None]

    def ungroup(self, expr):
        # mark of the outer sequence goes to the main item of the inner one
        main = expr[2] or 0
        items = []
        index = 0
        for position, item in enumerate(expr[1]):
            if position == main:
                index = len(items)
            if item[0] == 'seq' and item[1]:
                if position == main:
                    index += item[2] or 0
                items.extend(item[1])
            else:
                items.append(item)
        return ['seq', items, index if index or expr[2] is not None else None]

    def __getattr__(self, name):
        if name == 'or':
            return lambda expr: ['or', [expr]]
        raise AttributeError(name)


def rewrite(spec, seed):
    item = Rewriter(spec, seed)
    return item.run(), item.applied
