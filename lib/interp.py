"""Reference evaluation of derivation trees: main words, agreement, facts."""
from . import doc
from .model import reduce_forms, constrain, tokenize


class Mixture(Exception):
    """TypeError is expected from fact."""


class NoFact(Exception):
    """ValueError is expected from fact: no interpretation for the root."""


def filled(tree):
    return tree[1] < tree[2]


def main_word(tree):
    node, start, stop, children = tree
    if node.kind in ('tok', 'pipe'):
        return start
    if node.kind == 'seq':
        child = children[node.main or 0]
        if not filled(child):
            child = [_ for _ in children if filled(_)][0]
        return main_word(child)
    return main_word(children[0])


def walk(tree):
    yield tree
    if tree[0].kind not in ('tok', 'pipe'):
        for child in tree[3]:
            if filled(child):
                for item in walk(child):
                    yield item


def leaf_forms(tree, tokens):
    """Forms after predicates that stand alone: position -> forms."""
    forms = {}
    for node, start, stop, _ in walk(tree):
        if node.kind == 'tok':
            forms[start] = constrain(node.data, tokens[start].forms)
        elif node.kind == 'pipe':
            for position in range(start, stop):
                forms[position] = tokens[position].forms
    return forms


def groups(tree, relations):
    """(relation, positions) for every relation object used in the tree."""
    items = {}
    for item in walk(tree):
        node = item[0]
        if node.kind == 'wrap' and node.data[0] == 'match':
            items.setdefault(node.data[1], []).append(main_word(item))
    return [
        (relations[name], positions)
        for name, positions in items.items()
    ]


def solve(tree, tokens, relations):
    """Forms of every position, None if agreement fails."""
    forms = leaf_forms(tree, tokens)
    related = groups(tree, relations)
    positions = {_ for _, items in related for _ in items}
    domain = {_: unique(forms[_] or []) for _ in positions}
    domain = reduce_forms(related, domain)
    if domain is None:
        return None
    for position in positions:
        forms[position] = domain[position]
    return forms


def unique(forms):
    seen = []
    for form in forms:
        if form not in seen:
            seen.append(form)
    return seen


########
# VALUES
########


class Chain(object):
    def __init__(self, positions, key):
        self.positions = positions
        self.key = key


class Norm(object):
    def __init__(self, value, spans):
        self.value = value
        self.spans = spans


class Attr(object):
    def __init__(self, value, fact, name):
        self.value = value
        self.fact = fact
        self.name = name


class FactValue(object):
    def __init__(self, scheme, name):
        self.name = name
        self.modified = set()
        self.values = {}
        for attr in scheme:
            self.values[attr['name']] = (
                [] if attr['repeatable'] else attr['default']
            )


class Evaluator(object):
    """facts: name -> {'attrs': [...], 'base': name or None}."""

    def __init__(self, facts, tokens, morph=None):
        self.facts = facts
        self.tokens = tokens
        self.morph = morph      # position -> object with norm, inflect

    def scheme(self, name):
        fact = self.facts[name]
        if fact.get('base'):
            return self.scheme(fact['base'])
        return fact['attrs']

    def is_subclass(self, name, other):
        while name is not None:
            if name == other:
                return True
            name = self.facts[name].get('base')
        return False

    def is_repeatable(self, name, attr):
        for item in self.scheme(name):
            if item['name'] == attr:
                return item['repeatable']

    def run(self, tree):
        items = self.items(tree)
        node = tree[0]
        # wrappers that are not interpretation keep the inner one
        if len(items) != 1 or isinstance(items[0], int):
            raise NoFact
        return items[0]

    def items(self, tree):
        """Tokens (positions) and values of the tree, left to right."""
        node, start, stop, children = tree
        if node.kind == 'tok':
            return [start]
        elif node.kind == 'pipe':
            return list(range(start, stop))
        elif node.kind == 'wrap' and node.data[0] == 'int':
            child = children[0]
            return [self.interpret(
                node.data[1], self.items(child), self.key(child)
            )]
        items = []
        for child in children:
            if filled(child):
                items.extend(self.items(child))
        return items

    def key(self, tree):
        while True:
            node, start, stop, children = tree
            if node.kind == 'pipe':
                return node.data[1][children[0]]
            if node.kind == 'tok':
                return None
            if node.kind == 'wrap' and node.data[0] == 'int':
                return None
            items = [_ for _ in children if filled(_)]
            if len(items) != 1:
                return None
            tree = items[0]

    def interpret(self, spec, items, key):
        kind = spec[0]
        if kind == 'fact':
            return self.make_fact(spec[1], items)
        elif kind == 'norm':
            return self.normalize(spec[1], items, key)
        elif kind == 'attr':
            _, fact, name, norms = spec
            # attribute of a subclass is the attribute of its base
            while self.facts[fact].get('base'):
                fact = self.facts[fact]['base']
            if norms:
                return Attr(self.normalize(norms, items, key), fact, name)
            return Attr(self.value(items, key), fact, name)
        raise KeyError(kind)

    def value(self, items, key):
        if all(isinstance(_, int) for _ in items):
            return Chain(items, key)
        if len(items) == 1:
            item = items[0]
            if isinstance(item, Attr):
                return item.value
            return item
        raise Mixture

    def make_fact(self, name, items):
        fact = FactValue(self.scheme(name), name)
        for item in items:
            if isinstance(item, Attr):
                if self.is_subclass(name, item.fact):
                    if self.is_repeatable(name, item.name):
                        fact.values[item.name].append(item.value)
                    else:
                        fact.values[item.name] = item.value
                    fact.modified.add(item.name)
            elif isinstance(item, FactValue):
                if self.is_subclass(item.name, name):
                    for key in item.modified:
                        value = item.values[key]
                        if self.is_repeatable(name, key):
                            fact.values[key] = fact.values[key] + value
                        else:
                            fact.values[key] = value
                        fact.modified.add(key)
        return fact

    ########
    # NORMALIZERS
    ########

    def text(self, positions, words):
        parts = []
        for index, position in enumerate(positions):
            token = self.tokens[position]
            if index:
                previous = self.tokens[positions[index - 1]]
                if token.start > previous.stop:
                    parts.append(' ')
            parts.append(words(position))
        return ''.join(parts)

    def found(self, positions):
        return self.text(positions, lambda _: self.tokens[_].value)

    def normalize(self, norms, items, key):
        """norms is a chain: [[kind, ...], ...]."""
        spans = self.item_spans(items)
        first = norms[0]
        if first[0] == 'const':
            return Norm(first[1], spans)
        if all(isinstance(_, int) for _ in items):
            chain = Chain(items, key)
        elif len(items) == 1:
            chain = items[0]
        else:
            raise Mixture
        if first[0] in ('normalized', 'inflected'):
            if not isinstance(chain, Chain):
                raise Mixture
            if first[0] == 'normalized':
                if chain.key:
                    value = chain.key
                else:
                    value = self.text(
                        chain.positions, lambda _: self.morph(_).norm()
                    )
            else:
                grams = (
                    ['nomn', 'sing'] if first[1] is None else first[1])
                value = self.text(
                    chain.positions,
                    lambda _: self.morph(_).inflect(set(grams))
                )
            rest = norms[1:]
        else:
            value = self.plain(chain)
            rest = norms
        for item in rest:
            value = get_function(item[1])(value)
        return Norm(value, spans)

    def item_spans(self, items):
        if all(isinstance(_, int) for _ in items):
            return [self.chain_span(items)]
        spans = []
        for item in items:
            if isinstance(item, int):
                token = self.tokens[item]
                spans.append((token.start, token.stop))
            else:
                spans.extend(self.spans(item))
        return spans

    def chain_span(self, positions):
        return (
            self.tokens[positions[0]].start,
            self.tokens[positions[-1]].stop
        )

    def spans(self, value):
        if isinstance(value, Chain):
            return [self.chain_span(value.positions)]
        elif isinstance(value, Norm):
            return value.spans
        elif isinstance(value, Attr):
            return self.spans(value.value)
        spans = []
        for key, item in value.values.items():
            if isinstance(item, list) and self.is_repeatable(value.name, key):
                for other in item:
                    spans.extend(self.spans(other))
            elif key in value.modified:
                spans.extend(self.spans(item))
        return spans

    def plain(self, value):
        """What the user sees: strings and (fact, values) pairs."""
        if isinstance(value, Chain):
            return self.found(value.positions)
        elif isinstance(value, Norm):
            return value.value
        elif isinstance(value, Attr):
            return self.plain(value.value)
        result = []
        for attr in self.scheme(value.name):
            key = attr['name']
            item = value.values[key]
            if attr['repeatable']:
                item = [self.plain(_) for _ in item]
            elif key in value.modified:
                item = self.plain(item)
            result.append((key, item))
        return ('fact', value.name, result)

    def json(self, value):
        if isinstance(value, Chain):
            return self.found(value.positions)
        elif isinstance(value, Norm):
            return value.value
        elif isinstance(value, Attr):
            return self.json(value.value)
        result = []
        for attr in self.scheme(value.name):
            key = attr['name']
            item = value.values[key]
            if attr['repeatable']:
                item = [self.json(_) for _ in item]
            elif key in value.modified:
                item = self.json(item)
            if item is not None:
                result.append((key, item))
        return ('map', result)


def show(value):
    """Plain value -> something hashable and printable, for functions."""
    return repr(value)


FUNCTIONS = {
    'upper': lambda _: show_text(_).upper(),
    'wrap': lambda _: '<' + show_text(_) + '>',
    'size': lambda _: len(show_text(_)),
    'double': lambda _: show_text(_) + show_text(_),
    'none': lambda _: None,
    'zero': lambda _: 0,
    'to_int': doc.to_int,
    'to_float': doc.to_float,
    'month': doc.month,
}


def show_text(value):
    # also called by yargy with real facts, see spec.plain_value
    if isinstance(value, str):
        return value
    if isinstance(value, tuple) and value and value[0] == 'fact':
        return '%s(%s)' % (value[1], ','.join(
            '%s=%s' % (key, show_text(item)) for key, item in value[2]
        ))
    if isinstance(value, list):
        return '[%s]' % ','.join(show_text(_) for _ in value)
    return repr(value)


def get_function(name):
    if name.startswith('mark:'):
        return lambda _: '<%s %s>' % (name[5:], show_text(_))
    return FUNCTIONS[name]
