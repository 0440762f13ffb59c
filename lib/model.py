"""Reference model: no code of yargy is used here.

Tokens are `Tok`, grammars are JSON specifications (see spec.py for how yargy
objects are built from the same specification).
"""
import itertools
import random


################
# TOKENS
################

PUNCT = set('-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”')
EOLS = '\n\r'


def is_russian(char):
    # а-яё in any case, IGNORECASE also folds historic variants U+1C80...
    return (
        'а' <= char <= 'я' or char == 'ё'
        or 'А' <= char <= 'Я' or char == 'Ё'
        or '\u1c80' <= char <= '\u1c86'
    )


def is_latin(char):
    # a-z in any case, IGNORECASE also folds dotted I, long s and Kelvin
    return (
        'a' <= char <= 'z' or 'A' <= char <= 'Z'
        or char in '\u0130\u0131\u017f\u212a'
    )


def is_digit(char):
    return char.isdecimal()


def is_space(char):
    return char.isspace()


CLASSES = [
    ('RU', is_russian, True),
    ('LATIN', is_latin, True),
    ('INT', is_digit, True),
    ('PUNCT', lambda _: _ in PUNCT, False),
    ('EOL', lambda _: _ in EOLS, True),
    ('OTHER', lambda _: not is_space(_), False),
]


class Tok(object):
    """Token of the model: forms is a list of (normal form, grams) or None."""

    def __init__(self, value, start, stop, type, forms=None, tag=None):
        self.value = value
        self.start = start
        self.stop = stop
        self.type = type
        self.forms = forms
        self.tag = tag

    def __repr__(self):
        return 'Tok(%r, %d, %d, %r)' % (
            self.value, self.start, self.stop, self.type
        )


def tokenize(text, classes=CLASSES, lexicon=None):
    """Reference scanner for default rules."""
    index = 0
    size = len(text)
    tokens = []
    while index < size:
        for type, test, run in classes:
            if test(text[index]):
                stop = index + 1
                while run and stop < size and test(text[stop]):
                    stop += 1
                token = Tok(text[index:stop], index, stop, type)
                if lexicon and type == 'RU':
                    token.forms = lexicon(token.value)
                tokens.append(token)
                index = stop
                break
        else:
            index += 1
    return tokens


################
# PREDICATES
################

GENDER_TESTS = {
    'masc': lambda _: 'masc' in _,
    'femn': lambda _: 'femn' in _,
    'neut': lambda _: 'neut' in _,
}


def int_value(value):
    number = 0
    for char in value:
        import unicodedata
        number = number * 10 + unicodedata.decimal(char)
    return number


def normal(token):
    if token.forms:
        return token.forms[0][0]
    return token.value.lower()


CUSTOM = {
    'even': lambda value: len(value) % 2 == 0,
    'vowel': lambda value: value[0].lower() in 'aeiouаеёиоуыэюя',
    'short': lambda value: len(value) < 3,
    # true and false that are not booleans
    'text': lambda value: value[1:],
    'count': lambda value: len(value) - 1,
    'found': lambda value: value if value[0] in 'абвxX5' else None,
    # raises on anything that is not a number
    'int_even': lambda value: int(value[-5:]) % 2 == 0,
}
for _name, _function in CUSTOM.items():
    # names are seen in labels
    _function.__name__ = _function.__qualname__ = _name


def test_predicate(spec, token, lexicon=None):
    """Documented condition of a predicate."""
    kind = spec[0]
    value = token.value
    if kind == 'eq':
        return value == spec[1]
    elif kind == 'caseless':
        return value.lower() == spec[1].lower()
    elif kind == 'in':
        return value in spec[1]
    elif kind == 'incl':
        return value.lower() in [_.lower() for _ in spec[1]]
    elif kind == 'type':
        return token.type == spec[1]
    elif kind == 'true':
        return True
    elif kind == 'and':
        # a part can guard the next ones
        return all(test_predicate(_, token, lexicon) for _ in spec[1])
    elif kind == 'or':
        return any(test_predicate(_, token, lexicon) for _ in spec[1])
    elif kind == 'not':
        return not test_predicate(spec[1], token, lexicon)
    elif kind == 'gte':
        return token.type == 'INT' and int_value(value) >= spec[1]
    elif kind == 'lte':
        return token.type == 'INT' and int_value(value) <= spec[1]
    elif kind == 'len':
        return len(value) == spec[1]
    elif kind == 'lower':
        return value.islower()
    elif kind == 'upper':
        return value.isupper()
    elif kind == 'title':
        return value.istitle()
    elif kind == 'cap':
        return value[0].isupper()
    elif kind == 'gram':
        return bool(token.forms) and any(
            spec[1] in grams for _, grams in token.forms
        )
    elif kind == 'single':
        return bool(token.forms) and any(
            is_single(grams) for _, grams in token.forms
        )
    elif kind == 'first':
        return bool(token.forms)
    elif kind == 'own':
        return test_predicate(spec[1], token, lexicon)
    elif kind == 'norm':
        return in_dictionary([spec[1]], token, lexicon)
    elif kind == 'dict':
        return in_dictionary(spec[1], token, lexicon)
    elif kind == 'tag':
        return token.tag is not None and token.tag == spec[1]
    elif kind == 'custom':
        if spec[2] and token.type not in spec[2]:
            return False
        return bool(CUSTOM[spec[1]](value))
    raise KeyError(kind)


def is_single(grams):
    return 'sing' in grams or 'Sgtm' in grams


def in_dictionary(words, token, lexicon):
    normals = set()
    for word in words:
        normals.update(norm for norm, grams in lexicon(word))
    if token.forms is not None:
        return any(norm in normals for norm, grams in token.forms)
    return token.value.lower() in normals


def constrain(spec, forms):
    """Forms kept by a predicate that stands alone."""
    kind = spec[0]
    if forms is None:
        return None
    if kind == 'gram':
        return [_ for _ in forms if spec[1] in _[1]]
    elif kind == 'single':
        return [_ for _ in forms if is_single(_[1])]
    elif kind == 'first':
        return forms[:1]
    elif kind == 'own':
        return constrain(spec[1], forms)
    return forms


################
# RELATIONS
################


def gender_agrees(a, b):
    if 'plur' in a and 'plur' in b:
        return True
    if 'GNdr' in a or 'GNdr' in b:
        return True
    for gram in ('masc', 'femn', 'neut'):
        if gram in a and gram in b:
            return True
    a_common = 'ms-f' in a or 'Ms-f' in a
    b_common = 'ms-f' in b or 'Ms-f' in b
    if a_common and b_common:
        return True
    if a_common and ('masc' in b or 'femn' in b):
        return True
    if b_common and ('masc' in a or 'femn' in a):
        return True
    return False


def number_agrees(a, b):
    if 'sing' in a and 'sing' in b:
        return True
    if 'plur' in a and 'plur' in b:
        return True
    for x, y in ((a, b), (b, a)):
        if 'Sgtm' in x and 'sing' in y:
            return True
        if 'Pltm' in x and 'plur' in y:
            return True
    return False


CASES = ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct')


def case_agrees(a, b):
    if 'Fixd' in a or 'Fixd' in b:
        return True
    return all((_ in a) == (_ in b) for _ in CASES)


def relation_holds(spec, a, b):
    kind = spec[0]
    if kind == 'gender':
        return gender_agrees(a, b)
    elif kind == 'number':
        return number_agrees(a, b)
    elif kind == 'case':
        return case_agrees(a, b)
    elif kind == 'gnc':
        return (
            gender_agrees(a, b) and number_agrees(a, b) and case_agrees(a, b)
        )
    elif kind == 'and':
        return all([relation_holds(_, a, b) for _ in spec[1]])
    elif kind == 'or':
        return any([relation_holds(_, a, b) for _ in spec[1]])
    elif kind == 'not':
        return not relation_holds(spec[1], a, b)
    elif kind == 'ordered':
        return spec[1] in a and spec[2] in b
    raise KeyError(kind)


def reduce_forms(groups, forms):
    """Greatest consistent forms.

    groups: list of (relation spec, list of positions), forms: position ->
    list of forms. None if some word has no forms left.
    """
    forms = dict(forms)
    changed = True
    while changed:
        changed = False
        for spec, positions in groups:
            for a, b in itertools.permutations(sorted(set(positions)), 2):
                # a is first in text order when relation is applied
                kept = []
                for form in forms[a]:
                    for other in forms[b]:
                        first, second = (
                            (form, other) if a < b else (other, form)
                        )
                        if relation_holds(spec, first[1], second[1]):
                            kept.append(form)
                            break
                if len(kept) != len(forms[a]):
                    forms[a] = kept
                    changed = True
    for _, positions in groups:
        for position in positions:
            if not forms[position]:
                return None
    return forms


################
# GRAMMAR
################


class TooBig(Exception):
    pass


class N(object):
    """Node of the compiled grammar."""

    __slots__ = ['id', 'kind', 'children', 'main', 'data']

    def __init__(self, id, kind, children=(), main=None, data=None):
        self.id = id
        self.kind = kind          # tok, seq, alt, wrap, pipe
        self.children = list(children)
        self.main = main
        self.data = data


class Model(object):
    def __init__(self, spec, lexicon=None, classes=CLASSES):
        self.spec = spec
        self.lexicon = lexicon
        self.classes = classes
        self.nodes = []
        self.exact_order = True
        self.empty = self.node('seq')
        self.defs = [self.node('wrap', data=('ref',))
                     for _ in spec.get('defs', [])]
        self.lets = []
        for expr in spec.get('lets', []):
            self.lets.append(self.compile(expr))
        for node, expr in zip(self.defs, spec.get('defs', [])):
            node.children = [self.compile(expr)]
        self.root = self.compile(spec['root'])

    def node(self, kind, *args, **kwargs):
        node = N(len(self.nodes), kind, *args, **kwargs)
        self.nodes.append(node)
        return node

    def resolve(self, expr):
        """The same rule object through shared objects."""
        while expr[0] == 'let':
            expr = self.spec['lets'][expr[1]]
        return expr

    def compile(self, expr):
        kind = expr[0]
        if kind == 't':
            return self.node('tok', data=['eq', expr[1]])
        elif kind == 'p':
            return self.node('tok', data=expr[1])
        elif kind == 'seq':
            return self.node(
                'seq', [self.compile(_) for _ in expr[1]],
                main=expr[2] if len(expr) > 2 else None
            )
        elif kind == 'or':
            return self.node('alt', [self.compile(_) for _ in expr[1]])
        elif kind == 'empty':
            return self.empty
        elif kind == 'ref':
            return self.defs[expr[1]]
        elif kind == 'let':
            return self.lets[expr[1]]
        elif kind in ('named', 'int', 'match'):
            return self.node(
                'wrap', [self.compile(expr[1])], data=(kind, expr[2])
            )
        elif kind == 'pipe':
            return self.node('pipe', data=(expr[1], expr[2]))
        elif kind == 'opt':
            child = self.resolve(expr[1])
            if child[0] == 'rep' and child[2] is None and child[3] is None:
                body = self.resolve(child[1])
                self.check_nested(body)
                return self.star(
                    self.compile(child[1]), child[4], expr[2]
                )
            if child[0] == 'rep':
                # the order of a bounded repetition, after or before absence
                self.check_nested(self.resolve(child[1]))
            else:
                self.check_nested(child)
            return self.optional(self.compile(expr[1]), expr[2])
        elif kind == 'rep':
            _, child, min, max, reverse = expr
            item = self.resolve(child)
            if item[0] == 'opt':
                # absence first or last, then the order of the repetition
                self.check_nested(self.resolve(item[1]))
                body = self.compile(item[1])
                if max is None:
                    return self.star(body, reverse, item[2])
                return self.optional(
                    self.at_most(body, max, reverse), item[2]
                )
            self.check_nested(item)
            return self.repeatable(
                self.compile(child), min, max, reverse
            )
        raise KeyError(kind)

    def check_nested(self, expr):
        if expr[0] in ('opt', 'rep'):
            # language is known, order of alternatives is not stated
            self.exact_order = False

    def optional(self, child, reverse):
        items = [self.empty, child]
        if reverse:
            items.reverse()
        return self.node('alt', items)

    def plus(self, child, reverse):
        node = self.node('alt')
        items = [self.node('seq', [child, node]), child]
        if reverse:
            items.reverse()
        node.children = items
        return node

    def star(self, child, reverse_repeatable, reverse_optional):
        node = self.node('alt')
        items = [self.node('seq', [child, node]), child]
        if reverse_repeatable:
            items.reverse()
        if reverse_optional:
            items = items + [self.empty]
        else:
            items = [self.empty] + items
        node.children = items
        return node

    def at_most(self, child, count, reverse):
        if count == 1:
            return child
        items = [
            self.node(
                'seq', [child, self.at_most(child, count - 1, reverse)]
            ),
            child
        ]
        if reverse:
            items.reverse()
        return self.node('alt', items)

    def repeatable(self, child, min, max, reverse):
        if max is None:
            tail = self.plus(child, reverse)
        else:
            tail = self.at_most(child, max - (min or 1) + 1, reverse)
        if min is None or min == 1:
            return tail
        return self.node('seq', [child] * (min - 1) + [tail])

    def size(self):
        return len(self.nodes)

    ########
    # RECOGNITION
    ########

    def recognize(self, tokens):
        """(node id, start) -> set of stops, least fixpoint."""
        size = len(tokens)
        starts = range(size + 1)
        ends = {
            (node.id, start): set()
            for node in self.nodes for start in starts
        }
        for node in self.nodes:
            if node.kind == 'tok':
                for start in range(size):
                    if test_predicate(
                            node.data, tokens[start], self.lexicon
                    ):
                        ends[node.id, start].add(start + 1)
            elif node.kind == 'pipe':
                for start in range(size):
                    for stop, _ in self.phrases(node, tokens, start):
                        ends[node.id, start].add(stop)
        nodes = [_ for _ in self.nodes if _.kind not in ('tok', 'pipe')]
        changed = True
        while changed:
            changed = False
            for node in nodes:
                for start in starts:
                    value = ends[node.id, start]
                    count = len(value)
                    if node.kind == 'seq':
                        current = {start}
                        for child in node.children:
                            following = set()
                            for point in current:
                                following |= ends[child.id, point]
                            current = following
                            if not current:
                                break
                        value |= current
                    else:
                        for child in node.children:
                            value |= ends[child.id, start]
                    if len(value) != count:
                        changed = True
        return ends

    def split(self, line):
        return [_.value for _ in tokenize(line, self.classes)]

    def phrases(self, node, tokens, start):
        """Stops and lines of the gazetteer phrases found at start."""
        kind, lines = node.data
        for index, line in enumerate(lines):
            words = self.split(line)
            stop = start + len(words)
            if not words or stop > len(tokens):
                continue
            if all(
                    self.phrase_word(kind, word, token)
                    for word, token in zip(words, tokens[start:stop])
            ):
                yield stop, index

    def phrase_word(self, kind, word, token):
        if kind == 'pipeline':
            return test_predicate(['eq', word], token)
        elif kind == 'caseless':
            return test_predicate(['caseless', word], token)
        else:
            return test_predicate(['norm', word], token, self.lexicon)

    def ranges(self, tokens, ends=None):
        """Non-empty token ranges that the start rule derives."""
        ends = ends or self.recognize(tokens)
        return {
            (start, stop)
            for start in range(len(tokens) + 1)
            for stop in ends[self.root.id, start]
            if start < stop
        }

    def accepts(self, tokens):
        return bool(tokens) and (0, len(tokens)) in self.ranges(tokens)

    ########
    # SHAPE
    ########

    def nullable(self):
        null = set()
        changed = True
        while changed:
            changed = False
            for node in self.nodes:
                if node.id in null:
                    continue
                if node.kind == 'seq':
                    value = all(_.id in null for _ in node.children)
                elif node.kind in ('alt', 'wrap'):
                    value = any(_.id in null for _ in node.children)
                else:
                    value = False
                if value:
                    null.add(node.id)
                    changed = True
        return null

    def reachable(self):
        visited = set()
        queue = [self.root]
        while queue:
            node = queue.pop()
            if node.id not in visited:
                visited.add(node.id)
                queue.extend(node.children)
        return visited

    def cyclic(self):
        """Some rule derives itself without consuming."""
        null = self.nullable()
        reachable = self.reachable()
        edges = {}
        for node in self.nodes:
            if node.id not in reachable:
                continue
            targets = set()
            if node.kind == 'seq':
                for index, child in enumerate(node.children):
                    rest = node.children[:index] + node.children[index + 1:]
                    if all(_.id in null for _ in rest):
                        targets.add(child.id)
            else:
                targets.update(_.id for _ in node.children)
            edges[node.id] = targets
        state = {}

        def visit(item):
            state[item] = 1
            for other in edges.get(item, ()):
                if state.get(other) == 1:
                    return True
                if other not in state and visit(other):
                    return True
            state[item] = 2
            return False

        return any(visit(_) for _ in list(edges) if _ not in state)

    def recursive(self):
        """Ids of forwards that are on a cycle."""
        return bool(self.spec.get('defs'))

    ########
    # DERIVATIONS
    ########

    def effort(self, tokens, ends, limit):
        """Upper estimate of the work of an all-derivations parser.

        Number of (possibly partial) derivations of all ranges that do not
        repeat a rule on the same range. Raises TooBig above the limit.
        """
        size = len(tokens)
        acyclic = not self.cyclic()
        memo = {}
        budget = [limit * 20]
        total = [0]

        def spend(count=1):
            budget[0] -= count
            if budget[0] < 0:
                raise TooBig

        def count(node, start, stop, path):
            if stop not in ends[node.id, start]:
                return 0
            key = (node.id, start, stop)
            if acyclic:
                if key in memo:
                    return memo[key]
            elif key in path:
                return 0
            spend()
            if node.kind == 'tok':
                value = 1
            elif node.kind == 'pipe':
                # equal phrases are different derivations
                value = len([
                    end for end, _ in self.phrases(node, tokens, start)
                    if end == stop
                ])
            else:
                inner = path if acyclic else path | {key}
                if node.kind == 'seq':
                    value = sequence(node, 0, start, stop, inner)
                else:
                    value = sum(
                        count(_, start, stop, inner) for _ in node.children
                    )
            if acyclic:
                memo[key] = value
            if value > limit:
                raise TooBig
            return value

        def sequence(node, index, start, stop, path):
            if index == len(node.children):
                return 1 if start == stop else 0
            value = 0
            child = node.children[index]
            for point in ends[child.id, start]:
                if point <= stop:
                    rest = sequence(node, index + 1, point, stop, path)
                    if rest:
                        value += rest * count(child, start, point, path)
                    spend()
            return value

        # partial items: prefixes of sequences
        reachable = self.reachable()
        for node in self.nodes:
            if node.id not in reachable:
                continue
            for start in range(size + 1):
                for stop in ends[node.id, start]:
                    total[0] += count(node, start, stop, frozenset())
                    if total[0] > limit:
                        raise TooBig
                if node.kind == 'seq':
                    weights = {start: 1}
                    for child in node.children:
                        following = {}
                        for point, weight in weights.items():
                            for end in ends[child.id, point]:
                                value = weight * max(
                                    1, count(child, point, end, frozenset())
                                )
                                following[end] = (
                                    following.get(end, 0) + value
                                )
                        weights = following
                        total[0] += sum(weights.values())
                        if total[0] > limit:
                            raise TooBig
        return total[0]

    def derivations(self, tokens, ends, limit=2000):
        """Ordered derivations of an acyclic grammar.

        Returns function(start, stop) -> list of trees in the order of
        preference. Tree is (node, start, stop, children).
        """
        memo = {}

        def derive(node, start, stop):
            if stop not in ends[node.id, start]:
                return []
            key = (node.id, start, stop)
            if key in memo:
                return memo[key]
            if node.kind == 'tok':
                value = [((), (node, start, stop, []))]
            elif node.kind == 'pipe':
                value = [
                    ((index,), (node, start, stop, [index]))
                    for end, index in self.phrases(node, tokens, start)
                    if end == stop
                ]
            elif node.kind == 'seq':
                value = [
                    (code, (node, start, stop, children))
                    for code, children in sequence(node, 0, start, stop)
                ]
            elif node.kind == 'wrap':
                value = [
                    (code, (node, start, stop, [child]))
                    for code, child in derive(node.children[0], start, stop)
                ]
            else:
                value = []
                for index, child in enumerate(node.children):
                    for code, tree in derive(child, start, stop):
                        value.append((
                            (index,) + code, (node, start, stop, [tree])
                        ))
            value.sort(key=lambda _: _[0])
            if len(value) > limit:
                raise TooBig
            memo[key] = value
            return value

        def sequence(node, index, start, stop):
            if index == len(node.children):
                return [((), [])] if start == stop else []
            child = node.children[index]
            value = []
            for point in sorted(ends[child.id, start]):
                if point > stop:
                    continue
                rest = sequence(node, index + 1, point, stop)
                if not rest:
                    continue
                for code, tree in derive(child, start, point):
                    for other, trees in rest:
                        value.append((code + other, [tree] + trees))
                        if len(value) > limit:
                            raise TooBig
            return value

        return lambda start, stop: [
            tree for _, tree in derive(self.root, start, stop)
        ]

    ########
    # SAMPLING
    ########

    def min_sizes(self):
        sizes = {}
        changed = True
        while changed:
            changed = False
            for node in self.nodes:
                if node.kind == 'tok':
                    value = 1
                elif node.kind == 'pipe':
                    value = min(
                        [len(self.split(_)) for _ in node.data[1]],
                        default=None
                    )
                elif node.kind == 'seq':
                    items = [sizes.get(_.id) for _ in node.children]
                    value = None if None in items else sum(items)
                else:
                    items = [
                        sizes[_.id] for _ in node.children if _.id in sizes
                    ]
                    value = min(items) if items else None
                if value is not None and sizes.get(node.id) != value:
                    if node.id not in sizes or value < sizes[node.id]:
                        sizes[node.id] = value
                        changed = True
        return sizes

    def sample(self, seed, words, budget=8):
        """Random derivable list of words, None if there is none.

        words: function(predicate spec, rng) -> word.
        """
        rng = random.Random(seed)
        sizes = self.min_sizes()
        if self.root.id not in sizes:
            return None
        steps = [0]

        def expand(node, budget):
            steps[0] += 1
            if steps[0] > 500:
                raise TooBig
            if node.kind == 'tok':
                return [words(node.data, rng)]
            elif node.kind == 'pipe':
                line = rng.choice(node.data[1])
                return self.split(line)
            elif node.kind == 'seq':
                result = []
                need = sum(sizes[_.id] for _ in node.children)
                extra = max(0, budget - need)
                for child in node.children:
                    part = rng.randint(0, extra) if extra else 0
                    extra -= part
                    result.extend(expand(child, sizes[child.id] + part))
                return result
            else:
                items = [
                    _ for _ in node.children
                    if sizes.get(_.id, 10 ** 9) <= budget
                ]
                if not items:
                    best = min(sizes[_.id] for _ in node.children
                               if _.id in sizes)
                    items = [_ for _ in node.children
                             if sizes.get(_.id) == best]
                if steps[0] > 100:
                    best = min(sizes[_.id] for _ in items)
                    items = [_ for _ in items if sizes[_.id] == best][-1:]
                return expand(rng.choice(items), budget)

        try:
            return expand(self.root, budget)
        except (TooBig, RecursionError):
            return None


################
# SELECTION
################


def best_selection(ranges):
    """Reference for findall: ordered non-overlapping ranges.

    Maximal number of covered tokens; at the first difference the earliest
    start wins, then the longest.
    """
    ranges = sorted(ranges)
    memo = {}

    def best(position):
        # (coverage, selection) over ranges with start >= position
        if position in memo:
            return memo[position]
        options = [(0, ())]
        for start, stop in ranges:
            if start >= position:
                cover, rest = best(stop)
                options.append((cover + stop - start, ((start, stop),) + rest))
        value = min(options, key=selection_key)
        memo[position] = value
        return value

    return list(best(0)[1])


def selection_key(option):
    cover, items = option
    # a selection that has something there beats one that has nothing
    return (-cover, [(start, -stop) for start, stop in items])
