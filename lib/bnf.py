"""Reader of the printed BNF: lines of `name -> term term | term`."""
import ast
import re


class BNFError(Exception):
    pass


KINDS = {
    'caseless': 'caseless', 'gram': 'gram', 'type': 'type', 'tag': 'tag',
    'normalized': 'norm', 'gte': 'gte', 'lte': 'lte', 'length_eq': 'len',
    'is_lower': 'lower', 'is_upper': 'upper', 'is_title': 'title',
    'is_capitalized': 'cap', 'is_single': 'single', 'true': 'true',
    'and_': 'and', 'or_': 'or', 'not_': 'not',
}
PIPES = {
    'pipeline': 'pipeline', 'caseless_pipeline': 'caseless',
    'morph_pipeline': 'morph',
}
QUOTED = re.compile(r"'(?:[^']+|'|)'")
# representation of a function
FUNCTION = re.compile(r'<function (\w+) at 0x[0-9a-f]+>')


def split(line):
    """Words of a line, brackets and quotes are kept together."""
    words = []
    word = ''
    depth = 0
    index = 0
    while index < len(line):
        char = line[index]
        if char == "'":
            match = QUOTED.match(line, index)
            if not match:
                raise BNFError('quotes in %r' % line)
            word += match.group()
            index = match.end()
            continue
        if char in '([{<':
            depth += 1
        elif char in ')]}' or (char == '>' and depth):
            depth -= 1
        if char == ' ' and not depth:
            words.append(word)
            word = ''
        else:
            word += char
        index += 1
    words.append(word)
    if depth or '' in words:
        raise BNFError('can not split %r' % line)
    return words


def is_quoted(label):
    match = QUOTED.match(label)
    return match and match.end() == len(label)


def terminal(label):
    """Specification of a predicate by its label."""
    if is_quoted(label):
        return ['eq', label[1:-1]]
    text = FUNCTION.sub(r"'\1'", label)
    try:
        value = ast.parse(text, mode='eval').body
        return expression(value)
    except (SyntaxError, KeyError, AttributeError, ValueError) as error:
        raise BNFError('what is %r: %r' % (label, error))


def expression(value):
    if isinstance(value, ast.Constant) and isinstance(value.value, str):
        return ['eq', value.value]
    kind = value.func.id
    items = list(value.args) + [
        _.value for _ in value.keywords if _.arg != 'types'
    ]
    if kind == 'custom':
        function, = items
        name = (
            function.id if isinstance(function, ast.Name)
            else ast.literal_eval(function)
        )
        return ['custom', name, None]
    kind = KINDS[kind]
    if kind in ('and', 'or'):
        return [kind, [expression(_) for _ in items]]
    elif kind == 'not':
        item, = items
        return [kind, expression(item)]
    return [kind] + [ast.literal_eval(_) for _ in items]


class Line(object):
    """name: label, base: label without relations, body: specification."""

    def __init__(self, line):
        words = split(line)
        if len(words) < 3 or words[1] != '->':
            raise BNFError('no arrow in %r' % line)
        self.name = words[0]
        self.alternatives = [[]]
        for word in words[2:]:
            if word == '|':
                self.alternatives.append([])
            else:
                self.alternatives[-1].append(word)
        if not all(self.alternatives):
            raise BNFError('no terms in an alternative of %r' % line)
        self.base, self.relation = self.name, None
        match = re.match(r'^([^\^]+)\^(.+)$', self.name)
        if match:
            self.base, self.relation = match.groups()


class Grammar(object):
    def __init__(self, lines):
        self.lines = [Line(_) for _ in lines]
        self.index = {}
        for number, line in enumerate(self.lines):
            if line.name in self.index:
                raise BNFError('two lines of %r' % line.name)
            self.index[line.name] = number

    def used(self):
        """Names reachable from the start rule."""
        visited = set()
        queue = [0]
        while queue:
            number = queue.pop()
            if number in visited:
                continue
            visited.add(number)
            for words in self.lines[number].alternatives:
                for word in words:
                    name = self.reference(word)
                    if name is not None:
                        queue.append(name)
        return visited

    def reference(self, word):
        if is_quoted(word):
            return
        if word in self.index:
            return self.index[word]
        if word.startswith('^') and word[1:] in self.index:
            return self.index[word[1:]]

    def spec(self, pipes, relations):
        """pipes: kind -> lines, relations: label -> name."""
        return {
            'lets': [],
            'defs': [self.body(_, pipes, relations) for _ in self.lines],
            'root': ['ref', 0],
        }

    def body(self, line, pipes, relations):
        items = []
        for words in line.alternatives:
            if words == ['e']:
                items.append(['empty'])
            elif len(words) == 1 and words[0] in PIPES:
                kind = PIPES[words[0]]
                items.append(['pipe', kind, pipes[kind]])
            else:
                items.append(self.alternative(words))
        if len(items) > 1 and any(_[0] == 'pipe' for _ in items):
            raise BNFError('gazetteer among alternatives')
        value = items[0] if len(items) == 1 else ['or', items]
        value = ['named', value, line.base]
        if line.relation:
            if line.relation not in relations:
                raise BNFError('relation %r' % line.relation)
            value = ['match', value, relations[line.relation]]
        return value

    def alternative(self, words):
        terms = []
        main = None
        for index, word in enumerate(words):
            number = self.reference(word)
            if word.startswith('^'):
                if main is not None:
                    raise BNFError('two main terms in %r' % words)
                main = index
                word = word[1:]
            if number is not None:
                terms.append(['ref', number])
            else:
                terms.append(['p', terminal(word), 0])
        return ['seq', terms, main]
