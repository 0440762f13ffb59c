"""Reader of the DOT language, as far as directed graphs need it."""
import json
import re
import subprocess

TOKEN = re.compile(r'''
    (?P<space>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<string>"(?:\\.|[^"\\])*")
  | (?P<arrow>->)
  | (?P<id>[A-Za-z_\u0080-\U0010ffff][\w\u0080-\U0010ffff]*
      | -?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))
  | (?P<mark>[{}\[\];,=])
''', re.X | re.S)
KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


class DotError(Exception):
    pass


def lex(text):
    position = 0
    while position < len(text):
        match = TOKEN.match(text, position)
        if not match:
            raise DotError('syntax error at %d: %r' % (
                position, text[position:position + 40]))
        position = match.end()
        kind = match.lastgroup
        if kind != 'space':
            yield kind, match.group()
    yield 'end', ''


def unquote(value):
    # escapes are left to unescape, \\" is needed by the quotes only
    return value[1:-1]


def unescape(value):
    """Text of a label: escString of graphviz, \\N and others are refused."""
    result = []
    index = 0
    while index < len(value):
        char = value[index]
        if char == '\\':
            index += 1
            if index == len(value):
                raise DotError('trailing backslash in %r' % value)
            escape = value[index]
            if escape in '\\"':
                result.append(escape)
            elif escape in 'nlr':
                result.append({'n': '\n', 'l': '\n', 'r': '\r'}[escape])
            elif escape in 'NGETHL':
                raise DotError('substitution \\%s in %r' % (escape, value))
            else:
                result.append(escape)
        else:
            result.append(char)
        index += 1
    return ''.join(result)


class Graph(object):
    def __init__(self):
        self.nodes = []  # (id, attributes)
        self.edges = []  # (source, target, attributes)
        self.defaults = {}


class Reader(object):
    def __init__(self, text):
        self.tokens = list(lex(text))
        self.index = 0

    @property
    def head(self):
        return self.tokens[self.index]

    def take(self, value=None):
        kind, text = self.head
        if value is not None and text != value:
            raise DotError('%r instead of %r' % (text, value))
        self.index += 1
        return kind, text

    def is_mark(self, value):
        kind, text = self.head
        return kind in ('mark', 'arrow') and text == value

    def id(self):
        kind, text = self.take()
        if kind == 'string':
            return unquote(text)
        if kind == 'id':
            return text
        raise DotError('%r instead of a name' % text)

    def attributes(self):
        result = {}
        while self.is_mark('['):
            self.take()
            while not self.is_mark(']'):
                key = self.id()
                self.take('=')
                value = self.id()
                if key in result:
                    raise DotError('two values of %r' % key)
                result[key] = value
                if self.is_mark(',') or self.is_mark(';'):
                    self.take()
            self.take(']')
        return result

    def graph(self):
        graph = Graph()
        if self.head[1] == 'strict':
            raise DotError('strict graph drops equal edges')
        self.take('digraph')
        if not self.is_mark('{'):
            self.id()
        self.take('{')
        while not self.is_mark('}'):
            if self.is_mark(';'):
                self.take()
                continue
            kind, text = self.head
            if kind == 'id' and text.lower() in KEYWORDS:
                if text.lower() not in ('node', 'edge', 'graph'):
                    raise DotError('%r is not expected' % text)
                self.take()
                graph.defaults[text.lower()] = self.attributes()
                continue
            items = [self.id()]
            if self.is_mark('='):
                self.take()
                self.id()
                continue
            while self.is_mark('->'):
                self.take()
                items.append(self.id())
            attributes = self.attributes()
            if len(items) == 1:
                graph.nodes.append((items[0], attributes))
            for source, target in zip(items, items[1:]):
                graph.edges.append((source, target, attributes))
        self.take('}')
        if self.head[0] != 'end':
            raise DotError('text after the graph')
        return graph


def read(source):
    return Reader(source).graph()


def graphviz(source):
    """Graph as dot itself reads it."""
    process = subprocess.run(
        ['dot', '-Tdot_json'], input=source.encode('utf8'),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60
    )
    if process.returncode or b'rror' in process.stderr:
        raise DotError('dot: %r' % process.stderr[:300])
    data = json.loads(process.stdout.decode('utf8'), strict=False)
    graph = Graph()
    names = {}
    for item in data.get('objects', []):
        names[item['_gvid']] = item['name']
        graph.nodes.append((item['name'], item))
    for item in data.get('edges', []):
        graph.edges.append((names[item['tail']], names[item['head']], item))
    return graph
