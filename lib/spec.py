"""Builds yargy objects from JSON specifications, through the public API."""
from . import model, interp, words

_SHARED = {}


def predicate(spec):
    from yargy import predicates as p
    from yargy import and_, or_, not_
    kind = spec[0]
    if kind == 'eq':
        return p.eq(spec[1])
    elif kind == 'caseless':
        return p.caseless(spec[1])
    elif kind == 'in':
        return p.in_(list(spec[1]))
    elif kind == 'incl':
        return p.in_caseless(list(spec[1]))
    elif kind == 'type':
        return p.type(spec[1])
    elif kind == 'true':
        return p.true()
    elif kind == 'and':
        return and_(*[predicate(_) for _ in spec[1]])
    elif kind == 'or':
        return or_(*[predicate(_) for _ in spec[1]])
    elif kind == 'not':
        return not_(predicate(spec[1]))
    elif kind == 'gte':
        return p.gte(spec[1])
    elif kind == 'lte':
        return p.lte(spec[1])
    elif kind == 'len':
        return p.length_eq(spec[1])
    elif kind == 'lower':
        return p.is_lower()
    elif kind == 'upper':
        return p.is_upper()
    elif kind == 'title':
        return p.is_title()
    elif kind == 'cap':
        return p.is_capitalized()
    elif kind == 'gram':
        return p.gram(spec[1])
    elif kind == 'single':
        return p.is_single()
    elif kind == 'norm':
        return p.normalized(spec[1])
    elif kind == 'dict':
        return p.dictionary(list(spec[1]))
    elif kind == 'tag':
        return p.tag(spec[1])
    elif kind == 'custom':
        types = spec[2]
        if not types:
            types = None
        elif len(types) == 1:
            types = types[0]
        return p.custom(model.CUSTOM[spec[1]], types=types)
    elif kind == 'first':
        return own_predicates()[0]()
    elif kind == 'own':
        return own_predicates()[1](predicate(spec[1]))
    raise KeyError(kind)


def own_predicates():
    """Predicates of the user."""
    if 'own' not in _SHARED:
        from yargy.predicates.constructors import Predicate, PredicateScheme

        class First(Predicate):
            # keeps the first form
            def __call__(self, token):
                return bool(getattr(token, 'forms', ()))

            def constrain(self, token):
                return token.constrained(token.forms[:1])

        class Own(PredicateScheme):
            # stands for another predicate
            __attributes__ = ['inner']

            def __init__(self, inner):
                self.inner = inner

            def activate(self, context):
                return self.inner.activate(context)

        _SHARED['own'] = First, Own
    return _SHARED['own']


def relation(spec):
    from yargy import relations as r
    from yargy import and_, or_, not_
    kind = spec[0]
    if kind == 'gender':
        return r.gender_relation()
    elif kind == 'number':
        return r.number_relation()
    elif kind == 'case':
        return r.case_relation()
    elif kind == 'gnc':
        return r.gnc_relation()
    elif kind == 'and':
        return and_(*[relation(_) for _ in spec[1]])
    elif kind == 'or':
        return or_(*[relation(_) for _ in spec[1]])
    elif kind == 'not':
        return not_(relation(spec[1]))
    elif kind == 'ordered':
        return ordered_relation(spec[1], spec[2])
    raise KeyError(kind)


def ordered_relation(first, second):
    """Relation of the user, not symmetric."""
    from yargy.relations import Relation

    class Ordered(Relation):
        label = 'ordered'

        def __call__(self, form, other):
            return first in form.grams and second in other.grams

    return Ordered()


########
# FACTS
########


def make_facts(spec):
    """name -> class, attributes as in the specification."""
    from yargy.interpretation import fact, attribute
    classes = {}
    for name in spec:
        item = spec[name]
        if item.get('base'):
            continue
        attrs = []
        for attr in item['attrs']:
            if attr['repeatable']:
                attrs.append(attribute(attr['name']).repeatable())
            elif attr['default'] is not None:
                attrs.append(attribute(attr['name'], attr['default']))
            elif attr.get('plain', True):
                attrs.append(attr['name'])
            else:
                attrs.append(attribute(attr['name']))
        classes[name] = fact(name, attrs)
    pending = [_ for _ in spec if spec[_].get('base')]
    while pending:
        for name in list(pending):
            base = spec[name]['base']
            if base in classes:
                classes[name] = type(str(name), (classes[base],), {})
                pending.remove(name)
    return classes


def plain_value(value):
    """Values of yargy in the notation of interp.Evaluator.plain."""
    from yargy.interpretation.fact import Fact
    if isinstance(value, Fact):
        return ('fact', type(value).__name__, [
            (key, plain_value(getattr(value, key)))
            for key in type(value).__attributes__
        ])
    if isinstance(value, list):
        return [plain_value(_) for _ in value]
    return value


def plain_json(value):
    """as_json of yargy in the notation of interp.Evaluator.json."""
    if isinstance(value, dict):
        return ('map', [(key, plain_json(item))
                        for key, item in value.items()])
    if isinstance(value, list):
        return [plain_json(_) for _ in value]
    return value


def function(name):
    inner = interp.get_function(name)

    def call(value):
        return inner(plain_value(value))

    call.__name__ = name
    return call


def normalizer(norms):
    """Chain of normalizers in the rule form."""
    from yargy import interpretation as i
    first = norms[0]
    if first[0] == 'const':
        return i.const(first[1])
    elif first[0] == 'normalized':
        result = i.normalized()
    elif first[0] == 'inflected':
        result = (
            i.inflected(set(first[1]))
            if first[1] is not None else i.inflected()
        )
    else:
        result = i.custom(function(first[1]))
    for item in norms[1:]:
        result = result.custom(function(item[1]))
    return result


def attribute_form(attribute, norms):
    """The same chain on an attribute."""
    first = norms[0]
    if first[0] == 'const':
        return attribute.const(first[1])
    elif first[0] == 'normalized':
        result = attribute.normalized()
    elif first[0] == 'inflected':
        result = (
            attribute.inflected(set(first[1]))
            if first[1] is not None else attribute.inflected()
        )
    else:
        result = attribute.custom(function(first[1]))
    for item in norms[1:]:
        result = result.custom(function(item[1]))
    return result


########
# GRAMMAR
########


class Builder(object):
    """One consistent set of objects for a specification."""

    def __init__(self, spec):
        from yargy import forward
        self.spec = spec
        self.facts = make_facts(spec.get('facts', {}))
        self.relations = {
            name: relation(item)
            for name, item in spec.get('relations', {}).items()
        }
        self.pipes = {}
        self.count = 0
        self.defs = [forward() for _ in spec.get('defs', [])]
        self.lets = []
        for expr in spec.get('lets', []):
            self.lets.append(self.rule(expr))
        for item, expr in zip(self.defs, spec.get('defs', [])):
            self.define(item, expr)
        self.root = self.rule(spec['root'])

    def define(self, item, expr):
        self.count += 1
        if self.count % 3 == 0:
            # rules made of a forward define it
            item = [
                lambda: item.named('Later'), lambda: item.optional(),
                lambda: item.repeatable(), lambda: item.repeatable(max=2),
            ][self.count // 3 % 4]()
        if expr[0] == 'seq' and len(expr[1]) != 1 and expr[1]:
            # forward().define(a, b) is rule(a, b)
            item.define(*self.terms(expr))
        else:
            value = self.rule(expr)
            from yargy.rule import Rule
            if is_forward(value):
                from yargy import rule
                value = rule(value)
            assert isinstance(value, Rule)
            item.define(value)

    def terms(self, expr):
        from yargy.relations import main
        main_index = expr[2] if len(expr) > 2 else None
        items = []
        for index, item in enumerate(expr[1]):
            item = self.item(item)
            if index == main_index:
                if isinstance(item, str):
                    from yargy.predicates import eq
                    item = eq(item)
                item = main(item)
            items.append(item)
        return items

    def item(self, expr):
        """Item of rule(...): string, predicate or rule."""
        if expr[0] == 't':
            style = expr[2] if len(expr) > 2 else 0
            if style == 0:
                return expr[1]
            elif style == 1:
                return predicate(['eq', expr[1]])
        elif expr[0] == 'p':
            return predicate(expr[1])
        return self.rule(expr)

    def base(self, expr):
        """Rule or predicate: both have optional, repeatable and so on."""
        if expr[0] == 't' and len(expr) > 2 and expr[2] == 1:
            return predicate(['eq', expr[1]])
        if expr[0] == 'p' and len(expr) > 2 and expr[2] == 1:
            return predicate(expr[1])
        return self.rule(expr)

    def rule(self, expr):
        from yargy import rule, or_, empty
        kind = expr[0]
        if kind == 't':
            return rule(expr[1])
        elif kind == 'p':
            return rule(predicate(expr[1]))
        elif kind == 'seq':
            return rule(*self.terms(expr))
        elif kind == 'or':
            return or_(*[self.rule(_) for _ in expr[1]])
        elif kind == 'empty':
            return empty()
        elif kind == 'ref':
            return self.defs[expr[1]]
        elif kind == 'let':
            return self.lets[expr[1]]
        elif kind == 'opt':
            base = self.base(expr[1])
            if expr[2]:
                self.count += 1
                if self.count % 2:
                    return base.optional(True)
                return base.optional(reverse=True)
            return base.optional()
        elif kind == 'rep':
            _, child, min, max, reverse = expr
            self.count += 1
            if self.count % 3 == 0:
                # all by position
                return self.base(child).repeatable(min, max, bool(reverse))
            options = {}
            if min is not None:
                options['min'] = min
            if max is not None:
                options['max'] = max
            if reverse:
                options['reverse'] = True
            return self.base(child).repeatable(**options)
        elif kind == 'named':
            return self.base(expr[1]).named(expr[2])
        elif kind == 'match':
            return self.base(expr[1]).match(self.relations[expr[2]])
        elif kind == 'int':
            # predicates take attributes and normalizers only
            base = (
                self.rule(expr[1]) if expr[2][0] == 'fact'
                else self.base(expr[1])
            )
            return base.interpretation(self.interpretation(expr[2]))
        elif kind == 'pipe':
            from yargy import pipelines
            make = {
                'pipeline': pipelines.pipeline,
                'caseless': pipelines.caseless_pipeline,
                'morph': pipelines.morph_pipeline,
            }[expr[1]]
            return make(list(expr[2]))
        raise KeyError(kind)

    def interpretation(self, spec):
        kind = spec[0]
        if kind == 'fact':
            return self.facts[spec[1]]
        elif kind == 'norm':
            return normalizer(spec[1])
        elif kind == 'attr':
            _, fact, name, norms = spec
            attribute = getattr(self.facts[fact], name)
            if norms:
                return attribute_form(attribute, norms)
            return attribute
        raise KeyError(kind)


def is_forward(value):
    from yargy.rule import ForwardRule
    return isinstance(value, ForwardRule)


########
# TOKENIZERS
########


def plain_tokenizer():
    from yargy.tokenizer import Tokenizer
    return Tokenizer()


def real_tokenizer():
    """One MorphTokenizer for the process, the dictionary is large."""
    if 'real' not in _SHARED:
        from yargy.tokenizer import MorphTokenizer
        _SHARED['real'] = MorphTokenizer()
    return _SHARED['real']


def stub_tokenizer(lexicon, cached=True):
    """MorphTokenizer with the synthetic analyser."""
    from yargy.tokenizer import MorphTokenizer
    return MorphTokenizer(morph=stub_morph(lexicon, cached))


def stub_morph(lexicon, cached=True):
    from yargy.morph import MorphAnalyzer, Form, Grams

    class StubMorph(MorphAnalyzer):
        def __init__(self):
            self.raw = None
            # words are analysed once, as the default analyser does
            self.cache = {}

        def check_gram(self, gram):
            if gram not in words.GRAM_POOL and gram != 'UNKN':
                raise ValueError(gram)

        def __call__(self, word):
            if word in self.cache:
                return self.cache[word]
            forms = [
                Form(norm, Grams(grams),
                     raw=words.FakeParse(word, norm, grams))
                for norm, grams in lexicon(word)
            ]
            if cached:
                self.cache[word] = forms
            return forms

        def normalized(self, word):
            return {_.normalized for _ in self(word)}

    return StubMorph()


def values(match):
    return [_.value for _ in match.tokens]


def forms_of(token):
    """Forms of a yargy token in the notation of the model."""
    if not hasattr(token, 'forms'):
        return None
    return [(_.normalized, frozenset(_.grams.values)) for _ in token.forms]


########
# TAGGERS
########


def word_tagger(tags):
    """Tags words by a dictionary."""
    from yargy.tagger import Tagger

    class WordTagger(Tagger):
        def __init__(self):
            self.tags = set(tags.values())

        def __call__(self, tokens):
            for token in tokens:
                tag = tags.get(token.value)
                yield token.tagged(tag) if tag else token

    return WordTagger()


########
# OUTCOMES
########


def match_view(match, fact=True, forms=True):
    """Everything the user sees in a match, as plain values."""
    if match is None:
        return
    value = {
        'span': tuple(match.span),
        'tokens': [
            (_.value, tuple(_.span), _.type, getattr(_, 'tag', None))
            for _ in match.tokens
        ],
    }
    if forms:
        value['forms'] = [forms_view(_) for _ in match.tokens]
    if fact:
        try:
            item = match.fact
        except (ValueError, TypeError) as error:
            value['fact'] = type(error).__name__
        else:
            value['fact'] = plain_value(item)
            from yargy.interpretation.fact import Fact
            if isinstance(item, Fact):
                value['json'] = plain_json(item.as_json)
                value['spans'] = [tuple(_) for _ in item.spans]
    return value


def forms_view(token):
    forms = forms_of(token)
    if forms is not None:
        return sorted((norm, sorted(grams)) for norm, grams in forms)


def outcome(parser, text, **kwargs):
    return {
        'match': match_view(parser.match(text), **kwargs),
        'find': match_view(parser.find(text), **kwargs),
        'findall': [match_view(_, **kwargs) for _ in parser.findall(text)],
    }
