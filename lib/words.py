"""Words and synthetic lexicons."""

# real words with rich morphology: agreement, ambiguity, fixed, common gender
NOUNS = ['дом', 'дома', 'домов', 'стали', 'сталь', 'мама', 'мамы', 'маму',
         'площадь', 'площади', 'учитель', 'учителя', 'врач', 'сирота',
         'пальто', 'ножницы', 'молоко', 'саша', 'саши', 'сашу', 'иванова',
         'иванову', 'иванов', 'москва', 'москве', 'город', 'города',
         'окно', 'окна', 'люди', 'год', 'лет', 'рубль', 'рублей']
ADJS = ['красный', 'красная', 'красной', 'красную', 'красные', 'красного',
        'большой', 'большая', 'большие', 'синий', 'синее', 'новой', 'бежевый']
OTHERS = ['стоит', 'стали', 'мыла', 'мыть', 'и', 'в', 'на', 'мы', 'три',
          'белым', 'бело', 'весело', 'рано', 'который', 'глокая']
WORDS = NOUNS + ADJS + OTHERS


GRAM_POOL = ['NOUN', 'ADJF', 'VERB', 'masc', 'femn', 'neut', 'ms-f', 'Ms-f',
             'GNdr', 'sing', 'plur', 'Sgtm', 'Pltm', 'Fixd',
             'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Name']

# Russian letters only: one token each
STEMS = ['ба', 'во', 'гу', 'ду', 'жи', 'зо']


class FakeParse(object):
    """Stands in for the parse record of pymorphy."""

    def __init__(self, word, norm, grams):
        self.word = word
        self.normal_form = norm
        self.grams = grams

    def inflect(self, grams):
        # None when the requested grammeme is unknown to the word
        if 'Fixd' in self.grams:
            return None
        return FakeParse(
            self.normal_form + ''.join(sorted(_[0] for _ in grams)),
            self.normal_form, grams
        )


class Lexicon(object):
    """Synthetic analyser: word -> list of [norm, [grams]]."""

    def __init__(self, entries):
        self.entries = {
            word: [(norm, frozenset(grams)) for norm, grams in forms]
            for word, forms in entries.items()
        }

    def __call__(self, word):
        value = self.entries.get(word.lower())
        if value:
            return value
        return [(word.lower(), frozenset(['UNKN']))]


_PYMORPHY = []


def pymorphy():
    if not _PYMORPHY:
        from pymorphy2 import MorphAnalyzer
        _PYMORPHY.append(MorphAnalyzer())
    return _PYMORPHY[0]


_CACHE = {}


def real_lexicon(word):
    """Forms of the real analyser, straight from pymorphy2."""
    if word not in _CACHE:
        _CACHE[word] = [
            (_.normal_form, frozenset(_.tag.grammemes))
            for _ in pymorphy().parse(word)
        ]
    return _CACHE[word]
