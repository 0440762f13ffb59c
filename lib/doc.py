"""Grammars of the documentation as specifications."""

MONTHS = {
    'январь': 1, 'февраль': 2, 'март': 3, 'апрель': 4, 'май': 5, 'мая': 5,
    'июнь': 6, 'июль': 7, 'август': 8, 'сентябрь': 9, 'октябрь': 10,
    'ноябрь': 11, 'декабрь': 12,
}


def t(word):
    return ['t', word, 0]


def p(*predicate):
    return ['p', list(predicate), 1]


def seq(*items):
    return ['seq', [t(_) if isinstance(_, str) else _ for _ in items], None]


def or_(*items):
    return ['or', list(items)]


def opt(item, reverse=False):
    return ['opt', item, reverse]


def rep(item, min=None, max=None, reverse=False):
    return ['rep', item, min, max, reverse]


def fact(item, name):
    return ['int', item, ['fact', name]]


def attr(item, name, *norms):
    name, key = name.split('.')
    return ['int', item, ['attr', name, key, list(norms) or None]]


def match(item, name):
    return ['match', item, name]


def main(items, index):
    return ['seq', items, index]


def facts(**names):
    """A='x y* z=5': repeatable, default."""
    result = {}
    for name, attrs in names.items():
        items = []
        for part in attrs.split():
            default = None
            if '=' in part:
                part, default = part.split('=')
            items.append({
                'name': part.rstrip('*'), 'repeatable': part.endswith('*'),
                'default': default
            })
        result[name] = {'attrs': items}
    return result


def grammar(root, facts=None, lets=(), defs=(), relations=None):
    return {
        'lets': list(lets), 'defs': list(defs), 'root': root,
        'facts': facts or {}, 'relations': relations or {},
    }


INT = ['custom', 'to_int']
FLOAT = ['custom', 'to_float']
MONTH = ['custom', 'month']
NORM = ['normalized']
NOMN = ['inflected', None]

DAY = p('and', [['gte', 1], ['lte', 31]])
MONTH_NUMBER = p('and', [['gte', 1], ['lte', 12]])
YEAR = p('and', [['gte', 1900], ['lte', 2100]])
MONTH_NAME = p('dict', sorted(MONTHS))
NUMBER = p('type', 'INT')
DATE = fact(['named', or_(
    seq(attr(DAY, 'Date.day', INT),
        attr(MONTH_NAME, 'Date.month', NORM, MONTH),
        opt(attr(YEAR, 'Date.year', INT))),
    seq(attr(YEAR, 'Date.year', INT), '-',
        attr(MONTH_NUMBER, 'Date.month', INT), '-',
        attr(DAY, 'Date.day', INT)),
    seq(attr(YEAR, 'Date.year', INT), opt(t('г')), '.')
), 'DATE'], 'Date')
NAME = fact(seq(
    match(attr(p('gram', 'Name'), 'Name.first', NOMN), 'gnc'),
    match(attr(p('gram', 'Surn'), 'Name.last', NOMN), 'gnc')
), 'Name')
TITLE = seq('«', rep(p('not', ['eq', '»'])), '»')


def bounded(start, stop):
    return seq(start, rep(p('not', ['eq', stop])), stop)


GRAMMARS = {
    'geo': grammar(fact(seq(
        p('and', [['gram', 'ADJF'], ['cap']]),
        rep(opt(p('gram', 'ADJF'))),
        p('dict', ['федерация', 'республика', 'край'])
    ), 'Geo'), facts(Geo='name')),
    'geo name': grammar(fact(attr(seq(
        p('and', [['gram', 'ADJF'], ['cap']]),
        opt(p('gram', 'ADJF')),
        p('dict', ['федерация', 'республика', 'край', 'площадь', 'улица'])
    ), 'Geo.name', NORM), 'Geo'), facts(Geo='name')),
    'person': grammar(fact(seq(
        attr(['pipe', 'morph', [
            'премьер министр', 'президент', 'вице-президент', 'министр',
            'директор', 'управляющий директор', 'вице-мэр'
        ]], 'Person.position', NOMN),
        attr(['let', 0], 'Person.name')
    ), 'Person'), facts(Person='position name', Name='first last'),
        [NAME], relations={'gnc': ['gnc']}),
    'name': grammar(NAME, facts(Name='first last'),
                    relations={'gnc': ['gnc']}),
    'initials': grammar(fact(or_(
        seq(match(attr(p('and', [['gram', 'Name'],
                                 ['not', ['gram', 'Abbr']]]),
                       'Name.first', NORM), 'gnc'),
            match(opt(attr(p('gram', 'Patr'), 'Name.middle', NORM)), 'gnc'),
            match(attr(p('gram', 'Surn'), 'Name.last', NORM), 'gnc')),
        seq(attr(p('gram', 'Surn'), 'Name.last', NOMN),
            attr(p('and', [['len', 1], ['cap']]), 'Name.first'), '.',
            opt(seq(attr(p('and', [['len', 1], ['cap']]), 'Name.middle'),
                    '.')))
    ), 'Name'), facts(Name='first middle last'),
        relations={'gnc': ['gnc']}),
    'date': grammar(DATE, facts(Date='year=2017 month day')),
    'dates': grammar(fact(seq(
        attr(['let', 0], 'Dates.items'),
        opt(rep(seq(p('in', [',', ';', 'и']), attr(
            ['let', 0], 'Dates.items'))))
    ), 'Dates'), facts(Date='year month day', Dates='items*'), [DATE]),
    'money': grammar(fact(seq(
        attr(NUMBER, 'Money.value', INT),
        opt(attr(or_(
            ['pipe', 'morph', ['тысяча', 'миллион', 'тыс.', 'млн']],
        ), 'Money.multiplier', NORM)),
        or_(attr(seq('$'), 'Money.currency', ['const', 'USD']),
            attr(seq('€'), 'Money.currency', ['const', 'EUR']),
            attr(['pipe', 'morph', ['рубль', 'руб.', 'р.']],
                 'Money.currency', NORM))
    ), 'Money'), facts(Money='value multiplier currency')),
    'title': grammar(fact(attr(TITLE, 'Item.title'), 'Item'),
                     facts(Item='title')),
    'items': grammar(
        fact(['ref', 0], 'Item'), facts(
            Item='titles* date', Date='year month day'),
        [TITLE, DATE],
        [fact(or_(
            attr(['let', 0], 'Item.titles'),
            seq(['ref', 0], opt(t(',')),
                attr(['let', 0], 'Item.titles')),
            seq(['ref', 0], attr(['let', 1], 'Item.date'))
        ), 'Item')]),
    'expression': grammar(
        fact(attr(['ref', 0], 'Expr.text'), 'Expr'), facts(Expr='text'), [],
        [['named', or_(
            seq(NUMBER), seq('(', ['ref', 0], p('in', ['+', '-', '*']),
                             ['ref', 0], ')')
        ), 'EXPR']]),
    'era': grammar(fact(or_(
        attr(['pipe', 'morph', ['до нашей эры', 'до н.э.']],
             'Era.value', ['const', 'BC']),
        attr(['pipe', 'morph', ['наша эра', 'н.э.']],
             'Era.value', ['const', 'AD'])
    ), 'Era'), facts(Era='value')),
    'period': grammar(fact(attr(or_(
        fact(seq(attr(NUMBER, 'Year.value', INT), 'г', '.'), 'Year'),
        fact(seq(attr(NUMBER, 'Range.start', INT), '-',
                 attr(NUMBER, 'Range.stop', INT), 'г', '.'), 'Range'),
        fact(seq(attr(NUMBER, 'Century.value', INT), 'век'), 'Century')
    ), 'Period.value'), 'Period'), facts(
        Year='value', Range='start stop', Century='value', Period='value')),
    'reference': grammar(fact(seq(
        attr(fact(seq(
            'ст', '.', attr(NUMBER, 'Art.start', INT),
            opt(seq('-', attr(NUMBER, 'Art.stop', INT)))
        ), 'Art'), 'Ref.art'),
        opt(attr(fact(seq(
            'п', '.', attr(NUMBER, 'Punkt.number', INT)
        ), 'Punkt'), 'Ref.punkt'))
    ), 'Ref'), facts(
        Art='start stop', Punkt='number', Ref='art punkt')),
    'position': grammar(fact(seq(
        match(attr(main(
            [p('norm', 'главный'), p('norm', 'бухгалтер')], 1
        ), 'Person.position', NORM), 'case'),
        match(attr(['let', 0], 'Person.name'), 'case')
    ), 'Person'), facts(Person='position name', Name='first last'), [NAME],
        relations={'gnc': ['gnc'], 'case': ['case']}),
    'companies': grammar(rep(or_(
        ['pipe', 'morph', [
            'Общество с ограниченной ответственностью',
            'Акционерное общество', 'Страховая компания',
            'Строительная компания', 'общество']],
        ['pipe', 'pipeline', ['ООО', 'АО', 'СК', 'ЗАО']]
    )), {}),
    'joined': grammar(seq(
        ['let', 0], opt(rep(seq(p('in', [',', ';']), ['let', 0])))
    ), {}, [or_(bounded('[', ']'), bounded('«', '»'))]),
    'address': grammar(fact(seq(
        or_(
            seq(attr(['pipe', 'morph', ['улица', 'ул.', 'проспект', 'пр-т']],
                     'Address.type', NORM),
                attr(rep(p('and', [['cap'], ['type', 'RU']]), None, 2),
                     'Address.name')),
            seq(match(attr(p('and', [['cap'], ['gram', 'ADJF']]),
                           'Address.name', NOMN), 'gnc'),
                match(attr(['pipe', 'morph', ['улица', 'проспект']],
                           'Address.type', NORM), 'gnc'))
        ),
        opt(t(',')),
        opt(seq(p('incl', ['дом', 'д']), opt(t('.')))),
        attr(seq(NUMBER, opt(p('and', [['len', 1], ['lower']]))),
             'Address.house')
    ), 'Address'), facts(Address='type name house'),
        relations={'gnc': ['gnc']}),
    'size': grammar(['named', seq(
        ['named', or_(seq('р', '.'), seq('размер')), 'KEY'],
        ['named', or_(seq('S'), seq('M'), seq('L')), 'VALUE']
    ), 'SIZE'], {}),
    'float': grammar(fact(attr(
        seq(NUMBER, p('in', ['.', ',']), NUMBER), 'Float.value', FLOAT
    ), 'Float'), facts(Float='value')),
    'adjectives': grammar(fact(seq(
        rep(match(attr(p('gram', 'ADJF'), 'Phrase.adjectives'), 'gnc')),
        match(attr(p('gram', 'NOUN'), 'Phrase.noun', NORM), 'gnc')
    ), 'Phrase'), facts(Phrase='adjectives* noun'),
        relations={'gnc': ['gnc']}),
    'films': grammar(fact(seq(
        attr(['pipe', 'caseless', ['DVD-диск', 'Blu-ray', 'Видео файл',
                                   'видео']], 'Film.kind', NORM),
        attr(['let', 0], 'Film.title', ['custom', 'upper']),
        opt(seq('(', attr(YEAR, 'Film.year', INT), ')'))
    ), 'Film'), facts(Film='kind title year'), [TITLE]),
}

FRAGMENTS = {
    'geo': ['Чеченской республике', 'Донецкая народная республика',
            'Башня Федерация', 'Российской Федерации', 'Пермский край',
            'Красной площади', 'Красная новая площадь', 'Ленинская улица'],
    'person': ['президента Владимира Путина', 'премьер министр Иван Иванов',
               'вице-президенту Саше Ивановой', 'Илье Ивановым',
               'Павлом Семенов', 'Саша Быков', 'Сашу Иванову',
               'Саше Иванову', 'управляющий директор Иван Ульянов',
               'Мария Ивановна Петрова', 'Петров А. Б.', 'Иванова М.',
               'главного бухгалтера марину игореву',
               'главный бухгалтер Саша Петрова', 'бухгалтер'],
    'date': ['18 июля 2016', '15 марта', '2015г.', '2016-01-02', '2016.',
             '31 мая', '32 мая', '8 июня 2015 и 9 июня', '1917-1918г.',
             '21 век', '1990 г.', 'до нашей эры', 'до н.э.', 'н. э.',
             'нашей эры', '2000-12-31; 1 января'],
    'money': ['5 тысяч$', '100 руб.', '3 млн рублей', '7€', '1 500 000$',
              '5 тыс. р.', '3.1415', '2,5', '0.5.6', '(1+(2*3))', '(1+2)',
              '((1-2)*3)'],
    'title': ['«Каштанка», «Дядя Ваня»', '«Каштанка» 18 июня', '«»',
              '« «а» б»', '[a b], [c d]; «e f»', '[x', 'y]',
              'DVD-диск «Брат» (1997)', 'видео файл «Брат 2»',
              'blu-ray «а»', 'видео «б» (3000)'],
    'law': ['ст. 15-17 п.1', 'ст. 15 п.2', 'ст. 16', 'п. 3 ст. 4', 'ст.',
            'размер L', 'р. M', 'р.S'],
    'company': ['Акционерное общество', 'в Акционерном обществе; АО, СК',
                'ООО СК', 'Строительных компаний', 'общества ЗАО',
                'общество с ограниченной ответственностью'],
    'street': ['улица Ленина, д. 5', 'ул. Карла Маркса 3 а', 'пр-т Мира 10',
               'Ленинский проспект, дом 7б', 'Красная улица 1',
               'Красной проспект 1', 'улице Мира 12'],
    'words': ['красивая новая мама', 'большому красному дому', 'в доме',
              'стали', 'марки стали', 'мама мыла раму', 'белым бело',
              'сирота', 'круглый сирота', 'новые ножницы', 'длинное пальто',
              'π ≈ 3.1415', 'http://vk.com', 'Ростов-на-Дону', '18ч. 10мин.'],
}


def month(value):
    return MONTHS.get(value)


def to_int(value):
    try:
        return int(value)
    except (TypeError, ValueError):
        return None


def to_float(value):
    try:
        return float(value.replace(',', '.'))
    except (AttributeError, ValueError):
        return None
