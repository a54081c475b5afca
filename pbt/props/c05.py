"""C05: media queries."""
import math
from fractions import Fraction

from svgpy import SVGDOMImplementation
from svgpy.window import Window

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'C05',
    'Lists of up to three media queries drawn from the Media Queries 4 '
    'grammar (types, only, not, and, or, nested parentheses, boolean, plain, '
    'min-/max- and range features) in varied spelling, evaluated by one '
    'MediaQueryList under a history of screen and window settings and '
    'compared with a reference evaluator. A case is non-trivial when a query '
    'has two or more features or a range, or when the list changes its value '
    'between settings.',
    ['an unknown feature is false and its negation true (two-valued logic, '
     'library convention)', 'lengths that differ from the compared quantity '
     'by rounding only are not compared'])

COLOR, GAMUT = [0, 1, 4, 8, 24], ['srgb', 'p3', 'rec2020']
TYPES = ['all', 'screen', 'print', 'speech', 'unknown', 'projection']
UNITS = {'px': 1.0, 'in': 96.0, 'pt': 96 / 72, 'cm': 96 / 2.54,
         'mm': 96 / 25.4, 'pc': 16.0, 'em': 16.0}
LENGTHS = [0, 1, 99, 100, 101, 320, 600, 720, 800, 1280]

config = st.fixed_dictionaries({
    'media': st.sampled_from(['screen', 'screen', 'print', 'speech',
                              'projection']),
    'color': st.sampled_from(COLOR), 'mono': st.sampled_from([0, 0, 1, 2]),
    'gamut': st.sampled_from(GAMUT),
    'scan': st.sampled_from(['progressive', 'interlace']),
    'update': st.sampled_from(['none', 'slow', 'fast']),
    'width': st.sampled_from([100, 320, 720, 1280, 1600]),
    'height': st.sampled_from([100, 240, 720, 900]),
    'angle': st.sampled_from([0, 0, 90, 180, 270]),
    'dpr': st.sampled_from([1, 1.5, 2]), 'zoom': st.sampled_from([1, 1, 0.5]),
    'iw': st.sampled_from([0, 100, 101, 320, 600, 800, 1280]),
    'ih': st.sampled_from([0, 99, 100, 240, 600, 720]),
    'rw': st.sampled_from([None, None, None, '320', '50%', '100.5', '100.5']),
})

OPS = ['<', '<=', '>', '>=', '=']
length = st.one_of(
    st.tuples(st.sampled_from(LENGTHS), st.just('px')),
    st.tuples(st.sampled_from([1, 2, 10, 20.5, 40, 75]),
              st.sampled_from(list(UNITS)))).map(list)
integer = st.sampled_from([0, 1, 2, 4, 8, 16, 24, 256])
ratio = st.sampled_from([[1.5, 1], [2], [0.5], [1, 0], [0, 0], [0, 1],
                         [16, 9, 3], [16, -9], [1.78], [1, 0.5]]) \
    | st.tuples(st.integers(1, 20), st.integers(1, 20)).map(list) \
    | st.sampled_from([[16, 9], [1, 1], [4, 3], [80, 60], [2, 1], [8, 6]])
resolution = st.tuples(st.sampled_from([0.5, 1, 1.5, 2, 3, 96, 192, 75]),
                       st.sampled_from(['dppx', 'dpi', 'dpcm'])).map(list)
KINDS = {'width': length, 'height': length, 'device-width': length,
         'device-height': length, 'color': integer, 'color-index': integer,
         'monochrome': integer, 'aspect-ratio': ratio,
         'device-aspect-ratio': ratio, 'resolution': resolution}
DISCRETE = {'orientation': ['portrait', 'landscape'],
            'scan': ['progressive', 'interlace'],
            'update': ['none', 'slow', 'fast'], 'color-gamut': GAMUT,
            'overflow-block': ['none', 'scroll'], 'grid': ['0', '1']}

numeric = st.sampled_from(list(KINDS) + ['width', 'height', 'width']).flatmap(
    lambda n: st.one_of(
        st.tuples(st.just('plain'), st.just(n), st.sampled_from(
            ['', 'min-', 'max-', 'min-', 'max-']), KINDS[n]),
        st.tuples(st.just('range'), st.just(n), st.sampled_from(OPS),
                  KINDS[n]),
        st.tuples(st.just('flip'), st.just(n), st.sampled_from(OPS),
                  KINDS[n]),
        st.tuples(st.just('double'), st.just(n),
                  st.sampled_from([['<', '<'], ['<=', '<='], ['<', '<='],
                                   ['<=', '<'], ['>', '>='], ['>=', '>=']]),
                  st.tuples(KINDS[n], KINDS[n]))))
feature = st.one_of(
    numeric, numeric,
    st.sampled_from(list(DISCRETE)).flatmap(lambda n: st.tuples(
        st.just('discrete'), st.just(n), st.sampled_from(DISCRETE[n]))),
    st.tuples(st.just('boolean'), st.sampled_from(
        list(KINDS) + list(DISCRETE) + ['hover', 'unknown', 'screen'])),
    st.tuples(st.just('ordered'), st.sampled_from(
        [n for n in DISCRETE if n != 'grid']), st.sampled_from(['<', '>'])
              ).flatmap(lambda x: st.tuples(
                  *map(st.just, x), st.sampled_from(DISCRETE[x[1]]))),
    st.tuples(st.just('discrete'), st.sampled_from(
        ['unknown', 'min-orientation', 'max-scan']),
        st.sampled_from(['portrait', 'progressive', '1'])),
).map(lambda x: ['feature'] + list(x))


def conditions(inner):
    item = st.one_of(inner, inner.map(lambda c: ['paren', c]))
    return st.one_of(
        st.tuples(st.just('not'), item),
        st.tuples(st.sampled_from(['and', 'or']),
                  st.lists(item, min_size=2, max_size=3))).map(list)


leaf = st.one_of(feature, feature, feature)
block = st.recursive(
    leaf,
    lambda inner: conditions(inner).map(lambda c: ['paren', c]),
    max_leaves=5)
cond = st.one_of(
    block,
    st.tuples(st.just('not'), block).map(list),
    st.tuples(st.sampled_from(['and', 'or']),
              st.lists(block, min_size=2, max_size=3)).map(list))
cond_without_or = st.one_of(
    block,
    st.tuples(st.just('not'), block).map(list),
    st.tuples(st.just('and'),
              st.lists(block, min_size=2, max_size=3)).map(list))
query = st.one_of(
    cond, cond,
    st.tuples(st.just('type'), st.sampled_from([None, None, 'only', 'not']),
              st.sampled_from(TYPES),
              st.one_of(st.none(), cond_without_or)).map(list),
    st.just(['broken', '(color) and (width > 1px) or (height > 1px)']),
    st.just(['broken', 'screen and (color) or (width > 1px)']),
    st.just(['broken', 'or and (color)']))
spelling = st.fixed_dictionaries({
    'gap': st.sampled_from([' ', ' ', '  ', '\n', '\t ', ' /* x */ ']),
    'pad': st.sampled_from(['', '', ' ']),
    'op': st.sampled_from([' ', ' ', '']),
    'colon': st.sampled_from([': ', ':', ' : ']),
    'upper': st.booleans(), 'slash': st.sampled_from(['/', ' / ']),
})


def number(x):
    return '{:g}'.format(x)


class Speller:
    def __init__(self, how):
        self.how = how

    def value(self, name, value):
        if 'ratio' in name:
            return self.how['slash'].join(number(v) for v in value)
        if isinstance(value, (list, tuple)):
            return number(value[0]) + value[1]
        return str(value)

    def feature(self, item):
        kind, name = item[0], item[1]
        how = self.how
        op = how['op']
        if kind == 'boolean':
            text = name
        elif kind == 'plain':
            text = item[2] + name + how['colon'] + self.value(name, item[3])
        elif kind == 'discrete':
            text = name + how['colon'] + item[2]
        elif kind in ('range', 'ordered'):
            text = name + op + item[2] + op + self.value(name, item[3])
        elif kind == 'flip':
            text = self.value(name, item[3]) + op + item[2] + op + name
        else:
            text = (self.value(name, item[3][0]) + op + item[2][0] + op + name
                    + op + item[2][1] + op + self.value(name, item[3][1]))
        return '({0}{1}{0})'.format(how['pad'], text)

    def condition(self, item):
        gap = self.how['gap']
        kind = item[0]
        if kind == 'feature':
            return self.feature(item[1:])
        if kind == 'paren':
            return '({0}{1}{0})'.format(self.how['pad'],
                                        self.condition(item[1]))
        if kind == 'not':
            return 'not' + gap + self.condition(item[1])
        return (gap + kind + gap).join(self.condition(x) for x in item[1])

    def query(self, item):
        gap = self.how['gap']
        if item[0] == 'broken':
            text = item[1]
        elif item[0] == 'type':
            _, mod, name, condition = item
            text = (mod + gap if mod else '') + name
            if condition is not None:
                text += gap + 'and' + gap + self.condition(condition)
        else:
            text = self.condition(item)
        return text.upper() if self.how['upper'] else text


def ratio_of(value):
    """The value of a ratio; None when it has none."""
    terms = [Fraction(str(v)) for v in value]
    if len(terms) > 2 or any(t < 0 for t in terms):
        return None
    if len(terms) == 1:
        return terms[0]
    if terms[1] == 0:
        return math.inf if terms[0] else None
    return terms[0] / terms[1]


class Near(Exception):
    pass


class Reference:
    def __init__(self, c):
        self.c = c
        width = float(c['iw'])
        if c['rw'] is not None:
            width = (c['iw'] / 2 if c['rw'] == '50%' else float(c['rw']))
        self.quantity = {
            'width': width, 'height': float(c['ih']),
            'device-width': float(c['width']),
            'device-height': float(c['height']), 'color': c['color'],
            'color-index': 1 << c['color'], 'monochrome': c['mono'],
            'aspect-ratio': self.canonical('ratio', [width, c['ih']]),
            'device-aspect-ratio': Fraction(c['width'], c['height']),
            'resolution': c['dpr'] * c['zoom']}
        wide = (c['width'] > c['height']) == (c['angle'] in (0, 180))
        self.word = {
            'orientation': 'landscape' if wide else 'portrait',
            'scan': c['scan'], 'update': c['update'],
            'color-gamut': c['gamut'], 'overflow-block': 'none', 'grid': '0'}
        self.legacy = False

    def canonical(self, name, value):
        if 'ratio' in name:
            return ratio_of(value)
        if name == 'resolution':
            return value[0] * {'dppx': 1.0, 'dpi': 1 / 96,
                               'dpcm': 2.54 / 96}[value[1]]
        if isinstance(value, (list, tuple)):
            return value[0] * UNITS[value[1]]
        return value

    def compare(self, name, op, value, units):
        a, b = self.quantity[name], self.canonical(name, value)
        if a is None or b is None:
            return False
        if units and a != b and abs(a - b) < 1e-6 * max(1, abs(a)):
            raise Near
        if units and a == b and value[1] not in ('px', 'dppx', 'em', 'in',
                                                 'pc'):
            raise Near
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                '=': a == b}[op]

    def feature(self, item):
        kind, name = item[0], item[1]
        units = name in ('width', 'height', 'device-width', 'device-height',
                         'resolution')
        if kind == 'boolean':
            if name in self.quantity:
                return self.quantity[name] not in (0, None)
            if name in self.word:
                return self.word[name] not in ('none', '0')
            return False
        if kind == 'plain':
            op = {'': '=', 'min-': '>=', 'max-': '<='}[item[2]]
            return self.compare(name, op, item[3], units)
        if kind == 'ordered':  # there is no order
            return False
        if kind == 'discrete':
            return self.word.get(name) == item[2]
        turn = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '='}
        if kind == 'range':
            return self.compare(name, item[2], item[3], units)
        if kind == 'flip':
            return self.compare(name, turn[item[2]], item[3], units)
        return (self.compare(name, turn[item[2][0]], item[3][0], units)
                and self.compare(name, item[2][1], item[3][1], units))

    def condition(self, item):
        kind = item[0]
        if kind == 'feature':
            return self.feature(item[1:])
        if kind == 'paren':
            return self.condition(item[1])
        if kind == 'not':
            return not self.condition(item[1])
        results = [self.condition(x) for x in item[1]]
        return all(results) if kind == 'and' else any(results)

    def query(self, item):
        if item[0] == 'broken':
            return False
        if item[0] != 'type':
            return self.condition(item)
        _, mod, name, condition = item
        this = name == 'all' or name == self.c['media']
        rest = condition is None or self.condition(condition)
        if mod == 'not':
            if condition is not None and self.legacy:
                return not this and not rest
            return not (this and rest)
        return this and rest

    def all(self, queries):
        return any([self.query(q) for q in queries])


def apply(window, c):
    screen = window.screen
    screen.media = c['media']
    screen.color_depth = c['color']
    screen.monochrome = c['mono']
    screen.color_gamut = c['gamut']
    screen.scan = c['scan']
    screen.update = c['update']
    screen.width = c['width']
    screen.height = c['height']
    screen.orientation.angle = c['angle']
    screen.device_pixel_ratio = c['dpr']
    window.page_zoom_scale = c['zoom']
    window.inner_width = c['iw']
    window.inner_height = c['ih']
    root = window.document.document_element
    if c['rw'] is None:
        root.attrib.pop('width', None)
    else:
        root.set('width', c['rw'])


def features(item):
    if item is None or item[0] == 'broken':
        return []
    if item[0] == 'feature':
        return [item]
    if item[0] == 'type':
        return features(item[3])
    if item[0] in ('not', 'paren'):
        return features(item[1])
    return [f for x in item[1] for f in features(x)]


@REG.test(st.tuples(st.lists(query, min_size=1, max_size=3), spelling,
                    st.lists(config, min_size=1, max_size=4)),
          quick=4000, thorough=300000)
def evaluates(case):
    queries, how, configs = case
    window = Window(SVGDOMImplementation())
    speller = Speller(how)
    text = ', '.join(speller.query(q) for q in queries)
    mql = window.match_media(text)
    seen = set()
    skipped = False
    for c in configs:
        apply(window, c)
        reference = Reference(c)
        try:
            want = reference.all(queries)
            # the reading of "not type and ..." is a known finding
            reference.legacy = True
            if reference.all(queries) != want:
                skipped = True
                continue
        except Near:
            skipped = True
            continue
        got = mql.matches
        check(got == want, 'the query does not have its logical value',
              query=text, got=got, want=want, config=c)
        again = window.match_media(text).matches
        check(again == want, 'a new query list has another value',
              query=text, got=again, want=want, config=c)
        seen.add(want)
    count = [f for q in queries for f in features(q)]
    labels = []
    if len(count) > 1 or any(f[1] in ('range', 'flip', 'double')
                             for f in count):
        labels.append('compound')
    if len(seen) == 2:
        labels.append('changes')
    if skipped and not seen:
        return []
    return labels


@REG.test(st.tuples(config, st.lists(st.tuples(
    st.sampled_from(list(KINDS)), st.sampled_from(OPS),
    st.sampled_from(list(KINDS)), st.booleans()), min_size=1, max_size=6)),
    quick=1200, thorough=40000)
def single(case):
    """Each feature against the value of every feature of its kind."""
    c, todo = case
    window = Window(SVGDOMImplementation())
    apply(window, c)
    reference = Reference(c)
    labels = set()
    for name, op, other, double in todo:
        kind = {id(KINDS[name]): 1}
        if id(KINDS[other]) not in kind:
            other = name
        value = reference.quantity[other]
        if value is None:
            continue
        if name == 'resolution':
            value = [c['dpr'] if double else value, 'dppx']
        elif KINDS[name] is length:
            value = [value, 'px']
        elif KINDS[name] is ratio:
            value = Fraction(1, 1) if value == math.inf else Fraction(value)
            value = [value.numerator, value.denominator]
        want = reference.compare(name, op, value, False)
        text = ('{}/{}'.format(*value) if KINDS[name] is ratio else
                '{}{}'.format(*value) if isinstance(value, list)
                else str(value))
        text = '({} {} {})'.format(name, op, text)
        got = window.match_media(text).matches
        check(got == want, 'the feature does not have its value',
              query=text, got=got, want=want, config=c)
        if other != name or double:
            labels.add('other')
    return labels


@REG.probe('C05-not-type-and')
def not_type_and():
    window = Window(SVGDOMImplementation())
    window.screen.media = 'print'
    window.screen.color_depth = 24
    # neither the type nor so the query inside the negation matches
    return not window.match_media('not screen and (color)').matches
