"""L02: font-, root-, viewport-relative and percentage lengths in context."""
import math

from svgpy import SVGLength, SVGParser

from ..gens import decimals, st
from ..harness import Registry, check, fail

REG = Registry(
    'L02',
    'Chains of up to 7 nested svg, g and text elements with font sizes in '
    'every unit and keyword (as attributes or in the style attribute), line '
    'heights, font weights and viewports (sizes in absolute and relative '
    'units, optional viewBox); lengths in every relative unit and direction '
    'are resolved and converted at every element and compared with a model '
    'of the reference quantities. A case is non-trivial when a font size or '
    'viewport is resolved through at least two relative steps.',
    ['values within 1e-9 relative',
     'font-size values in vw units are not put on svg elements, and relative '
     'sizes of nested svg elements are not used inside a viewBox (the '
     'existing tests fix what happens there)'])

NS = 'http://www.w3.org/2000/svg'
ABS = {'': 1, 'px': 1, 'in': 96, 'cm': 96 / 2.54, 'mm': 9.6 / 2.54,
       'pt': 96 / 72, 'pc': 16, 'q': 2.4 / 2.54}
KEYWORDS = {'xx-small': 9, 'x-small': 10, 'small': 13, 'medium': 16,
            'large': 18, 'x-large': 24, 'xx-large': 32}
MINIMUM = 10
VP = ['vw', 'vh', 'vmin', 'vmax']

small = decimals(0.1, 4, 2)
fsize = st.one_of(
    st.none(),
    st.tuples(st.integers(8, 40), st.sampled_from(['', 'px'])).map(list),
    st.tuples(decimals(0.1, 2, 1), st.sampled_from(list(ABS))).map(list),
    st.tuples(small, st.sampled_from(['em', 'em', 'rem'])).map(list),
    st.tuples(st.integers(30, 300), st.just('%')).map(list),
    st.tuples(st.integers(1, 30), st.sampled_from(VP)).map(list),
    st.sampled_from(list(KEYWORDS)),
    st.sampled_from(['larger', 'smaller', 'inherit']))
dim = st.one_of(
    st.none(), st.just('auto'),
    st.tuples(st.integers(1, 900), st.just('')).map(list),
    st.tuples(decimals(0.5, 20, 1), st.sampled_from(list(ABS))).map(list),
    st.tuples(st.integers(1, 200),
              st.sampled_from(['%'] + VP)).map(list))
box = st.one_of(st.none(), st.tuples(
    st.integers(-50, 50), st.integers(-50, 50), st.integers(1, 500),
    st.integers(1, 500)).map(list))
weight = st.one_of(st.none(), st.sampled_from(
    ['normal', 'bold', '100', '300', '500', '900', 'inherit']))
lineh = st.one_of(
    st.none(), st.just('normal'),
    st.tuples(decimals(0.5, 3, 1), st.sampled_from(
        ['', 'px', 'pt'])).map(list),
    st.tuples(st.integers(50, 300), st.just('%')).map(list))
node = st.fixed_dictionaries({
    'k': st.sampled_from(['g', 'g', 'svg', 'text', 'a']),
    'fs': fsize, 'css': st.booleans(), 'w': dim, 'h': dim, 'x': dim,
    'y': dim, 'vb': box, 'fw': weight})
units = ['em', 'rem', '%', 'vw', 'vh', 'vmin', 'vmax'] + list(ABS)
length = st.tuples(
    st.one_of(st.integers(-20, 200), decimals(-10, 10, 2)),
    st.sampled_from(units), st.sampled_from([None, 0, 1, 2]),
    st.sampled_from(units + ['%'])).map(list)
doc = st.fixed_dictionaries({
    'c': st.lists(node, min_size=1, max_size=7),
    'win': st.one_of(st.none(), st.tuples(
        st.integers(100, 2000), st.integers(100, 2000)).map(list)),
    'lens': st.lists(length, min_size=1, max_size=4),
    'lh': lineh, 'noise': st.integers(0, 3)})


def num(v):
    return v if isinstance(v, str) else '{}{}'.format(
        repr(v[0]) if isinstance(v[0], float) else v[0], v[1])


class Model(object):
    def __init__(self, case):
        self.c = [dict(n) for n in case['c']]
        self.c[0]['k'] = 'svg'
        boxed = False
        for n in self.c:
            if n['k'] == 'svg':
                if isinstance(n['fs'], list) and n['fs'][1] in VP:
                    n['fs'] = None
                if boxed:
                    for key in 'whxy':
                        if not isinstance(n[key], list) or (
                                n[key][1] not in ABS):
                            n[key] = [50, ''] if key in 'wh' else None
                for key in 'xy':
                    if n[key] == 'auto':
                        n[key] = None
                boxed = boxed or n['vb'] is not None
        self.win = case['win'] or [1280, 720]
        self.steps = 0

    def fs(self, i):
        if i < 0:
            return 16
        v = self.c[i]['fs']
        if v is None or v == 'inherit':
            return self.fs(i - 1)
        parent = self.fs(i - 1)
        if isinstance(v, str):
            if v in KEYWORDS:
                r = KEYWORDS[v]
            else:
                r = parent * 1.2 if v == 'larger' else parent / 1.2
        elif v[1] == 'em':
            r = v[0] * parent
        elif v[1] == '%':
            r = v[0] * parent / 100
        elif v[1] == 'rem':
            r = v[0] * (16 if i == 0 else self.fs(0))
        elif v[1] in VP:
            r = v[0] * self.vp(i)[v[1]] / 100
        else:
            r = v[0] * ABS[v[1]]
        return max(r, MINIMUM)

    def nearest(self, i):
        while self.c[i]['k'] != 'svg':
            i -= 1
        return i

    def size(self, i):
        """The viewport size (and x, y) established by svg element i."""
        if i == 0:
            ref = self.win
        else:
            ref = self.size(self.nearest(i - 1))[2:]
        return [self.dim(i, self.c[i][key], ref, axis, default)
                for key, axis, default in (
                    ('x', 0, [0, '']), ('y', 1, [0, '']),
                    ('w', 0, [100, '%']), ('h', 1, [100, '%']))]

    def dim(self, i, v, ref, axis, default):
        if v is None or v == 'auto':
            v = default
        n, u = v
        if u == '%':
            return n * ref[axis] / 100
        if u in VP:
            return n / 100 * {'vw': ref[0], 'vh': ref[1], 'vmin': min(ref),
                              'vmax': max(ref)}[u]
        return n * ABS[u]

    def vp(self, i):
        j = self.nearest(i)
        if self.c[j]['vb'] is not None:
            w, h = self.c[j]['vb'][2:]
        else:
            w, h = self.size(j)[2:]
        return {'vw': w, 'vh': h, 'vmin': min(w, h), 'vmax': max(w, h),
                0: math.sqrt((w * w + h * h) / 2), 1: w, 2: h}

    def px1(self, i, unit, direction):
        """One unit in pixels."""
        if unit == 'em':
            return self.fs(i)
        if unit == 'rem':
            return self.fs(0)
        if unit == '%':
            return (self.fs(i) if direction is None
                    else self.vp(i)[direction]) / 100
        if unit in VP:
            return self.vp(i)[unit] / 100
        return ABS[unit]

    def weight(self, i):
        if i < 0:
            return 400
        v = self.c[i]['fw']
        if v is None or v == 'inherit':
            return self.weight(i - 1)
        return {'normal': 400, 'bold': 700}.get(v) or int(v)


def build(case, m):
    parser = SVGParser()
    document = parser.create_svg_document()
    root = document.document_element
    if case['win']:
        window = document.default_view
        window.inner_width, window.inner_height = case['win']
    else:
        document.default_view.inner_width = 1280
        document.default_view.inner_height = 720
    out = []
    el = root
    for i, n in enumerate(m.c):
        if i:
            for _ in range(case['noise'] % 2):
                el.append(parser.create_element_ns(NS, 'desc'))
            el = el.create_sub_element(n['k'])
        style = []
        if n['fs'] is not None:
            if n['css']:
                style.append('font-size: ' + num(n['fs']))
            else:
                el.set('font-size', num(n['fs']))
        if n['fw'] is not None:
            if n['css']:
                style.append('font-weight:' + n['fw'])
            else:
                el.set('font-weight', n['fw'])
        if style:
            el.set('style', '; '.join(style))
        if n['k'] == 'svg':
            for name, key in (('width', 'w'), ('height', 'h'), ('x', 'x'),
                              ('y', 'y')):
                if n[key] is not None and (i or key in 'wh'):
                    el.set(name, num(n[key]))
            if n['vb'] is not None:
                el.set('viewBox', ' '.join(str(v) for v in n['vb']))
            if i == 0:
                n['x'] = n['y'] = None
        out.append(el)
    return document, out


def near(got, want, what, **kw):
    if not abs(got - want) <= 1e-9 * max(1, abs(want)):
        fail(what, got=got, expected=want, **kw)


@REG.test(doc, quick=900, thorough=40000)
def resolve(case):
    m = Model(case)
    document, els = build(case, m)
    relative = viewports = 0
    for i, n in enumerate(m.c):
        fs = n['fs']
        if fs in ('larger', 'smaller') or (
                isinstance(fs, list) and fs[1] not in ABS):
            relative += 1
        if n['k'] == 'svg':
            viewports += 1
    for i, (n, el) in enumerate(zip(m.c, els)):
        style = el.get_computed_style()
        near(style['font-size'], m.fs(i), 'computed font-size', level=i)
        check(style['font-weight'] == m.weight(i), 'computed font-weight',
              got=style['font-weight'], expected=m.weight(i), level=i)
        j = m.nearest(i)
        got = [v.value() for v in el.get_viewport_size()]
        for k, (a, b) in enumerate(zip(got, m.size(j))):
            near(a, b, 'viewport ' + ['x', 'y', 'width', 'height'][k],
                 level=i)
        if i not in (len(els) - 1, case['noise']):
            continue
        for number, unit, direction, other in case['lens']:
            text = num([number, unit])
            obj = SVGLength(text, context=el)
            if direction is not None and case['noise'] == 1:
                obj = SVGLength(text, context=el, direction=direction)
                px = obj.value()
                again = obj.value(other or None)
            else:
                px = obj.value(direction=direction)
                again = obj.value(other or None, direction=direction)
            want = number * m.px1(i, unit, direction)
            near(px, want, 'value of the length', length=text,
                 direction=direction, level=i)
            if other == unit:
                want = number
            else:
                want /= m.px1(i, other, direction)
            near(again, want, 'value in ' + (other or 'pixels'),
                 length=text, direction=direction, level=i)
            conv = SVGLength(text, context=el, direction=direction)
            conv.convert(other or '')
            near(conv.value(other or None), want, 'converted length',
                 length=text, unit=other)
            near(conv.value(), number * m.px1(i, unit, direction),
                 'pixels of the converted length', length=text, unit=other)
    return ['relative fonts'] * (relative > 1) + ['nested'] * (viewports > 1)


@REG.test(doc, quick=300, thorough=12000)
def line_height(case):
    m = Model(case)
    document, els = build(case, m)
    i = len(els) - 1
    lh = case['lh']
    if lh is not None:
        els[i].set('line-height', num(lh))
    got = els[i].get_computed_style()['line-height']
    fs = m.fs(i)
    if lh is None or lh == 'normal':
        want = 1.2 * fs
    elif lh[1] == '%':
        want = lh[0] * fs / 100
    elif lh[1] == '':
        want = lh[0] * fs
    else:
        want = lh[0] * ABS[lh[1]]
    near(got, want, 'computed line-height', line_height=lh)
    return ['relative'] if isinstance(lh, list) and lh[1] in '%' else []


fonts = st.fixed_dictionaries({
    'fs': st.lists(st.one_of(st.none(), st.integers(10, 60)), min_size=2,
                   max_size=4),
    'u': st.sampled_from(['ex', 'ch', 'cap', 'ic']),
    'n': st.one_of(st.integers(-9, 9), decimals(-5, 5, 2)),
    'other': st.sampled_from(['em', 'rem', '%', 'px', 'in', 'vw']),
    'ctx': st.booleans()})


@REG.test(fonts, quick=300, thorough=8000)
def font_units(case):
    """ex, ch, cap and ic are multiples of a metric of the element's font."""
    from svgpy.core import Font
    if not case['ctx']:
        u = SVGLength('{}{}'.format(case['n'], case['u']))
        near(u.value(), case['n'] * 8, 'without a context')
        near(SVGLength('{}px'.format(case['n'])).value(case['u']),
             case['n'] / 8, 'to font units without a context')
        return []
    document = SVGParser().create_svg_document()
    el = document.document_element
    for i, fs in enumerate(case['fs']):
        if i:
            el = el.create_sub_element('g' if i < len(case['fs']) - 1
                                       else 'text')
        if fs is not None:
            el.set('font-size', str(fs))
    size = ([16] + [v for v in case['fs'] if v is not None])[-1]
    alone = SVGParser().create_svg_document().document_element
    alone = alone.create_sub_element('text')
    alone.set('font-size', str(size))
    font = Font(alone)
    metric = {'ex': font.x_height, 'ch': font.ch_advance,
              'cap': font.cap_height, 'ic': font.ic_advance}[case['u']]
    metric = metric or size
    check(0.3 * size <= metric <= 1.5 * size, 'implausible font metric',
          metric=metric, size=size)
    u = SVGLength('{}{}'.format(case['n'], case['u']), context=el)
    near(u.value(), case['n'] * metric, 'value', unit=case['u'])
    one = SVGLength('1' + case['other'], context=el).value()
    near(u.value(case['other']), case['n'] * metric / one, 'converted',
         unit=case['other'])
    return ['inherited'] if case['fs'][-1] is None else ['own']


@REG.probe('L02-to-font-units')
def to_font_units():
    el = SVGParser().create_svg_document().document_element
    el = el.create_sub_element('text')
    el.set('font-size', '30')
    one = SVGLength('1ex', context=el).value()
    return abs(SVGLength('60px', context=el).value('ex') * one - 60) > 1
