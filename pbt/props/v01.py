"""V01: viewBox, preserveAspectRatio and the CTM."""
import math

import numpy as np

from svgpy import SVGParser
from svgpy.base import SVGPreserveAspectRatio as PAR

from ..gens import decimals, st
from ..harness import Registry, check, fail
from .s01 import PX, coef, fmt, matrix_of, trans

REG = Registry(
    'V01',
    'Chains of up to 7 nested svg, symbol and g elements (explicit sizes in '
    'absolute units, optional viewBox and preserveAspectRatio, transforms on '
    'groups and shapes, zoom and pan on the outermost svg); the CTM and '
    'screen CTM of every element of the chain are compared with a numpy '
    'product. A case is non-trivial when a viewBox needs alignment or '
    'viewports are nested.',
    ['matrix components within 1e-9 of their accumulated magnitude',
     'no transform attribute on svg elements; viewBox sizes are positive'])

NS = 'http://www.w3.org/2000/svg'
X = ['xMin', 'xMid', 'xMax']
Y = ['YMin', 'YMid', 'YMax']

par = st.one_of(st.none(), st.just(['none', None]),
                st.tuples(st.tuples(st.sampled_from(X), st.sampled_from(Y))
                          .map(''.join),
                          st.sampled_from([None, 'meet', 'slice'])).map(list))
length = st.one_of(
    st.tuples(st.integers(1, 300), st.just('')).map(list),
    st.tuples(decimals(0.5, 50, 2), st.sampled_from(list(PX))).map(list))
offset = st.one_of(
    st.none(),
    st.tuples(st.integers(-60, 60), st.just('')).map(list),
    st.tuples(decimals(-20, 20, 2), st.sampled_from(list(PX))).map(list))
box = st.one_of(st.none(), st.tuples(
    st.one_of(st.integers(-50, 50), decimals(-9, 9, 1)),
    st.one_of(st.integers(-50, 50), decimals(-9, 9, 1)),
    st.one_of(st.integers(1, 400), decimals(0.5, 9, 1)),
    st.one_of(st.integers(1, 400), decimals(0.5, 9, 1))).map(list))
port = st.fixed_dictionaries({
    'k': st.sampled_from(['svg', 'svg', 'svg', 'symbol']),
    'x': offset, 'y': offset, 'w': length, 'h': length, 'vb': box,
    'par': par, 'sep': st.integers(0, 4)})
moves = st.lists(trans.filter(lambda t: t is not None), max_size=3)
g = st.fixed_dictionaries({'k': st.sampled_from(['g', 'g', 'a']),
                           't': moves})
chain = st.fixed_dictionaries({
    'root': port, 'c': st.lists(st.one_of(g, g, port), max_size=6),
    'leaf': moves,
    'scale': st.one_of(st.just(1), decimals(0.1, 4, 2)),
    'pan': st.one_of(st.just([0, 0]),
                     st.tuples(st.integers(-50, 50),
                               st.integers(-50, 50)).map(list)),
    'doc': st.booleans(), 'noise': st.integers(0, 3)})

SEPS = [' ', ',', ', ', '  ', ' , ']


def px(v):
    return 0.0 if v is None else v[0] * PX[v[1]]


def mapping(p, is_root):
    x, y = (0.0, 0.0) if is_root else (px(p['x']), px(p['y']))
    w, h = px(p['w']), px(p['h'])
    if p['vb'] is None:
        return np.array([[1, 0, x], [0, 1, y], [0, 0, 1.]]), False
    vx, vy, vw, vh = p['vb']
    sx, sy = w / vw, h / vh
    align, mos = p['par'] or ['xMidYMid', 'meet']
    bars = abs(sx - sy) > 1e-9
    if align != 'none':
        sx = sy = (max if mos == 'slice' else min)(sx, sy)
        fx = X.index(align[:4]) / 2
        fy = Y.index(align[4:]) / 2
    else:
        fx = fy = 0
    tx = x - vx * sx + fx * (w - vw * sx)
    ty = y - vy * sy + fy * (h - vh * sy)
    return np.array([[sx, 0, tx], [0, sy, ty], [0, 0, 1.]]), bars


def par_text(p, sep=0):
    align, mos = p
    return align if mos is None else align + ' ' * (1 + sep % 2) + mos


def product(ts):
    m = np.eye(3)
    for t in ts:
        m = m @ matrix_of(t)
    return m


def text_of(ts):
    return ' '.join('{}({})'.format(t[0], ','.join(fmt(v) for v in t[1:]))
                    for t in ts)


def fill(el, node, is_root):
    if node['k'] not in ('svg', 'symbol'):
        if node['t']:
            el.set('transform', text_of(node['t']))
        return
    for name, key in (('width', 'w'), ('height', 'h'), ('x', 'x'),
                      ('y', 'y')):
        v = node[key]
        if v is not None and not (is_root and name in 'xy'):
            el.set(name, fmt(v[0]) + v[1])
    if node['vb'] is not None:
        text = SEPS[node['sep']].join(fmt(v) for v in node['vb'])
        el.set('viewBox', ' ' + text if node['sep'] == 3 else text)
    if node['par'] is not None:
        el.set('preserveAspectRatio', par_text(node['par'], node['sep']))


def compare(got, want, scale, what):
    g = np.array([[got.a, got.c, got.e], [got.b, got.d, got.f], [0, 0, 1]],
                 dtype=float)
    if not np.all(np.abs(g - want) <= 1e-9 * scale):
        fail(what, got=g[:2].tolist(), expected=want[:2].tolist())


@REG.test(chain, quick=8000, thorough=250000)
def ctm(case):
    parser = SVGParser()
    if case['doc']:
        root = parser.create_svg_document().document_element
    else:
        root = parser.create_element_ns(NS, 'svg')
    nodes = [dict(case['root'], k='svg')] + case['c']
    nodes.append({'k': 'rect', 't': case['leaf']})
    els = [root]
    fill(root, nodes[0], True)
    for i, node in enumerate(nodes[1:]):
        el = parser.create_element_ns(NS, node['k'])
        if case['noise'] > i:
            other = parser.create_element_ns(NS, 'g')
            other.set('transform', 'scale(3)')
            els[-1].append(other)
        els[-1].append(el)
        els.append(el)
        fill(el, node, False)
    root.current_scale = case['scale']
    root.current_translate = tuple(case['pan'])
    for node, el in zip(nodes[1:], els[1:]):
        if node['k'] == 'svg':
            # only the outermost svg is zoomed and panned
            el.current_scale = 7
            el.current_translate = (7, 8)
            check(el.current_scale == 1
                  and tuple(el.current_translate) == (0, 0),
                  'zoom of a nested svg')
    check(root.current_scale == case['scale']
          and tuple(root.current_translate) == tuple(case['pan']),
          'zoom of the outermost svg')
    s, (tx, ty) = case['scale'], case['pan']
    total = np.array([[s, 0, tx], [0, s, ty], [0, 0, 1.]])
    scale = 1 + np.abs(total).max()
    ports = []  # indices of viewports
    since = [np.eye(3)]  # the product since each of the last viewports
    last = np.eye(3)  # from just inside the outer viewport
    labels = set()
    for i, (node, el) in enumerate(zip(nodes, els)):
        check(el.get_farthest_viewport_element() is root
              and el.get_farthest_svg_element() is root, 'outermost svg')
        if node['k'] in ('svg', 'symbol'):
            m, bars = mapping(node, i == 0)
            if bars:
                labels.add('aligned')
            if i:
                labels.add('nested')
            total = total @ m
            scale = max(scale, 1) * (1 + np.abs(m).max())
            # a nested viewport's own CTM goes up to the one around it
            compare(el.get_ctm(), last @ m, scale,
                    'CTM of {} {}'.format(node['k'], i))
            ports.append(el)
            last = m
            w, h = px(node['w']), px(node['h'])
            x = 0 if i == 0 else px(node['x'])
            y = 0 if i == 0 else px(node['y'])
            got = [float(v.value()) for v in el.get_viewport_size()]
            check(np.allclose(got, [x, y, w, h], rtol=1e-9, atol=1e-9),
                  'viewport size', got=got, expected=[x, y, w, h])
            vb = el.view_box
            check((vb is None) == (node['vb'] is None) and (
                vb is None or [float(v.value()) for v in vb]
                == [float(v) for v in node['vb']]), 'viewBox')
        else:
            m = product(node['t'])
            total = total @ m
            last = last @ m
            scale = max(scale, 1) * (1 + np.abs(m).max())
            compare(el.get_ctm(), last, scale, 'CTM of {} {}'.format(
                node['k'], i))
        compare(el.get_screen_ctm(), total, scale,
                'screen CTM of {} {}'.format(node['k'], i))
        svgs = [e for n, e in zip(nodes[:i], els[:i]) if n['k'] == 'svg']
        if node['k'] not in ('svg', 'symbol'):
            check(el.viewport_element is ports[-1], 'viewport element')
            check(el.owner_svg_element is svgs[-1], 'owner svg element')
            near = el.get_view_box()
            want = [n for n in nodes[:i] if n.get('vb')]
            check((near is None) == (not want), 'nearest viewBox')
            if want:
                check([float(v.value()) for v in near[:4]]
                      == [float(v) for v in want[-1]['vb']],
                      'nearest viewBox', expected=want[-1]['vb'])
                owner = els[max(j for j, n in enumerate(nodes[:i])
                                if n.get('vb'))]
                check(near[4] == owner.preserve_aspect_ratio,
                      'alignment that goes with the viewBox',
                      got=near[4].tostring(),
                      expected=owner.preserve_aspect_ratio.tostring())
    return sorted(labels)


align_names = ['none'] + [x + y for y in Y for x in X]
MOS = {None: 1, 'meet': 1, 'slice': 2}


@REG.test(st.fixed_dictionaries({
    'a': st.integers(0, 9), 'm': st.sampled_from([None, 'meet', 'slice']),
    'b': st.integers(0, 9), 'n': st.sampled_from(['meet', 'slice']),
    'pad': st.sampled_from(['', ' ', '\n', '  ']),
    'sep': st.sampled_from([' ', '  ', '\t', '\n'])}),
    quick=1500, thorough=6000)
def preserve_aspect_ratio(case):
    name = align_names[case['a']]
    text = name if case['m'] is None else name + case['sep'] + case['m']
    p = PAR(case['pad'] + text + case['pad'])
    check(p.align == case['a'] + 1, 'alignment', text=text, got=p.align)
    mos = MOS[case['m']]
    check(p.meet_or_slice == mos, 'meet or slice', got=p.meet_or_slice)
    again = PAR(p.tostring())
    check(again.align == p.align, 'alignment after writing')
    if name != 'none':
        check(again.meet_or_slice == mos, 'meet or slice after writing')
        check(again == p, 'equal after writing')
    if name != 'xMinYMid':
        want = name if name == 'none' else name + ' ' + (case['m'] or 'meet')
        check(p.tostring() == want, 'text', got=p.tostring())
    p.align = case['b'] + 1
    p.meet_or_slice = MOS[case['n']]
    q = PAR(p.tostring())
    check(q.align == case['b'] + 1, 'assigned alignment')
    if case['b']:
        check(q.meet_or_slice == MOS[case['n']], 'assigned meet or slice')
    check((PAR(text) == PAR(align_names[case['b']] + ' ' + case['n']))
          == (case['a'] == case['b'] and mos == MOS[case['n']]), 'equality')
    return ['slice'] if case['m'] == 'slice' else []


@REG.probe('V01-xminymid-spelling')
def xminymid():
    return PAR('xMinYMid slice').tostring() != 'xMinYMid slice'
