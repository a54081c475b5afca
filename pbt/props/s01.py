"""S01: basic shapes and their closed forms."""
import math

import numpy as np
from scipy.special import ellipe

from svgpy import DOMMatrix, PathParser, SVGParser
from svgpy.base import SVGPathDataSettings

from ..gens import decimals, st
from ..harness import Registry, check, fail
from ..pathmodel import evaluate, from_segments

REG = Registry(
    'S01',
    'Documents with one viewport (explicit size, optional viewBox) and shapes '
    'with omitted, number, absolute-unit, percentage and auto attributes, '
    'nested groups, use elements, transforms and display=none, compared with '
    'closed-form outlines. A case is non-trivial when an attribute is a '
    'percentage or auto, or a transform or group is involved.',
    ['points within 1e-9, boxes within 1e-3 of the radii (arcs drawn as '
     'cubics), lengths within 2e-3 relative'])

NS = 'http://www.w3.org/2000/svg'
PX = {'': 1, 'px': 1, 'in': 96, 'cm': 96 / 2.54, 'mm': 96 / 25.4,
      'q': 96 / 101.6, 'pt': 96 / 72, 'pc': 16}

plain = st.one_of(st.integers(0, 40), decimals(0, 200, 2))
signed = st.one_of(st.integers(-40, 40), decimals(-200, 200, 2))


def lengths(num, percent, extra=()):
    opts = [
        st.tuples(num, st.just('')).map(list),
        st.tuples(num, st.sampled_from(list(PX))).map(list),
        st.tuples(percent, st.just('%')).map(list),
        st.tuples(percent, st.just('%')).map(list),
        st.just(None),
    ] + [st.just(x) for x in extra]
    return st.one_of(*opts)


pos = lengths(signed, decimals(-50, 150, 1))
size = lengths(plain, decimals(0, 120, 1))
small = lengths(st.one_of(st.integers(0, 30), decimals(0, 60, 2)),
                decimals(0, 30, 1), ('auto',))
negative = st.one_of(st.tuples(st.integers(-9, -1), st.just('')).map(list))
points = st.lists(st.tuples(signed, signed).map(list), max_size=6)

shape = st.one_of(
    st.fixed_dictionaries({
        'k': st.just('rect'), 'x': pos, 'y': pos,
        'width': st.one_of(size, size, size, size, st.just('auto'), negative,
                           st.just('inherit')),
        'height': st.one_of(size, size, size, size, st.just('auto'), negative),
        'rx': small, 'ry': small}),
    st.fixed_dictionaries({
        'k': st.just('circle'), 'cx': pos, 'cy': pos,
        'r': st.one_of(size, size, size, negative)}),
    st.fixed_dictionaries({
        'k': st.just('ellipse'), 'cx': pos, 'cy': pos,
        'rx': st.one_of(small, small, small, negative),
        'ry': small}),
    st.fixed_dictionaries({
        'k': st.just('line'), 'x1': pos, 'y1': pos, 'x2': pos, 'y2': pos}),
    st.fixed_dictionaries({
        'k': st.sampled_from(['polyline', 'polygon']), 'points': points,
        'style': st.integers(0, 3), 'odd': st.integers(0, 7)}),
)
coef = decimals(-2, 2, 1)
trans = st.one_of(
    st.none(), st.none(),
    st.tuples(st.just('translate'), st.integers(-30, 30),
              st.integers(-30, 30)).map(list),
    st.tuples(st.just('scale'), coef, coef).map(list),
    st.tuples(st.just('rotate'), st.integers(-180, 180)).map(list),
    st.tuples(st.just('skewX'), st.integers(-60, 60)).map(list),
    st.tuples(st.just('matrix'), coef, coef, coef, coef,
              st.integers(-9, 9), st.integers(-9, 9)).map(list),
)
view = st.fixed_dictionaries({
    'w': st.integers(1, 500), 'h': st.integers(1, 500),
    'vb': st.one_of(st.none(), st.tuples(
        st.integers(-20, 20), st.integers(-20, 20), st.integers(1, 400),
        st.integers(1, 400)).map(list)),
})


def fmt(v):
    return repr(v)


def attr(v):
    return v if isinstance(v, str) else fmt(v[0]) + v[1]


def make(parent, s):
    el = parent.owner_document.create_element_ns(NS, s['k'])
    parent.append(el)
    for name, v in s.items():
        if name in ('k', 't', 'style', 'odd', 'hide') or v is None:
            continue
        if name == 'points':
            pairs = s['points']
            sep, psep = [(',', ' '), (' ', ' '), (' , ', ', '),
                         (',', ' \n')][s['style']]
            text = psep.join(fmt(x) + sep + fmt(y) for x, y in pairs)
            if s['odd'] == 0 and pairs:
                text += ' 7'
            el.set('points', text)
        else:
            el.set(name, attr(v))
    set_transform(el, s.get('t'))
    return el


def set_transform(el, t):
    if t is not None:
        el.set('transform', '{}({})'.format(
            t[0], ','.join(fmt(x) for x in t[1:])))


def matrix_of(t):
    if t is None:
        return np.eye(3)
    k, v = t[0], t[1:]
    if k == 'translate':
        return np.array([[1, 0, v[0]], [0, 1, v[1]], [0, 0, 1.]])
    if k == 'scale':
        return np.diag([v[0], v[1], 1.])
    if k == 'rotate':
        a = math.radians(v[0])
        return np.array([[math.cos(a), -math.sin(a), 0],
                         [math.sin(a), math.cos(a), 0], [0, 0, 1.]])
    if k == 'skewX':
        return np.array([[1, math.tan(math.radians(v[0])), 0], [0, 1, 0],
                         [0, 0, 1.]])
    return np.array([[v[0], v[2], v[4]], [v[1], v[3], v[5]], [0, 0, 1.]])


class Outline(object):
    """Line ends (`pts`, absolute) and ellipses (`ell`: cx, cy, rx, ry)."""

    def __init__(self, pts=(), ell=(), length=0.0, corners=None):
        self.pts = list(pts)
        self.ell = list(ell)
        self.length = length

    def box(self, m):
        xs, ys = [], []
        for x, y in self.pts:
            p = m @ [x, y, 1]
            xs.append(p[0])
            ys.append(p[1])
        for cx, cy, rx, ry in self.ell:
            p = m @ [cx, cy, 1]
            w = math.hypot(m[0, 0] * rx, m[0, 1] * ry)
            h = math.hypot(m[1, 0] * rx, m[1, 1] * ry)
            xs += [p[0] - w, p[0] + w]
            ys += [p[1] - h, p[1] + h]
        if not xs:
            return None
        return min(xs), min(ys), max(xs), max(ys)

    def slack(self, m):
        r = max([0] + [max(e[2:]) for e in self.ell])
        return 1e-3 * r * max(1, np.abs(m[:2, :2]).sum())


def ellipse_length(rx, ry):
    a, b = max(rx, ry), min(rx, ry)
    if a == 0:
        return 0
    return 4 * a * float(ellipe(1 - (b / a) ** 2))


class Context(object):
    def __init__(self, v):
        self.size = v['w'], v['h']
        self.pw, self.ph = v['vb'][2:] if v['vb'] else (v['w'], v['h'])
        self.pd = math.sqrt((self.pw ** 2 + self.ph ** 2) / 2)

    def px(self, v, axis, default=0.0):
        if v is None:
            return default
        n, u = v
        if u == '%':
            return n / 100 * {'x': self.pw, 'y': self.ph, 'd': self.pd}[axis]
        return n * PX[u]


def model(s, c, parent_is_root):
    """The computed geometry and the outline."""
    k = s['k']
    if k == 'line':
        g = {'x1': c.px(s['x1'], 'x'), 'y1': c.px(s['y1'], 'y'),
             'x2': c.px(s['x2'], 'x'), 'y2': c.px(s['y2'], 'y')}
        a, b = (g['x1'], g['y1']), (g['x2'], g['y2'])
        length = math.dist(a, b)
        if length == 0:
            return g, Outline()
        return g, Outline([a, b], length=length)
    if k in ('polyline', 'polygon'):
        pts = [tuple(map(float, p)) for p in s['points']]
        if s['odd'] == 0 and pts:
            pts = []
        g = {'points': list(pts)}
        length = sum(math.dist(a, b) for a, b in zip(pts, pts[1:]))
        if k == 'polygon' and pts:
            length += math.dist(pts[-1], pts[0])
        return g, Outline(pts, length=length)
    if k == 'circle':
        g = {'cx': c.px(s['cx'], 'x'), 'cy': c.px(s['cy'], 'y'),
             'r': c.px(s['r'], 'd')}
        r = g['r']
        if r <= 0:
            return g, Outline()
        return g, Outline(ell=[(g['cx'], g['cy'], r, r)],
                          length=2 * math.pi * r)
    rx, ry = s['rx'], s['ry']
    rx = None if rx in (None, 'auto') else c.px(rx, 'x')
    ry = None if ry in (None, 'auto') else c.px(ry, 'y')
    if rx is None and ry is None:
        rx = ry = 0.0
    elif rx is None:
        rx = ry
    elif ry is None:
        ry = rx
    if k == 'ellipse':
        g = {'cx': c.px(s['cx'], 'x'), 'cy': c.px(s['cy'], 'y'),
             'rx': rx, 'ry': ry}
        if rx <= 0 or ry <= 0:
            return g, Outline()
        return g, Outline(ell=[(g['cx'], g['cy'], rx, ry)],
                          length=ellipse_length(rx, ry))
    w, h = s['width'], s['height']
    if w == 'inherit':
        w = c.size[0] if parent_is_root else 0.0
    else:
        w = 0.0 if w == 'auto' else c.px(w, 'x')
    h = 0.0 if h == 'auto' else c.px(h, 'y')
    g = {'x': c.px(s['x'], 'x'), 'y': c.px(s['y'], 'y'), 'width': w,
         'height': h}
    if w <= 0 or h <= 0:
        return g, Outline()
    g['rx'], g['ry'] = rx, ry = min(rx, w / 2), min(ry, h / 2)
    x, y = g['x'], g['y']
    if rx <= 0 or ry <= 0:
        return g, Outline([(x, y), (x + w, y), (x + w, y + h), (x, y + h)],
                          length=2 * (w + h))
    cs = [(x + rx, y + ry), (x + w - rx, y + ry), (x + rx, y + h - ry),
          (x + w - rx, y + h - ry)]
    return g, Outline(ell=[(a, b, rx, ry) for a, b in cs],
                      length=2 * (w - 2 * rx + h - 2 * ry)
                      + ellipse_length(rx, ry))


def on_outline(s, g, outline, p, tol):
    """Whether the point lies on the untransformed outline."""
    x, y = p
    if s['k'] in ('circle', 'ellipse'):
        cx, cy, rx, ry = outline.ell[0]
        return abs(math.hypot((x - cx) / rx, (y - cy) / ry) - 1) < 1e-6
    if s['k'] == 'rect':
        x0, y0, w, h = g['x'], g['y'], g['width'], g['height']
        rx, ry = g['rx'], g['ry']
        if rx <= 0 or ry <= 0:
            rx = ry = 0
        inx = x0 + rx - tol <= x <= x0 + w - rx + tol
        iny = y0 + ry - tol <= y <= y0 + h - ry + tol
        if inx and min(abs(y - y0), abs(y - y0 - h)) <= tol:
            return True
        if iny and min(abs(x - x0), abs(x - x0 - w)) <= tol:
            return True
        for cx, cy, rx, ry in outline.ell:
            if (abs(math.hypot((x - cx) / rx, (y - cy) / ry) - 1) < 1e-6
                    and (x - cx) * (cx - x0 - w / 2) >= -tol * w
                    and (y - cy) * (cy - y0 - h / 2) >= -tol * h):
                return True
        return False
    pts = outline.pts
    if s['k'] == 'polygon':
        pts = pts + pts[:1]
    for (ax, ay), (bx, by) in zip(pts, pts[1:]):
        d = math.hypot(bx - ax, by - ay)
        if abs(math.hypot(x - ax, y - ay) + math.hypot(x - bx, y - by)
               - d) <= tol:
            return True
    return False


def build(v):
    doc = SVGParser().create_svg_document()
    root = doc.document_element
    root.set('width', str(v['w']))
    root.set('height', str(v['h']))
    if v['vb']:
        root.set('viewBox', ' '.join(map(str, v['vb'])))
    return doc, root


def rect_of(r):
    return float(r.x), float(r.y), float(r.x + r.width), float(r.y + r.height)


def compare_box(rect, want, tol, what):
    if want is None:
        check(rect.width == 0 and rect.height == 0, what + ': empty box',
              got=repr(rect))
        return
    got = rect_of(rect)
    if any(abs(a - b) > tol for a, b in zip(got, want)):
        fail(what, got=got, expected=want)


def scale_of(*boxes):
    return max([1.0] + [abs(v) for b in boxes if b for v in b])


@REG.test(st.fixed_dictionaries({'v': view, 's': shape, 't': trans}),
          quick=2800, thorough=120000)
def outlines(case):
    v, s = case['v'], dict(case['s'], t=case['t'])
    doc, root = build(v)
    el = make(root, s)
    c = Context(v)
    g, outline = model(s, c, True)
    got = el.get_computed_geometry()
    for name, value in g.items():
        if name == 'points':
            check([tuple(map(float, p)) for p in got[name]] == value,
                  'points', got=got[name], expected=value)
        elif abs(float(got[name]) - value) > 1e-9 * max(1, abs(value)):
            fail('computed ' + name, got=got[name], expected=value)
    path = from_segments(el.get_path_data())
    empty = outline.box(np.eye(3)) is None
    check((len(path) == 0) == empty, 'whether the shape draws anything',
          got=path)
    near_zero = s['k'] == 'line' and 0 < outline.length < 1e-6
    if near_zero:
        return []
    m = matrix_of(case['t'])
    if not empty:
        scale = scale_of(outline.box(np.eye(3)))
        pieces = [p for _, _, p in evaluate(path) if p is not None]
        for p in pieces:
            for q in p.sample(8):
                check(on_outline(s, g, outline, q, 1e-6 * scale),
                      'a point of the path data is not on the outline',
                      point=list(map(float, q)), path=path)
        total = sum(float(np.hypot(*np.diff(p.sample(200), axis=0).T).sum())
                    for p in pieces)
        if abs(total - outline.length) > 2e-3 * outline.length + 1e-9:
            fail('the path data does not cover the outline', got=total,
                 expected=outline.length, path=path)
        length = el.get_total_length()
        if abs(length - outline.length) > 2e-3 * outline.length + 1e-9:
            fail('total length', got=length, expected=outline.length)
        settings = SVGPathDataSettings()
        settings.normalize = True
        normal = el.get_path_data(settings)
        check(all(x.type in 'MLCZ' for x in normal), 'normalised commands')
        moved = from_segments(el.get_transformed_path_data())
        a = [p.sample(8) for p in pieces]
        b = [p.sample(8) for _, _, p in evaluate(moved) if p is not None]
        if case['t'] is None or abs(np.linalg.det(m)) > 1e-2:
            want = [(np.c_[p, np.ones(len(p))] @ m.T)[:, :2] for p in a]
            check(len(want) == len(b), 'pieces of the transformed path')
            far = max(float(np.abs(p - q).max()) for p, q in zip(want, b)) \
                if want else 0
            # the sample points of an arc move along it when transformed
            if s['k'] in ('line', 'polyline', 'polygon'):
                check(far <= 1e-6 * scale * max(1, np.abs(m).max()),
                      'transformed path data', far=far)
    else:
        check(el.get_total_length() == 0, 'length of nothing')
    box = el.get_bbox()
    tol = outline.slack(m) + 1e-6 * scale_of(outline.box(m))
    compare_box(box, outline.box(m), tol, 'bounding box')
    labels = []
    if case['t'] is not None:
        labels.append('transform')
    if any(isinstance(x, list) and len(x) == 2 and x[1] == '%'
           for x in s.values()):
        labels.append('percentage')
    if any(x == 'auto' for x in s.values()) or (
            s['k'] in ('rect', 'ellipse')
            and (s['rx'] is None) != (s['ry'] is None)):
        labels.append('auto')
    return labels


leaf = st.tuples(shape, trans, st.sampled_from([0, 0, 0, 0, 1])).map(
    lambda x: dict(x[0], t=x[1], hide=x[2]))
group = st.recursive(
    leaf,
    lambda kids: st.fixed_dictionaries({
        'k': st.sampled_from(['g', 'g', 'g', 'g', 'defs', 'symbol', 'a',
                              'marker', 'pattern', 'view']),
        't': trans, 'hide': st.sampled_from([0, 0, 0, 0, 1]),
        'c': st.lists(kids, min_size=0, max_size=4)}),
    max_leaves=8)


NEVER = ('defs', 'symbol', 'marker', 'pattern', 'view')  # not rendered


def union(a, b):
    if a is None or b is None:
        return a or b
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]),
            max(a[3], b[3]))


def build_tree(parent, node, count):
    if 'c' not in node:
        el = make(parent, node)
    else:
        el = parent.owner_document.create_element_ns(NS, node['k'])
        parent.append(el)
        set_transform(el, node['t'])
        for child in node['c']:
            build_tree(el, child, count)
    if node['hide']:
        el.set('display', 'none')
    count.append(el)
    return el


def box_image(box, m):
    if box is None:
        return None
    x0, y0, x1, y1 = box
    p = np.array([[x, y, 1] for x in (x0, x1) for y in (y0, y1)]) @ m.T
    return tuple(map(float, (p[:, 0].min(), p[:, 1].min(), p[:, 0].max(),
                             p[:, 1].max())))


def tree_box(node, c, depth, notes, parent_is_root=False):
    """The box and a tolerance."""
    m = matrix_of(node['t'])
    if 'c' not in node:
        _, outline = model(node, c, parent_is_root)
        box = outline.box(m)
        return box, outline.slack(m) + 1e-6 * scale_of(box)
    if node['k'] in NEVER:
        return None, 0
    box, tol = None, 0
    for child in node['c']:
        if child['hide']:
            continue
        b, t = tree_box(child, c, depth + 1, notes)
        box = union(box, b)
        tol += t
    if depth > 0:
        box = box_image(box, m)
        tol *= max(1, np.abs(m[:2, :2]).sum())
        notes['nested'] = True
    return box, tol


@REG.test(st.fixed_dictionaries({
    'v': view, 't': trans, 'c': st.lists(group, min_size=1, max_size=4)}),
    quick=2400, thorough=60000)
def groups(case):
    v = case['v']
    doc, root = build(v)
    node = {'k': 'g', 't': case['t'], 'c': case['c'], 'hide': 0}
    g = build_tree(root, node, [])
    notes = {}
    want, tol = tree_box(node, Context(v), 0, notes)
    before = root.tostring()
    compare_box(g.get_bbox(), want, tol + 1e-6, 'bounding box of the group')
    check(root.tostring() == before, 'measuring changed the document')
    return ['nested'] if notes.get('nested') else []


def points_of(data):
    return [(seg.type, [float(x) for x in seg.values]) for seg in data]


def drawn(el, node, m, out):
    """The outline of a tree, in the user space of its parent."""
    m = m @ matrix_of(node['t'])
    if 'c' not in node:
        settings = SVGPathDataSettings()
        settings.normalize = True
        for type_, values in points_of(el.get_path_data(settings)):
            p = np.array(values).reshape(-1, 2)
            p = np.c_[p, np.ones(len(p))] @ m.T
            out.append((type_, list(p[:, :2].flatten())))
    elif node['k'] not in NEVER:
        for child, sub in zip(el, node['c']):
            drawn(child, sub, m, out)


@REG.test(st.fixed_dictionaries({
    'v': view, 't': trans, 'c': st.lists(group, min_size=1, max_size=4),
    'k': st.sampled_from(['g', 'a', 'g', 'defs'])}),
    quick=700, thorough=40000)
def group_outlines(case):
    doc, root = build(case['v'])
    node = {'k': case['k'], 't': case['t'], 'c': case['c'], 'hide': 0}
    g = build_tree(root, node, [])
    settings = SVGPathDataSettings()
    settings.normalize = True
    for whole in (True, False):
        want = []
        drawn(g, node if whole else dict(node, t=None), np.eye(3), want)
        got = points_of(g.get_transformed_path_data(settings) if whole
                        else g.get_path_data(settings))
        check([t for t, _ in got] == [t for t, _ in want],
              'segments of the group', got=[t for t, _ in got])
        for (_, a), (t, b) in zip(got, want):
            size = max([1.0] + [abs(v) for v in b])
            check(len(a) == len(b) and np.allclose(
                a, b, rtol=1e-6, atol=1e-6 * max(size, 100)),
                'outline of the group', segment=t, got=a, want=b)
    return ['nested'] if any('c' in c for c in case['c']) else []


@REG.test(st.fixed_dictionaries({
    'v': view, 's': shape, 'ts': trans, 'tg': trans, 'tu': trans, 'x': pos,
    'y': pos, 'grouped': st.sampled_from([None, 'g', 'a']), 'xlink': st.booleans()}),
    quick=3200, thorough=60000)
def instances(case):
    v = case['v']
    doc, root = build(v)
    defs = doc.create_element_ns(NS, 'defs')
    root.append(defs)
    parent = defs
    c = Context(v)
    s = dict(case['s'], t=case['ts'])
    if case['grouped']:
        parent = doc.create_element_ns(NS, case['grouped'])
        parent.set('id', 'target')
        set_transform(parent, case['tg'])
        defs.append(parent)
        make(parent, s)
    else:
        make(parent, s).set('id', 'target')
    use = doc.create_element_ns(NS, 'use')
    root.append(use)
    if case['xlink']:
        use.set_attribute_ns('http://www.w3.org/1999/xlink', 'xlink:href',
                             '#target')
    else:
        use.set('href', '#target')
    if case['x'] is not None:
        use.set('x', attr(case['x']))
    if case['y'] is not None:
        use.set('y', attr(case['y']))
    set_transform(use, case['tu'])
    _, outline = model(s, c, False)
    if s['k'] == 'line' and 0 < outline.length < 1e-6:
        return []
    m = matrix_of(case['tu']) @ matrix_of(
        ['translate', c.px(case['x'], 'x'), c.px(case['y'], 'y')])
    if case['grouped']:
        m = m @ matrix_of(case['tg'])
    m = m @ matrix_of(case['ts'])
    want = outline.box(m)
    tol = outline.slack(m) * 3 + 1e-6 * scale_of(
        want, outline.box(matrix_of(case['ts']))) * 10
    compare_box(use.get_bbox(), want, tol, 'bounding box of the use element')
    return ['transformed'] if case['tu'] and (
        case['ts'] or case['x'] or case['y']) else []


node = st.one_of(
    st.tuples(st.just('line'), st.integers(-9, 9)).map(list),
    st.tuples(st.just('use'), st.integers(0, 5), st.integers(-9, 9),
              st.sampled_from(['href', 'xlink'])).map(list))
tree = st.recursive(node, lambda kids: st.lists(kids, max_size=3).map(
    lambda c: ['g', c]), max_leaves=6)


def number(node, out):
    """The nodes in document order."""
    out.append(node)
    if node[0] == 'g':
        for child in node[1]:
            number(child, out)
    return out


@REG.test(st.lists(tree, min_size=1, max_size=4), quick=500, thorough=40000)
def references(case):
    """Chains and circles of use elements; target k is the k-th element."""
    doc, root = build({'w': 100, 'h': 100, 'vb': None})
    flat, made = [], []
    for child in case:
        number(child, flat)

    def create(parent, node):
        el = doc.create_element_ns(NS, node[0])
        el.set('id', 'n%d' % len(made))
        made.append(el)
        parent.append(el)
        if node[0] == 'line':
            el.set('x1', str(node[1]))
            el.set('x2', str(node[1]))
            el.set('y2', '5')
        elif node[0] == 'use':
            if node[3] == 'href':
                el.set('href', '#n%d' % node[1])
            else:
                el.set_attribute_ns('http://www.w3.org/1999/xlink',
                                    'xlink:href', '#n%d' % node[1])
            el.set('x', str(node[2]))
        else:
            for sub in node[1]:
                create(el, sub)

    for child in case:
        create(root, child)

    def uses(i):
        """The use elements in the subtree of i."""
        return [k for k in range(i, i + len(number(flat[i], [])))
                if flat[k][0] == 'use']

    def targets(k):
        i = flat[k][1]
        return uses(i) if i < len(flat) else []

    def circular(k):
        seen, todo = set(), targets(k)
        inside = flat[k][1] < len(flat) and k in uses(flat[k][1])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += targets(x)
        return k in seen or inside

    bad = {k for k, n in enumerate(flat) if n[0] == 'use' and circular(k)}

    def draw(i, dx):
        n = flat[i]
        if n[0] == 'line':
            return [(n[1] + dx, n[1] + dx)]
        if n[0] == 'use':
            if i in bad or n[1] >= len(flat):
                return []
            return draw(n[1], dx + n[2])
        out, k = [], i + 1
        for sub in n[1]:
            out += draw(k, dx)
            k += len(number(sub, []))
        return out

    for i, el in enumerate(made):
        want = draw(i, 0)
        if len(want) > 40:
            continue
        settings = SVGPathDataSettings()
        settings.normalize = True
        data = [v for _, v in points_of(el.get_path_data(settings))]
        got = [(a[0], b[0]) for a, b in zip(data[::2], data[1::2])]
        check(got == [(float(a), float(b)) for a, b in want],
              'what the element draws', element=i, got=got, want=want)
    labels = []
    if bad:
        labels.append('circle')
    if any(n[0] == 'use' and k not in bad and targets(k)
           for k, n in enumerate(flat)):
        labels.append('chain')
    return labels


@REG.test(st.fixed_dictionaries({
    'v': view, 'x': pos, 'y': pos,
    'width': st.one_of(size, size, st.just('auto')),
    'height': st.one_of(size, size, st.just('auto'))}), quick=700, thorough=9000)
def containers(case):
    """The computed geometry of a use, and of the svg around it."""
    v = case['v']
    doc, root = build(v)
    el = doc.create_element_ns(NS, 'use')
    root.append(el)
    c = Context(v)
    want = {}
    for name, axis in (('x', 'x'), ('y', 'y'), ('width', 'x'),
                       ('height', 'y')):
        value = case[name]
        if value is not None:
            el.set(name, attr(value))
        want[name] = 0 if value == 'auto' else c.px(value, axis)
    got = el.get_computed_geometry()
    check(sorted(got) == sorted(want), 'the geometry of a use', got=got)
    for name, value in want.items():
        check(abs(float(got[name]) - value) <= 1e-9 * max(1, abs(value)),
              'computed ' + name + ' of a use', got=got[name], expected=value)
    got = root.get_computed_geometry()
    want = {'width': v['w'], 'height': v['h']}
    for name, value in want.items():
        check(abs(float(got[name]) - value) <= 1e-9 * value,
              'computed ' + name + ' of the svg', got=got[name],
              expected=value)
    return [n for n in ('width', 'height')
            if isinstance(case[n], list) and case[n][1] == '%']


FONTED = st.sampled_from([None, '10px', '25px', '2em', '150%', '12px'])
INHERITED = st.sampled_from(['inherit', 'inherit', '2em', '3px', '1.5em',
                             '0.5em', 'auto'])


@REG.test(st.fixed_dictionaries({
    'chain': st.lists(st.tuples(FONTED, INHERITED, INHERITED), max_size=4),
    'font': FONTED, 'own': FONTED}), quick=500, thorough=20000)
def inherited(case):
    """width="inherit" of a rect takes the computed length of its parent."""
    doc, root = build({'w': 100, 'h': 100, 'vb': None})
    root.set('font-size', '16px')
    sizes = [16.]
    chain = list(case['chain']) + [(case['own'], 'inherit', 'inherit')]
    node = root
    root.set('width', '6em')
    root.set('height', '20px')
    want = [96., 20.]
    for i, (font, w, h) in enumerate(chain):
        last = i == len(chain) - 1
        el = doc.create_element_ns(NS, 'rect' if last else 'g')
        node.append(el)
        node = el
        size_ = sizes[-1]
        if font is not None:
            el.set('font-size', font)
            n = float(font.rstrip('pxem%'))
            size_ = (n if font.endswith('px') else n * size_
                     if font.endswith('em') else n * size_ / 100)
        sizes.append(size_)
        for j, (name, value) in enumerate((('width', w), ('height', h))):
            el.set(name, value)
            if value == 'auto':
                want[j] = 0.
            elif value != 'inherit':
                want[j] = float(value.rstrip('pxem')) * (
                    size_ if value.endswith('em') else 1)
    got = node.get_computed_geometry()
    for name, value in zip(('width', 'height'), want):
        check(abs(float(got[name]) - value) <= 1e-9 * max(1, value),
              'inherited ' + name, got=got[name], expected=value)
    data = node.get_path_data()
    check(bool(data) == all(want), 'drawn or not', got=len(data))
    return ['font sizes'] if len(set(sizes)) > 1 else []
