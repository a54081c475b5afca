"""P02: path normalisation."""
import copy
import math

import numpy as np

from svgpy import PathParser, SVGParser, SVGPathDataSettings

from ..gens import st
from ..harness import Registry, check, fail
from ..pathmodel import (arc, both, coord, evaluate, from_segments,
                         near_degenerate_arc, paths, radius, rotation,
                         size_of, to_segments)

REG = Registry(
    'P02',
    'Paths of up to 9 segments over all commands (with bearings in a quarter '
    'of them); every normalised piece is compared with the piece drawn by an '
    'independent evaluator. A case is non-trivial when the path contains a '
    'relative, smooth, quadratic, bearing or arc command.',
    ['arcs: within 1e-3 of the larger radius (a cubic approximates a quarter '
     'ellipse to 3e-4)'])


def close(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def bezier(points, n=24):
    p = [np.array(q) for q in points]
    t = np.linspace(0, 1, n + 1)[:, None]
    return ((1 - t) ** 3 * p[0] + 3 * t * (1 - t) ** 2 * p[1]
            + 3 * t ** 2 * (1 - t) * p[2] + t ** 3 * p[3])


def accurate(piece):
    """Circular, or from axis to axis of the ellipse."""
    _, _, rx, ry, _, t1, dt = piece.arc
    if abs(rx - ry) <= 1e-9 * rx:
        return True
    quarter = math.pi / 2
    return all(abs(a / quarter - round(a / quarter)) < 1e-6
               for a in (t1, t1 + dt))


def compare_arc(piece, curves, tol):
    """The cubics trace the arc: on the ellipse, in order, to the end."""
    cx, cy, rx, ry, phi, t1, dt = piece.arc
    if not accurate(piece):
        return  # known finding P02-elliptical-arc: the ends only
    c, s = math.cos(phi), math.sin(phi)
    total = 0.0
    last = t1
    cp = piece.start
    for values in curves:
        pts = bezier([cp, values[0:2], values[2:4], values[4:6]])
        x, y = pts[:, 0] - cx, pts[:, 1] - cy
        u, v = (c * x + s * y) / rx, (-s * x + c * y) / ry
        err = np.abs(np.hypot(u, v) - 1).max()
        if err > 2e-3:
            fail('a cubic leaves the ellipse of the arc', error=float(err))
        for a in np.arctan2(v, u):
            d = (a - last) % (2 * math.pi)
            if d > math.pi:
                d -= 2 * math.pi
            total += d
            last = a
        cp = values[4:6]
    if abs(total - dt) > 1e-2:
        fail('the cubics turn through a different angle', got=total,
             expected=dt)


def drop_points(segments, tol):
    """Without the drawn segments of length zero."""
    out = []
    cp = start = (0.0, 0.0)
    last = None
    for seg in segments:
        points = [tuple(seg[j:j + 2]) for j in range(1, len(seg), 2)]
        if seg[0] in 'LC' and all(close(p, cp, tol) for p in points):
            last = seg[0]
            continue
        out.append(seg)
        if seg[0] in 'Zz':
            cp = start
        else:
            cp = points[-1]
            if seg[0] == 'M' and last != 'M':
                start = cp
        last = seg[0]
    return out


def compare(path, path_data, where):
    model = evaluate(path)
    got = from_segments(path_data)
    scale = size_of(path)
    tol = 1e-7 * scale
    got = drop_points(got, tol)
    k = 0
    cp = (0.0, 0.0)
    for index, form, piece in model:
        if form is None:
            continue
        if form[0] not in 'MZ' and (piece is None or all(
                close(p, piece.start, tol) for p in piece.points)
                and piece.kind != 'arc'):
            continue  # draws a point at most

        def take():
            nonlocal k
            if k >= len(got):
                fail('segment {} {} missing {}'.format(index, form, where),
                     got=got)
            k += 1
            return got[k - 1]

        kind = form[0]
        if kind == 'Z':
            g = take()
            check(g[0] == 'Z' or g[0] == 'z', 'closepath', got=g)
            cp = piece.end
            continue
        if kind == 'A':
            end = tuple(form[6:8])
            if piece.kind == 'line':
                g = take()
                check(g[0] == 'L' and close(g[1:3], end, tol),
                      'straight arc ' + where, got=g, expected=end)
                cp = end
                continue
            curves = []
            while True:
                g = take()
                check(g[0] == 'C', 'arc as cubics ' + where, got=g)
                curves.append(g[1:])
                check(len(curves) <= 8, 'too many cubics for an arc')
                if close(g[5:7], end, tol):
                    break
            compare_arc(piece, curves, tol)
            cp = end
            continue
        want = list(form)
        if kind == 'Q':
            q0, q1, q2 = cp, form[1:3], form[3:5]
            want = ['C'] + [q0[i] + 2 / 3 * (q1[i] - q0[i]) for i in (0, 1)]
            want += [q2[i] + 2 / 3 * (q1[i] - q2[i]) for i in (0, 1)]
            want += list(q2)
        g = take()
        if g[0] != want[0] or len(g) != len(want) or not all(
                abs(a - b) <= tol for a, b in zip(g[1:], want[1:])):
            fail('segment {} {} {}'.format(index, path[index], where), got=g,
                 expected=want)
        cp = tuple(want[-2:])
    check(k == len(got), 'extra segments ' + where, got=got[k:])


def run(path):
    if near_degenerate_arc(path):
        return []
    segments = to_segments(path)
    before = copy.deepcopy(segments)
    result = PathParser.normalize(segments)
    check(segments == before, 'normalize() modified its input')
    compare(path, result, 'of normalize()')
    again = PathParser.normalize(result)
    check(from_segments(again) == from_segments(result),
          'normalising a normalised path changes it')
    # through the element
    element = SVGParser().create_element_ns('http://www.w3.org/2000/svg',
                                            'path')
    element.set_path_data(segments)
    settings = SVGPathDataSettings()
    settings.normalize = True
    reread = from_segments(element.get_path_data())
    if not near_degenerate_arc(reread):
        if all(a[0] == b[0] for a, b in zip(reread, path)):
            compare(reread, element.get_path_data(settings),
                    'of the element')
    labels = {s[0] for s in path if s[0] not in 'MLCZHV'}
    return labels


@REG.test(paths(max_size=8, bearings=True), quick=4000, thorough=150000)
def mixed(path):
    return run(path)


circular = st.tuples(arc, st.booleans()).map(
    lambda x: [x[0][0], x[0][1], x[0][1] if x[1] else x[0][2]] + x[0][3:])


@REG.test(paths(max_size=3, element=circular), quick=2500, thorough=100000)
def arcs(path):
    return run(path)


@REG.test(st.fixed_dictionaries({
    'c': st.tuples(coord, coord), 'r': st.tuples(radius, radius),
    'rot': rotation, 'from': st.integers(0, 3), 'turn': st.sampled_from(
        [-3, -2, -1, 1, 2, 3]), 'rel': st.booleans(), 'k': st.booleans()}),
    quick=1500, thorough=40000)
def axis_arcs(case):
    """Arcs between the ends of the axes of an ellipse."""
    cx, cy = case['c']
    rx, ry = case['r']
    c, s = (f(math.radians(case['rot'])) for f in (math.cos, math.sin))

    def at(q):
        u, v = [(rx, 0), (0, ry), (-rx, 0), (0, -ry)][q % 4]
        return [cx + c * u - s * v, cy + s * u + c * v]

    p, q = at(case['from']), at(case['from'] + case['turn'])
    fa = 1 if abs(case['turn']) == 3 else 0
    if abs(case['turn']) == 2:
        # half an ellipse: both flags give it, up to rounding of the radii
        fa = int(case['k'])
        rx, ry = rx * (1 - 1e-9), ry * (1 - 1e-9)
    fs = 1 if case['turn'] > 0 else 0
    if case['rel']:
        path = [['M'] + p, ['a', rx, ry, case['rot'], fa, fs,
                            q[0] - p[0], q[1] - p[1]]]
    else:
        path = [['M'] + p, ['A', rx, ry, case['rot'], fa, fs] + q]
    run(path)
    return ['ellipse' if rx != ry else 'circle']


curve = st.one_of(both('c', *([coord] * 6)), both('s', *([coord] * 4)),
                  both('q', *([coord] * 4)), both('t', coord, coord),
                  both('t', coord, coord), both('s', *([coord] * 4)),
                  st.just(['Z']), both('l', coord, coord))


@REG.test(paths(max_size=8, element=curve), quick=2500, thorough=100000)
def smooth(path):
    """Adjacency of smooth commands."""
    return run(path)


@REG.probe('P02-elliptical-arc')
def _elliptical():
    path = [['M', 93.969, -85.505],
            ['A', 100, 250, 0, 0, 1, 70.711, 176.777]]
    piece = evaluate(path)[1][2]
    curves = [s[1:] for s in from_segments(
        PathParser.normalize(to_segments(path)))[1:]]
    pts = bezier([piece.start, curves[0][0:2], curves[0][2:4],
                  curves[0][4:6]])
    u = np.hypot((pts[:, 0]) / 100, (pts[:, 1]) / 250)
    return bool(np.abs(u - 1).max() > 2e-3)
