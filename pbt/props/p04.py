"""P04: transforming path data."""
import copy
import math

import numpy as np

from svgpy import DOMMatrix, PathParser, SVGParser

from ..gens import decimals, number, st
from ..harness import Registry, check, fail
from ..pathmodel import (evaluate, from_segments, near_degenerate_arc, paths,
                         size_of, to_segments)

REG = Registry(
    'P04',
    'Paths of up to 8 segments over all commands, transformed by generated '
    '2D matrices and by products of two; sampled points of the result are '
    'compared with the image of the points of the original. A case is '
    'non-trivial when the matrix is not a translation.',
    ['arcs are compared for matrices with a determinant of at least 1% of '
     'the squared norm'])

NS = 'http://www.w3.org/2000/svg'

angle = st.one_of(st.sampled_from([30, 45, 90, 180, -90, -60]),
                  decimals(-180, 180, 1))
factor = st.one_of(st.sampled_from([1, 2, -1, 0.5, -2, 3]),
                   decimals(-4, 4, 2).filter(lambda v: abs(v) > 0.1))


def rot(a):
    r = math.radians(a)
    return [math.cos(r), math.sin(r), -math.sin(r), math.cos(r), 0, 0]


matrix = st.one_of(
    st.tuples(st.just(1), st.just(0), st.just(0), st.just(1),
              number(-50, 50), number(-50, 50)).map(list),
    angle.map(rot),
    st.tuples(factor, factor).map(lambda s: [s[0], 0, 0, s[1], 0, 0]),
    st.tuples(factor).map(lambda s: [s[0], 0, 0, s[0], 3, -4]),
    st.tuples(angle, factor, factor).map(
        lambda v: [v[1] * rot(v[0])[0], v[1] * rot(v[0])[1],
                   v[2] * rot(v[0])[2], v[2] * rot(v[0])[3], 7, 1]),
    st.lists(number(-5, 5), min_size=6, max_size=6),
)


def apply(m, pts):
    a, b, c, d, e, f = m
    return np.stack([a * pts[:, 0] + c * pts[:, 1] + e,
                     b * pts[:, 0] + d * pts[:, 1] + f], axis=1)


def regular(m):
    a, b, c, d, _, _ = m
    norm = a * a + b * b + c * c + d * d
    return abs(a * d - b * c) > 0.01 * norm


def compare(path, m, got, where):
    """`got` draws the image of `path` under `m`."""
    want = [x for x in evaluate(path) if x[1] is not None]
    have = [x for x in evaluate(got) if x[1] is not None]
    check(len(have) == len(want), 'number of segments ' + where,
          got=len(have), expected=len(want))
    scale = max(size_of(got), size_of(path) * max(map(abs, m)), 1)
    tol = 1e-7 * scale
    for (i, form, piece), (_, form2, piece2) in zip(want, have):
        what = 'segment {} {} {}'.format(i, path[i], where)
        check(form2[0].upper() == form[0], what + ': type', got=form2)
        if form[0] == 'M':
            p = apply(m, np.array([form[1:3]]))[0]
            check(np.abs(p - np.array(form2[1:3])).max() <= tol,
                  what + ': moveto', got=form2, expected=list(p))
            continue
        if form[0] == 'A' and (
                piece is None or piece2 is None
                or piece.kind == 'line' or piece2.kind == 'line'):
            p = apply(m, np.array([form[6:8]]))[0]
            check(np.abs(p - np.array(form2[6:8])).max() <= tol,
                  what + ': end of the arc', got=form2)
            if piece is not None:
                chord = apply(m, np.array([piece.start, piece.end]))
                if np.abs(chord[0] - chord[1]).max() > 1e-3:
                    check((piece.kind == 'line')
                          == (piece2 is not None and piece2.kind == 'line'),
                          what + ': straight', got=form2)
            continue
        pts = apply(m, piece.sample(32))
        if piece.kind != 'arc':
            err = np.abs(pts - piece2.sample(32)).max()
            if err > tol:
                fail(what, error=float(err), got=form2)
            continue
        cx, cy, rx, ry, phi, t1, dt = piece2.arc
        c, s = math.cos(phi), math.sin(phi)
        x, y = pts[:, 0] - cx, pts[:, 1] - cy
        u, v = (c * x + s * y) / rx, (-s * x + c * y) / ry
        err = float(np.abs(np.hypot(u, v) - 1).max())
        if err > 1e-4:
            fail(what + ': a different ellipse', error=err, got=form2)
        a = np.unwrap(np.arctan2(v, u))
        if abs((a[-1] - a[0]) - dt) > 1e-3:
            fail(what + ': a different part of the ellipse', got=dt,
                 expected=float(a[-1] - a[0]))


def multiply(m, n):
    """The matrix that applies n first."""
    a, b, c, d, e, f = m
    g, h, i, j, k, o = n
    return [a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j,
            a * k + c * o + e, b * k + d * o + f]


def ok(path, m):
    if near_degenerate_arc(path):
        return False
    return regular(m) or not any(s[0] in 'Aa' for s in path)


@REG.test(st.fixed_dictionaries({
    'path': paths(max_size=8, bearings=True), 'm': matrix, 'n': matrix}),
    quick=4500, thorough=150000)
def transform(case):
    path, m, n = case['path'], case['m'], case['n']
    if not ok(path, m):
        return []
    segments = to_segments(path)
    before = copy.deepcopy(segments)
    dm = DOMMatrix(m)
    result = PathParser.transform(segments, dm)
    check(segments == before, 'transform() modified its input')
    check(not any(a is b for a in segments for b in result),
          'transform() shares segments with its input')
    check(list(dm.tolist()) == list(m) if hasattr(dm, 'tolist')
          else True, 'transform() modified the matrix')
    got = from_segments(result)
    compare(path, m, got, 'after transform()')
    labels = {'general'} if m[:4] != [1, 0, 0, 1] else set()
    if not near_degenerate_arc(got) and ok(path, n) and ok(
            path, multiply(n, m)):
        twice = from_segments(PathParser.transform(result, DOMMatrix(n)))
        compare(path, multiply(n, m), twice, 'after transform() twice')
        labels.add('twice')
    return labels
