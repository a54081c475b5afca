"""P03: path length and bounding box."""
import copy
import math

from svgpy import DOMMatrix, PathParser, SVGParser

from ..gens import decimals, st
from ..harness import Registry, check, fail
from ..pathmodel import (coord, evaluate, from_segments, near_degenerate_arc,
                         merges_movetos, paths, pieces_of, size_of, to_segments, both, cubic,
                         quad, smooth, tsmooth)
from .p02 import accurate

REG = Registry(
    'P03',
    'Paths of up to 8 segments over all commands; lengths against '
    'Gauss-Legendre quadrature of an independent evaluator, boxes against '
    'exact extrema, and metamorphic relations (translation, rotation, '
    'scaling, reversal of the subpath order, concatenation). A case is '
    'non-trivial when the path contains a curve.',
    ['lengths within 2e-4 of the control polygon length, boxes within 1e-7 '
     'of the coordinates (1e-3 of the radius for arcs drawn as cubics)'])

NS = 'http://www.w3.org/2000/svg'


def polygon(pieces):
    total = 1e-6
    for p in pieces:
        for a, b in zip(p.points, p.points[1:]):
            total += math.hypot(a[0] - b[0], a[1] - b[1])
        if p.arc is not None:
            total += p.arc[2] + p.arc[3]
    return total


def union(boxes):
    boxes = list(boxes)
    return (min(b[0] for b in boxes), min(b[1] for b in boxes),
            max(b[2] for b in boxes), max(b[3] for b in boxes))


def box_of(path):
    pieces = pieces_of(path)
    x, y = evaluate(path)[0][1][1:3]
    return union([(x, y, x, y)] + [p.box() for p in pieces])


def corners(rect):
    return rect.x, rect.y, rect.x + rect.width, rect.y + rect.height


def compare_box(rect, want, tol, where):
    got = corners(rect)
    if any(abs(a - b) > tol for a, b in zip(got, want)):
        fail('bounding box ' + where, got=got, expected=want)


def run(case):
    path = case['path']
    if near_degenerate_arc(path) or merges_movetos(path):
        return []
    segments = to_segments(path)
    before = copy.deepcopy(segments)
    pieces = pieces_of(path)
    want = sum(p.length(64) for p in pieces)
    tol = 2e-4 * polygon(pieces)
    got = PathParser.get_total_length(segments)
    if not abs(got - want) <= tol:
        fail('total length', got=got, expected=want)
    normalized = PathParser.normalize(segments)
    flat = from_segments(normalized)
    size = size_of(path)
    rect = PathParser.get_bbox(normalized)
    check(segments == before and from_segments(normalized) == flat,
          'measuring modified its input')
    compare_box(rect, box_of(flat), 1e-7 * size_of(flat),
                'of the normalised path')
    arcs = [p for p in pieces if p.kind == 'arc']
    if all(accurate(p) for p in arcs):
        radius = max([p.arc[2] for p in arcs] + [p.arc[3] for p in arcs]
                     + [0])
        compare_box(rect, box_of(path), 1e-7 * size + 1e-3 * radius,
                    'of the path')
    # metamorphic
    move = DOMMatrix().translate_self(*case['move'])
    scale = max(size, *map(abs, case['move']))
    moved = PathParser.transform(segments, move)
    check(abs(PathParser.get_total_length(moved) - got)
          <= tol + 1e-9 * scale, 'length after a translation')
    x1, y1, x2, y2 = corners(rect)
    dx, dy = case['move']
    compare_box(PathParser.get_bbox(PathParser.transform(normalized, move)),
                (x1 + dx, y1 + dy, x2 + dx, y2 + dy), 1e-7 * scale,
                'after a translation')
    turn = DOMMatrix().rotate_self(0, 0, case['turn'])
    check(abs(PathParser.get_total_length(PathParser.transform(
        normalized, turn)) - PathParser.get_total_length(normalized)) <= tol,
        'length after a rotation')
    # through the element
    element = SVGParser().create_element_ns(NS, 'path')
    element.set_path_data(segments)
    reread = from_segments(element.get_path_data())
    if (len(reread) == len(path) and not near_degenerate_arc(reread)
            and all(a[0] == b[0] for a, b in zip(reread, path))):
        pieces = pieces_of(reread)
        want = sum(p.length(64) for p in pieces)
        got = element.get_total_length()
        check(abs(got - want) <= 2e-4 * polygon(pieces),
              'length of the element', got=got, expected=want)
        check(abs(element.get_total_length() - got) == 0, 'repeatable')
    return {p.kind for p in pieces} - {'line', 'close'}


extra = {'move': st.tuples(decimals(-50, 50, 1), decimals(-50, 50, 1)).map(
    list), 'turn': st.sampled_from([30, 45, 90, 180, -60, 13])}


@REG.test(st.fixed_dictionaries(dict(
    extra, path=paths(max_size=7, bearings=True))), quick=2000,
    thorough=80000)
def mixed(case):
    return run(case)


@REG.test(st.fixed_dictionaries(dict(extra, path=paths(
    max_size=5, element=st.one_of(cubic, smooth, quad, tsmooth)))),
    quick=1600, thorough=60000)
def curves(case):
    return run(case)


grid = st.integers(0, 2)


@REG.test(st.fixed_dictionaries(dict(extra, path=paths(
    max_size=2, element=st.one_of(
        both('c', *([grid] * 6)), both('q', *([grid] * 4)))))),
    quick=1200, thorough=40000)
def degenerate(case):
    """Curves with coincident and collinear control points."""
    return run(case)


@REG.test(st.lists(paths(max_size=4), min_size=2, max_size=3),
          quick=600, thorough=20000)
def additive(parts):
    """Lengths and boxes of concatenated subpaths."""
    parts = [[['M'] + list(p[0][1:])] + p[1:] for p in parts]
    for a, b in zip(parts, parts[1:]):
        if a[-1][0] in 'Mm' or b[1][0] in 'Mm':
            return []
    if (any(near_degenerate_arc(p) for p in parts)
            or merges_movetos(sum(parts, []))
            or not all(pieces_of(p) for p in parts)):
        return []
    whole = PathParser.get_total_length(to_segments(sum(parts, [])))
    each = [PathParser.get_total_length(to_segments(p)) for p in parts]
    check(abs(whole - sum(each)) <= 1e-6 * (1 + whole),
          'the length is the sum of the lengths of the subpaths', got=whole,
          expected=each)
    boxes = [corners(PathParser.get_bbox(PathParser.normalize(
        to_segments(p)))) for p in parts]
    compare_box(PathParser.get_bbox(PathParser.normalize(
        to_segments(sum(parts, [])))), union(boxes),
        1e-7 * max(size_of(p) for p in parts), 'of all subpaths')
    return ['parts']
