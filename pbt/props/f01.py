"""F01: glyph outlines and their matrices behave as geometry."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from svgpy.freetype import FreeType, FTFace, FTMatrix

from ..harness import Registry
from ..harness import check as _check

REG = Registry(
    'F01',
    'Histories of up to ten operations on 2x2 matrices against numpy; glyphs '
    'of five fonts at several sizes, loaded by index or character from files '
    'and memory, decomposed, transformed, translated and reversed up to four '
    'times against an own reading of the points; non-trivial when a matrix is '
    'not diagonal or an outline has curves and was changed.')
FONTS = '/usr/share/fonts/truetype/dejavu'
NAMES = ['DejaVuSans', 'DejaVuSerif-Bold', 'DejaVuSansMono',
         'DejaVuSans-Oblique', 'DejaVuSerifCondensed']
UNSCALED = FreeType.FT_LOAD_NO_SCALE
UNHINTED = FreeType.FT_LOAD_NO_HINTING | FreeType.FT_LOAD_NO_BITMAP
FACES = {}


def check(condition, *parts):
    if not condition:
        _check(False, ' '.join(map(str, parts)))


def face_of(name, memory=False):
    if (name, memory) not in FACES:
        path = os.path.join(FONTS, name + '.ttf')
        if memory:
            with open(path, 'rb') as fp:
                FACES[name, memory] = FTFace.new_memory_face(fp.read())
        else:
            FACES[name, memory] = FTFace.new_face(path)
    return FACES[name, memory]


# ------------------------------------------------------------------ matrices
number = st.one_of(st.integers(-5, 5), st.floats(-8, 8).map(
    lambda x: round(x, 3)), st.sampled_from([0, 1, -1, 0.5, 2]))
angle = st.one_of(st.sampled_from([0, 30, 45, 90, 180, 270, -90, 360]),
                  st.floats(-720, 720).map(lambda x: round(x, 2)))
entries = st.lists(number, min_size=4, max_size=4)
operation = st.one_of(
    st.tuples(st.just('rotate'), angle),
    st.tuples(st.just('scale'), number, st.one_of(st.none(), number)),
    st.tuples(st.sampled_from(['skew_x', 'skew_y']),
              st.sampled_from([0, 30, 45, -45, 60, 12.5, -80])),
    st.tuples(st.sampled_from(['flip_x', 'flip_y', 'inverse', 'clear'])),
    st.tuples(st.just('multiply'), entries),
    st.tuples(st.just('times'), entries),
    st.tuples(st.just('set'), st.sampled_from(
        ['a', 'b', 'c', 'd', 'xx', 'xy', 'yx', 'yy']), number))


def rows(values):
    return np.array(values, dtype=float).reshape(2, 2)


@REG.test(st.tuples(entries, st.lists(st.tuples(operation, st.booleans()),
                                      min_size=1, max_size=10)),
          quick=3000, thorough=60000)
def matrices(case):
    start, steps = case
    m = FTMatrix.from_float_array(start)
    model = rows(start)
    size = 1 + np.abs(model).max()
    labels = set()
    for (name, *args), inplace in steps:
        before = list(m.tolist())
        old = m
        if name == 'rotate':
            r = math.radians(args[0])
            other = rows([math.cos(r), math.sin(r),
                          -math.sin(r), math.cos(r)])
        elif name == 'scale':
            other = rows([args[0], 0, 0,
                          args[0] if args[1] is None else args[1]])
        elif name == 'skew_x':
            other = rows([1, -math.tan(math.radians(args[0])), 0, 1])
        elif name == 'skew_y':
            other = rows([1, 0, -math.tan(math.radians(args[0])), 1])
        elif name in ('flip_x', 'flip_y'):
            other = np.diag([-1., 1.] if name == 'flip_x' else [1., -1.])
            inplace = False
        elif name in ('multiply', 'times'):
            other = rows(args[0])
        elif name == 'clear':
            check(m.clear() is m, 'clear() returns another matrix')
            model = np.eye(2)
            check(m == FTMatrix(), 'cleared')
            continue
        elif name == 'inverse':
            if abs(np.linalg.det(model)) < 1e-6 * size ** 2 or size > 1e4:
                continue
            if inplace:
                check(m.invert_self() is m, 'invert_self() returns another')
            else:
                m = m.inverse()
                check(m is not old and old.tolist() == before,
                      'inverse() changed its operand')
                one = (m * old).matrix
                slack = 1e-9 * np.abs(m.matrix).max() * size
                check(np.abs(one - np.eye(2)).max() < slack + 1e-9,
                      'inverse times matrix', one)
            model = np.linalg.inv(model)
            size = max(size, np.abs(model).max()) * (
                1 + np.abs(model).max())
            labels.add('inverse')
            compare(m, model, size)
            continue
        else:
            setattr(m, args[0], args[1])
            i, j = {'a': (0, 0), 'b': (0, 1), 'c': (1, 0), 'd': (1, 1),
                    'xx': (0, 0), 'xy': (0, 1), 'yx': (1, 0),
                    'yy': (1, 1)}[args[0]]
            model = model.copy()
            model[i, j] = args[1]
            compare(m, model, size)
            continue
        if name in ('multiply', 'times'):
            factor = FTMatrix.from_float_array(args[0])
            if name == 'times' and inplace:
                m *= factor
                check(m is old, '*= made another matrix')
            elif name == 'times':
                m = m * factor
            elif inplace:
                check(m.multiply_self(factor) is m, 'multiply_self()')
            else:
                m = m.multiply(factor)
            check(factor.tolist() == [float(x) for x in args[0]],
                  'the factor changed')
        elif inplace:
            check(getattr(m, name + '_self')(*args) is m, name)
        else:
            m = getattr(m, name)(*args)
        if not inplace:
            check(m is not old and old.tolist() == before, name,
                  'changed its operand')
        model = model @ other
        size = max(size, np.abs(model).max()) * (1 + np.abs(other).max())
        if other[0, 1] or other[1, 0]:
            labels.add('not diagonal')
        if size > 1e12:
            break
        compare(m, model, size)
    check(FTMatrix.from_float_array(m.tolist()) == m, 'round trip')
    if np.abs(model).max() < 30000:
        fixed = FTMatrix(m.ft_matrix).matrix
        check(np.abs(fixed - m.matrix).max() <= 1 / 65536 + 1e-12,
              'fixed point form', fixed, m.matrix)
    return sorted(labels)


def compare(m, model, size):
    got = np.array([[m.xx, m.xy], [m.yx, m.yy]])
    check(np.abs(got - model).max() <= 1e-10 * size, 'matrix', got, 'not',
          model)
    check([m.a, m.b, m.c, m.d] == m.to_float_array()
          == [m.xx, m.xy, m.yx, m.yy] == m.matrix.ravel().tolist(),
          'components', m.tolist())


# ------------------------------------------------------------------ outlines
class Outline(object):
    """The points of an outline, read from its contours and tags."""

    def __init__(self, outline):
        self.points = outline.points
        self.tags = outline.tags
        self.contours = outline.contours
        n = outline.n_points
        check(len(self.points) == n, 'points', len(self.points), n)
        check(len(self.tags) == n, 'tags', len(self.tags), 'of', n)
        check(len(self.contours) == outline.n_contours, 'contours')
        check((self.contours[-1] + 1 if self.contours else 0) == n,
              'last contour')

    def draw(self, shift, delta):
        out = []

        def half(a, b):
            return tuple(int((x + y) / 2) for x, y in zip(a, b))

        first = 0
        for last in self.contours:
            p = [tuple(v * (1 << shift) - delta for v in q)
                 for q in self.points[first:last + 1]]
            on = [t & 1 for t in self.tags[first:last + 1]]
            first = last + 1
            start = p[0]
            if on[0]:
                rest = list(zip(p, on))[1:]
            elif on[-1]:
                start = p[-1]
                rest = list(zip(p, on))[:-1]
            else:
                start = half(p[0], p[-1])
                rest = list(zip(p, on))
            out.append(('M',) + start)
            control = None
            for q, flag in rest:
                if control is None:
                    if flag:
                        out.append(('L',) + q)
                    else:
                        control = q
                elif flag:
                    out.append(('Q',) + control + q)
                    control = None
                else:
                    middle = half(control, q)
                    out.append(('Q',) + control + middle)
                    control = q
            if control is None:
                out.append(('L',) + start)
            else:
                out.append(('Q',) + control + start)
        return out

    def area(self):
        total = 0
        first = 0
        for last in self.contours:
            p = self.points[first:last + 1]
            first = last + 1
            total += sum(a[0] * b[1] - a[1] * b[0]
                         for a, b in zip(p, p[1:] + p[:1]))
        return total / 2


def extent(drawn):
    xs, ys = [], []
    x = y = 0
    for c in drawn:
        if c[0] == 'Q':
            for k, line in ((0, xs), (1, ys)):
                a, b, d = (x, y)[k], c[1 + k], c[3 + k]
                line += [a, d]
                den = a - 2 * b + d
                if den:
                    t = (a - b) / den
                    if 0 < t < 1:
                        line.append(a * (1 - t) ** 2 + 2 * b * t * (1 - t)
                                    + d * t * t)
        else:
            xs.append(c[1])
            ys.append(c[2])
        x, y = c[-2:]
    return min(xs), min(ys), max(xs), max(ys)


def record(outline, **kwargs):
    out = []
    token = object()

    def keep(kind):
        def callback(*args):
            check(args[-1] is token, 'user data')
            out.append((kind,) + args[:-1])
        return callback

    outline.decompose(keep('M'), keep('L'), keep('Q'), keep('C'),
                      user=token, **kwargs)
    return out


def corners(rect):
    return rect.x, rect.y, rect.x + rect.width, rect.y + rect.height


char = st.one_of(st.characters(min_codepoint=0x20, max_codepoint=0x17f),
                 st.characters(min_codepoint=0x391, max_codepoint=0x44f),
                 st.sampled_from('eg&%@Å§\u2603'))
small = st.floats(-2, 2).map(lambda x: round(x, 3))
change = st.one_of(
    st.tuples(st.just('transform'), st.lists(small, min_size=4, max_size=4)),
    st.tuples(st.just('translate'), st.integers(-5000, 5000),
              st.integers(-5000, 5000)),
    st.tuples(st.just('reverse')))


@REG.test(st.tuples(
    st.sampled_from(NAMES), st.booleans(), char, st.booleans(),
    st.one_of(st.none(), st.integers(4, 200)),
    st.lists(change, max_size=4),
    st.tuples(st.integers(0, 3), st.sampled_from([0, 0, 1, 64, -7]))),
    quick=1500, thorough=30000)
def outlines(case):
    name, memory, ch, by_char, size, changes, (shift, delta) = case
    face = face_of(name, memory)
    labels = set()
    index = face.get_char_index(ch)
    check(index == face.get_char_index(ord(ch)), 'index of a character')
    flags = UNSCALED if size is None else UNHINTED
    if size is not None:
        face.set_char_size(0, size * 64, 72, 72)
        metrics = face.size.metrics
        check(metrics.x_ppem == metrics.y_ppem == size, 'size', size,
              metrics.x_ppem, metrics.y_ppem)
    if by_char:
        face.load_char(ch, flags)
    else:
        face.load_glyph(index, flags)
    outline = face.glyph.outline
    o = Outline(outline)
    advance = face.glyph.metrics.hori_advance
    if size is None:
        check(advance == face.get_advance(index, flags), 'advance', advance)
    else:
        # the outline is the unscaled one times the size
        other = face_of(name, not memory)
        other.load_glyph(index, UNSCALED)
        plain = Outline(other.glyph.outline)
        factor = size * 64 / face.units_per_em
        check(len(plain.points) == len(o.points), 'points of two sizes')
        check(all(abs(a * factor - b) <= 1.5 for p, q in
                  zip(plain.points, o.points) for a, b in zip(p, q)),
              'scaled points')
        check(plain.tags == o.tags and plain.contours == o.contours,
              'contours of two sizes')
        unscaled = other.glyph.metrics.hori_advance
        check(abs(unscaled * factor - advance) <= 33, 'scaled advance',
              unscaled, advance)
    if not o.points:
        check(record(outline) == [], 'empty outline')
        return []
    m = face.glyph.metrics
    box = [f(p[k] for p in o.points) for f in (min, max) for k in (0, 1)]
    if size is None:
        check((m.hori_bearing_x, m.hori_bearing_y, m.width, m.height)
              == (box[0], box[3], box[2] - box[0], box[3] - box[1]),
              'metrics', m)
    else:
        labels.add('scaled')
    for step in changes:
        area = o.area()
        old = o
        direction = outline.get_orientation()
        if step[0] == 'translate':
            outline.translate(*step[1:])
            o = Outline(outline)
            check(o.points == [(x + step[1], y + step[2])
                               for x, y in old.points], 'translated')
        elif step[0] == 'transform':
            matrix = FTMatrix.from_float_array(step[1])
            reach = max(abs(v) for p in old.points for v in p)
            if reach > 1e6:
                break
            outline.transform(matrix)
            o = Outline(outline)
            a, b, c, d = step[1]
            slack = 1.1 + reach / 32768
            for (x, y), (px, py) in zip(old.points, o.points):
                check(abs(a * x + b * y - px) <= slack
                      and abs(c * x + d * y - py) <= slack,
                      'transformed', (x, y), 'to', (px, py))
            labels.add('transformed')
        else:
            outline.reverse()
            o = Outline(outline)
            first = 0
            for last in o.contours:
                check(sorted(o.points[first:last + 1])
                      == sorted(old.points[first:last + 1]), 'reversed')
                first = last + 1
            if abs(area) > 50:
                check(abs(o.area() + area) < 1, 'reversed area')
                check({direction, outline.get_orientation()} == {0, 1},
                      'orientation of the reversed outline')
            labels.add('reversed')
        check(o.tags == old.tags or step[0] == 'reverse', 'tags changed')
    drawn = o.draw(0, 0)
    if any(c[0] == 'Q' for c in drawn) and changes:
        labels.add('changed curves')
    check(record(outline) == drawn, 'decomposed')
    check(record(outline, shift=shift, delta=delta) == o.draw(shift, delta),
          'decomposed with shift and delta')
    box = [f(p[k] for p in o.points) for f in (min, max) for k in (0, 1)]
    check(list(corners(outline.get_cbox())) == box, 'control box')
    want = extent(drawn)
    got = corners(outline.get_bbox())
    check(all(abs(a - b) <= 1.01 for a, b in zip(want, got)), 'bounding box',
          got, 'not', want)
    if abs(o.area()) > 200 and max(abs(v) for v in box) < 30000:
        check(outline.get_orientation() == (1 if o.area() > 0 else 0),
              'orientation', outline.get_orientation(), o.area())
    return sorted(labels)
