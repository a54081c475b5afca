"""G03: rectangle operations vs an interval model."""
from svgpy import DOMMatrix, DOMRect, DOMRectReadOnly

from ..gens import decimals, number, op, st
from ..harness import Registry, check, fail

REG = Registry(
    'G03',
    'Sequences of 1..10 rectangle operations (in-place and copying) on a '
    'generated rectangle vs a model of closed intervals; coordinates from a '
    'small grid so that edges coincide often. A case is non-trivial when the '
    'rectangle changes at least twice or a binary operation meets two '
    'non-empty rectangles.',
    ['operands of binary operations have non-negative size; an invalid '
     '(empty) operand is neutral and a rectangle without common area leaves '
     'the first one unchanged, as the tests of the library require'])

grid = st.one_of(st.integers(-4, 8), st.integers(-4, 8),
                 decimals(-50, 50, 1))
size = st.one_of(st.integers(1, 9), st.integers(1, 9), decimals(0.1, 60, 1))
rect = st.tuples(grid, grid, size, size).map(list)
anyrect = st.one_of(rect, rect, rect, st.just([None, None, 0, 0]),
                    st.tuples(grid, grid, st.just(0), st.just(0)).map(list),
                    st.tuples(grid, grid, st.just(0), size).map(list),
                    st.tuples(grid, grid, size, st.just(0)).map(list))
signed = st.tuples(grid, grid, st.one_of(size, size.map(lambda v: -v)),
                   st.one_of(size, size.map(lambda v: -v))).map(list)
delta = st.integers(-3, 3)
tiny = st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(1, 3),
                 st.integers(1, 3)).map(list)
matrix = st.lists(number(-5, 5), min_size=6, max_size=6)

binary = st.one_of(op('unite', anyrect), op('intersect', anyrect),
                   op('or', rect), op('and', rect), op('ior', rect),
                   op('iand', rect))
operation = st.one_of(
    binary, binary,
    op('unite_point', grid, grid),
    op('translate', grid, grid),
    op('transpose'),
    op('adjust', delta, delta, delta, delta),
    op('transform', matrix),
    op('transform', st.sampled_from([
        [0, 1, -1, 0, 0, 0], [-1, 0, 0, -1, 0, 0], [1, 0, 0, -1, 3, 4],
        [1, 1, -1, 1, 0, 0], [-1, 1, -1, -1, 5, 5]])),
    op('move_to', grid, grid),
    op('set_size', size, size),
    op('set_rect', rect),
    op('set_coords', rect),
)


def valid(r):
    return r[0] is not None and r[1] is not None and r[2] > 0 and r[3] > 0


def coords(r):
    return r[0], r[1], r[0] + r[2], r[1] + r[3]


def from_coords(x1, y1, x2, y2):
    return [x1, y1, x2 - x1, y2 - y1]


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def model(r, name, args):
    """The rectangle after the operation; None: unspecified."""
    if name in ('unite', 'or', 'ior'):
        o = args[0]
        if o[0] is None:
            return r
        if r[0] is None:
            return list(o)
        a, b = coords(r), coords(o)
        return from_coords(min(a[0], b[0]), min(a[1], b[1]),
                           max(a[2], b[2]), max(a[3], b[3]))
    if name == 'unite_point':
        return model(r, 'unite', [[args[0], args[1], 0, 0]])
    if name in ('intersect', 'and', 'iand'):
        o = args[0]
        if not valid(r) or not valid(o):
            return r
        a, b = coords(r), coords(o)
        x1, y1 = max(a[0], b[0]), max(a[1], b[1])
        x2, y2 = min(a[2], b[2]), min(a[3], b[3])
        if x1 >= x2 or y1 >= y2:
            return r  # no common area: the first one is kept
        return from_coords(x1, y1, x2, y2)
    if name == 'translate':
        return [r[0] + args[0], r[1] + args[1], r[2], r[3]]
    if name == 'transpose':
        return [r[0], r[1], r[3], r[2]]
    if name == 'adjust':
        if not valid(r):
            return r
        x1, y1, x2, y2 = coords(r)
        return from_coords(x1 + args[0], y1 + args[1], x2 + args[2],
                           y2 + args[3])
    if name == 'transform':
        if r[0] is None or r[1] is None or r[2] < 0 or r[3] < 0:
            return r
        a, b, c, d, e, f = args[0]
        x1, y1, x2, y2 = coords(r)
        pts = [(a * x + c * y + e, b * x + d * y + f)
               for x in (x1, x2) for y in (y1, y2)]
        xs = [p[0] for p in pts]
        ys = [p[1] for p in pts]
        return from_coords(min(xs), min(ys), max(xs), max(ys))
    if name == 'move_to':
        return [args[0], args[1], r[2], r[3]]
    if name == 'set_size':
        return [r[0], r[1], args[0], args[1]]
    if name == 'set_rect':
        return list(args[0])
    if name == 'set_coords':
        return list(args[0])
    raise KeyError(name)


def compare(obj, want, where):
    got = [obj.x, obj.y, obj.width, obj.height]
    scale = 1 + sum(abs(v) for v in want if v is not None)
    for g, w in zip(got, want):
        if (g is None) != (w is None) or (
                g is not None and not abs(g - w) <= 1e-9 * scale):
            fail('rectangle after ' + where, got=got, expected=want)
    check(tuple(obj.get_rect()) == tuple(got), 'get_rect()')
    check(tuple(obj.get_size()) == (got[2], got[3]), 'get_size()')
    check((obj.left, obj.top) == (got[0], got[1]), 'left/top')
    if got[0] is not None:
        check(obj.right == got[0] + got[2] and obj.bottom == got[1] + got[3],
              'right/bottom', got=(obj.right, obj.bottom))
        check(tuple(obj.get_coords())
              == (obj.left, obj.top, obj.right, obj.bottom), 'get_coords()')
    check(obj.isvalid() == valid(got), 'isvalid()')
    check(obj.isempty() == (not valid(got)), 'isempty()')


COPYING = {'unite', 'intersect', 'translate', 'transpose', 'adjust',
           'transform', 'unite_point'}


@REG.test(st.fixed_dictionaries({
    'start': anyrect,
    'steps': st.lists(st.tuples(st.sampled_from(['self', 'copy', 'ro']),
                                operation).map(list),
                      min_size=1, max_size=10)}),
    quick=8000, thorough=300000)
def history(case):
    obj = DOMRect(*case['start'])
    cur = list(case['start'])
    compare(obj, cur, 'construction')
    labels = set()
    changes = 0
    for mode, (name, *args) in case['steps']:
        if cur[0] is None and name in ('translate', 'set_size'):
            continue
        if (cur[2] < 0 or cur[3] < 0) and name not in (
                'set_rect', 'set_size', 'set_coords'):
            # the other operations are specified for non-negative sizes
            norm = obj.normalize()
            check(norm.width >= 0 and norm.height >= 0, 'normalize()')
            check(all(close(g, w) for g, w in zip(
                [norm.left, norm.right] + [norm.top, norm.bottom],
                sorted([obj.left, obj.right])
                + sorted([obj.top, obj.bottom]))),
                'normalize() covers the same area')
            obj, cur = norm, [norm.x, norm.y, norm.width, norm.height]
        want = model(cur, name, args)
        before = [obj.x, obj.y, obj.width, obj.height]
        other = None
        if name in ('unite', 'intersect', 'or', 'and', 'ior', 'iand'):
            other = (DOMRect if name in ('ior', 'iand') or mode == 'self'
                     else DOMRectReadOnly)(*args[0])
            if valid(before) and valid(args[0]):
                labels.add(name)
        source = obj
        if mode == 'ro' and (name in COPYING or name in ('or', 'and')):
            source = DOMRectReadOnly(*before)
        if name == 'unite':
            real = list(args[0])
        elif name == 'unite_point':
            real = list(args)
        elif name == 'intersect':
            real = [other]
        elif name == 'transform':
            real = [DOMMatrix(args[0])]
        elif name in ('set_rect',):
            real = list(args[0])
        elif name == 'set_coords':
            real = list(coords(args[0]))
        else:
            real = list(args)
        method = 'unite' if name == 'unite_point' else name
        if name == 'or':
            result = source | other
        elif name == 'and':
            result = source & other
        elif name == 'ior':
            result = source
            result |= other
        elif name == 'iand':
            result = source
            result &= other
        elif name in COPYING and mode != 'self':
            result = getattr(source, method)(*real)
        elif name in COPYING:
            result = getattr(obj, method + '_self')(*real)
        else:
            result = getattr(obj, name)(*real)
        check(type(result) is DOMRect, 'class of the result',
              got=type(result))
        if name in ('or', 'and') or (name in COPYING and mode != 'self'):
            check(result is not source, 'a new rectangle')
            check([source.x, source.y, source.width, source.height] == before,
                  name + ' modified its operand')
        else:
            check(result is source, 'in-place operations return the object')
        if other is not None:
            check(list(other.get_rect()) == list(args[0]),
                  name + ' modified its right operand')
        compare(result, want, mode + ' ' + name)
        obj = result
        now = [obj.x, obj.y, obj.width, obj.height]
        if now != before:
            changes += 1
        cur = now
    if changes >= 2:
        labels.add('changes')
    return labels


points = st.lists(st.tuples(grid, grid).map(list), min_size=1, max_size=6)


@REG.test(st.one_of(*[
    st.fixed_dictionaries({'a': r, 'b': r, 'p': points})
    for r in (rect, tiny, tiny)]), quick=9000, thorough=300000)
def algebra(case):
    """Containment, union and intersection of two rectangles and points."""
    for cls in (DOMRect, DOMRectReadOnly):
        a, b = cls(*case['a']), cls(*case['b'])
        u, i = a | b, a & b
        labels = set()
        ca, cb = coords(case['a']), coords(case['b'])
        inside = (ca[0] <= cb[0] and ca[1] <= cb[1] and cb[2] <= ca[2]
                  and cb[3] <= ca[3])
        check(a.contains(*case['b']) == inside, 'containment of a rectangle')
        if _exact(case):
            x1, y1, x2, y2 = cb
            for line in ((x1, y1, x2 - x1, 0), (x1, y1, 0, y2 - y1)):
                lx, ly = line[0] + line[2], line[1] + line[3]
                check(a.contains(*line) == (
                    ca[0] <= x1 and lx <= ca[2] and ca[1] <= y1
                    and ly <= ca[3]), 'containment of a line', line=line)
        check(all(close(g, w) for g, w in zip((b | a).get_rect(),
                                              u.get_rect())),
              'union commutes', got=u.tojson(), other=(b | a).tojson())
        check(u.contains(*case['a']) or not _exact(case),
              'union contains the left operand', got=u.tojson())
        overlap = (max(ca[0], cb[0]) < min(ca[2], cb[2])
                   and max(ca[1], cb[1]) < min(ca[3], cb[3]))
        if not overlap:
            check(all(close(g, w) for g, w in zip(i.get_rect(),
                                                  a.get_rect())),
                  'no common area: the first rectangle is kept',
                  got=i.tojson())
        if overlap:
            labels.add('overlap')
            want = from_coords(
                max(ca[0], cb[0]), max(ca[1], cb[1]),
                min(ca[2], cb[2]), min(ca[3], cb[3]))
            check(all(close(g, w) for g, w in zip(i.get_rect(), want)),
                  'the intersection is the common area', got=i.tojson())
            if _exact(case):
                check(i == (b & a), 'intersection commutes')
                check(a.contains(*i.get_rect()) and b.contains(*i.get_rect()),
                      'intersection lies in both')
        for x, y in case['p']:
            in_a = ca[0] <= x <= ca[2] and ca[1] <= y <= ca[3]
            in_b = cb[0] <= x <= cb[2] and cb[1] <= y <= cb[3]
            check(a.contains(x, y) == in_a, 'containment of a point',
                  point=(x, y))
            if overlap and _exact(case):
                check(i.contains(x, y) == (in_a and in_b),
                      'points of the intersection', point=(x, y))
            if (in_a or in_b) and _exact(case):
                check(u.contains(x, y), 'points of the union', point=(x, y))
        data = a.tojson()
        check(data == dict(zip(('x', 'y', 'width', 'height'), case['a'])),
              'tojson()')
        check(cls.from_rect(data) == a and type(cls.from_rect(data)) is cls,
              'from_rect()')
        check((a == b) == (case['a'] == case['b']), 'equality')
    return labels | {'pair'}


def _exact(case):
    return all(v == int(v) for v in case['a'] + case['b'])


@REG.test(signed, quick=1500, thorough=30000)
def normalize(case):
    for cls in (DOMRect, DOMRectReadOnly):
        r = cls(*case)
        n = r.normalize()
        xs = sorted([case[0], case[0] + case[2]])
        ys = sorted([case[1], case[1] + case[3]])
        check(type(n) is DOMRect, 'class')
        check(list(r.get_rect()) == case, 'normalize() modified its operand')
        for g, w in zip(n.get_coords(), (xs[0], ys[0], xs[1], ys[1])):
            check(close(g, w), 'normalised corners', got=n.tojson())
        check(close(n.width, abs(case[2])) and close(n.height, abs(case[3])),
              'normalised size', got=n.tojson())
        check(n.isvalid(), 'valid')
        t = r.transpose()
        check(list(t.get_rect()) == [case[0], case[1], case[3], case[2]],
              'transpose() exchanges width and height', got=t.tojson())
        check(list(r.translate(2, -3).get_rect())
              == [case[0] + 2, case[1] - 3, case[2], case[3]],
              'translate() keeps the size')
        check(not (r.isvalid() and (case[2] < 0 or case[3] < 0)),
              'negative sizes are not valid')
    return ['flipped'] if case[2] < 0 or case[3] < 0 else []
