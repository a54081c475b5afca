"""G01: matrix operation histories agree with 4x4 matrix algebra."""
import math

import numpy as np

from svgpy import DOMMatrix, DOMMatrixReadOnly

from ..gens import angle, decimals, number, op, st
from ..harness import Registry, check, fail

REG = Registry(
    'G01',
    'Sequences of 1..12 matrix operations (in-place and copying, 2d and 3d, '
    'component setters, multiplication by generated operands) applied to a '
    'generated start matrix and to a numpy 4x4 model; a case is non-trivial '
    'when the final matrix differs from the start and at least two different '
    'operations ran.',
    ['IEEE double arithmetic; agreement to 1e-9 relative to the accumulated '
     'magnitude of the factors'])

coef = number(-20, 20)
start = st.one_of(
    st.just([1, 0, 0, 1, 0, 0]),
    st.lists(coef, min_size=6, max_size=6),
    st.lists(coef, min_size=16, max_size=16),
)
small = number(-5, 5)
opt_y = st.one_of(st.none(), small)

tan_angle = st.one_of(st.sampled_from([0, 30, 45, 60, -45, 135, 180]),
                      decimals(-80, 80, 2))
COMPONENTS = ['a', 'b', 'c', 'd', 'e', 'f'] + [
    'm%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)]
ALIAS = {'a': 'm11', 'b': 'm12', 'c': 'm21', 'd': 'm22', 'e': 'm41',
         'f': 'm42'}

operation = st.one_of(
    op('translate', small, small),
    op('translate', small, small, small),
    op('scale', small, opt_y),
    op('scale', small, opt_y, small, small, small, small),
    op('scale', small, opt_y, st.just(1), small, small),
    op('scale3d', small, small, small, small),
    op('rotate', angle, angle, angle),
    op('rotate', st.just(0), st.just(0), angle),
    op('rotate_axis_angle', small, small, small, angle),
    op('rotate_axis_angle', st.sampled_from([0, 1, -1, 2]),
       st.sampled_from([0, 1, -1, 2]), st.sampled_from([0, 1, -1, 2]), angle),
    op('rotate_from_vector', small, small),
    op('skew_x', tan_angle),
    op('skew_y', tan_angle),
    op('flip_x'),
    op('flip_y'),
    op('multiply', start),
    op('mul', start),
    op('imul', start),
    op('clear', st.sampled_from([None, True, False])),
    op('set', st.sampled_from(COMPONENTS), small),
)
step = st.tuples(st.sampled_from(['self', 'copy', 'readonly']),
                 operation).map(list)


def rows(values):
    """The column-vector 4x4 matrix of 6 or 16 column-major components."""
    if len(values) == 6:
        a, b, c, d, e, f = values
        values = [a, b, 0, 0, c, d, 0, 0, 0, 0, 1, 0, e, f, 0, 1]
    return np.array(values, dtype=float).reshape(4, 4).T


def rot(x, y, z, deg):
    n = math.sqrt(x * x + y * y + z * z)
    if n == 0:
        return np.eye(4)
    x, y, z = x / n, y / n, z / n
    t = math.radians(deg)
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    r = np.eye(3) + math.sin(t) * k + (1 - math.cos(t)) * (k @ k)
    m = np.eye(4)
    m[:3, :3] = r
    return m


def trans(x, y, z=0):
    m = np.eye(4)
    m[:3, 3] = [x, y, z]
    return m


def factor(name, args):
    """Returns (matrix to post-multiply, whether it leaves 2d)."""
    if name == 'translate':
        z = args[2] if len(args) > 2 else 0
        return trans(*args), z == 0
    if name == 'scale':
        sx, sy, sz, ox, oy, oz = (list(args) + [1, 0, 0, 0][len(args) - 2:]
                                  )[:6]
        if sy is None:
            sy = sx
        m = trans(ox, oy, oz) @ np.diag([sx, sy, sz, 1.]) @ trans(
            -ox, -oy, -oz)
        flat = sz == 1 and (oz == 0 or (sx == 1 and sy == 1))
        return m, flat
    if name == 'scale3d':
        s, ox, oy, oz = args
        m = trans(ox, oy, oz) @ np.diag([s, s, s, 1.]) @ trans(-ox, -oy, -oz)
        return m, s == 1
    if name == 'rotate':
        x, y, z = args
        m = rot(0, 0, 1, z) @ rot(0, 1, 0, y) @ rot(1, 0, 0, x)
        return m, x == 0 and y == 0
    if name == 'rotate_axis_angle':
        x, y, z, t = args
        return rot(x, y, z, t), x == 0 and y == 0
    if name == 'rotate_from_vector':
        return rot(0, 0, 1, math.degrees(math.atan2(args[1], args[0]))), True
    if name == 'skew_x':
        m = np.eye(4)
        m[0, 1] = math.tan(math.radians(args[0]))
        return m, True
    if name == 'skew_y':
        m = np.eye(4)
        m[1, 0] = math.tan(math.radians(args[0]))
        return m, True
    if name == 'flip_x':
        return np.diag([-1., 1, 1, 1]), True
    if name == 'flip_y':
        return np.diag([1., -1, 1, 1]), True
    if name in ('multiply', 'mul', 'imul'):
        return rows(args[0]), len(args[0]) == 6
    raise KeyError(name)


def compare(obj, model, is2d, scale, where):
    got = np.array([[getattr(obj, 'm%d%d' % (i, j)) for i in range(1, 5)]
                    for j in range(1, 5)])
    tol = 1e-9 * max(1.0, scale)
    if not np.all(np.abs(got - model) <= tol):
        fail('matrix differs after ' + where, got=got.tolist(),
             expected=model.tolist())
    check(bool(obj.is2d) == is2d, '2d flag differs after ' + where,
          got=obj.is2d, expected=is2d)
    for alias, name in ALIAS.items():
        check(getattr(obj, alias) == getattr(obj, name), 'alias ' + alias)
    check(bool(obj.isidentity) == bool(np.array_equal(got, np.eye(4))),
          'isidentity after ' + where)
    flat = [float(v) for v in got.T.reshape(-1)]
    check([float(v) for v in obj.to_float_array()] == flat,
          'to_float_array after ' + where)
    want = ([flat[i] for i in (0, 1, 4, 5, 12, 13)] if is2d else flat)
    check([float(v) for v in obj.tolist()] == want, 'tolist after ' + where)


def norm(m):
    return float(np.abs(m).sum())


@REG.test(st.fixed_dictionaries({
    'start': start, 'steps': st.lists(step, min_size=1, max_size=12)}),
    quick=5000, thorough=200000)
def history(case):
    values = case['start']
    obj = DOMMatrix(values)
    model = rows(values)
    is2d = len(values) == 6
    scale = norm(model)
    compare(obj, model, is2d, scale, 'construction')
    names = set()
    for mode, (name, *args) in case['steps']:
        names.add(name)
        before = obj.to_float_array()
        before2d = obj.is2d
        if name == 'clear':
            result = obj.clear(args[0])
            check(result is obj, 'clear() returns itself')
            model = np.eye(4)
            is2d = is2d if args[0] is None else args[0]
            scale = norm(model)
            compare(obj, model, is2d, scale, name)
            continue
        if name == 'set':
            attr, value = args
            setattr(obj, attr, value)
            attr = ALIAS.get(attr, attr)
            model = model.copy()
            model[int(attr[2]) - 1, int(attr[1]) - 1] = value
            if (attr not in ALIAS.values()
                    and value != (1 if attr in ('m33', 'm44') else 0)):
                is2d = False
            scale = norm(model) + scale
            compare(obj, model, is2d, scale, name + ' ' + attr)
            continue
        m, flat = factor(name, args)
        model2 = model @ m
        is2d2 = is2d and flat
        scale2 = scale * (norm(m) + 1)
        if name == 'scale' and len(args) == 6:
            scale2 *= (1 + sum(abs(v) for v in args[3:])) ** 2
        if name == 'scale3d':
            scale2 *= (1 + sum(abs(v) for v in args[1:])) ** 2
        real_args = list(args)
        other = None
        if name in ('multiply', 'mul', 'imul'):
            cls = DOMMatrixReadOnly if mode == 'readonly' else DOMMatrix
            other = cls(args[0])
            real_args = [other]
        if mode == 'self' and name not in ('flip_x', 'flip_y'):
            if name == 'mul':
                result = obj = obj * other
            elif name == 'imul':
                same = obj
                obj *= other
                result = obj
                check(obj is same, 'in-place product keeps the object')
            else:
                same = obj
                result = getattr(obj, name + '_self')(*real_args)
                check(result is same, name + '_self() returns itself')
        else:
            source = obj
            if mode == 'readonly':
                source = DOMMatrixReadOnly(obj.tolist())
            if name in ('mul', 'imul'):
                result = source * other
            else:
                result = getattr(source, name)(*real_args)
            check(type(result) is DOMMatrix, name + '() returns a DOMMatrix',
                  got=type(result))
            check(result is not source, name + '() returns a new object')
            check(source.to_float_array() == before
                  and source.is2d == before2d,
                  name + '() modified its operand')
            obj = result
        model, is2d, scale = model2, is2d2, scale2
        compare(obj, model, is2d, scale, mode + ' ' + name)
        if other is not None:
            check([float(v) for v in other.tolist()]
                  == [float(v) for v in args[0]], 'right operand modified')
        if scale > 1e12:
            break
    labels = set()
    if len(names) > 1 and not np.array_equal(model, rows(values)):
        labels.add('2d' if is2d else '3d')
    return labels


@REG.test(st.fixed_dictionaries({
    'a': start, 'b': start,
    'p': st.lists(number(-50, 50), min_size=2, max_size=4)}),
    quick=3000, thorough=100000)
def points(case):
    """Applying a product to a point is applying the factors in turn."""
    a, b = DOMMatrix(case['a']), DOMMatrixReadOnly(case['b'])
    p = case['p']
    full = np.array((list(p) + [0, 1][len(p) - 2:])[:4], dtype=float)
    want = rows(case['a']) @ (rows(case['b']) @ full)
    got = (a * b).transform_point(*p)
    flat = (len(case['a']) == 6 and len(case['b']) == 6
            and full[2] == 0 and full[3] == 1)
    check(len(got) == (2 if flat else 4), 'number of coordinates', got=got)
    tol = 1e-9 * (1 + norm(rows(case['a'])) * norm(rows(case['b']))
                  * (1 + np.abs(full).sum()))
    check(all(abs(g - w) <= tol for g, w in zip(got, want)),
          'product applied to point', got=got, want=want.tolist())
    q = list(b.transform_point(*p))
    if len(q) == 2:
        q += [0, 1]
    r = a.transform_point(*q)
    check(all(abs(g - w) <= tol for g, w in zip(r, want)),
          'factors applied in turn', got=r, want=want.tolist())
    check(a == DOMMatrix(case['a']), 'equality of equal matrices')
    check((a == b) == bool(np.array_equal(rows(case['a']), rows(case['b']))),
          'equality')
    return ['flat' if flat else 'spatial']


@REG.test(st.fixed_dictionaries({
    'tx': small, 'ty': small, 'sx': decimals(0.1, 20, 2),
    'sy': decimals(0.1, 20, 2), 'angle': decimals(-179.9, 179.9, 1),
    'neg': st.booleans()}),
    quick=1500, thorough=50000)
def decompose(case):
    """Translation, scale and angle are read back from their composition."""
    m = DOMMatrix()
    m.translate_self(case['tx'], case['ty'])
    m.rotate_self(rot_z=case['angle'])
    m.scale_self(case['sx'], -case['sy'] if case['neg'] else case['sy'])
    tx, ty = m.get_translate()
    check((tx, ty) == (case['tx'], case['ty']), 'get_translate', got=(tx, ty))
    sx, sy = m.get_scale()
    check(abs(sx - case['sx']) < 1e-9 and abs(sy - case['sy']) < 1e-9,
          'get_scale', got=(sx, sy))
    check(abs(m.get_angle() - case['angle']) < 1e-7, 'get_angle',
          got=m.get_angle())
    check(abs(math.degrees(m.get_angle(degrees=False)) - case['angle'])
          < 1e-7, 'get_angle in radians')
    return ['decomposed'] if case['angle'] else []


@REG.test(st.fixed_dictionaries({
    'angles': st.lists(decimals(-85, 85, 1), min_size=3, max_size=3),
    's': st.lists(decimals(0.1, 9, 2), min_size=3, max_size=3),
    't': st.lists(small, min_size=3, max_size=3)}),
    quick=1000, thorough=30000)
def decompose3d(case):
    ax, ay, az = case['angles']
    m = DOMMatrix(is2d=False)
    m.translate_self(*case['t'])
    m.rotate_self(ax, ay, az)
    got = m.get_angle()
    check(all(abs(g - w) < 1e-7 for g, w in zip(got, (ax, ay, az))),
          'get_angle 3d', got=got)
    m.scale_self(*case['s'])
    got = m.get_scale()
    check(all(abs(g - w) < 1e-9 for g, w in zip(got, case['s'])),
          'get_scale 3d', got=got)
    check(tuple(m.get_translate()) == tuple(case['t']), 'get_translate 3d')
    return ['3d']
