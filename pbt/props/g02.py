"""G02: inverse and serialised forms of matrices."""
import re

import numpy as np

from svgpy import DOMMatrix, DOMMatrixReadOnly

from ..gens import decimals, number, st
from ..harness import Registry, check, fail
from .g01 import rows

REG = Registry(
    'G02',
    'Generated 2D and 3D matrices: inverse laws on those whose condition '
    'number is below 1e8, and every array/dictionary/text form read back; a '
    'case is non-trivial when the matrix is not the identity.',
    ['numpy is trusted for the condition number'])

coef = st.one_of(number(-20, 20), decimals(-1, 1))
values = st.one_of(
    st.lists(coef, min_size=6, max_size=6),
    st.lists(coef, min_size=16, max_size=16))
NAMES = ['m%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)]
TWOD = [('a', 'm11'), ('b', 'm12'), ('c', 'm21'), ('d', 'm22'), ('e', 'm41'),
        ('f', 'm42')]


def array(m):
    return np.array(m.to_float_array(), dtype=float).reshape(4, 4).T


@REG.test(st.fixed_dictionaries({'m': values, 'cls': st.sampled_from(
    ['rw', 'ro']), 'self': st.booleans()}), quick=3000, thorough=100000)
def inverse(case):
    cls = DOMMatrix if case['cls'] == 'rw' else DOMMatrixReadOnly
    m = cls(case['m'])
    a = rows(case['m'])
    sv = np.linalg.svd(a, compute_uv=False)
    if sv[-1] == 0 or sv[0] / sv[-1] > 1e8:
        return []
    cond = sv[0] / sv[-1]
    before = m.tolist()
    if case['self']:
        work = DOMMatrix(case['m'])
        inv = work.invert_self()
        check(inv is work, 'invert_self() returns itself')
    else:
        inv = m.inverse()
        check(type(inv) is DOMMatrix, 'inverse() returns a DOMMatrix')
        check(inv is not m, 'inverse() returns a new object')
    check(m.tolist() == before and m.is2d == (len(before) == 6),
          'inverse() modified its operand')
    check(bool(inv.is2d) == bool(m.is2d), '2D flag of the inverse',
          got=inv.is2d)
    tol = 1e-13 * cond * (1 + cond)
    tol = max(1e-12, min(tol, 1e-3))
    for product, side in ((DOMMatrix(case['m']) * inv, 'right'),
                          (inv * m, 'left')):
        err = np.abs(array(product) - np.eye(4)).max()
        if not err <= tol:
            fail('matrix times its inverse is not the identity ({})'.format(
                side), error=err, tol=tol)
        check(bool(product.is2d) == bool(m.is2d), '2D flag of the product')
    back = inv.inverse()
    scale = np.abs(a).max()
    err = np.abs(array(back) - a).max()
    check(err <= tol * (1 + scale) * 10, 'inverse of the inverse', error=err)
    return ['2d' if m.is2d else '3d', 'self' if case['self'] else 'copy']


@REG.test(st.fixed_dictionaries({'m': values, 'drop': st.lists(
    st.sampled_from(NAMES), max_size=4), 'alias': st.booleans()}),
    quick=3000, thorough=100000)
def forms(case):
    for cls in (DOMMatrix, DOMMatrixReadOnly):
        m = cls(case['m'])
        flat = len(case['m']) == 6
        check(bool(m.is2d) == flat, '2D flag')
        check([float(v) for v in m.tolist()]
              == [float(v) for v in case['m']], 'tolist()')
        for again in (cls(m.tolist()), cls.from_float_array(m.tolist()),
                      cls.from_matrix(m.tojson()), cls(**m.tojson())):
            check(type(again) is cls, 'class of the copy')
            check(again == m and bool(again.is2d) == flat,
                  'round trip', got=again.tolist(), expected=m.tolist())
        full = cls.from_float_array(m.to_float_array())
        check(full == m and not full.is2d, 'sixteen components make it 3D')
        data = m.tojson()
        want = {k: float(getattr(m, k)) for k in NAMES
                if not flat or k in [v for _, v in TWOD]}
        want['is2d'] = flat
        check(data == want, 'tojson()', got=data, expected=want)
        if flat and case['alias']:
            init = {k: getattr(m, v) for k, v in TWOD}
            check(cls(**init) == m, 'alias components')
            both = dict(init)
            both['m11'] = init['a'] + 1
            try:
                cls(**both)
            except ValueError:
                pass
            else:
                fail('contradicting components accepted')
        partial = dict(data)
        ident = {k: 1.0 if k[1] == k[2] else 0.0 for k in NAMES}
        expect = dict(want)
        for k in case['drop']:
            if k in partial:
                del partial[k]
                expect[k] = ident[k]
        check(cls(**partial).tojson() == expect, 'missing components default '
              'to the identity')
        if not flat:
            inferred = {k: v for k, v in data.items() if k != 'is2d'}
            obj = cls(**inferred)
            is2d = all(data[k] == ident[k] for k in NAMES
                       if k not in [v for _, v in TWOD])
            check(bool(obj.is2d) == is2d and obj == m, 'inferred 2D flag')
        text = m.tostring()
        match = re.fullmatch(r'(matrix|matrix3d)\(([^()]*)\)', text)
        check(match is not None and match.group(1) == (
            'matrix' if flat else 'matrix3d'), 'function name', got=text)
        nums = [float(v) for v in match.group(2).split(',')]
        check(len(nums) == len(case['m']) and all(
            abs(g - w) <= 5.1e-7 for g, w in zip(nums, case['m'])),
            'numbers of the text form', got=text)
        check([float(v) for v in m.tostring(' ')[len(match.group(1)) + 1:-1]
               .split(' ')] == nums, 'delimiter')
        reread = cls(nums)
        check(reread.tostring() == text, 'text form is stable', got=text)
    return [] if case['m'] in ([1, 0, 0, 1, 0, 0],) else [
        '2d' if flat else '3d']


@REG.test(st.tuples(
    st.lists(coef, min_size=6, max_size=6),
    st.sampled_from([k for k in NAMES if k not in [v for _, v in TWOD]]),
    st.sampled_from([-2, -1, -.5, -1e-3, 0, 0, 1e-3, .5, .999, 1, 1, 1.5, 7]),
    st.sampled_from([None, True, False])), quick=600, thorough=6000)
def inference(case):
    """One component that 2D matrices leave alone decides the flag."""
    flat, name, value, flag = case
    same = value == (1 if name[1] == name[2] else 0)
    for cls in (DOMMatrix, DOMMatrixReadOnly):
        init = {v: x for (_, v), x in zip(TWOD, flat)}
        init[name] = value
        if flag is not None:
            init['is2d'] = flag
        try:
            m = cls.from_matrix(init)
        except ValueError:
            check(flag is True and not same, 'rejected', init=init)
            continue
        check(flag is not True or same, 'a 2D matrix with a 3D component',
              init=init)
        check(bool(m.is2d) == (same if flag is None else flag), '2D flag',
              init=init)
        check(float(getattr(m, name)) == float(value), name)
    return ['2d' if same else '3d']


@REG.test(st.lists(coef, max_size=20), quick=300, thorough=3000)
def sizes(case):
    """Only 6 and 16 components are accepted."""
    try:
        m = DOMMatrix(case)
    except TypeError:
        check(len(case) not in (6, 16), 'rejected', case=case)
        return ['rejected']
    check(len(case) in (6, 16), 'accepted', case=case)
    check(list(m.tolist()) == [float(v) for v in case], 'values')
    return ['accepted']
