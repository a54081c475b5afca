"""L01: SVGLength arithmetic, conversion and ordering."""
from fractions import Fraction as F

from svgpy import SVGLength

from ..gens import decimals, st
from ..harness import Registry, check, fail

REG = Registry(
    'L01',
    'Pairs of lengths over all absolute length units (and no unit) or over '
    'the resolution units, and histories of up to 8 in-place operations, '
    'compared with exact rational arithmetic on the CSS unit table. A case '
    'is non-trivial when two different units meet.',
    ['results within 1e-9 relative; comparisons closer than 1e-7 relative '
     'are not judged (the library compares with a tolerance of 1e-9)'])

PX = {None: F(1), 'px': F(1), 'in': F(96), 'cm': F(9600, 254),
      'mm': F(960, 254), 'q': F(2400, 2540), 'pt': F(96, 72), 'pc': F(16)}
DPPX = {'dppx': F(1), 'dpi': F(1, 96), 'dpcm': F(254, 9600)}
TABLE = dict(PX)
TABLE.update(DPPX)

num = st.one_of(st.integers(-20, 20), decimals(-1000, 1000),
                decimals(-5, 5), st.sampled_from([0, 1, -1, 96, 72, 25.4]))
px_unit = st.sampled_from(list(PX))
dp_unit = st.sampled_from(list(DPPX))
length = st.tuples(num, px_unit).map(list)
resolution = st.tuples(num, dp_unit).map(list)
scalar = st.one_of(st.integers(-5, 5), decimals(-4, 4, 2))


def frac(x):
    return F(str(x))


def make(v, spelling=0):
    n, unit = v
    u = unit or ''
    if spelling == 1:
        return SVGLength('{}{}'.format(n, u.upper()))
    if spelling == 2:
        return SVGLength(' {}{} '.format('%+e' % n, u)) if abs(
            float('%+e' % n) - n) == 0 else SVGLength('{}{}'.format(n, u))
    if spelling == 3 and unit:
        return SVGLength(n, unit)
    if spelling == 4 and not unit:
        return SVGLength(n)
    return SVGLength('{}{}'.format(n, u))


def base(v):
    return frac(v[0]) * TABLE[v[1]]


def near(got, want, what, scale=0):
    tol = 1e-9 * max(1, abs(float(want)), scale)
    if not abs(got - float(want)) <= tol:
        fail(what, got=got, expected=float(want))


def look(obj, value, unit, what):
    """obj holds `value` (in base units) in `unit`."""
    check(obj.unit == unit, what + ': unit', got=obj.unit, expected=unit)
    family = PX if unit in PX else DPPX
    for u, k in family.items():
        near(obj.value(u), value / k, '{} in {}'.format(what, u))


pair = st.one_of(st.tuples(length, length), st.tuples(length, length),
                 st.tuples(resolution, resolution))


@REG.test(st.fixed_dictionaries({'p': pair, 's': st.integers(0, 4),
                                 'k': scalar}), quick=3000, thorough=200000)
def binary(case):
    va, vb = case['p']
    a, b = make(va, case['s']), make(vb)
    x, y = base(va), base(vb)
    look(a, x, va[1], 'the length')
    unit = va[1] if va[1] is not None else vb[1]
    look(a + b, x + y, unit, 'a + b')
    look(a - b, x - y, unit, 'a - b')
    look(-a, -x, va[1], '-a')
    look(+a, x, va[1], '+a')
    look(abs(a), abs(x), va[1], 'abs(a)')
    k = frac(case['k'])
    look(a * case['k'], x * k, va[1], 'a * k')
    look(case['k'] * a, x * k, va[1], 'k * a')
    if k:
        look(a / case['k'], x / k, va[1], 'a / k')
    if vb[0]:
        q = a / b
        near(q.value(unit), (x / TABLE[unit]) / (y / TABLE[unit]),
             'a / b', 1)
    look(a, x, va[1], 'the left operand after the operations')
    look(b, y, vb[1], 'the right operand after the operations')
    close = abs(x - y) < 1e-7 * max(1, abs(x), abs(y))
    if x == y:
        check(a == b and b == a and not a != b, 'equal lengths', got=(va, vb))
        check(a <= b and a >= b and not a < b and not a > b,
              'order of equal lengths')
    elif not close:
        check(not a == b and a != b, 'different lengths')
        check((a < b) == (x < y) and (a <= b) == (x < y)
              and (a > b) == (x > y) and (a >= b) == (x > y),
              'order of lengths', got=(va, vb))
    return ['mixed'] if va[1] != vb[1] else []


step = st.one_of(
    st.tuples(st.sampled_from(['+=', '-=']), length).map(list),
    st.tuples(st.sampled_from(['*=', '/=']),
              scalar.filter(lambda v: v != 0)).map(list),
    st.tuples(st.just('convert'), px_unit).map(list),
    st.tuples(st.just('set'), length).map(list),
    st.tuples(st.just('mix'), resolution).map(list),
)


@REG.test(st.fixed_dictionaries({
    'start': length, 'steps': st.lists(step, min_size=1, max_size=8)}),
    quick=2200, thorough=150000)
def history(case):
    a = make(case['start'])
    value, unit = base(case['start']), case['start'][1]
    labels = set()
    other = make(case['start'])
    for name, arg in case['steps']:
        before = a
        if name in ('+=', '-='):
            b = make(arg)
            if unit != arg[1]:
                labels.add('mixed')
            if unit is None:
                unit = arg[1]
            if name == '+=':
                a += b
                value += base(arg)
            else:
                a -= b
                value -= base(arg)
            look(b, base(arg), arg[1], 'the right operand')
        elif name in ('*=', '/='):
            k = frac(arg)
            if name == '*=':
                a *= arg
                value *= k
            else:
                a /= arg
                value /= k
        elif name == 'convert':
            a.convert(arg)
            if unit != arg:
                labels.add('convert')
            unit = arg
        elif name == 'set':
            a.new_value(*arg)
            value, unit = base(arg), arg[1]
        else:
            for op in ('+', '<', '==', 'convert'):
                try:
                    if op == '+':
                        a + make(arg)
                    elif op == '<':
                        a < make(arg)
                    elif op == '==':
                        a == make(arg)
                    else:
                        a.convert(arg[1])
                except ValueError:
                    continue
                fail('lengths and resolutions cannot be mixed', op=op)
            labels.add('refused')
        check(a is before, 'in-place operations keep the object')
        look(a, value, unit, 'the length after ' + name)
        if abs(value) > 1e12:
            break
    look(other, base(case['start']), case['start'][1],
         'an independent length')
    return labels


@REG.test(st.fixed_dictionaries({
    'v': st.one_of(length, resolution), 'u': px_unit, 's': st.integers(0, 4)}),
    quick=2000, thorough=100000)
def text(case):
    v = case['v']
    a = make(v, case['s'])
    t = a.tostring()
    check(t.endswith(v[1] or ''), 'unit of the text', got=t)
    back = SVGLength(t)
    look(back, base(v), v[1], 'read back from ' + repr(t))
    labels = []
    if v[1] in PX and case['u'] is not None:
        u = case['u']
        t = a.tostring(u)
        want = base(v) / TABLE[u]
        number = t[:len(t) - len(u or '')]
        check(abs(F(number) - want) <= F(6, 10 ** 7),
              'text in another unit', got=t, expected=float(want))
        back = SVGLength(t)
        check(back.unit == u, 'unit of the text in another unit', got=t)
        if u != v[1]:
            labels.append('converted')
    s = str(a)
    got = SVGLength(s)
    check(abs(got.value(v[1]) - v[0]) <= 1e-5 * max(1, abs(v[0])),
          'str()', got=s)
    look(a, base(v), v[1], 'the length after writing it')
    return labels or ['text']


KINDS = {'absolute': list(PX), 'relative': [
    '%', 'em', 'ex', 'cap', 'ch', 'ic', 'rem', 'vw', 'vh', 'vmin', 'vmax'],
    'resolution': list(DPPX)}


@REG.test(st.fixed_dictionaries({
    'n': num, 'kind': st.sampled_from(list(KINDS)), 'i': st.integers(0, 99),
    'up': st.booleans(), 'p': st.integers(0, 4)}), quick=600, thorough=20000)
def kinds(case):
    """Every unit is of one kind only, in either case."""
    units = KINDS[case['kind']]
    u = units[case['i'] % len(units)]
    name = u or ''
    a = SVGLength('{}{}'.format(case['n'], name.upper() if case['up']
                                else name))
    check(a.unit == u, 'unit of the length', got=a.unit)
    for kind, got in (('absolute', a.isabsolute()),
                      ('relative', a.isrelative()),
                      ('resolution', a.isresolution())):
        check(bool(got) == (kind == case['kind']), 'is the unit ' + kind,
              unit=u, got=got)
    if not case['n'] and not case['p']:
        return []
    b = a ** case['p']
    if case['kind'] != 'relative':
        want = frac(case['n']) ** case['p']
        near(b.value(u), want, 'power', abs(float(want)))
        near(a.value(u), frac(case['n']), 'the length after the power')
    check(b.unit == u, 'unit of the power')
    return ['mixed'] if case['up'] and name else []
