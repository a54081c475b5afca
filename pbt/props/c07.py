"""C07: CSS unit values convert, compare and type consistently."""
import math

from svgpy.css import CSS
from svgpy.css.types import CSSMathClamp, CSSMathInvert, CSSMathMax, \
    CSSMathMin, CSSMathNegate, CSSMathProduct, CSSMathSum, CSSNumericValue, \
    CSSUnitValue

from .. import mathmodel as model
from ..gens import st
from ..harness import Registry, check, fail

REG = Registry(
    'C07',
    'Unit values over every unit with dyadic numbers; conversions between '
    'all pairs of units, comparisons, histories of assignments to a parsed '
    'value, sums of compatible units, and expression trees (sum, product, '
    'min, max, clamp, negate, invert) whose type is compared with a '
    'reference type algebra and with the type of permuted operands. A case '
    'is non-trivial when two different units or an operator with two or '
    'more operands are involved.',
    ['numbers within 1e-9 of each other compare as equal (documented '
     'tolerance), so that nearly equal numbers are not generated',
     'a number may be added to a percentage (pinned by a test), which is '
     'left out of the type algebra'])

number = st.integers(-4000, 4000).map(lambda n: n / 64) \
    | st.sampled_from([0.0, 1.0, -1.0, 1e6, -1e6, 0.125])
unit = st.sampled_from(model.UNITS)
groups = [sorted(v) for v in model.BASES.values()]
same_group = st.sampled_from(groups).flatmap(
    lambda g: st.tuples(st.sampled_from(g), st.sampled_from(g)))


def close(a, b, rel=1e-9, tiny=1e-12):
    return math.isclose(a, b, rel_tol=rel, abs_tol=tiny)


def spelled(u, upper):
    return u.upper() if upper else u


@REG.test(st.tuples(number, same_group, st.booleans()), quick=3000)
def convert(case):
    v, (u1, u2), upper = case
    a = CSSUnitValue(v, spelled(u1, upper))
    check(a.value == v and a.unit == u1, 'constructor', unit=a.unit)
    b = a.to(spelled(u2, upper))
    want = v * model.SIZE[u1] / model.SIZE[u2]
    check(b.unit == u2 and close(b.value, want), 'conversion', value=v,
          source=u1, target=u2, got=b.value, want=want)
    c = b.to(u1)
    check(c.unit == u1 and close(c.value, v), 'conversion back', value=v,
          units=(u1, u2), got=c.value)
    check(a.value == v and a.unit == u1, 'conversion changed the source')
    check(a == b and b == a and not a != b, 'a converted value is equal',
          value=v, units=(u1, u2))
    check(a.type() == b.type(), 'types of compatible units')
    check(close(CSSMathSum(a).to(u2).value, want), 'sum of one converts alike')
    return [] if u1 == u2 or v == 0 else ['convert:' + u1 + '>' + u2]


def comparable(u1, u2):
    if u1 == u2:
        return True
    b1, b2 = model.UNIT_BASE[u1], model.UNIT_BASE[u2]
    return b1 == b2 and b1 in model.BASES and u1 in model.BASES[b1] \
        and u2 in model.BASES[b2]


@REG.test(st.tuples(number, unit, number, unit,
                    st.sampled_from(['near', 'free', 'free'])), quick=3000)
def order(case):
    v1, u1, v2, u2, mode = case
    ok = comparable(u1, u2)
    if ok and mode == 'near':
        # almost the same quantity, told apart by one part in a thousand
        v2 = v1 * model.SIZE[u1] / model.SIZE[u2] * (1 + (v2 > 0) / 1000)
    a, b = CSSUnitValue(v1, u1), CSSUnitValue(v2, u2)
    if not ok:
        for op in ('__eq__', '__lt__', '__le__', '__gt__', '__ge__', 'to'):
            try:
                got = getattr(a, op)(u2 if op == 'to' else b)
            except ValueError:
                continue
            fail('incompatible units were accepted', op=op, a=a, b=b,
                 got=got)
        return ['incompatible']
    x, y = v1 * model.SIZE[u1], v2 * model.SIZE[u2]
    if close(x, y, 1e-7):
        if not close(x, y, 1e-10):
            return []
        want = (False, True, True, False, True)
    else:
        want = (x < y, x <= y, x == y, x > y, x >= y)
    got = (a < b, a <= b, a == b, a > b, a >= b)
    check(got == want, 'order', a=a, b=b, got=got, want=want)
    got = (b > a, b >= a, b == a, b < a, b <= a)
    check(got == want, 'order seen from the other side', a=a, b=b, got=got,
          want=want)
    if u2 == 'number' and u1 == 'number':
        got = (a < v2, a <= v2, a == v2, a > v2, a >= v2)
        check(got == want, 'order with a Python number', a=a, b=v2)
    return ['order', 'two-units'] if u1 != u2 else ['order']


SUFFIX = {'number': '', 'percent': '%'}


@REG.test(st.tuples(number, unit, st.lists(number, max_size=3)), quick=1500)
def text(case):
    v, u, history = case
    suffix = SUFFIX.get(u, u)
    created = CSSUnitValue(v, u)
    parsed = CSSNumericValue.parse('{}{}'.format(v, suffix))
    made = getattr(CSS, 'in_' if u == 'in' else u)(v)
    for x in (created, parsed, made):
        check(isinstance(x, CSSUnitValue) and x.value == v and x.unit == u,
              'value and unit', value=v, unit=u, got=x)
    labels = ['text:' + u]
    for n in history:
        for x in (created, parsed, made):
            x.value = n
            check(x.value == n and x.unit == u, 'assigned value')
            again = CSSNumericValue.parse(x.tostring())
            check(close(again.value, n, tiny=6e-7) and again.unit == u,
                  'text after assignment', text=x.tostring(), value=n)
        labels.append('assigned')
    return labels if history else []


@st.composite
def sums(draw):
    pool = draw(st.sampled_from([model.UNITS, ['px', 'em', 'in', 'vw'],
                                 ['px', 'percent', 'ch', 'pt'],
                                 ['deg', 'turn', 'rad', 'grad'],
                                 ['px', 'cm', 'mm', 'q', 'in', 'pt', 'pc']]))
    terms = draw(st.lists(st.tuples(number, st.sampled_from(pool)),
                          min_size=1, max_size=5))
    units = draw(st.lists(st.sampled_from(pool), max_size=4, unique=True))
    return [terms, units]


@REG.test(sums(), quick=2500)
def to_sum(case):
    terms, units = case
    tree = ['sum'] + [['u', v, u] for v, u in terms]
    try:
        type_ = model.type_of(tree)
    except model.Mixed:
        return []
    try:
        value = CSSMathSum(*[CSSUnitValue(v, u) for v, u in terms])
    except ValueError:
        check(type_ is None, 'a sum of compatible units was refused',
              terms=terms)
        return ['incompatible']
    check(type_ is not None, 'a sum of incompatible units was accepted',
          terms=terms)
    # without units: one term for each group of convertible units
    totals = {}
    for v, u in terms:
        base = model.UNIT_BASE[u]
        key = model.CANONICAL[base] if base in model.BASES \
            and u in model.BASES[base] else u
        totals[key] = totals.get(key, 0) + v * model.SIZE[u] \
            / model.SIZE[key]
    result = value.to_sum()
    got = [(x.unit, x.value) for x in result.values]
    check([u for u, _ in got] == sorted(totals), 'units of to_sum()',
          terms=terms, got=got)
    for u, v in got:
        check(close(v, totals[u], tiny=1e-6), 'to_sum()', terms=terms,
              got=got, want=totals)
    # to one unit
    for u in set(units) | set(totals):
        fits = len(totals) == 1 and comparable(next(iter(totals)), u)
        try:
            single = value.to(u)
        except ValueError:
            check(not fits, 'to() refused', terms=terms, unit=u)
            continue
        check(fits, 'to() accepted', terms=terms, unit=u, got=single)
        key = next(iter(totals))
        check(single.unit == u and close(
            single.value * model.SIZE[u], totals[key] * model.SIZE[key],
            tiny=1e-5), 'to()', terms=terms, unit=u, got=single)
    # with units
    if units:
        groups_ = {}
        for u in units:
            base = model.UNIT_BASE[u]
            key = model.CANONICAL[base] if base in model.BASES \
                and u in model.BASES[base] else u
            groups_.setdefault(key, []).append(u)
        fits = set(totals) <= set(groups_)
        # the units asked for must themselves add up
        try:
            fits = fits and model.type_of(
                ['sum'] + [['u', 1, u] for u in units]) is not None
        except model.Mixed:
            return ['to_sum']
        try:
            result = value.to_sum(*units)
        except ValueError:
            check(not fits, 'to_sum(units) refused', terms=terms,
                  units=units)
            return ['to_sum', 'refused']
        check(fits, 'to_sum(units) accepted', terms=terms, units=units)
        got = [(x.unit, x.value) for x in result.values]
        check([u for u, _ in got] == units, 'units of to_sum(units)',
              units=units, got=got)
        for key, members in groups_.items():
            total = sum(v * model.SIZE[u] for u, v in got if u in members)
            check(close(total, totals.get(key, 0) * model.SIZE[key],
                        tiny=1e-5), 'to_sum(units)', terms=terms,
                  units=units, got=got)
    return ['to_sum', 'terms:%d' % len(totals)] if len(terms) > 1 else []


# a few units of each kind, so that operands often fit together
leaf = st.tuples(st.just('u'), st.integers(1, 9),
                 st.sampled_from(['px', 'px', 'em', 'in', 'percent',
                                  'percent', 'number', 's', 'deg', 'hz',
                                  'dppx', 'fr'])).map(list)


def extend(children):
    several = st.lists(children, min_size=1, max_size=3)
    return st.one_of(
        several.map(lambda x: ['sum'] + x),
        several.map(lambda x: ['product'] + x),
        several.map(lambda x: ['product'] + x),
        several.map(lambda x: ['min'] + x),
        several.map(lambda x: ['max'] + x),
        st.tuples(children, children, children).map(
            lambda x: ['clamp'] + list(x)),
        children.map(lambda x: ['neg', x]),
        children.map(lambda x: ['inv', x]))


tree = st.recursive(leaf, extend, max_leaves=7)
CLASSES = {'sum': CSSMathSum, 'product': CSSMathProduct, 'min': CSSMathMin,
           'max': CSSMathMax, 'clamp': CSSMathClamp, 'neg': CSSMathNegate,
           'inv': CSSMathInvert}


def type_tuple(value):
    t = value.type()
    return ({k: v for k, v in t.items() if k != 'percent_hint' and v},
            t.percent_hint)


def build(e, made):
    """Builds bottom up; None when the types do not fit, checking each
    node against the model."""
    if e[0] == 'u':
        value = CSSUnitValue(e[1], e[2])
    else:
        args = [build(x, made) for x in e[1:]]
        if any(x is None for x in args):
            return None
        want = model.type_of(e)
        try:
            value = CLASSES[e[0]](*args)
        except ValueError:
            check(want is None, 'operands that fit were refused', tree=e)
            return None
        check(want is not None, 'operands that do not fit were accepted',
              tree=e, got=value.type())
    made.append((e, value))
    return value


@REG.test(st.tuples(tree, st.permutations([0, 1, 2])), quick=4000)
def types(case):
    e, order_ = case
    made = []
    try:
        value = build(e, made)
        # every node, after all of them were made
        for x, v in made:
            check(type_tuple(v) == model.type_of(x), 'type', tree=x,
                  got=v.type(), want=model.type_of(x))
        if value is not None and e[0] in ('sum', 'product', 'min', 'max'):
            args = list(e[1:])
            args = [args[i] for i in order_ if i < len(args)]
            other = [e[0]] + args
            try:
                want = model.type_of(other)
            except model.Mixed:
                want = None
            if want is not None:
                check(want == model.type_of(e), 'model')
                check(type_tuple(build(other, [])) == type_tuple(value),
                      'type depends on the order of operands', tree=e,
                      other=other)
    except model.Mixed:
        return []
    if e[0] == 'u':
        return []
    labels = ['top:' + e[0]]
    if value is None:
        labels.append('refused')
    else:
        powers, hint = type_tuple(value)
        if hint:
            labels.append('hint')
        if len(powers) > 1:
            labels.append('compound')
    return labels


FACTORY = {'in': 'in_'}


@REG.test(st.tuples(unit, number, st.integers(-3, 3)), quick=600)
def factories(case):
    """CSS.px(n) is n pixels, and the type of a value is what it says."""
    u, v, power = case
    a = getattr(CSS, FACTORY.get(u, u))(v)
    check(isinstance(a, CSSUnitValue) and a.value == v and a.unit == u,
          'the value made for a unit', unit=u, got=(a.value, a.unit))
    check(a == CSSUnitValue(v, u), 'the value made for a unit is the value')
    t = a.type()
    powers = type_tuple(a)[0]
    base = model.UNIT_BASE[u]
    for name in ('angle', 'flex', 'frequency', 'length', 'percent',
                 'resolution', 'time'):
        check((getattr(t, name) or 0) == (1 if name == base else 0),
              'the power of a base type', unit=u, name=name,
              got=getattr(t, name), powers=dict(powers))
        setattr(t, name, power)
        check(getattr(t, name) == power and t[name] == power,
              'the power that was set', name=name, got=getattr(t, name))
    t.percent_hint = 'length'
    check(t.percent_hint == 'length', 'the hint that was set')
    check(type_tuple(a) == type_tuple(CSSUnitValue(v, u)),
          'the type of a value is its own')
    return [u]
