"""Reference model of CSS numeric values: a type algebra and a numeric
evaluator for expression trees written as nested lists:

['u', value, unit], ['sum', ...], ['product', ...], ['min', ...],
['max', ...], ['clamp', min, val, max], ['neg', a], ['inv', a]
"""
import math

BASES = {
    'length': {'px': 1.0, 'in': 96.0, 'cm': 96 / 2.54, 'mm': 9.6 / 2.54,
               'q': 2.4 / 2.54, 'pt': 4 / 3, 'pc': 16.0},
    'angle': {'deg': 1.0, 'grad': 0.9, 'rad': 180 / math.pi, 'turn': 360.0},
    'time': {'ms': 1.0, 's': 1000.0},
    'frequency': {'hz': 1.0, 'khz': 1000.0},
    'resolution': {'dppx': 1.0, 'dpi': 1 / 96, 'dpcm': 2.54 / 96},
}
CANONICAL = {'length': 'px', 'angle': 'deg', 'time': 'ms',
             'frequency': 'hz', 'resolution': 'dppx'}
RELATIVE = ['em', 'ex', 'ch', 'ic', 'rem', 'lh', 'rlh', 'vw', 'vh', 'vi',
            'vb', 'vmin', 'vmax']
UNIT_BASE = {'number': None, 'percent': 'percent', 'fr': 'flex'}
for _base, _units in BASES.items():
    for _unit in _units:
        UNIT_BASE[_unit] = _base
for _unit in RELATIVE:
    UNIT_BASE[_unit] = 'length'
UNITS = sorted(UNIT_BASE)
# a made-up size for each unit, so that any expression has a number
SIZE = {'number': 1.0, 'percent': 0.37, 'fr': 3.1}
for _i, _unit in enumerate(RELATIVE):
    SIZE[_unit] = 5.0 + 1.7 * _i
for _units in BASES.values():
    SIZE.update(_units)


class Mixed(Exception):
    """A number met a percentage in a sum (library convention)."""


class Undefined(Exception):
    """Division by zero."""


def _hint(type_, hint):
    powers, _ = type_
    powers = dict(powers)
    moved = powers.pop('percent', 0)
    powers[hint] = powers.get(hint, 0) + moved
    return {k: v for k, v in powers.items() if v}, hint


def _unify(a, b):
    if a[1] and b[1] and a[1] != b[1]:
        return None
    if a[1] and not b[1]:
        b = _hint(b, a[1])
    elif b[1] and not a[1]:
        a = _hint(a, b[1])
    return a, b


def add(a, b):
    both = _unify(a, b)
    if both is None:
        return None
    a, b = both
    if a[0] == b[0]:
        return a[0], a[1] or b[1]
    if {} in (a[0], b[0]) and {'percent': 1} in (a[0], b[0]):
        raise Mixed()
    for base in list(BASES) + ['flex']:
        if base not in a[0] and base not in b[0]:
            continue
        c, d = _hint(a, base), _hint(b, base)
        if c[0] == d[0]:
            return c
    return None


def multiply(a, b):
    both = _unify(a, b)
    if both is None:
        return None
    a, b = both
    powers = dict(a[0])
    for k, v in b[0].items():
        powers[k] = powers.get(k, 0) + v
    return {k: v for k, v in powers.items() if v}, a[1] or b[1]


def type_of(e):
    """(powers, percent hint), or None when the types do not fit."""
    if e[0] == 'u':
        base = UNIT_BASE[e[2]]
        return ({} if base is None else {base: 1}), None
    types = [type_of(x) for x in e[1:]]
    if any(t is None for t in types):
        return None
    if e[0] == 'neg':
        return types[0]
    if e[0] == 'inv':
        return {k: -v for k, v in types[0][0].items()}, types[0][1]
    result = types[0]
    for t in types[1:]:
        result = (multiply if e[0] == 'product' else add)(result, t)
        if result is None:
            return None
    return result


def value_of(e):
    kind = e[0]
    if kind == 'u':
        return e[1] * SIZE[e[2]]
    v = [value_of(x) for x in e[1:]]
    if kind == 'sum':
        return math.fsum(v)
    if kind == 'product':
        return math.prod(v)
    if kind == 'min':
        return min(v)
    if kind == 'max':
        return max(v)
    if kind == 'clamp':
        return max(v[0], min(v[1], v[2]))
    if kind == 'neg':
        return -v[0]
    if abs(v[0]) < 1e-6:
        raise Undefined()
    return 1 / v[0]


def scale_of(e):
    """An upper bound for the magnitude of the intermediate results."""
    kind = e[0]
    if kind == 'u':
        return abs(e[1] * SIZE[e[2]])
    if kind == 'inv':
        # relative error of the operand carries over
        v = abs(value_of(e[1]))
        return scale_of(e[1]) / v / v if v else math.inf
    v = [scale_of(x) for x in e[1:]]
    if kind == 'sum':
        return sum(v)
    if kind == 'product':
        return math.prod(v)
    return max(v)


def leaves(e):
    if e[0] == 'u':
        yield e
    else:
        for x in e[1:]:
            yield from leaves(x)


def nodes(e):
    yield e
    if e[0] != 'u':
        for x in e[1:]:
            yield from nodes(x)
