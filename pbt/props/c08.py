"""C08: math expressions keep their value through parse, algebra and text."""
import math

from svgpy.css.types import CSSMathClamp, CSSMathInvert, CSSMathMax, \
    CSSMathMin, CSSMathNegate, CSSMathOperator, CSSMathProduct, CSSMathSum, \
    CSSNumericValue, CSSUnitValue

from .. import mathmodel as model
from ..gens import st
from ..harness import Registry, check, fail

REG = Registry(
    'C08',
    'Math expressions of the css-values grammar (sums, products, quotients, '
    'parentheses, nested calc(), min(), max() and clamp()) in varied spelling '
    'read by CSSNumericValue.parse(), expression trees built with the CSSMath '
    'classes and written and read again, chains of add(), and broken '
    'expressions. Every unit is given a size, so that any expression has a '
    'number; the reference evaluator works on the generated tree. A case is '
    'non-trivial when it has two or more operators.',
    ['division by (nearly) zero is left out', 'numbers are written with six '
     'decimals, so that dyadic numbers are generated', 'a sum of number and '
     'percentage is left out (see C07)'])

CLASSES = {'sum': CSSMathSum, 'product': CSSMathProduct, 'min': CSSMathMin,
           'max': CSSMathMax, 'clamp': CSSMathClamp, 'neg': CSSMathNegate,
           'inv': CSSMathInvert}
OPERATORS = {'sum': CSSMathOperator.SUM, 'product': CSSMathOperator.PRODUCT,
             'min': CSSMathOperator.MIN, 'max': CSSMathOperator.MAX,
             'clamp': CSSMathOperator.CLAMP, 'neg': CSSMathOperator.NEGATE,
             'inv': CSSMathOperator.INVERT}
KIND = {cls: kind for kind, cls in CLASSES.items()}


def read(value):
    """The tree of a CSSNumericValue, by its public attributes."""
    if isinstance(value, CSSUnitValue):
        return ['u', value.value, value.unit]
    kind = KIND[type(value)]
    check(value.operator == OPERATORS[kind], 'operator', kind=kind)
    if kind == 'clamp':
        args = [value.min, value.val, value.max]
    elif kind in ('neg', 'inv'):
        args = [value.value]
    else:
        args = value.values
    return [kind] + [read(x) for x in args]


def build(e):
    if e[0] == 'u':
        return CSSUnitValue(e[1], e[2])
    return CLASSES[e[0]](*[build(x) for x in e[1:]])


def number_of(e):
    """(value, tolerance) or None when it cannot be compared."""
    try:
        value, scale = model.value_of(e), model.scale_of(e)
    except (model.Undefined, OverflowError):
        return None
    if not (math.isfinite(value) and scale < 1e12):
        return None
    return value, 1e-8 * scale + 1e-12


def type_tuple(value):
    t = value.type()
    return ({k: v for k, v in t.items() if k != 'percent_hint' and v},
            t.percent_hint)


def same(value, want_tree, message, **info):
    """`value` has the type and number of the tree."""
    check(type_tuple(value) == model.type_of(want_tree), message + ': type',
          got=value.type(), want=model.type_of(want_tree), **info)
    want = number_of(want_tree)
    got = number_of(read(value))
    if want is None or got is None:
        return False
    check(abs(got[0] - want[0]) <= want[1] + got[1], message + ': value',
          got=got[0], want=want[0], tree=read(value), **info)
    total = value.create_sum_value()
    if total is not None:
        number = 0
        for v, units in total:
            x = float(v)
            for u, power in units.items():
                x *= model.SIZE[u] ** power
            number += x
        check(abs(number - want[0]) <= want[1] + got[1],
              message + ': sum value', got=number, want=want[0], sum=total,
              **info)
    return True


# typed generation, so that most expressions are valid: a tree of the type
# <unit> or of <number>
dyadic = st.integers(-640, 640).map(lambda n: n / 16)
positive = st.sampled_from([1, 2, 3, 4, 0.5, 0.25, 8, 10, -2, -4])
POOLS = [['px'], ['px', 'in', 'pt'], ['px', 'em', 'percent'], ['percent'],
         ['deg', 'turn'], ['s', 'ms'], ['number'], ['dppx', 'dpi'],
         ['hz', 'khz'], ['em', 'vw', 'rem', 'px'], ['fr']]


@st.composite
def grammar(draw, pool=None, depth=2):
    """A tree as the grammar reads it: 'group' is a pair of parentheses,
    'chain' and 'terms' keep operators in the order of writing."""
    if pool is None:
        pool = draw(st.sampled_from(POOLS))

    def leaf(units):
        return ['u', draw(dyadic), draw(st.sampled_from(units))]

    def value(units, d):
        kind = draw(st.sampled_from(
            ['leaf'] * 3 + (['group', 'group', 'calc', 'min', 'max',
                             'clamp'] if d > 0 else [])))
        if kind == 'leaf':
            return leaf(units)
        if kind in ('group', 'calc'):
            return [kind, terms(units, d - 1)]
        n = 3 if kind == 'clamp' else draw(st.integers(1, 3))
        return [kind] + [terms(units, d - 1) for _ in range(n)]

    def product(units, d):
        n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
        at = draw(st.integers(0, n - 1))
        ops, values = [], []
        for i in range(n):
            op = '*'
            if i > 0 and i != at:
                op = draw(st.sampled_from('*/'))
            if i == at:
                values.append(value(units, d))
            elif op == '/':
                if draw(st.booleans()):
                    values.append(['u', draw(positive), 'number'])
                else:
                    values.append(value(['number'], d - 1))
            else:
                values.append(value(['number'], d - 1))
            ops.append(op)
        return ['chain', ops, values]

    def terms(units, d):
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
        ops = [draw(st.sampled_from('+-')) for _ in range(n)]
        return ['terms', ops, [product(units, d) for _ in range(n)]]

    top = draw(st.sampled_from(['calc', 'calc', 'calc', 'min', 'max',
                                'clamp']))
    n = {'calc': 1, 'clamp': 3}.get(top) or draw(st.integers(1, 3))
    return [top] + [terms(pool, depth) for _ in range(n)]


def meaning(g):
    """The model tree of a grammar tree, associating to the left."""
    if g[0] == 'u':
        return g
    if g[0] in ('group', 'calc'):
        return meaning(g[1])
    if g[0] in ('terms', 'chain'):
        result = meaning(g[2][0])
        for op, x in zip(g[1][1:], g[2][1:]):
            x = meaning(x)
            if op == '-':
                x = ['neg', x]
            elif op == '/':
                x = ['inv', x]
            result = ['sum' if g[0] == 'terms' else 'product', result, x]
        return result
    return [g[0]] + [meaning(x) for x in g[1:]]


def operators(g):
    if g[0] == 'u':
        return 0
    if g[0] in ('terms', 'chain'):
        return len(g[1]) - 1 + sum(operators(x) for x in g[2])
    return (g[0] != 'group') + sum(operators(x) for x in g[1:])


SUFFIX = {'number': '', 'percent': '%'}


def write(g, style):
    """`style` is a list of small integers that choose the spelling."""
    state = [0]

    def pick(options):
        state[0] += 1
        return options[style[state[0] % len(style)] % len(options)]

    def go(g):
        if g[0] == 'u':
            v, unit = g[1], SUFFIX.get(g[2], g[2])
            number = pick([str, repr, '{:.4f}'.format, '{:g}'.format,
                           '{:+g}'.format])(v)
            if v == int(v) and pick([0, 1]):
                number = str(int(v))
            return number + pick([str, str, str.upper])(unit)
        if g[0] == 'group':
            return pick(['({})', '( {} )', '({} )']).format(go(g[1]))
        if g[0] == 'terms':
            s = go(g[2][0])
            for op, x in zip(g[1][1:], g[2][1:]):
                s += pick([' {} ', ' {} ', '  {}\t', ' {}\n ']).format(op)
                s += go(x)
            return s
        if g[0] == 'chain':
            s = go(g[2][0])
            for op, x in zip(g[1][1:], g[2][1:]):
                s += pick([' {} ', '{}', '{} ', ' {}']).format(op) + go(x)
            return s
        name = pick([str, str, str.upper, str.title])(g[0])
        comma = pick([', ', ',', ' , '])
        return '{}({})'.format(name, comma.join(go(x) for x in g[1:]))
    return go(g)


styles = st.lists(st.integers(0, 4), min_size=1, max_size=6)


@REG.test(st.tuples(grammar(), styles), quick=2000)
def parse(case):
    g, style = case
    text = write(g, style)
    tree = meaning(g)
    try:
        if model.type_of(tree) is None:
            return []
    except model.Mixed:
        return []
    try:
        value = CSSNumericValue.parse(text)
    except ValueError as exp:
        fail('a valid expression was refused', text=text, error=str(exp))
    if not same(value, tree, 'parsed', text=text):
        return []
    check(value.tostring() == text, 'text as written', text=text)
    labels = ['parse:' + g[0]]
    # convert
    pool = {x[2] for x in model.leaves(tree) if x[2] != 'number'}
    base = {model.UNIT_BASE[u] for u in pool}
    if (len(base) == 1 and all(u in model.BASES.get(model.UNIT_BASE[u], {})
                               for u in pool)
            and all(x[0] != 'clamp' for x in model.nodes(tree))
            and len(model.type_of(tree)[0]) == 1):
        want, tolerance = number_of(tree)
        for u in model.BASES[base.pop()]:
            got = value.to(u)
            check(got.unit == u and abs(got.value * model.SIZE[u] - want)
                  <= tolerance + 1e-9, 'to()', text=text, unit=u, got=got,
                  want=want)
        labels.append('to')
    return labels if operators(g) > 2 else []


leaf = st.tuples(st.just('u'), dyadic, st.sampled_from(
    ['px', 'px', 'px', 'in', 'em', 'percent', 'number', 'number'])
).map(list)
plain = st.tuples(st.just('u'), dyadic, st.sampled_from(['number'])).map(list)


def extend(children):
    several = st.lists(children, min_size=1, max_size=3)
    return st.one_of(
        several.map(lambda x: ['sum'] + x),
        several.map(lambda x: ['sum'] + x),
        several.map(lambda x: ['product'] + x),
        several.map(lambda x: ['min'] + x),
        several.map(lambda x: ['max'] + x),
        st.tuples(children, children, children).map(
            lambda x: ['clamp'] + list(x)),
        children.map(lambda x: ['neg', x]),
        children.map(lambda x: ['inv', x]))


trees = st.one_of(
    st.recursive(leaf, extend, max_leaves=6),
    st.recursive(plain, extend, max_leaves=8),
    st.recursive(leaf.map(lambda x: x[:2] + ['px']), lambda c: st.one_of(
        st.lists(c, min_size=1, max_size=3).map(lambda x: ['sum'] + x),
        st.tuples(c, c, c).map(lambda x: ['clamp'] + list(x)),
        st.lists(c, min_size=1, max_size=3).map(lambda x: ['max'] + x),
        st.tuples(plain, c).map(lambda x: ['product'] + list(x)),
        st.tuples(c, plain.map(lambda x: ['inv', x])).map(
            lambda x: ['product'] + list(x)),
        c.map(lambda x: ['neg', x])), max_leaves=8))


def valid(e):
    try:
        return model.type_of(e) is not None
    except model.Mixed:
        return False


@REG.test(trees, quick=3000)
def text(e):
    if not valid(e):
        return []
    value = build(e)
    if not same(value, e, 'built', built=e):
        return []
    written = value.tostring()
    try:
        again = CSSNumericValue.parse(written)
    except ValueError as exp:
        fail('written text was refused', text=written, error=str(exp),
             tree=e)
    check('clamp' in written or written.count('calc(') <= 1, 'only the outermost parentheses are '
          'those of calc()', text=written, tree=e)
    same(again, e, 'read again', text=written)
    # parts of what was read can be written as well
    same(build(read(again)), e, 'rebuilt', text=written)
    size = sum(1 for x in model.nodes(e) if x[0] != 'u')
    return ['text:' + e[0]] if size > 1 else []


@REG.test(st.tuples(trees, st.lists(trees, min_size=1, max_size=3),
                    st.lists(st.sampled_from([0, 1, 2.5, -3]), max_size=1)),
          quick=2500)
def add(case):
    e, others, numbers = case
    if not all(valid(x) for x in [e] + others):
        return []
    first, rest = build(e), [build(x) for x in others]
    want = ['sum', e] + others + [['u', n, 'number'] for n in numbers]
    before = first.tostring(), [x.tostring() for x in rest]
    try:
        type_ = model.type_of(want)
    except model.Mixed:
        return []
    try:
        result = first.add(*(rest + numbers))
    except ValueError:
        check(type_ is None, 'compatible values were not added', terms=want)
        return ['refused']
    finally:
        check(before == (first.tostring(), [x.tostring() for x in rest]),
              'add() changed an operand', terms=want)
    check(type_ is not None, 'incompatible values were added', terms=want)
    same(result, want, 'added', terms=want)
    return ['add:%d' % len(others)]


@REG.test(st.tuples(trees, trees, st.integers(0, 30)), quick=2000)
def equals(case):
    """Structural equality of expressions."""
    e, f, at = case
    if not valid(e):
        return []
    a, b = build(e), build(e)
    check(a.equals(b) and b.equals(a) and a.equals(b, a),
          'equal expressions', tree=e)
    many = list(model.leaves(e))
    changed = many[at % len(many)]
    kept, changed[1] = changed[1], changed[1] + 1
    c = build(e)
    changed[1] = kept
    check(not a.equals(c) and not c.equals(a) and not a.equals(b, c),
          'expressions with different numbers', tree=e, leaf=changed)
    if valid(f):
        d = build(f)
        check(a.equals(d) == (e == f), 'equality of expressions', a=e, b=f)
    return ['equals'] if e[0] != 'u' else []


BREAK = ['calc()', 'calc({})x', 'calc({} +)', 'calc(+ {})', 'calc({} {})',
         'calc({} * )', 'calc({} / )', 'calc(* {})', 'calc(({})',
         'min()', 'max()', 'min({},)', 'max(,{})', 'clamp({})',
         'clamp({}, {})', 'clamp({}, {}, {}, {})', 'calc({}, {})',
         'calc({} + , {})', 'calc({} ** {})', 'calc({} - - )',
         'foo({})', 'calc(foo)', 'calc({} + ())', 'calc(())', 'foo',
         'calc({}; {})', 'calc({} ^ {})', 'calc([{}])']
VALUES = ['1px', '2em', '50%', '(1px + 2px)', 'calc(1px)', 'max(1px, 2px)']


@REG.test(st.tuples(st.sampled_from(BREAK), st.lists(
    st.sampled_from(VALUES), min_size=4, max_size=4)), quick=700)
def invalid(case):
    pattern, values = case
    text = pattern.format(*values)
    if pattern == 'calc(({})' or pattern == 'calc({})x':
        return []  # closed by the end of input; trailing text
    try:
        value = CSSNumericValue.parse(text)
    except ValueError:
        return ['invalid:' + pattern]
    fail('an invalid expression was accepted', text=text, tree=read(value))
