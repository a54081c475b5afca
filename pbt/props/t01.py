"""T01: SVG transform lists."""
import re
import numpy as np

from svgpy import DOMMatrix, SVGParser, SVGTransform, SVGTransformList

from ..gens import decimals, number, op, st
from ..harness import Registry, check, fail
from .g01 import rot, rows, trans

REG = Registry(
    'T01',
    'Transform lists of 0..6 functions in generated spellings (optional '
    'arguments, comma/white-space/sign separators, exponents) and histories '
    'of up to 15 list edits; a case is non-trivial with two or more functions '
    'or effective edits.',
    ['unknown function names are outside the property'])

num = st.one_of(number(-100, 100), decimals(-9, 9, 4))
ang = st.one_of(st.sampled_from([0, 30, 45, 90, 180, 270, -90, 360]),
                decimals(-80, 80, 2))
function = st.one_of(
    op('matrix', num, num, num, num, num, num),
    op('translate', num, num), op('translate', num),
    op('translate', num, st.just(0)),
    op('scale', num, num), op('scale', num),
    st.tuples(num, st.sampled_from([1, -1])).map(
        lambda x: ['scale', x[0], x[0] * x[1]]),
    op('rotate', ang), op('rotate', ang, num, num),
    op('rotate', ang, st.just(0), num), op('rotate', ang, num, st.just(0)),
    op('skewX', ang), op('skewY', ang))
TYPES = {'matrix': 1, 'translate': 2, 'scale': 3, 'rotate': 4, 'skewX': 5,
         'skewY': 6}
style = st.lists(st.integers(0, 7), min_size=1, max_size=12)
WS = [' ', '\n', '\t', '  ', '\r\n ']


def full_values(f):
    name, *args = f
    args = [float(v) for v in args]
    if name == 'translate' and len(args) == 1:
        args.append(0.0)
    elif name == 'scale' and len(args) == 1:
        args.append(args[0])
    elif name == 'rotate' and len(args) == 1:
        args += [0.0, 0.0]
    return args


def reference(f):
    name, *_ = f
    v = full_values(f)
    if name == 'matrix':
        return rows(v)
    if name == 'translate':
        return trans(*v)
    if name == 'scale':
        return np.diag([v[0], v[1], 1., 1.])
    if name == 'rotate':
        return trans(v[1], v[2]) @ rot(0, 0, 1, v[0]) @ trans(-v[1], -v[2])
    m = np.eye(4)
    if name == 'skewX':
        m[0, 1] = np.tan(np.radians(v[0]))
    else:
        m[1, 0] = np.tan(np.radians(v[0]))
    return m


def product(functions):
    m = np.eye(4)
    scale = 1.0
    for f in functions:
        r = reference(f)
        m = m @ r
        scale *= 1 + float(np.abs(r).sum())
    return m, scale


def spell_number(v, s):
    text = repr(v)
    if 'e' in text:
        text = '{:.6f}'.format(v)
    if s == 1 and text.startswith('0.'):
        return text[1:]
    if s == 2 and text.startswith('-0.'):
        return '-' + text[2:]
    if s == 3 and v >= 0 and not text.startswith('+'):
        return '+' + text
    if s == 4:
        return '{!r}e0'.format(v)
    if s == 5 and v == int(v) and v:
        return '{}E-1'.format(int(v) * 10)
    return text


def spell(functions, styles):
    out = []
    k = 0

    def nxt():
        nonlocal k
        k += 1
        return styles[k % len(styles)]

    text = ''
    for i, (name, *args) in enumerate(functions):
        body = ''
        for j, v in enumerate(args):
            t = spell_number(v, nxt())
            if j:
                s = nxt()
                prev = body
                if s == 0 and (t[0] in '+-' or (
                        t[0] == '.' and '.' in out[-1]
                        and 'e' not in out[-1].lower())):
                    pass
                elif s < 3:
                    body += ','
                elif s < 5:
                    body += ' '
                elif s == 5:
                    body += ' , '
                elif s == 6:
                    body += '\n'
                else:
                    body += ', '
                del prev
            body += t
            out.append(t)
        s = nxt()
        pad = ['', '', '', ' ', '  ', '\t', '\n', ' '][s]
        gap = ['', '', '', ' ', '', '\t', '', ''][nxt()]
        text += name + gap + '(' + pad + body + pad + ')'
        if i + 1 < len(functions):
            text += [' ', ',', ', ', ' ,', '\n', '  ', '\t', ' , '][nxt()]
    s = nxt()
    return ['', '', '', ' ', '\n', '', '', ''][s] + text + [
        '', ' ', '', '', '\n', '', '', ''][s]


def compare_list(tl, functions, where):
    check(len(tl) == len(functions), 'number of functions ' + where,
          got=tl.tostring(), expected=functions)
    check(tl.length == tl.number_of_items == len(functions), 'length')
    for t, f in zip(tl, functions):
        check(t.type == TYPES[f[0]], 'function type ' + where, got=t.type,
              expected=f)
        want = full_values(f)
        check(len(t.values) == len(want) and all(
            abs(g - w) <= 1e-12 * (1 + abs(w))
            for g, w in zip(t.values, want)),
            'arguments ' + where, got=t.values, expected=want)
        angle = want[0] if f[0] in ('rotate', 'skewX', 'skewY') else 0
        check(abs(t.angle - angle) < 1e-9, 'angle ' + where, got=t.angle,
              expected=angle)


def compare_matrix(matrix, functions, where):
    if not functions:
        check(matrix is None, 'matrix of an empty list ' + where)
        return
    m, scale = product(functions)
    got = np.array(matrix.to_float_array()).reshape(4, 4).T
    if not np.all(np.abs(got - m) <= 1e-11 * scale):
        fail('matrix ' + where, got=got.tolist(), expected=m.tolist())
    check(matrix.is2d, '2D')


@REG.test(st.fixed_dictionaries({
    'f': st.lists(function, max_size=6), 'style': style}),
    quick=4000, thorough=150000)
def parse(case):
    functions = case['f']
    text = spell(functions, case['style'])
    tl = SVGTransformList.parse(text)
    check(isinstance(tl, SVGTransformList), 'class')
    compare_list(tl, functions, 'of ' + repr(text))
    compare_matrix(tl.matrix, functions, 'of ' + repr(text))
    same = SVGTransformList(text)
    compare_list(same, functions, 'constructed')
    g = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')
    g.set_attribute('transform', text)
    if functions:
        compare_list(g.transform, functions, 'attribute')
    # text form
    for delimiter in (None, ' ', ','):
        out = tl.tostring(delimiter)
        again = SVGTransformList.parse(out)
        check(again.tostring(delimiter) == out, 'text form is stable',
              got=again.tostring(delimiter), expected=out)
        check(len(again) == len(tl), 'text form keeps the functions')
        if delimiter is not None:
            for t in tl:
                one = t.tostring(delimiter)
                inside = one[one.index('(') + 1:-1]
                check(inside.count(delimiter) == len(re.findall(
                    '[^ ,]+', inside)) - 1 and not re.search(
                        '[ ,]', inside.replace(delimiter, '')),
                    'arguments are separated by the delimiter', text=one,
                    delimiter=delimiter)
        for a, b in zip(tl, again):
            check(a.type == b.type and all(
                abs(x - y) <= 5.1e-7 for x, y in zip(a.values, b.values))
                and len(a.values) == len(b.values),
                'text form keeps the arguments', text=out)
    g.transform = tl
    check(g.get_attribute('transform') == tl.tostring(), 'attribute write')
    # single functions
    for f in functions:
        one = SVGTransform(TYPES[f[0]], *f[1:])
        compare_matrix(one.matrix, [f], 'of one function')
        check(one.tostring() == SVGTransformList([one]).tostring(), 'text')
    if functions:
        t = tl.transform
        check(t.type == 1 and len(tl) == len(functions),
              'transform leaves the list alone')
        compare_matrix(t.matrix, functions, 'of the combined transform')
        c = tl.consolidate()
        check(len(tl) == 1 and tl[0] is c and c.type == 1,
              'consolidate() leaves one matrix')
        compare_matrix(tl.matrix, functions, 'after consolidate()')
    else:
        check(tl.consolidate() is None and len(tl) == 0, 'consolidate empty')
    return ['list'] if len(functions) > 1 else (
        ['single'] if functions else [])


edit = st.one_of(
    op('append', function), op('append_item', function),
    op('insert', st.integers(-3, 8), function),
    op('insert_item_before', st.integers(0, 8), function),
    op('remove_item', st.integers(-2, 8)),
    op('replace_item', st.integers(-2, 8), function),
    op('set', st.integers(-2, 8), function),
    op('del', st.integers(-2, 8)),
    op('slice', st.integers(0, 6), st.integers(0, 6),
       st.lists(function, max_size=3)),
    op('delslice', st.integers(0, 6), st.integers(0, 6)),
    op('add', st.lists(function, max_size=3)),
    op('iadd', st.lists(function, max_size=3)),
    op('extend', st.lists(function, max_size=3)),
    op('initialize', function), op('consolidate'), op('pop'), op('reverse'),
    op('clear'), op('bad', st.integers(-1, 6)),
    op('setter', st.integers(-2, 8), function))


@REG.test(st.fixed_dictionaries({
    'start': st.lists(function, max_size=4),
    'edits': st.lists(edit, min_size=1, max_size=15)}),
    quick=3000, thorough=100000)
def edits(case):
    def make(f):
        return SVGTransform(TYPES[f[0]], *f[1:])

    tl = SVGTransformList([make(f) for f in case['start']])
    model = [list(f) for f in case['start']]
    effective = 0
    for name, *args in case['edits']:
        before = list(tl)
        before_model = list(model)
        try:
            expected_error = None
            got_error = None
            result = None
            if name in ('append', 'append_item'):
                model.append(args[0])
                t = make(args[0])
                result = getattr(tl, name)(t)
                check(tl[-1] is t, 'identity of the appended item')
                if name == 'append_item':
                    check(result is t, 'append_item() returns the item')
            elif name == 'insert':
                model.insert(args[0], args[1])
                tl.insert(args[0], make(args[1]))
            elif name == 'insert_item_before':
                model.insert(args[0], args[1])
                t = make(args[1])
                check(tl.insert_item_before(t, args[0]) is t, 'result')
            elif name in ('remove_item', 'del'):
                try:
                    del model[args[0]]
                except IndexError:
                    expected_error = IndexError
                try:
                    if name == 'del':
                        del tl[args[0]]
                    else:
                        want = before[args[0]] if not expected_error else None
                        check(tl.remove_item(args[0]) is want,
                              'remove_item() returns the item')
                except IndexError as exp:
                    got_error = type(exp)
            elif name in ('replace_item', 'set'):
                try:
                    model[args[0]] = args[1]
                except IndexError:
                    expected_error = IndexError
                try:
                    if name == 'set':
                        tl[args[0]] = make(args[1])
                    else:
                        t = make(args[1])
                        check(tl.replace_item(t, args[0]) is t, 'result')
                        check(tl.get_item(args[0]) is t, 'get_item()')
                except IndexError as exp:
                    got_error = type(exp)
            elif name == 'slice':
                model[args[0]:args[1]] = args[2]
                tl[args[0]:args[1]] = [make(f) for f in args[2]]
            elif name == 'delslice':
                del model[args[0]:args[1]]
                del tl[args[0]:args[1]]
            elif name == 'add':
                other = tl + SVGTransformList([make(f) for f in args[0]])
                check(other is not tl and list(tl) == before,
                      'addition leaves the operand alone')
                compare_list(other, model + args[0], 'sum')
                model = model + args[0]
                tl = other
            elif name == 'iadd':
                same = tl
                tl += [make(f) for f in args[0]]
                check(tl is same, 'in-place addition')
                model += args[0]
            elif name == 'extend':
                tl.extend([make(f) for f in args[0]])
                model += args[0]
            elif name == 'initialize':
                t = make(args[0])
                check(tl.initialize(t) is t, 'result')
                model = [args[0]]
            elif name == 'consolidate':
                tl.consolidate()
                if model:
                    m, _ = product(model)
                    model = [['matrix'] + [float(v) for v in tl[0].values]]
                    compare_matrix(tl.matrix, before_model,
                                   'after consolidate()')
            elif name == 'pop':
                if model:
                    model.pop()
                    tl.pop()
            elif name == 'reverse':
                tl.reverse()
                model.reverse()
            elif name == 'clear':
                tl.clear()
                model = []
            elif name == 'bad':
                for call in (lambda: tl.append('rotate(3)'),
                             lambda: tl.insert(args[0], None),
                             lambda: tl.__setitem__(slice(0, 1), ['x']),
                             lambda: tl.__setitem__(0, 5)):
                    try:
                        call()
                    except TypeError:
                        pass
                    else:
                        fail('an item of a wrong type was accepted')
            elif name == 'setter':
                if -len(model) <= args[0] < len(model):
                    f = args[1]
                    t = tl[args[0]]
                    v = f[1:]
                    if f[0] == 'matrix':
                        t.set_matrix(DOMMatrix(v))
                    else:
                        getattr(t, {
                            'translate': 'set_translate',
                            'scale': 'set_scale', 'rotate': 'set_rotate',
                            'skewX': 'set_skew_x', 'skewY': 'set_skew_y',
                        }[f[0]])(*v)
                    model[args[0]] = f
            check(expected_error == got_error, 'out of range in ' + name,
                  expected=expected_error, got=got_error)
        except IndexError as exp:
            fail('{}: {}'.format(name, exp))
        compare_list(tl, model, 'after ' + name)
        if model != before_model:
            effective += 1
    if product(model)[1] < 1e12:
        compare_matrix(tl.matrix, model, 'at the end')
    return ['edits'] if effective > 1 else []
