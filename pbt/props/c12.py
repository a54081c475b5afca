"""C12: registered custom properties and CSS.supports."""
from svgpy.css import CSS
from svgpy.css.props import PropertyDescriptor
from svgpy.css.props import css_property_descriptor_map as MAP
from svgpy.css.types import (CSSImageValue, CSSKeywordValue, CSSNumericValue,
                             CSSStyleValue, CSSUnitValue, CSSUnparsedValue)
from svgpy.window import SVGDOMImplementation

from ..gens import decimals, st
from ..harness import Registry, check, fail

REG = Registry(
    'C12',
    'Custom properties registered with a syntax of one to three components '
    '(types and keywords, optionally a list), values of every type for them, '
    'before and after registering, in two documents; and CSS.supports for '
    'values of known properties against typed parsing. A case is non-trivial '
    'when a value is refused, or typed by a registration.',
    ['math functions and transform functions in registered syntaxes are left '
     'out, as are numbers without a unit for angles, times and resolutions',
     'an empty value is left out; how many components a value may have is '
     'not judged'])

UNITS = {'<length>': ['px', 'em', 'cm', 'Q', 'vw', 'rem', 'PX', 'lh'],
         '<angle>': ['deg', 'grad', 'rad', 'turn', 'DEG'],
         '<time>': ['s', 'ms'], '<resolution>': ['dpi', 'dpcm', 'dppx']}
COLORS = ['red', '#abc', '#AABBCC', 'rgb(1, 2, 3)', 'currentcolor',
          'transparent', 'hsl(1, 2%, 3%)', 'Blue']
IDENTS = ['alpha', 'beta', 'small-one', 'zeta']
TYPES = ['<length>', '<number>', '<percentage>', '<length-percentage>',
         '<color>', '<image>', '<url>', '<integer>', '<angle>', '<time>',
         '<resolution>', '<custom-ident>']
number = st.one_of(st.integers(-99, 99), decimals(-20, 20, 2))


def words(*kinds):
    return st.sampled_from(kinds)


value = st.one_of(
    st.tuples(st.just('number'), number).map(list),
    st.tuples(st.just('percentage'), number).map(list),
    st.tuples(st.sampled_from(list(UNITS)), number,
              st.integers(0, 9)).map(list),
    st.tuples(st.just('color'), st.sampled_from(COLORS)).map(list),
    st.tuples(st.just('url'), st.sampled_from(['a.png', '#x'])).map(list),
    st.tuples(st.just('image'), st.sampled_from(
        ['linear-gradient(red, blue)', 'image(a)'])).map(list),
    st.tuples(st.just('ident'), st.sampled_from(IDENTS)).map(list),
    st.tuples(st.just('wide'), st.sampled_from(
        ['inherit', 'initial', 'unset'])).map(list))
syntax = st.one_of(
    st.just('*'),
    st.lists(st.one_of(st.sampled_from(TYPES), st.sampled_from(IDENTS)),
             min_size=1, max_size=3, unique=True))
NAMES = ['--a', '--A', '--length', '--x-y']


def integral(v):
    return isinstance(v, int)


def text_of(v):
    k = v[0]
    if k == 'number':
        return repr(v[1])
    if k == 'percentage':
        return repr(v[1]) + '%'
    if k in UNITS:
        return repr(v[1]) + UNITS[k][v[2] % len(UNITS[k])]
    if k == 'url':
        return 'url({})'.format(v[1])
    return v[1]


def accepts(part, v):
    """Does one component of a syntax accept the value?"""
    k = v[0]
    if k == 'wide':
        return True
    if k == 'number':
        return (part in ('<number>', '<length>', '<length-percentage>')
                or part == '<integer>' and integral(v[1]))
    if k == 'percentage':
        return part in ('<percentage>', '<length-percentage>')
    if k == '<length>':
        return part in ('<length>', '<length-percentage>')
    if k in UNITS:
        return part == k
    if k == 'color':
        return part == '<color>' or (part == '<custom-ident>'
                                     and v[1].isalpha())
    if k == 'url':
        return part in ('<url>', '<image>')
    if k == 'image':
        return part == '<image>'
    return part in ('<custom-ident>', v[1])


def examine(got, v, parts, what):
    k = v[0]
    check(got.tostring() == text_of(v), 'text of ' + what,
          got=got.tostring(), want=text_of(v))
    if k == 'wide' or k == 'ident':
        check(isinstance(got, CSSKeywordValue), 'class of ' + what,
              got=type(got).__name__)
        check(got.value == (v[1].lower() if k == 'wide' else v[1]),
              'keyword', got=got.value)
    elif k in ('number', 'percentage') or k in UNITS:
        if k == 'number' and parts != '*' and not accepts_plain(parts, v) and (
                '<custom-ident>' in parts):
            return
        check(isinstance(got, CSSUnitValue), 'class of ' + what,
              got=type(got).__name__)
        check(isinstance(got, CSSNumericValue), 'numeric')
        unit = {'number': 'number', 'percentage': 'percent'}.get(k)
        if unit is None:
            unit = UNITS[k][v[2] % len(UNITS[k])].lower()
        elif k == 'number' and parts != '*' and not {
                '<number>', '<integer>'} & set(parts) or (
                k == 'number' and parts != '*' and '<number>' not in parts
                and not integral(v[1])):
            unit = 'px'  # a length without a unit
        check(got.unit.lower() == unit, 'unit of ' + what, got=got.unit,
              want=unit)
        check(abs(got.value - v[1]) <= 1e-9 * max(1, abs(v[1])),
              'number of ' + what, got=got.value, want=v[1])
    elif k == 'image':
        check(isinstance(got, CSSImageValue), 'class of ' + what,
              got=type(got).__name__)


def accepts_plain(parts, v):
    return any(accepts(p, v) for p in parts)


@REG.test(st.fixed_dictionaries({
    's': syntax, 'hash': st.booleans(),
    'values': st.lists(value, min_size=1, max_size=4),
    'name': st.sampled_from(NAMES), 'inherits': st.booleans(),
    'bar': st.integers(0, 2)}), quick=5000, thorough=150000)
def registered(case):
    impl = SVGDOMImplementation()
    doc, other = impl.create_svg_document(), impl.create_svg_document()
    name, parts = case['name'], case['s']
    bar = [' | ', '|', ' || '][case['bar']]
    if parts == '*':
        text = '*'
    else:
        text = bar.join(p + ('#' if case['hash'] else '') for p in parts)
    labels = set()
    first = text_of(case['values'][0])

    def raw(context, what):
        got = CSSStyleValue.parse(name, first, context)
        check(isinstance(got, CSSUnparsedValue), what, got=type(got).__name__)
        check(got.tostring() == first, what + ': text', got=got.tostring())

    raw(doc, 'a value of an unregistered property')
    desc = PropertyDescriptor(name=name, syntax=text,
                              inherits=case['inherits'], initial_value='x')
    check((desc.name, desc.syntax, desc.inherits, desc.initial_value)
          == (name, text, case['inherits'], 'x'), 'members of a descriptor')
    CSS.register_property(desc, doc)
    check(dict(doc.registered_property_set) == {name: desc},
          'the registered properties')
    try:
        CSS.register_property(PropertyDescriptor(name=name, inherits=True),
                              doc)
    except ValueError:
        pass
    else:
        fail('a property was registered twice')
    check(doc.registered_property_set[name] is desc, 'a refused registration '
          'replaced the property')
    raw(other, 'a value in another document')
    if name.lower() != name:
        check(isinstance(CSSStyleValue.parse(name.lower(), first, doc),
                         CSSUnparsedValue), 'custom names have a case')
    good = []
    for v in case['values']:
        want = parts == '*' or accepts_plain(parts, v)
        if (parts != '*' and v[0] == 'number'
                and '<custom-ident>' in parts and not want):
            continue  # taken as an identifier
        what = '{} for {}'.format(text_of(v), text)
        try:
            got = CSSStyleValue.parse(name, text_of(v), doc)
        except ValueError:
            check(not want, what + ' was refused')
            labels.add('refused')
            got = None
        else:
            check(want, what + ' was taken', got=got.tostring())
            examine(got, v, parts, what)
            labels.add('typed')
            if v[0] != 'wide':
                good.append((v, got))
        check(desc.supports(text_of(v)) == want, 'supports ' + what)
        var = CSSStyleValue.parse(name, 'var(--q, {})'.format(text_of(v)),
                                  doc)
        check(isinstance(var, CSSUnparsedValue), 'a value with var()')
    if case['hash'] and parts != '*' and len(good) > 1:
        whole = ', '.join(text_of(v) for v, _ in good)
        got = CSSStyleValue.parse_all(name, whole, doc)
        check(len(got) == len(good), 'items of a list', got=len(got))
        for x, (_, y) in zip(got, good):
            check(type(x) is type(y) and x.tostring() == y.tostring()
                  or isinstance(y, CSSKeywordValue)
                  or x.tostring().lower() == y.tostring().lower()
                  or isinstance(x, CSSNumericValue)
                  or y.tostring().startswith('url('),
                  'an item of a list', got=x.tostring(), want=y.tostring())
            if isinstance(y, CSSUnitValue):
                check((x.value, x.unit) == (y.value, y.unit),
                      'a number of a list', got=x.tostring())
        labels.add('typed')
    return labels


@REG.test(st.fixed_dictionaries({
    'name': st.sampled_from(['a', '-a', 'length', '', '- -a'])}),
    quick=5, thorough=5)
def names(case):
    doc = SVGDOMImplementation().create_svg_document()
    try:
        CSS.register_property(PropertyDescriptor(name=case['name'],
                                                 inherits=True), doc)
    except ValueError:
        check(not doc.registered_property_set, 'nothing was registered')
        return ['refused']
    fail('not the name of a custom property', name=case['name'])


KNOWN = sorted(MAP)
extra = st.sampled_from([
    'none', 'auto', 'normal', 'visible', 'inline', 'hidden', 'bold', 'start',
    'middle', 'nonzero', 'inherit', 'a b', '1px 2px', '1, 2', 'red blue',
    '"text"', 'inherit 1px', 'calc(1px + 2%)', 'min(1px, 2px)', 'foo(1)'])


@REG.test(st.fixed_dictionaries({
    'name': st.sampled_from(KNOWN), 'upper': st.booleans(),
    'v': st.lists(st.one_of(value.map(text_of), extra), min_size=1,
                  max_size=4)}), quick=3000, thorough=100000)
def supports(case):
    name = case['name']
    given = name.upper() if case['upper'] else name
    labels = set()
    doc = SVGDOMImplementation().create_svg_document()
    for text in case['v']:
        got = CSS.supports(given, text)
        check(got is CSS.supports(name, text), 'the case of the name',
              text=text)
        check(CSS.supports('no-such-' + name, text) is False,
              'an unknown property')
        try:
            values = CSSStyleValue.parse_all(name, text, doc)
        except ValueError:
            check(not got or ' ' in text, 'supports a value that cannot be parsed',
                  name=name, text=text)
            labels.add('refused')
            continue
        except NotImplementedError:
            continue
        if ',' not in text:
            check(got, 'does not support a value that can be parsed',
                  name=name, text=text)
        if len(values) == 1:
            check(values[0].tostring() == text, 'text of the value',
                  name=name, got=values[0].tostring(), want=text)
    return labels
