"""C09: typed style maps read back what was written."""
import re
from collections import OrderedDict

from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.css.types import CSSImageValue, CSSKeywordValue, CSSNumericValue, \
    CSSStyleValue, CSSUnitValue, CSSUnparsedValue, CSSURLImageValue, \
    CSSVariableReferenceValue, StylePropertyMap, StylePropertyMapReadOnly

from .. import mathmodel as model
from ..gens import st
from ..harness import Registry, check, fail
from .c08 import build, number_of, read

REG = Registry(
    'C09',
    'Values of some eighty properties, each of a kind the property takes '
    '(keyword, length, percentage, number, angle, time, color, url, image, '
    'math function, list) or of a kind it refuses; nested token sequences '
    'with var() references; histories of edits of unparsed values; and '
    'histories of set, delete, clear and reads on a style map mixed with '
    'edits of the declaration block behind it. A case is non-trivial when a '
    'typed value comes out, when a reference is nested, or when a history '
    'has two or more changes.',
    ['StylePropertyMap.append() is not implemented and left out',
     'a number where a length is expected is a number of pixels',
     'shorthands are left to C02'])

TOKEN = re.compile(
    r'''(?P<comment>/\*.*?\*/)|(?P<ws>\s+)
    |(?P<url>url\(\s*(?:"[^"]*"|'[^']*'|[^"')\s]*)\s*\))
    |(?P<string>"[^"]*"|'[^']*')
    |(?P<number>[+-]?(?:\d*\.\d+|\d+)(?:e[+-]?\d+)?(?:%|[a-z-]+)?)
    |(?P<ident>\#[a-z0-9_-]+|--?[a-z0-9_-]+\(?|[a-z_][a-z0-9_-]*\(?)
    |(?P<delim>.)''', re.X | re.I | re.S)


def canon(text):
    """The component values of a text (own tokenizer)."""
    out = []
    for m in TOKEN.finditer(text):
        kind, s = m.lastgroup, m.group()
        if kind in ('comment', 'ws'):
            continue
        if kind == 'url':
            s = 'url:' + s[4:-1].strip().strip('"\'')
        elif kind == 'string':
            s = 'str:' + s[1:-1]
        elif kind == 'number':
            n = re.match(r'[+-]?(?:\d*\.\d+|\d+)(?:e[+-]?\d+(?![a-z]))?', s,
                         re.I).group()
            s = '{:g}{}'.format(float(n), s[len(n):].lower())
        out.append(s)
    return out


LP = ['baseline-shift', 'cx', 'cy', 'font-size', 'r', 'shape-margin',
      'stroke-dashoffset', 'stroke-width', 'text-indent', 'vertical-align',
      'x', 'y', 'x1', 'x2', 'y1', 'y2', 'width', 'height', 'rx', 'ry',
      'inline-size', 'min-width', 'min-height', 'max-width', 'max-height',
      'word-spacing']
NUMBER = ['fill-opacity', 'flood-opacity', 'opacity', 'stop-opacity',
          'stroke-opacity', 'stroke-miterlimit', 'shape-image-threshold']
NUMBER_PERCENT = NUMBER[:5]
PIXELS = ['cx', 'cy', 'font-size', 'r', 'x', 'y', 'width', 'height', 'rx',
          'ry', 'stroke-width', 'stroke-dashoffset', 'letter-spacing']
LENGTH = ['letter-spacing', 'text-decoration-width', 'shape-padding']
COLOR = ['color', 'flood-color', 'lighting-color', 'stop-color',
         'text-decoration-color', 'fill', 'stroke']
URLS = ['clip-path', 'filter', 'marker-end', 'marker-mid', 'marker-start',
        'mask-image']
KEYWORDS = {
    'fill-rule': ['nonzero', 'evenodd'], 'clip-rule': ['nonzero', 'evenodd'],
    'direction': ['ltr', 'rtl'], 'display': ['none', 'inline', 'block'],
    'visibility': ['visible', 'hidden', 'collapse'],
    'text-anchor': ['start', 'middle', 'end'],
    'stroke-linecap': ['butt', 'round', 'square'],
    'stroke-linejoin': ['miter', 'round', 'bevel', 'arcs'],
    'font-style': ['normal', 'italic', 'oblique'],
    'font-variant-caps': ['normal', 'small-caps', 'unicase'],
    'font-kerning': ['auto', 'normal', 'none'],
    'width': ['auto'], 'height': ['auto'], 'rx': ['auto'],
    'max-width': ['none'], 'letter-spacing': ['normal'],
    'font-size': ['small', 'medium', 'larger'],
    'baseline-shift': ['sub', 'super'], 'writing-mode': ['horizontal-tb'],
    'shape-rendering': ['auto', 'crispEdges'], 'vector-effect': ['none'],
    'pointer-events': ['none', 'visiblePainted', 'all'],
    'color-interpolation': ['auto', 'sRGB', 'linearRGB'],
    'dominant-baseline': ['auto', 'central', 'hanging'],
    'clip-path': ['none'], 'filter': ['none'], 'marker-end': ['none'],
    'fill': ['none', 'context-fill'], 'stroke': ['none'],
}
REFUSED = {
    'width': ['red', '"a"', '45deg', '1s', '#fff', 'rgb(1, 2, 3)', 'foo',
              'url(a.png)', '1px inherit'],
    'cx': ['auto', 'none', '2s', '#123'],
    'fill-opacity': ['1px', 'red', 'none', '10deg'],
    'fill-rule': ['none', '1', '1px', 'even'],
    'color': ['10px', '3', 'none', '#12', 'nocolor', '50%'],
    'stroke-miterlimit': ['4px', '10%', 'auto'],
    'letter-spacing': ['50%', 'auto', '2s'],
    'text-anchor': ['left', '0'], 'filter': ['10px', 'auto'],
    'fill': ['10px', '50%'],
    'stroke-dasharray': ['1px, inherit', 'unset, 1px', 'initial 1px',
                         '1px 2px inherit', '1px, red'],
    'mask-image': ['none, inherit', 'initial, none'],
    'mask-repeat': ['repeat-x, unset', 'inherit, repeat-x'],
}
WIDE = ['inherit', 'initial', 'unset']
LENGTHS = [u for u in model.UNITS if model.UNIT_BASE[u] == 'length']

value = st.integers(-800, 800).map(lambda n: n / 8)
math_text = st.sampled_from([
    ('calc(1px + 2em)', ['sum', ['u', 1, 'px'], ['u', 2, 'em']]),
    ('calc(100% - 10px * 2)', ['sum', ['u', 100, 'percent'], [
        'neg', ['product', ['u', 10, 'px'], ['u', 2, 'number']]]]),
    ('min(1px, 2%)', ['min', ['u', 1, 'px'], ['u', 2, 'percent']]),
    ('max(1em,3px,2%)', ['max', ['u', 1, 'em'], ['u', 3, 'px'],
                         ['u', 2, 'percent']]),
    ('clamp(1px, 5vw, 9px)', ['clamp', ['u', 1, 'px'], ['u', 5, 'vw'],
                              ['u', 9, 'px']]),
    ('calc((1px + 2px) * 3)', ['product', ['sum', ['u', 1, 'px'],
                                           ['u', 2, 'px']],
                               ['u', 3, 'number']])])
colors = st.sampled_from(['red', 'RED', '#fff', '#a1b2c3', '#abcd',
                          'rgb(1, 2, 3)', 'rgba(1,2,3,0.5)',
                          'hsl(120, 50%, 50%)', 'currentColor'])
urls = st.sampled_from(['a.png', '#x', 'http://example.com/a?b=c&d',
                        "it's", 'a%20b', 'dir/a.svg#y'])


def url_text(draw, url):
    return draw(st.sampled_from(
        ['url("{}")', 'url( "{}" )'] + (["url('{}')", 'url({})']
                                        if "'" not in url else []))
    ).format(url)


@st.composite
def typed(draw):
    """{'name', 'text', 'kind', ...expectation}"""
    kind = draw(st.sampled_from(
        ['length', 'length', 'percentage', 'number', 'keyword', 'keyword',
         'color', 'url', 'math', 'wide', 'refused', 'time', 'angle',
         'list', 'pixels']))
    case = {'kind': kind}
    pick = lambda x: draw(st.sampled_from(x))

    def unit(names, v, u):
        case.update(name=pick(names), number=v, unit=u)
        s = pick(['{}', '{:g}', '{:.3f}', '{:+g}']).format(v)
        case['text'] = s + pick([str, str.upper])(
            {'number': '', 'percent': '%'}.get(u, u))
    v = draw(value)
    if kind == 'length':
        unit(LP + LENGTH, v, pick(LENGTHS))
    elif kind == 'percentage':
        unit(LP + NUMBER_PERCENT, v, 'percent')
    elif kind == 'number':
        unit(NUMBER, v, 'number')
    elif kind == 'pixels':
        unit(PIXELS, v, 'number')
        case['unit'] = 'px'
    elif kind == 'time':
        unit(['animation-delay', 'transition-delay'], v, pick(['s', 'ms']))
    elif kind == 'angle':
        unit(['glyph-orientation-vertical'], v,
             pick(['deg', 'rad', 'grad', 'turn']))
    elif kind == 'keyword':
        case['name'] = pick(sorted(KEYWORDS))
        case['text'] = pick(KEYWORDS[case['name']])
    elif kind == 'wide':
        case['name'] = pick(sorted(KEYWORDS) + LP + COLOR)
        case['text'] = pick([str, str.upper])(pick(WIDE))
    elif kind == 'color':
        case['name'], case['text'] = pick(COLOR), draw(colors)
    elif kind == 'url':
        url = draw(urls)
        case.update(name=pick(URLS), url=url, text=url_text(draw, url))
    elif kind == 'math':
        case['name'] = pick(LP)
        case['text'], case['tree'] = draw(math_text)
    elif kind == 'refused':
        case['name'] = pick(sorted(REFUSED))
        case['text'] = pick(REFUSED[case['name']])
    else:
        case['name'] = pick(['background-image', 'animation-delay'])
        items = draw(st.lists(st.sampled_from(
            [0, 1, 2, 3]), min_size=1, max_size=4))
        if case['name'] == 'background-image':
            texts = [url_text(draw, draw(urls)) if i < 3
                     else 'linear-gradient(red, blue)' for i in items]
        else:
            texts = ['{}s'.format(i) for i in items]
        case['items'] = texts
        case['text'] = pick([',', ', ', ' , ']).join(texts)
    if draw(st.integers(0, 3)) == 0 and '--' not in case['name']:
        case['name'] = case['name'].upper()
    return case


def judge(v, case):
    """`v` is the typed value the case asks for."""
    kind, text = case['kind'], case['text']
    if 'unit' in case:
        check(isinstance(v, CSSUnitValue), 'class', got=type(v), case=case)
        check(abs(v.value - case['number']) < 1e-3 and v.unit == case['unit'],
              'value', got=v, case=case)
    elif kind in ('keyword', 'wide'):
        check(isinstance(v, CSSKeywordValue), 'class', got=type(v),
              case=case)
        want = text.lower() if kind == 'wide' else text
        check(v.value == want, 'keyword', got=v.value, want=want)
    elif kind == 'math':
        check(isinstance(v, CSSNumericValue), 'class', got=type(v))
        a, b = number_of(read(v)), number_of(case['tree'])
        check(abs(a[0] - b[0]) < 1e-6, 'value of a math function',
              case=case, got=read(v))
    elif kind == 'url':
        check(isinstance(v, CSSURLImageValue) and v.value == case['url'],
              'url', got=(type(v), v.value), case=case)


@REG.test(typed(), quick=3000)
def parse(case):
    name, text, kind = case['name'], case['text'], case['kind']
    try:
        values = CSSStyleValue.parse_all(name, text)
    except ValueError as exp:
        check(kind == 'refused', 'a valid value was refused', case=case,
              error=str(exp))
        return ['refused']
    check(kind != 'refused', 'an invalid value was accepted', case=case,
          got=[x.tostring() for x in values])
    first = CSSStyleValue.parse(name, text)
    check(type(first) is type(values[0])
          and first.tostring() == values[0].tostring(),
          'parse() is the first of parse_all()')
    check(all(x.associated_property == name.lower() for x in values),
          'associated property', case=case)
    if kind == 'list':
        check(len(values) == len(case['items']), 'number of items',
              case=case, got=len(values))
        for v, item in zip(values, case['items']):
            check(canon(v.tostring()) == canon(item), 'item', case=case,
                  got=v.tostring())
            if item.startswith('url'):
                check(isinstance(v, CSSURLImageValue), 'class of a url')
            elif item.startswith('lin'):
                check(isinstance(v, CSSImageValue), 'class of an image')
            else:
                check(isinstance(v, CSSUnitValue), 'class of a time')
        return ['list:%d' % len(values)]
    check(len(values) == 1, 'number of values', case=case, got=len(values))
    v = values[0]
    fold = (lambda x: [y.lower() for y in x]) if kind in ('wide', 'color') \
        else (lambda x: x)
    check(fold(canon(v.tostring())) == fold(canon(text)),
          'text', case=case, got=v.tostring())
    judge(v, case)
    # a value of the same content that was not parsed writes the same
    if 'unit' in case:
        made = CSSUnitValue(v.value, v.unit)
    elif kind == 'math':
        made = build(read(v))
    elif kind == 'url':
        made = CSSURLImageValue(case['url'])
        check(CSSURLImageValue(made.tostring()).value == case['url'],
              'url of its text')
    elif kind in ('keyword', 'wide'):
        made = CSSKeywordValue(v.value)
    else:
        return ['kind:' + kind]
    again = CSSStyleValue.parse(name, made.tostring())
    judge(again, case)
    return ['kind:' + kind]


# token sequences with references
WORDS = ['a', '10px', '50%', '#abc', '"s t"', "'q'", ',', '/', 'url(x.png)',
         '+', 'red', '1.5em', '*', '--y', 'None', '" var(--no) "',
         ':']
VARIABLES = ['--x', '--foo-bar', '--X', '--a1', '--_']
word = st.sampled_from(WORDS).map(lambda s: ['w', s])


def extend(children):
    sequence = st.lists(children, max_size=4)
    variable = st.sampled_from(VARIABLES)
    return st.one_of(
        st.tuples(st.just('var'), variable, st.none()).map(list),
        st.tuples(st.just('var'), variable, sequence).map(list),
        st.tuples(st.just('fn'), st.sampled_from(
            ['calc', 'foo', 'translate']), sequence).map(list),
        st.tuples(st.just('block'), st.sampled_from(['()', '[]', '{}']),
                  sequence).map(list))


sequences = st.lists(st.recursive(word, extend, max_leaves=8), min_size=1,
                     max_size=5)
GLUE = [' ', ' ', '  ', ' /**/ ', '/* x */', '\n']


def render(seq, glue, fallback=False):
    out = []
    for i, x in enumerate(seq):
        if i:
            out.append(glue[(len(out) + i) % len(glue)])
        if x[0] == 'w':
            out.append(x[1])
        elif x[0] == 'var':
            out.append('var(' + x[1] + ('' if x[2] is None else
                                        ',' + render(x[2], glue)) + ')')
        elif x[0] == 'fn':
            out.append(x[1] + '(' + render(x[2], glue) + ')')
        else:
            out.append(x[1][0] + render(x[2], glue) + x[1][1])
    return ''.join(out)


def flat(seq):
    """Members with strings as token lists, neighbours merged."""
    out = []

    def push(items):
        if out and isinstance(out[-1], tuple):
            out[-1] += tuple(items)
        else:
            out.append(tuple(items))

    def go(seq):
        for x in seq:
            if x[0] == 'w':
                push(canon(x[1]))
            elif x[0] == 'var':
                out.append(['var', x[1],
                            None if x[2] is None else flat(x[2])])
            elif x[0] == 'fn':
                push([x[1] + '('])
                go(x[2])
                push([')'])
            else:
                push([x[1][0]])
                go(x[2])
                push([x[1][1]])
    go(seq)
    return out


def has_var(seq):
    return any(x[0] == 'var' or x[0] != 'w' and has_var(x[2]) for x in seq)


def members(unparsed):
    check(isinstance(unparsed, CSSUnparsedValue), 'class',
          got=type(unparsed))
    check(unparsed.length == len(unparsed) == len(list(unparsed)), 'length')
    out = []
    for item in unparsed:
        if isinstance(item, str):
            part = tuple(canon(item))
            check(not out or not isinstance(out[-1], tuple),
                  'strings are merged', value=list(unparsed))
            if part:
                out.append(part)
        else:
            check(isinstance(item, CSSVariableReferenceValue), 'member')
            out.append(['var', item.variable, None if item.fallback is None
                        else members(item.fallback)])
    return out


def construct(seq, glue):
    items = []

    def text(s):
        if items and isinstance(items[-1], str):
            items[-1] += s
        else:
            items.append(s)

    def go(seq):
        for i, x in enumerate(seq):
            if i:
                text(' ')
            if x[0] == 'w':
                text(x[1])
            elif x[0] == 'var':
                items.append(CSSVariableReferenceValue(
                    x[1], None if x[2] is None else construct(x[2], glue)))
            elif x[0] == 'fn':
                text(x[1] + '(')
                go(x[2])
                text(')')
            else:
                text(x[1][0])
                go(x[2])
                text(x[1][1])
    go(seq)
    return CSSUnparsedValue(items)


@REG.test(st.tuples(sequences, st.lists(st.sampled_from(GLUE), min_size=1,
                                        max_size=3),
                    st.sampled_from(['--p', 'width', 'fill', 'font-family',
                                     'transform', '--P-q'])), quick=2500)
def references(case):
    seq, glue, name = case
    if not has_var(seq) and not name.startswith('--'):
        return []
    text = render(seq, glue)
    want = flat(seq)
    v = CSSStyleValue.parse(name, text)
    check(members(v) == want, 'members', text=text, got=members(v),
          want=want)
    check(canon(v.tostring()) == canon(text), 'text', text=text,
          got=v.tostring())
    made = construct(seq, glue)
    check(canon(made.tostring()) == canon(text), 'text of members',
          text=text, got=made.tostring())
    again = CSSStyleValue.parse(name, made.tostring())
    check(members(again) == want, 'written and read again',
          text=made.tostring(), got=members(again), want=want)
    nested = any(x[0] != 'w' and x[2] and has_var(x[2]) for x in seq)
    return ['references', 'nested'] if nested else \
        ['references'] if has_var(seq) else []


# unparsed values as lists
piece = st.sampled_from(['a ', ' 1px', ',', ['--x'], ['--y', 'f'],
                         ['--z', '']])
index = st.integers(-6, 6)
list_ops = st.lists(st.one_of(
    st.tuples(st.just('set'), index, piece),
    st.tuples(st.just('insert'), index, piece),
    st.tuples(st.just('append'), piece),
    st.tuples(st.just('del'), index),
    st.tuples(st.just('pop'), index),
    st.tuples(st.just('extend'), st.lists(piece, max_size=3)),
    st.tuples(st.just('slice'), index, index, st.lists(piece, max_size=3)),
    st.tuples(st.just('delslice'), index, index),
    st.tuples(st.just('bad'), index),
    st.tuples(st.just('reverse'))).map(list), min_size=1, max_size=10)


def to_member(p):
    if isinstance(p, str):
        return p
    return CSSVariableReferenceValue(
        p[0], None if len(p) == 1 else CSSUnparsedValue(
            [p[1]] if p[1] else []))


def member_text(p):
    if isinstance(p, str):
        return p
    return 'var({})'.format(','.join(p))


@REG.test(st.tuples(st.lists(piece, max_size=3), st.booleans(), list_ops),
          quick=1500)
def sequence(case):
    start, parsed, ops = case
    if parsed and start:
        v = CSSStyleValue.parse('--p', ''.join(map(member_text, start)))
        ref = [m if isinstance(m, str) else
               [m.variable] + ([] if m.fallback is None
                               else [''.join(m.fallback)]) for m in v]
    else:
        v, ref = CSSUnparsedValue(map(to_member, start)), list(start)

    def agrees(op):
        got = [m if isinstance(m, str) else
               [m.variable] + ([] if m.fallback is None
                               else [''.join(m.fallback)]) for m in v]
        check(got == ref and len(v) == v.length == len(ref), 'members',
              after=op, got=got, want=ref)
        check(re.sub(r'\s+', ' ', v.tostring())
              == re.sub(r'\s+', ' ', ''.join(map(member_text, ref))), 'text',
              after=op, got=v.tostring(), want=ref)
    agrees('start')
    changes = 0
    for op in ops:
        kind = op[0]
        results = []
        for target, conv in ((ref, lambda p: p), (v, to_member)):
            try:
                if kind == 'set':
                    target[op[1]] = conv(op[2])
                elif kind == 'insert':
                    target.insert(op[1], conv(op[2]))
                elif kind == 'append':
                    target.append(conv(op[1]))
                elif kind == 'del':
                    del target[op[1]]
                elif kind == 'pop':
                    target.pop(op[1])
                elif kind == 'extend':
                    target.extend([conv(p) for p in op[1]])
                elif kind == 'slice':
                    target[op[1]:op[2]] = [conv(p) for p in op[3]]
                elif kind == 'delslice':
                    del target[op[1]:op[2]]
                elif kind == 'reverse':
                    target.reverse()
                elif kind == 'bad' and target is v:
                    for act in (lambda: v.insert(op[1], 1),
                                lambda: v.append(None),
                                lambda: v.extend([b'x']),
                                lambda: v.__setitem__(slice(0, 1), [2])):
                        try:
                            act()
                        except TypeError:
                            continue
                        fail('a member of another type was accepted')
                results.append(None)
            except IndexError:
                results.append('IndexError')
        check(results[0] == results[1], 'index error', op=op, got=results)
        changes += results[0] is None and kind != 'bad'
        agrees(op)
    return ['sequence'] if changes > 1 else []


# style maps
MAP_VALUES = {
    'width': ['auto', '10px', '50%', 'calc(1px + 2em)', 'inherit',
              'var(--x)'],
    'fill': ['none', 'red', '#abc', 'currentcolor', 'var(--x, red)'],
    'opacity': ['0.5', '1', '50%'],
    'stroke-width': ['2', '3px', '1.5em'],
    'background-image': ['url("a.png")', 'url("a.png"), url("b.png")'],
    'display': ['none', 'inline'],
    '--x': ['a b', '10px', 'var(--y)'],
    '--X': ['z', '{ a: b }'],
    'clip-path': ['url("#a")', 'none'],
}
BROKEN = ['red; fill: blue', '!', '1px !important', ';']
map_name = st.sampled_from(sorted(MAP_VALUES)).flatmap(
    lambda n: st.tuples(st.just(n), st.sampled_from(MAP_VALUES[n]),
                        st.booleans())).map(list)
map_ops = st.lists(st.one_of(
    st.tuples(st.just('set'), map_name, st.sampled_from(
        ['text', 'typed', 'item'])),
    st.tuples(st.just('set'), map_name, st.sampled_from(
        ['text', 'typed', 'item'])),
    st.tuples(st.just('many'), st.lists(st.sampled_from(
        ['a.png', 'b.png', '#c']), min_size=1, max_size=3), st.booleans()),
    st.tuples(st.just('delete'), map_name, st.booleans()),
    st.tuples(st.just('clear')),
    st.tuples(st.just('broken'), map_name, st.sampled_from(BROKEN)),
    st.tuples(st.just('mismatch'), map_name),
    st.tuples(st.just('type'), map_name),
    st.tuples(st.just('empty'), map_name),
    st.tuples(st.just('decl'), map_name, st.sampled_from(
        ['', 'important'])),
    st.tuples(st.just('decl'), map_name, st.sampled_from(
        ['', 'important'])),
    st.tuples(st.just('remove'), map_name)).map(list),
    min_size=1, max_size=10)


def fold(item):
    name, text, upper = item
    return name.upper() if upper and not name.startswith('--') else name


@REG.test(st.tuples(st.sampled_from(['plain', 'rule', 'inline']), map_ops),
          quick=1500)
def style_map(case):
    kind, ops = case
    element = None
    if kind == 'plain':
        decl = CSSStyleDeclaration()
    elif kind == 'rule':
        decl = CSSParser.fromstring('rect { }')[0].style
    else:
        element = SVGParser().create_element_ns(
            'http://www.w3.org/2000/svg', 'rect')
        decl = element.style
    style = StylePropertyMap(decl)
    reader = StylePropertyMapReadOnly(decl)
    ref = OrderedDict()

    def put(name, text, priority=''):
        ref.pop(name, None)
        ref[name] = (text, priority)

    def agrees(op):
        check(list(style) == list(style.keys()) == list(ref) == list(reader),
              'names', after=op, got=list(style), want=list(ref))
        check(len(style) == style.size == len(ref) == decl.length, 'size',
              after=op)
        for name in MAP_VALUES:
            other = name if name.startswith('--') else name.title()
            for m in (style, reader):
                check(m.has(other) == (name in ref) == (other in m),
                      'has', after=op, name=other, got=m.has(other))
                values, first = m.get_all(other), m.get(other)
                if name not in ref:
                    check(values == [] and first is None,
                          'absent property', after=op, name=name)
                    continue
                text = ', '.join(x.tostring() for x in values)
                check(canon(text) == canon(ref[name][0]), 'values',
                      after=op, name=name, got=text, want=ref[name])
                check(first.tostring() == values[0].tostring()
                      and m[other][0].tostring() == first.tostring(),
                      'first value', after=op, name=name)
                check(values[0].associated_property == name,
                      'associated property')
            if name in ref:
                check(canon(decl.get_property_value(name))
                      == canon(ref[name][0])
                      and decl.get_property_priority(name) == ref[name][1],
                      'declaration', after=op, name=name, got=(
                          decl.get_property_value(name),
                          decl.get_property_priority(name)),
                      want=ref[name])
        items = [(n, [x.tostring() for x in vs]) for n, vs in style.items()]
        check([n for n, _ in items] == list(ref), 'items', after=op)
        if element is not None:
            text = element.get('style') or ''
            for name, (value_, _) in ref.items():
                check(name + ':' in text.replace(' ', ''),
                      'style attribute', after=op, got=text, name=name)

    changes = 0
    for op in ops:
        kind = op[0]
        if kind in ('set', 'decl', 'delete', 'remove', 'empty', 'broken',
                    'mismatch', 'type'):
            item = op[1]
            name, text, spelled = item[0], item[1], fold(item)
        if kind == 'set':
            given = text
            if op[2] == 'typed' and name != 'background-image':
                given = CSSStyleValue.parse(name, text)
            if op[2] == 'item':
                style[spelled] = given
            else:
                style.set(spelled, given)
            put(name, text)
            changes += 1
        elif kind == 'many':
            given = [CSSURLImageValue(u) for u in op[1]]
            texts = ['url("{}")'.format(u) for u in op[1]]
            if op[2]:
                given = CSSStyleValue.parse_all('background-image',
                                                ', '.join(texts))
            style.set('background-image', *given)
            put('background-image', ', '.join(texts))
            changes += 1
        elif kind == 'delete':
            if op[2]:
                del style[spelled]
            else:
                style.delete(spelled)
            changes += name in ref
            ref.pop(name, None)
        elif kind == 'clear':
            style.clear()
            changes += len(ref) > 0
            ref.clear()
        elif kind == 'broken':
            # a text that is no value is not set and removes nothing
            style.set(spelled, op[2])
        elif kind == 'mismatch':
            try:
                style.set(spelled, CSSStyleValue.parse('stroke', 'blue'))
            except ValueError:
                pass
            else:
                fail('a value of another property was accepted', op=op)
        elif kind == 'type':
            for bad in ([1], [None], ['a', CSSUnparsedValue(['x'])],
                        [CSSUnparsedValue(['x']), 'a']):
                try:
                    style.set(spelled, *bad)
                except TypeError:
                    continue
                fail('a value of another type was accepted', op=op, bad=bad)
        elif kind == 'empty':
            style.set(spelled, '')
            changes += name in ref
            ref.pop(name, None)
        elif kind == 'decl':
            decl.set_property(spelled, text, op[2])
            put(name, text, op[2])
            changes += 1
        elif kind == 'remove':
            decl.remove_property(spelled)
            changes += name in ref
            ref.pop(name, None)
        agrees(op)
    return ['map:' + case[0]] if changes > 1 else []
