"""C01: declaration blocks, their text and the style attribute agree."""
from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.exception import NoModificationAllowedError

from ..gens import st
from ..harness import Registry, check, fail

REG = Registry(
    'C01',
    'Histories of up to 12 edits (set, item assignment, update, removal, '
    'attribute writes and removals, refused values and priorities) on the '
    'style of an element, a rule or a free block, over properties of every '
    'kind and values with strings, functions, urls, comments and escapes. A '
    'case is non-trivial when a property is replaced or removed after being '
    'set, when the attribute and the block are both written, or when '
    'something is refused.',
    ['the library never writes "!important" to the attribute for a '
     'declaration set through the block (tests pin it): inline histories set '
     'priorities through the attribute only, and the known-finding probe '
     'shows the loss',
     'longhands whose shorthand is rebuilt are in C02'])

SVG = 'http://www.w3.org/2000/svg'
NAMES = ['fill', 'stroke', 'stroke-width', 'display', 'transform', 'clip-path',
         'content', '--Foo', '--foo', 'foo-bar', 'font-palette', 'cursor']
VALUES = ['none', 'red', 'RED', '#abc', '1px', '0', '-1.5e3', '50%',
          'url(a.png)', 'url("data:image/png;base64,AA==")',
          'url(data:image/png;base64,AA==)', '"a; b: c"', "'x ! y'",
          '"it\\\'s"', '"two  spaces"', 'rgb(1, 2,  3)', 'rgba(1,2,3,.5)',
          'calc(1px + (2px * 3))', 'translate(1,2) scale(3)', 'a b', 'a  b',
          'a,b', 'a , b', 'var(--Foo, 1px)', '--foo', 'var(---x)', 'inherit', 'Inherit',
          'url(#a) blue', 'a/b', 'U+26', '\\66oo', 'a\tb', 'a /* c */ b',
          '{a;b}', '[x y]', 'f(a; b)', '"\\"}"', '図', '!x' '']
VALUES = [v for v in VALUES if v not in ('!x',)]
REFUSED = ['red; stroke: blue', 'red;', ';', 'a ! b', 'red !important', '!',
           'a)', ']', '}', 'a } b', 'url(a b', '"a\nb"']
VALUES.pop()  # the empty value is an operation of its own


def tokens(text):
    """A value as written, without comments and with single spaces.

    Own scanner: knows strings, escapes, comments and urls.
    """
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if text.startswith('/*', i):
            j = text.find('*/', i + 2)
            i = len(text) if j < 0 else j + 2
            out.append(None)
            continue
        if c in '"\'':
            j, s = i + 1, ''
            while j < len(text) and text[j] != c:
                if text[j] == '\\':
                    s += text[j + 1]
                    j += 1
                else:
                    s += text[j]
                j += 1
            out.append('"' + s + '"')
            i = j + 1
            continue
        if text[i:i + 4].lower() == 'url(' and text[i + 4] not in '"\'':
            j = text.index(')', i)
            out.append('url(')
            out.append('"' + text[i + 4:j] + '"')
            out.append(')')
            i = j + 1
            continue
        if c in ' \t\n':
            if not (out and out[-1] == ' '):
                out.append(' ')
        elif c == '\\':
            if text[i + 1:i + 3] == '66':
                out.append('f')
                i += 3
                if text[i:i + 1] == ' ':
                    i += 1
                continue
            out.append(text[i + 1])
            i += 1
        else:
            out.append(c)
        i += 1
    return out


def canon(text):
    items = [t for t in tokens(text) if t is not None]
    kept = []
    for t in items:
        if t == ' ' and kept and kept[-1] == ' ':
            continue
        kept.append(t)
    text = ''.join(kept).strip()
    if text.lower() in ('red', 'inherit'):
        text = text.lower()
    return text


def declarations(text):
    """Own reading of a declaration list: [(name, value, priority)]."""
    out, part, depth, i = [], '', 0, 0
    parts = []
    while i < len(text):
        c = text[i]
        if c in '"\'':
            j = i + 1
            while text[j] != c:
                j += 2 if text[j] == '\\' else 1
            part += text[i:j + 1]
            i = j + 1
            continue
        if c == '\\':
            part += text[i:i + 2]
            i += 2
            continue
        if text.startswith('/*', i):
            i = text.index('*/', i) + 2
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == ';' and depth == 0:
            parts.append(part)
            part = ''
        else:
            part += c
        i += 1
    parts.append(part)
    for part in parts:
        if not part.strip():
            continue
        name, _, value = part.partition(':')
        value, priority = value.strip(), ''
        if value.lower().endswith('important') \
                and value[:-9].rstrip().endswith('!'):
            value, priority = value[:-9].rstrip()[:-1].strip(), 'important'
        out.append((name.strip(), value, priority))
    return out


def fold(name):
    return name if name.startswith('--') else name.lower()


class Model:
    """What a block holds: name -> (canonical value, priority)."""

    def __init__(self):
        self.map = {}

    def set(self, name, value, priority):
        name = fold(name)
        if priority is None:
            priority = self.map.get(name, ('', ''))[1]
        self.map.pop(name, None)
        self.map[name] = canon(value), priority

    def remove(self, name):
        return self.map.pop(fold(name), ('', ''))[0]

    def read(self, items):
        """A declaration list replaces everything."""
        self.map = {}
        for name, value, priority in items:
            name = fold(name)
            if self.map.get(name, ('', ''))[1] == 'important' and not priority:
                continue
            self.map.pop(name, None)
            self.map[name] = canon(value), priority


def state(style):
    return {n: (canon(v), p) for n, (v, p) in style.items()}


def compare(style, model, op):
    got = state(style)
    check(not any('/*' in v for v, _ in style.values()),
          'a comment in a value', after=op, got=list(style.values()))
    check(got == model.map, 'the block does not hold the declarations',
          after=op, got=got, expected=model.map)
    check(style.length == len(style) == len(model.map)
          and sorted(style) == sorted(model.map)
          and sorted(style.item(i) for i in range(len(style)))
          == sorted(model.map),
          'names and length disagree', after=op, got=list(style))
    for n in NAMES:
        want = model.map.get(n, ('', ''))
        check((canon(style.get_property_value(n)),
               style.get_property_priority(n)) == want
              and canon(style[n]) == want[0] and (n in style) == (
                  n in model.map),
              'a property reads differently', after=op, name=n)
        if not n.startswith('--'):
            check(canon(style.get_property_value(n.upper())) == want[0],
                  'names are case-sensitive', name=n)
    text = style.css_text
    again = Model()
    again.read(declarations(text))
    check(again.map == model.map,
          'the text describes other declarations', after=op, text=text,
          got=again.map, expected=model.map)


def attribute(element, style, model, op):
    text = element.get('style')
    if not model.map:
        check(text is None or not declarations(text),
              'an attribute remains', after=op, got=text)
        return
    check(text is not None, 'the attribute is missing', after=op)
    again = Model()
    again.read(declarations(text))
    check(again.map == model.map,
          'the attribute describes other declarations', after=op, text=text,
          got=again.map, expected=model.map)
    copy = SVGParser().create_element_ns(SVG, 'g')
    copy.set('style', text)
    check(state(copy.style) == model.map,
          'another element with this attribute has other declarations',
          after=op, text=text)


name = st.sampled_from(NAMES + ['FILL', 'Stroke'])
value = st.sampled_from(VALUES)
flag = st.sampled_from(['', '', None, 'important', 'IMPORTANT'])
entry = st.tuples(name, value, st.sampled_from(
    ['', '', '', ' !important', ' ! IMPORTANT', '!important'])).map(list)
space = st.sampled_from(['', ' ', '\n  '])
listing = st.tuples(st.lists(entry, max_size=4), space, st.booleans(),
                    st.sampled_from(['', '', '/* x: y; */', ';;'])).map(list)
OPS = st.one_of(
    st.tuples(st.just('set'), name, value, flag),
    st.tuples(st.just('set'), name, value, flag),
    st.tuples(st.just('item'), name, value),
    st.tuples(st.just('update'), st.lists(
        st.tuples(name, value).map(list), max_size=3)),
    st.tuples(st.just('remove'), name),
    st.tuples(st.just('del'), name),
    st.tuples(st.just('empty'), name, st.sampled_from(['', ' ', '\n'])),
    st.tuples(st.just('priority'), name, value,
              st.sampled_from(['unknown', '!important', 'x'])),
    st.tuples(st.just('refused'), name, st.sampled_from(REFUSED)),
    st.tuples(st.just('attr'), listing),
    st.tuples(st.just('attr'), listing),
    st.tuples(st.just('unset'))).map(list)


def written(case):
    items, gap, end, junk = case
    text = (';' + gap).join(n + ':' + gap + v + p for n, v, p in items)
    return junk + text + (';' if end else '')


def model_items(case):
    return [(n, v, 'important' if p else '') for n, v, p in case[0]]


def act(op, style, model, element):
    """Performs an operation on both; the labels it earns."""
    kind, out = op[0], set()
    if kind in ('set', 'item') and fold(op[1]) in model.map:
        out.add('replaced')
    if kind == 'set':
        priority = op[3]
        if element is not None:
            priority = None if priority is None else ''
        style.set_property(op[1], op[2], priority)
        model.set(op[1], op[2],
                  None if priority is None else priority.lower())
    elif kind == 'item':
        style[op[1]] = op[2]
        model.set(op[1], op[2], None)
    elif kind == 'update':
        style.update([tuple(x) for x in op[1]])
        for n, v in op[1]:
            model.set(n, v, None)
    elif kind == 'remove':
        if fold(op[1]) in model.map:
            out.add('removed')
        got, want = style.remove_property(op[1]), model.remove(op[1])
        check(canon(got) == want, 'removal returns another value', got=got,
              expected=want)
    elif kind == 'del':
        del style[op[1]]
        model.remove(op[1])
    elif kind == 'empty':
        style.set_property(op[1], op[2])
        model.remove(op[1])
    elif kind == 'priority':
        style.set_property(op[1], op[2], op[3])
    elif kind == 'refused':
        out.add('refused')
        style.set_property(op[1], op[2])
    elif element is not None:
        out.add('attribute')
        if kind == 'attr':
            element.set('style', written(op[1]))
            model.read(model_items(op[1]))
        else:
            element.remove_attribute('style')
            model.read([])
    return out


@REG.test(st.lists(OPS, min_size=1, max_size=12), quick=2500)
def inline(ops):
    """The style of an element and its style attribute."""
    element = SVGParser().create_element_ns(SVG, 'g')
    style, model, out = element.style, Model(), set()
    kinds = set()
    for op in ops:
        before = element.get('style')
        kinds.add(op[0] in ('attr', 'unset'))
        out |= act(op, style, model, element)
        if op[0] in ('priority', 'refused'):
            check(element.get('style') == before,
                  'a refused edit changes the attribute', op=op)
        compare(style, model, op)
        attribute(element, style, model, op)
    check(element.style.items() == style.items(), 'two blocks')
    return out if len(kinds) > 1 else out - {'attribute'}


@REG.test(st.tuples(listing, st.lists(OPS, max_size=10), st.booleans()),
          quick=2000)
def blocks(case):
    """The blocks of rules and free blocks."""
    first, ops, rule = case
    model = Model()
    if rule:
        style = CSSParser.fromstring('a { %s }' % written(first))[0].style
        model.read(model_items(first))
    else:
        style = CSSStyleDeclaration()
    out = set()
    compare(style, model, 'start')
    for op in ops:
        if op[0] in ('attr', 'unset'):
            continue
        out |= act(op, style, model, None)
        compare(style, model, op)
    again = CSSParser.fromstring('a { %s }' % style.css_text)[0].style
    compare(again, model, 'reading the text')
    return out


@REG.test(st.tuples(listing, st.lists(OPS, min_size=1, max_size=5),
                    st.booleans()), quick=500)
def read_only(case):
    """A read-only block refuses every edit and ignores the attribute."""
    first, ops, inline_ = case
    element = SVGParser().create_element_ns(SVG, 'g') if inline_ else None
    model = Model()
    if inline_:
        style = CSSStyleDeclaration(owner_node=element, inline_style=True)
    else:
        style = CSSStyleDeclaration()
    for n, v, _ in first[0]:
        style.set_property(n, v, '')
        model.set(n, v, '')
    style.readonly = True
    check(style.readonly, 'not read-only')
    before = element.get('style') if inline_ else None
    for op in ops:
        if op[0] in ('attr', 'unset'):
            if inline_:
                act(op, style, Model(), element)
                before = element.get('style')
        else:
            try:
                act(op, style, Model(), None)
            except NoModificationAllowedError:
                pass
            else:
                if op[0] != 'update' or op[1]:
                    fail('a read-only block accepts an edit', op=op)
        compare(style, model, op)
        if inline_:
            check(element.get('style') == before,
                  'a read-only block writes the attribute', op=op)
    return {'refused'}


@REG.probe('C01-priority-not-written')
def priority_not_written():
    element = SVGParser().create_element_ns(SVG, 'g')
    element.style.set_property('fill', 'red', 'important')
    return element.get('style') == 'fill: red;'
