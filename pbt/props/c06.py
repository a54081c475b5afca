"""C06: the cascade, inheritance and the computed values that depend on it."""
from svgpy import SVGDOMImplementation, SVGParser
from svgpy.window import Window

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'C06',
    'Documents of up to seven elements with up to three style sheets of type, '
    'class, id, attribute and structural selectors joined by any '
    'combinator, @media blocks also inside each other, media attributes, '
    'inline styles and presentation attributes, with and without !important, inherit, initial and unset, and with the '
    'font, font-variant, marker and white-space shorthands. Every property '
    'of every element is compared with a reference cascade. A case is '
    'non-trivial when some property of some element is declared at two or '
    'more of the four places (attribute, sheet, inline, ancestor), or by two '
    'matching rules.',
    ['presentation attributes come before every author rule (SVG 2), sheets '
     'do not set what the user-agent sheet sets, an element with an ancestor '
     'of display none has display none (library convention), font sizes '
     'below ten are raised to ten'])

NS = 'http://www.w3.org/2000/svg'

# name: (inherited, initial, values)
PLAIN = {
    'fill': (True, 'black', ['red', 'blue', 'none', 'green']),
    'stroke': (True, 'none', ['red', 'lime', 'none']),
    'text-anchor': (True, 'start', ['start', 'middle', 'end']),
    'visibility': (True, 'visible', ['visible', 'hidden', 'collapse']),
    'clip-rule': (True, 'nonzero', ['nonzero', 'evenodd']),
    'pointer-events': (True, 'visiblePainted', ['none', 'all', 'stroke']),
    'direction': (True, 'ltr', ['ltr', 'rtl']),
    'letter-spacing': (True, 'normal', ['normal', '2px', '3px']),
    'white-space': (True, 'normal', ['normal', 'pre', 'nowrap', 'pre-line',
                                     'pre-wrap']),
    'opacity': (False, '1', ['1', '0.5', '0.25']),
    'flood-opacity': (False, '1', ['0', '0.5']),
    'stop-opacity': (False, '1', ['0', '0.5']),
    'flood-color': (False, 'black', ['red', 'white']),
    'lighting-color': (False, 'white', ['red', 'black']),
    'clip-path': (False, 'none', ['none', 'url(#a)']),
    'filter': (False, 'none', ['none', 'url(#f)']),
    'mask': (False, 'none', ['none']),
    'overflow': (False, 'visible', ['hidden', 'scroll', 'auto']),
    'unicode-bidi': (False, 'normal', ['embed', 'bidi-override']),
    'alignment-baseline': (False, 'baseline', ['middle', 'baseline']),
    'baseline-shift': (False, '0', ['sub', 'super', '3px']),
    'color': (True, 'black', ['red', 'blue']),
    'color-interpolation': (True, 'sRGB', ['auto', 'linearRGB']),
    'color-rendering': (True, 'auto', ['optimizeSpeed', 'auto']),
    'cursor': (True, 'auto', ['default', 'wait']),
    'fill-opacity': (True, '1', ['0', '0.5']),
    'fill-rule': (True, 'nonzero', ['nonzero', 'evenodd']),
    'image-rendering': (True, 'auto', ['auto', 'pixelated']),
    'paint-order': (True, 'normal', ['fill', 'stroke']),
    'shape-rendering': (True, 'auto', ['crispEdges']),
    'stroke-dasharray': (True, 'none', ['none', '3']),
    'stroke-dashoffset': (True, '0', ['3', '4px']),
    'stroke-linecap': (True, 'butt', ['round', 'square', 'butt']),
    'stroke-linejoin': (True, 'miter', ['round', 'bevel']),
    'stroke-miterlimit': (True, '4', ['1', '8']),
    'stroke-opacity': (True, '1', ['0', '0.5']),
    'text-orientation': (True, 'mixed', ['upright', 'sideways']),
    'text-rendering': (True, 'auto', ['optimizeSpeed']),
    'word-spacing': (True, 'normal', ['normal', '2px']),
    'writing-mode': (True, 'horizontal-tb', ['vertical-rl', 'vertical-lr']),
    'stop-color': (False, 'black', ['red', 'white']),
    'vector-effect': (False, 'none', ['none', 'non-scaling-stroke']),
    'dominant-baseline': (False, 'auto', ['auto', 'middle', 'hanging']),
    'marker-start': (True, 'none', ['none', 'url(#a)']),
    'marker-mid': (True, 'none', ['none', 'url(#a)']),
    'marker-end': (True, 'none', ['none', 'url(#b)']),
    'font-style': (True, 'normal', ['normal', 'italic', 'oblique']),
    'font-variant-caps': (True, 'normal', ['normal', 'small-caps',
                                           'all-small-caps']),
    'font-stretch': (True, 'normal', ['normal', 'condensed', 'expanded']),
    'font-family': (True, None, ['Arial', 'serif', 'monospace']),
}
NUMERIC = {
    'font-size': (True, 'medium', ['20px', '30px', '2em', '50%', '150%',
                                   'larger', 'smaller', 'small', 'medium',
                                   'x-large', '1in']),
    'font-weight': (True, 'normal', ['normal', 'bold', 'bolder', 'lighter',
                                     '100', '200', '300', '400', '500',
                                     '600', '700', '800', '900']),
    'line-height': (True, 'normal', ['normal', '2', '1.5', '2em', '30px',
                                     '150%']),
    'stroke-width': (True, '1', ['2', '3px', '0.5em', '2em']),
}
LONGHANDS = dict(PLAIN, **NUMERIC)
SHORTHANDS = {
    'font': {
        '12px serif': {'font-size': '12px', 'font-family': 'serif'},
        'bold 20px/2 Arial': {'font-weight': 'bold', 'font-size': '20px',
                              'line-height': '2', 'font-family': 'Arial'},
        'italic 2em/150% monospace': {
            'font-style': 'italic', 'font-size': '2em', 'line-height': '150%',
            'font-family': 'monospace'},
        'small-caps bolder 30px serif': {
            'font-variant-caps': 'small-caps', 'font-weight': 'bolder',
            'font-size': '30px', 'font-family': 'serif'},
    },
    'font-variant': {
        'normal': {'font-variant-caps': 'normal'},
        'small-caps': {'font-variant-caps': 'small-caps'},
        'all-small-caps': {'font-variant-caps': 'all-small-caps'},
    },
    'marker': {
        'none': {k: 'none' for k in ('marker-start', 'marker-mid',
                                     'marker-end')},
        'url(#c)': {k: 'url(#c)' for k in ('marker-start', 'marker-mid',
                                           'marker-end')},
    },
}
FONT = ['font-style', 'font-variant-caps', 'font-weight', 'font-stretch',
        'font-size', 'line-height', 'font-family']
GROUPS = {'font': FONT, 'font-variant': ['font-variant-caps'],
          'marker': ['marker-start', 'marker-mid', 'marker-end']}
KEYWORDS = ['inherit', 'initial', 'unset']
MEDIA = ['all', 'screen', 'print', 'not print', '(min-width: 100px)',
         '(max-width: 99px)', 'print, screen']
DEFAULT_FONT_FAMILY = None
SIZES = {'small': 13, 'medium': 16, 'x-large': 24}


def declaration(pairs):
    return st.sampled_from(pairs).flatmap(
        lambda k: st.sampled_from(values(k)).map(lambda v: [k, v]))


def values(key):
    if key in SHORTHANDS:
        own = list(SHORTHANDS[key])
    else:
        own = LONGHANDS[key][2]
    return own + own + KEYWORDS


REST = [k for k in PLAIN if not k.startswith(('font', 'marker'))]
FEW = ['fill', 'opacity', 'font-size', 'white-space']
names = st.one_of(
    st.just(FEW), st.just(REST), st.just(list(LONGHANDS)), st.just(FONT + ['font']),
    st.just(['font-variant', 'font-variant-caps', 'font', 'fill']),
    st.just(['marker', 'marker-start', 'marker-mid', 'marker-end', 'fill']),
    st.just(['font-size', 'line-height', 'stroke-width', 'font-weight']),
    st.just(list(LONGHANDS) + list(SHORTHANDS)))

TAGS = ['g', 'text', 'rect', 'a']
CLASSES = ['k', 'm']
IDS = ['i0', 'i1', 'i2', 'i3']
compound = st.fixed_dictionaries({
    'tag': st.sampled_from([None, None, '*'] + TAGS),
    'id': st.sampled_from([None, None, None] + IDS),
    'cls': st.lists(st.sampled_from(CLASSES), max_size=2, unique=True),
    'attr': st.sampled_from([None, None, None, None, ['data-x', None],
                             ['data-x', '1'], ['data-x', '2']]),
    'pseudo': st.sampled_from([None] * 10 + [
        ':root', ':first-child', ':last-child', ':only-child',
        ':nth-child(2)', ':nth-child(odd)', ':nth-last-child(1)',
        ':first-of-type', ':last-of-type', ':nth-of-type(2)', ':empty',
        ':not(.k)', ':not(#i1)', ':not(text)', ':not([data-x])']),
})
complex_ = st.lists(st.tuples(st.sampled_from([' ', ' ', '>', '+', '~']),
                              compound), min_size=1, max_size=3)


def of_type_needs_a_type(item):
    for _, c in item:
        # cssselect cannot translate '*:first-of-type', and the root is no
        # :only-child to it
        if (('of-type' in (c['pseudo'] or '') or c['pseudo'] == ':only-child')
                and c['tag'] in (None, '*')):
            c['pseudo'] = None
    return item


complex_ = complex_.map(of_type_needs_a_type)
selectors = st.lists(complex_, min_size=1, max_size=2)


def text_of_compound(c):
    text = c['tag'] or ''
    if c['id']:
        text += '#' + c['id']
    for k in c['cls']:
        text += '.' + k
    if c['attr']:
        name, value = c['attr']
        text += '[{}]'.format(name if value is None
                              else '{}="{}"'.format(name, value))
    return text + (c.get('pseudo') or '') or '*'


def text_of(selector_list):
    parts = []
    for item in selector_list:
        text = ''
        for i, (comb, c) in enumerate(item):
            if i:
                text += ' ' if comb == ' ' else ' {} '.format(comb)
            text += text_of_compound(c)
        parts.append(text)
    return ', '.join(parts)


class Node:
    def __init__(self, spec, parent):
        self.spec = spec
        self.tag = spec['tag']
        self.parent = parent
        self.children = []
        self.before = []
        self.attrs = {}
        if parent is not None:
            self.before = list(parent.children)
            parent.children.append(self)
        self.element = None
        self.declared = {}


def fits(node, c):
    if c['tag'] not in (None, '*') and node.tag != c['tag']:
        return False
    if c['id'] is not None and node.spec['id'] != c['id']:
        return False
    if any(k not in node.spec['cls'] for k in c['cls']):
        return False
    if c['attr']:
        value = node.spec['data']
        if value is None or c['attr'][1] not in (None, value):
            return False
    return fits_pseudo(node, c.get('pseudo'))


def fits_pseudo(node, pseudo):
    if pseudo is None:
        return True
    elif pseudo == ':root':
        return node.parent is None
    elif pseudo == ':empty':
        return not node.children and node.tag != 'style'
    elif pseudo == ':not(.k)':
        return 'k' not in node.spec['cls']
    elif pseudo == ':not(#i1)':
        return node.spec['id'] != 'i1'
    elif pseudo == ':not(text)':
        return node.tag != 'text'
    elif pseudo == ':not([data-x])':
        return node.spec['data'] is None
    siblings = node.parent.children if node.parent else [node]
    if 'of-type' in pseudo:
        siblings = [x for x in siblings if x.tag == node.tag]
    at = siblings.index(node)
    last = len(siblings) - 1
    return {'first': at == 0, 'last': at == last, 'only': last == 0,
            'nth-last': at == last,
            'nth': at % 2 == 0 if 'odd' in pseudo else at == 1}[
        pseudo[1:].split('-child')[0].split('-of-type')[0]]


def matches(node, item):
    comb, last = item[-1]
    if not fits(node, last):
        return False
    if len(item) == 1:
        return True
    rest = item[:-1]
    if comb == ' ':
        up = node.parent
        while up is not None:
            if matches(up, rest):
                return True
            up = up.parent
        return False
    if comb == '>':
        return node.parent is not None and matches(node.parent, rest)
    if comb == '+':
        return bool(node.before) and matches(node.before[-1], rest)
    return any(matches(x, rest) for x in node.before)


def specificity(item):
    pseudos = [c.get('pseudo') or '' for _, c in item]
    ids = (sum(1 for _, c in item if c['id'])
           + sum('#' in x for x in pseudos))
    tags = (sum(1 for _, c in item if c['tag'] not in (None, '*'))
            + sum('text' in x for x in pseudos))
    attrs = (sum(len(c['cls']) + (1 if c['attr'] else 0) for _, c in item)
             + sum(x != '' and '#' not in x and 'text' not in x
                   for x in pseudos))
    return (ids, attrs, tags)


def expand(key, value):
    if key in GROUPS:
        if value in KEYWORDS:
            return {k: value for k in GROUPS[key]}
        full = {k: LONGHANDS[k][1] for k in GROUPS[key]}
        full.update(SHORTHANDS[key][value])
        return full
    return {key: value}


def blocks(m):
    return m if isinstance(m, (list, tuple)) else [] if m is None else [m]


def medium(index, width):
    return [True, True, False, True, width >= 100, width <= 99, True][index]


element = st.fixed_dictionaries({
    'tag': st.sampled_from(TAGS),
    'up': st.integers(0, 3),
    'id': st.sampled_from([None] + IDS),
    'cls': st.lists(st.sampled_from(CLASSES), max_size=2, unique=True),
    'data': st.sampled_from([None, None, '1', '2']),
    'inline': st.integers(0, 2),
    'attrs': st.integers(0, 2),
})
rule = st.tuples(selectors, st.integers(1, 3),
                 st.one_of(st.sampled_from([None, None, None]
                                           + list(range(7))),
                           st.lists(st.sampled_from([0, 1, 3, 3, 4, 5, 6]),
                                    min_size=2, max_size=3)))
sheet = st.tuples(st.sampled_from([None, None, None, 1, 2, 4, 5]),
                  st.lists(rule, min_size=1, max_size=4))


@st.composite
def documents(draw):
    pool = draw(names)
    decl = declaration(pool)
    attr_pool = [k for k in pool]
    plain = st.lists(declaration(attr_pool), max_size=3,
                     unique_by=lambda x: x[0])
    block = st.lists(st.tuples(decl, st.sampled_from([0, 0, 0, 1])),
                     min_size=1, max_size=3)
    count = draw(st.integers(1, 6))
    nodes = []
    for _ in range(count):
        spec = draw(element)
        spec['inline'] = draw(block) if spec['inline'] == 1 else []
        spec['attrs'] = draw(plain) if spec['attrs'] else []
        nodes.append(spec)
    sheets = []
    for media, rules in draw(st.lists(sheet, max_size=3)):
        sheets.append([media, [
            [sel, draw(block), m] for sel, _, m in rules]])
    width = draw(st.sampled_from([50, 100, 300]))
    root_attrs = draw(plain)
    return {'nodes': nodes, 'sheets': sheets, 'width': width,
            'root': root_attrs}


def block_text(block):
    return '; '.join('{}: {}{}'.format(k, v, ' !important' if imp else '')
                     for (k, v), imp in block)


def build(case):
    window = Window(SVGDOMImplementation())
    doc = window.document
    root = Node({'tag': 'svg', 'id': None, 'cls': [], 'data': None,
                 'inline': [], 'attrs': case['root']}, None)
    root.element = doc.document_element
    root.element.set('width', str(case['width']))
    root.element.set('height', '100')
    keep = [window]
    for media, rules in case['sheets']:
        text = ''
        for sel, block, m in rules:
            body = '{} {{ {} }}'.format(text_of(sel), block_text(block))
            for each in reversed(blocks(m)):
                body = '@media {} {{ {} }}'.format(MEDIA[each], body)
            text += body + '\n'
        style = doc.create_element_ns(NS, 'style')
        style.set('type', 'text/css')
        if media is not None:
            style.set('media', MEDIA[media])
        style.text = text
        root.element.append_child(style)
        keep.append(style)
        # a style element is a sibling of those that follow it
        sibling = Node({'tag': 'style', 'id': None, 'cls': [], 'data': None,
                        'inline': [], 'attrs': []}, root)
        sibling.element = style
    nodes = [root]
    for spec in case['nodes']:
        parent = nodes[max(0, len(nodes) - 1 - spec['up'])]
        node = Node(spec, parent)
        node.element = doc.create_element_ns(NS, spec['tag'])
        parent.element.append_child(node.element)
        nodes.append(node)
    for node in nodes:
        spec = node.spec
        if spec['id']:
            node.element.set('id', spec['id'])
        if spec['cls']:
            node.element.set('class', ' '.join(spec['cls']))
        if spec['data'] is not None:
            node.element.set('data-x', spec['data'])
        for key, value in spec['attrs']:
            node.element.set(key, value)
        if spec['inline']:
            node.element.set('style', block_text(spec['inline']))
    return nodes, keep


def cascade(node, case):
    """The winning declarations, and whether any property has two."""
    layers = [[], [], [], [], []]
    # presentation attributes are a set: shorthands give way to longhands
    order = {'font': 0, 'font-variant': 1, 'marker': 1}
    for key, value in sorted(node.spec['attrs'],
                             key=lambda x: order.get(x[0], 2)):
        layers[0].append((key, value))
    found = []
    position = 0
    for media, rules in case['sheets']:
        for sel, block, m in rules:
            position += 1
            if media is not None and not medium(media, case['width']):
                continue
            if not all(medium(x, case['width']) for x in blocks(m)):
                continue
            hits = [specificity(x) for x in sel if matches(node, x)]
            if hits:
                found.append((max(hits), position, block))
    found.sort(key=lambda x: x[:2])
    for _, _, block in found:
        for (key, value), imp in settle(block):
            layers[3 if imp else 1].append((key, value))
    for (key, value), imp in settle(node.spec['inline']):
        layers[4 if imp else 2].append((key, value))
    result = {}
    clash = False
    for layer in layers:
        for key, value in layer:
            new = expand(key, value)
            clash = clash or any(k in result for k in new)
            result.update(new)
    return result, clash


def settle(block):
    """The declarations of a block, where an important one resists later
    normal ones of the same longhand."""
    done = {}
    for (key, value), imp in block:
        for k, v in expand(key, value).items():
            if k in done and done[k][1] and not imp:
                continue
            done[k] = (v, imp)
    return [((k, v), imp) for k, (v, imp) in done.items()]


def source(node, key):
    """The value that the element uses, and the node that declares it."""
    inherited, initial, _ = LONGHANDS[key]
    at = node
    while at is not None:
        value = at.declared.get(key)
        if value is None or value == 'unset':
            if not inherited:
                return initial, at
        elif value == 'initial':
            return initial, at
        elif value != 'inherit':
            return value, at
        at = at.parent
    return initial, None


def size(node):
    if node is None:
        return 16.0
    value, at = source(node, 'font-size')
    if at is None:
        return 16.0
    if value in SIZES:
        return float(SIZES[value])
    if value == 'larger':
        px = size(at.parent) * 1.2
    elif value == 'smaller':
        px = size(at.parent) / 1.2
    elif value.endswith('em'):
        px = float(value[:-2]) * size(at.parent)
    elif value.endswith('%'):
        px = float(value[:-1]) / 100 * size(at.parent)
    elif value.endswith('in'):
        px = float(value[:-2]) * 96
    else:
        px = float(value[:-2])
    return max(px, 10.0)


def weight(node):
    if node is None:
        return 400
    value, at = source(node, 'font-weight')
    if value in ('bolder', 'lighter'):
        base = weight(at.parent)
        if value == 'bolder':
            return 400 if base < 350 else 700 if base < 550 else 900
        return 100 if base < 550 else 400 if base < 750 else 700
    return {'normal': 400, 'bold': 700}.get(value) or int(value)


def lines(node):
    value, at = source(node, 'line-height')
    if value == 'normal':
        return 1.2 * size(node)
    if value.endswith('em'):
        return float(value[:-2]) * size(at)
    if value.endswith('%'):
        return float(value[:-1]) / 100 * size(at)
    if value.endswith('px'):
        return float(value[:-2])
    return float(value) * size(node)


def stroke(node):
    value, at = source(node, 'stroke-width')
    if value.endswith('em'):
        return float(value[:-2]) * size(at)
    return float(value.rstrip('px'))


NUMBERS = {'font-size': size, 'font-weight': weight, 'line-height': lines,
           'stroke-width': stroke}


RELATIVE = {
    'font-weight': ['bolder', 'lighter'] * 4 + [str(n) for n in range(
        100, 1000, 100)],
    'font-size': ['larger', 'smaller', '150%', '2em', '0.5em', '30px'],
    'line-height': ['2', '1.5', '2em', '30px', '150%', 'normal'],
    'stroke-width': ['2em', '3px', '0.5em']}
relative = st.sampled_from(
    ['font-weight', 'font-weight', 'font-size', 'line-height',
     'stroke-width']).flatmap(lambda key: st.lists(st.one_of(
         st.sampled_from(RELATIVE[key]), st.sampled_from(RELATIVE[key]),
         st.sampled_from(RELATIVE[key]),
         st.sampled_from([None] + KEYWORDS)).map(lambda v: [key, v]),
         min_size=3, max_size=4))


@st.composite
def chains(draw):
    values_ = draw(relative)
    extra = draw(st.sampled_from([None, 'larger', '50%', '12px']))
    nodes = []
    for item in values_:
        spec = {'tag': 'g', 'up': 0, 'id': None, 'cls': [], 'data': None,
                'inline': [], 'attrs': [item] if item[1] else []}
        if extra and item[0] != 'font-size' and draw(st.booleans()):
            spec['attrs'] = spec['attrs'] + [['font-size', extra]]
        if draw(st.booleans()):
            spec['inline'] = [[x, 0] for x in spec['attrs']]
            spec['attrs'] = []
        nodes.append(spec)
    return {'nodes': nodes[1:], 'sheets': [], 'width': 100,
            'root': nodes[0]['attrs']}


@REG.test(chains(), quick=900, thorough=30000)
def relative_values(case):
    return cascade_of_documents(case)


@REG.test(documents(), quick=1200, thorough=60000)
def cascade_of_documents(case):
    nodes, keep = build(case)
    rich = False
    for node in nodes:
        node.declared, clash = cascade(node, case)
        rich = rich or clash
        if node.parent is not None and any(
                k in node.parent.declared for k in node.declared):
            rich = True
    # the three deepest or latest elements tell about all the others
    for node in nodes[-3:]:
        style = node.element.get_computed_style()
        for key in PLAIN:
            want, _ = source(node, key)
            got = style[key]
            if key == 'font-family':
                if want is None:
                    continue
                want = [want]
            elif got.startswith('url'):
                got = got.replace('"', '')  # url(#a) or url("#a")
            check(got == want, 'computed {} of <{}> is not the winner of the '
                  'cascade'.format(key, node.tag), got=got, want=want,
                  markup=keep_text(nodes))
        for key, function in NUMBERS.items():
            want = function(node)
            got = style[key]
            check(abs(got - want) <= 1e-6 * max(1, abs(want)),
                  'computed {} of <{}> is not that of the winner of the '
                  'cascade'.format(key, node.tag), got=got, want=want,
                  markup=keep_text(nodes))
    return ['contest'] if rich else []


def keep_text(nodes):
    from lxml import etree
    return etree.tostring(nodes[0].element).decode()


def number_or_none(value, size_):
    return value if value == 'none' else float(value)


def tabs(value, size_):
    if value.endswith('em'):
        return float(value[:-2]) * size_
    return float(value.rstrip('px'))


EXTRA = {  # inherited, initial value, values, computed value
    'font-kerning': (True, 'auto', ['none', 'normal', 'auto'], None),
    'font-language-override': (True, 'normal', ['normal', '"SRB"'], None),
    'font-size-adjust': (True, 'none', ['none', '0.5', '1'], number_or_none),
    'font-synthesis': (True, 'weight style', [
        'none', 'weight', 'style', 'weight style', 'style weight'],
        lambda v, s: v.split()),
    'tab-size': (True, '8', ['0', '4', '2em', '12px'], tabs),
    'inline-size': (False, '0', ['0', '2em', '12px', '0.5em'], tabs),
    'display': (False, 'inline', ['none', 'block', 'inline'], None),
    'text-decoration': (False, 'none', ['none', 'underline', 'overline'],
                        None),
    'font-variant-position': (True, 'normal', ['normal', 'sub', 'super'],
                              None),
}
extra = st.sampled_from(sorted(EXTRA)).flatmap(lambda key: st.tuples(
    st.just(key), st.lists(st.tuples(
        st.sampled_from([None, None] + EXTRA[key][2] * 2 + KEYWORDS),
        st.sampled_from(['attr', 'style', 'both']),
        st.sampled_from([None, None, None, '20px', '2em'])),
        min_size=1, max_size=5)))


@REG.test(extra, quick=600, thorough=40000)
def inheritance(case):
    """One property down a chain of elements."""
    key, chain = case
    inherited, initial, _, compute = EXTRA[key]
    parser = SVGParser()
    doc = SVGDOMImplementation(parser).create_svg_document()
    node = doc.document_element
    parent_size = 16.
    parent = (initial, parent_size)
    hidden = False
    labels = set()
    for value, how, font in chain:
        el = doc.create_element_ns(node.namespace_uri, 'g')
        node.append(el)
        node = el
        size_ = parent_size
        if font is not None:
            el.set('font-size', font)
            size_ = 20. if font == '20px' else 2 * parent_size
        if value is not None:
            if how != 'style':
                el.set(key, value if how == 'attr' else EXTRA[key][2][0])
            if how != 'attr':
                el.set('style', '{}: {}'.format(key, value))
        if value is None or value == 'unset':
            value = 'inherit' if inherited else 'initial'
        if value == 'inherit':
            own = parent
            labels.add('inherit')
        elif value == 'initial':
            own = (initial, size_)
        else:
            own = (value, size_)
        want = own[0] if compute is None else compute(*own)
        if key == 'display':
            # nothing inside of what is not displayed is displayed
            hidden = hidden or want == 'none'
            want = 'none' if hidden else want
        got = el.get_computed_style()[key]
        same = (abs(got - want) <= 1e-9 * max(1, want)
                if isinstance(want, float) and isinstance(got, float)
                else got == want)
        check(same, 'computed ' + key, got=got, want=want,
              markup=doc.tostring().decode())
        if key == 'display':
            check(el.isdisplay() == (want != 'none'), 'isdisplay()',
                  want=want, markup=doc.tostring().decode())
        parent, parent_size = own, size_
    return labels
