"""R01: properties that reflect attributes, and what nodes are."""
from svgpy import Comment, PathParser, SVGParser, SVGTransformList
from svgpy.base import SVGPathDataSettings
from svgpy.dom import Attr, Node, ProcessingInstruction
from svgpy.window import SVGDOMImplementation

from ..gens import decimals, op, st
from ..harness import Registry
from ..harness import check as _check

REG = Registry(
    'R01',
    'Histories of up to 12 writes to an element (link, style, html, path, '
    'polyline, polygon, g, rect, svg and view), through the attribute or '
    'through the property that reflects it; after each step every reflecting '
    'property is compared with a dictionary of attributes. Nodes of every '
    'kind are asked for their names, types, values and text. A case is '
    'non-trivial when both ways of writing meet the same attribute.',
    ['numbers read back within 1e-6 relative'])

SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'


def check(condition, what, **info):
    _check(condition, what, **info)


# property, attribute, value when the attribute is missing
COMMON = [('id', 'id', ''), ('class_name', 'class', '')]
HTML = [('lang', 'lang', ''), ('title', 'title', '')]
LINK = HTML + [
    ('as_', 'as', ''), ('cross_origin', 'crossorigin', None),
    ('href', 'href', ''), ('hreflang', 'hreflang', ''),
    ('integrity', 'integrity', ''), ('media', 'media', ''),
    ('referrer_policy', 'referrerpolicy', ''), ('rel', 'rel', ''),
    ('type', 'type', '')]
STYLE = [('media', 'media', 'all'), ('title', 'title', None),
         ('type', 'type', 'text/css')]
KINDS = {'link': (XHTML, LINK), 'p': (XHTML, HTML), 'style': (SVG, STYLE),
         'g': (SVG, []), 'rect': (SVG, []), 'path': (SVG, []),
         'polyline': (SVG, []), 'polygon': (SVG, []), 'svg': (SVG, []),
         'view': (SVG, [])}
SPECIAL = {'g': ['transform'], 'rect': ['transform'],
           'path': ['d', 'transform'], 'polyline': ['points', 'transform'],
           'polygon': ['points', 'transform'], 'svg': ['zoomAndPan'],
           'view': ['zoomAndPan']}
TYPES = {'translate': 2, 'scale': 3, 'rotate': 4}
ZOOM = {1: 'disable', 2: 'magnify'}

text = st.sampled_from(['', 'a', 'b c', ' x ', 'stylesheet', '<&">',
                        'é', '#a', 'screen', '0'])
number = st.one_of(st.integers(-99, 99), decimals(-20, 20, 3))
point = st.tuples(number, number).map(list)
points = st.lists(point, max_size=4)
function = st.one_of(
    st.tuples(st.just('translate'), number, number).map(list),
    st.tuples(st.just('scale'), number, number).map(list),
    st.tuples(st.just('rotate'), number).map(list))
functions = st.lists(function, max_size=3)
step = st.one_of(
    op('raw', st.integers(0, 20), text),
    op('remove', st.integers(0, 20)),
    op('reflect', st.integers(0, 20), text),
    op('reflect', st.integers(0, 20), text),
    op('points', points), op('rawpoints', points, st.integers(0, 3)),
    op('odd', points),
    op('transform', functions), op('rawtransform', functions),
    op('path', points), op('rawpath', points),
    op('zoom', st.integers(0, 4)), op('rawzoom', st.integers(0, 4)))


def text_of(fs):
    return ' '.join('{}({})'.format(f[0], ' '.join(map(repr, f[1:])))
                    for f in fs)


def near(a, b):
    return len(a) == len(b) and all(
        abs(x - y) <= 1e-6 * max(1, abs(y)) for x, y in zip(a, b))


@REG.test(st.fixed_dictionaries({
    'k': st.sampled_from(list(KINDS) + ['link', 'link', 'style']),
    'steps': st.lists(step, min_size=1, max_size=12)}),
    quick=3000, thorough=100000)
def reflection(case):
    kind = case['k']
    ns, table = KINDS[kind]
    table = table + COMMON
    special = SPECIAL.get(kind, [])
    el = SVGParser().create_element_ns(ns, kind)
    attrs = {}
    written = {}
    labels = set()
    data = {'points': None, 'transform': None, 'd': None}

    def wrote(attr, how):
        if written.get(attr, how) != how:
            labels.add('both')
        written[attr] = how

    for name, *args in case['steps']:
        if name in ('raw', 'remove', 'reflect'):
            prop, attr, _ = table[args[0] % len(table)]
            if name == 'raw':
                el.set(attr, args[1])
                attrs[attr] = args[1]
            elif name == 'remove':
                el.remove_attribute(attr)
                attrs.pop(attr, None)
            else:
                setattr(el, prop, args[1])
                attrs[attr] = args[1]
            wrote(attr, name)
        elif name in ('points', 'rawpoints', 'odd'):
            if 'points' not in special:
                continue
            flat = [v for p in args[0] for v in p]
            if name == 'points':
                el.points = [tuple(p) for p in args[0]]
                data['points'] = flat
            else:
                sep = [' ', ',', ' , ', '\n'][args[1]
                                              if name == 'rawpoints' else 0]
                if name == 'odd':
                    el.set('points', ' '.join(map(repr, flat + [7])))
                    data['points'] = []
                else:
                    el.set('points', sep.join(map(repr, flat)))
                    data['points'] = flat
            wrote('points', name)
        elif name in ('transform', 'rawtransform'):
            if 'transform' not in special:
                continue
            if name == 'transform':
                el.transform = SVGTransformList.parse(text_of(args[0]))
            else:
                el.set('transform', text_of(args[0]))
            data['transform'] = args[0]
            wrote('transform', name)
        elif name in ('path', 'rawpath'):
            if 'd' not in special:
                continue
            d = ' '.join('{}{},{}'.format('L' if i else 'M', *p)
                         for i, p in enumerate(args[0]))
            if name == 'path':
                el.set_path_data(PathParser.parse(d) if d else [])
            else:
                el.set('d', d)
            data['d'] = args[0]
            wrote('d', name)
        else:
            if 'zoomAndPan' not in special:
                continue
            if name == 'zoom':
                el.zoom_and_pan = args[0]
                if args[0] in ZOOM:
                    attrs['zoomAndPan'] = ZOOM[args[0]]
            else:
                attrs['zoomAndPan'] = ZOOM.get(args[0], 'sometimes')
                el.set('zoomAndPan', attrs['zoomAndPan'])
            wrote('zoomAndPan', name)

        for prop, attr, missing in table:
            want = attrs.get(attr, missing)
            check(getattr(el, prop) == want, 'the property ' + prop,
                  got=getattr(el, prop), want=want, after=name)
            check(el.get_attribute(attr) == attrs.get(attr),
                  'the attribute ' + attr, got=el.get_attribute(attr))
            check(el.has_attribute(attr) == (attr in attrs),
                  'the presence of the attribute ' + attr)
        check(list(el.class_list) == tokens(attrs.get('class')),
              'class_list', got=list(el.class_list))
        if kind == 'link':
            check(list(el.rel_list) == tokens(attrs.get('rel')),
                  'rel_list', got=list(el.rel_list))
        if 'zoomAndPan' in special:
            back = {v: k for k, v in ZOOM.items()}
            want = back.get(attrs.get('zoomAndPan', 'disable'), 0)
            check(el.zoom_and_pan == want, 'zoom_and_pan',
                  got=el.zoom_and_pan, want=want)
        if 'points' in special:
            got = [v for p in el.points for v in p]
            check(near(got, data['points'] or []), 'points', got=got,
                  want=data['points'])
        if 'transform' in special:
            tl = el.transform
            fs = data['transform']
            got = [(t.type, list(t.values)) for t in tl or []]
            check(len(got) == len(fs or []) and all(
                g[0] == TYPES[f[0]] and near(g[1][:len(f) - 1], f[1:])
                for g, f in zip(got, fs or [])), 'transform', got=got,
                want=fs)
            check(fs is not None or tl is None, 'no transform')
        if 'd' in special:
            settings = SVGPathDataSettings()
            settings.normalize = True
            got = [list(s.values) for s in el.get_path_data(settings)]
            want = data['d'] or []
            check(len(got) == len(want) and all(
                near(a, b) for a, b in zip(got, want)), 'path data',
                got=got, want=want)
    return labels


def tokens(value):
    out = []
    for t in (value or '').split():
        if t not in out:
            out.append(t)
    return out


NAMES = [
    'a', 'circle', 'clipPath', 'defs', 'desc', 'ellipse', 'feBlend', 'filter',
    'foo', 'foreignObject', 'g', 'hatch', 'image', 'line', 'linearGradient',
    'link', 'marker', 'mask', 'mesh', 'metadata', 'path', 'pattern',
    'polygon', 'polyline', 'radialGradient', 'rect', 'script', 'stop',
    'style', 'svg', 'switch', 'symbol', 'text', 'textPath', 'title', 'tspan',
    'use', 'view', 'x-y']
node = st.one_of(
    st.fixed_dictionaries({
        'k': st.just('element'), 'name': st.sampled_from(NAMES),
        'prefix': st.sampled_from([None, 'p', 's']),
        'ns': st.sampled_from([SVG, SVG, 'urn:x'])}),
    st.fixed_dictionaries({'k': st.just('comment')}),
    st.fixed_dictionaries({'k': st.just('pi'),
                           'name': st.sampled_from(['a', 'xml-x', 'php'])}),
    st.fixed_dictionaries({
        'k': st.just('attr'), 'ns': st.sampled_from([None, 'urn:x']),
        'name': st.sampled_from(['a', 'href', 'b-c']),
        'owner': st.booleans()}),
    st.fixed_dictionaries({'k': st.just('document')}))
data_text = st.sampled_from(['a', 'b c', ' ', '<&>', 'é', 'x'])


@REG.test(st.fixed_dictionaries({
    'n': node, 'first': data_text,
    'writes': st.lists(st.tuples(
        st.sampled_from(['node_value', 'text_content', 'data', 'value']),
        data_text).map(list), max_size=4), 'doc': st.booleans()}),
    quick=1500, thorough=50000)
def nodes(case):
    n = case['n']
    kind = n['k']
    doc = SVGDOMImplementation().create_svg_document()
    maker = doc if case['doc'] else SVGParser()
    first = case['first']
    value = first
    if kind == 'element':
        qualified = (n['prefix'] + ':' if n['prefix'] else '') + n['name']
        nsmap = {n['prefix']: n['ns']}
        if n['prefix']:
            el = SVGParser().create_element_ns(n['ns'], n['name'],
                                               nsmap=nsmap)
        else:
            el = maker.create_element_ns(n['ns'], n['name'])
        made = el.prefix
        if n['prefix'] is None and n['ns'] != SVG:
            qualified = made + ':' + n['name'] if made else n['name']
        check(el.local_name == n['name'], 'local name', got=el.local_name)
        check(el.namespace_uri == n['ns'], 'namespace', got=el.namespace_uri)
        check(el.tag_name == qualified and el.node_name == qualified,
              'name of the element', got=(el.tag_name, el.node_name),
              want=qualified)
        check(made == n['prefix'] or n['prefix'] is None and n['ns'] != SVG,
              'prefix', got=made)
        check(el.node_type == Node.ELEMENT_NODE == 1, 'type')
        for key, v in case['writes']:
            if key == 'node_value':
                el.node_value = v
        check(el.node_value is None, 'value of an element')
        check(el.get_root_node() is el, 'root of a detached element')
        return []
    if kind == 'document':
        check(doc.node_name == '#document', 'name of the document')
        check(doc.node_type == Node.DOCUMENT_NODE == 9, 'type')
        for key, v in case['writes']:
            if key in ('node_value', 'text_content'):
                setattr(doc, key, v)
        check(doc.node_value is None and doc.text_content is None,
              'values of the document')
        check(doc.get_root_node() is doc and doc.parent_node is None
              and doc.next_sibling is None and doc.previous_sibling is None,
              'neighbours of the document')
        check([c.local_name for c in doc.child_nodes] == ['svg'],
              'text cannot replace the children of a document')
        return []
    owner = None
    if kind == 'comment':
        x = maker.create_comment(first)
        keys = ['node_value', 'text_content', 'data']
        name, type_ = '#comment', 8
        check(isinstance(x, Comment), 'class of a comment')
    elif kind == 'pi':
        x = maker.create_processing_instruction(n['name'], first)
        keys = ['node_value', 'text_content', 'data']
        name, type_ = n['name'], 7
        check(isinstance(x, ProcessingInstruction) and x.target == name,
              'class of a processing instruction')
    else:
        keys = ['node_value', 'text_content', 'value']
        name = '{%s}%s' % (n['ns'], n['name']) if n['ns'] else n['name']
        type_ = 2
        if n['ns']:
            x = maker.create_attribute_ns(n['ns'], n['name'])
        else:
            x = maker.create_attribute(n['name'])
        check(isinstance(x, Attr) and x.value == '', 'a new attribute')
        x.value = first
        check(x.local_name == n['name'] and x.namespace_uri == n['ns'],
              'names of the attribute', got=(x.local_name, x.namespace_uri))
        if n['owner']:
            owner = SVGParser().create_element_ns(SVG, 'g')
            owner.set_attribute_node_ns(x)
            check(x.owner_element is owner, 'owner')
    labels = []
    for key, v in [[None, first]] + case['writes']:
        if key is not None:
            if key not in keys:
                continue
            setattr(x, key, v)
            value = v
            labels.append('both')
        for k in keys:
            check(getattr(x, k) == value, k + ' of the ' + kind,
                  got=getattr(x, k), want=value)
        if owner is not None:
            check(owner.get(name) == value, 'value in the element',
                  got=owner.get(name))
        if kind != 'attr':
            check(x.length == len(value), 'length of the data', got=x.length)
        else:
            check(x.tostring() == value.encode(), 'text of the attribute')
        check(x.node_name == name, 'node_name', got=x.node_name, want=name)
        check(x.node_type == type_, 'node_type', got=x.node_type)
        check(list(x.child_nodes) == [] and not x.has_child_nodes()
              and x.first_child is None and x.last_child is None,
              'children of the ' + kind)
        check(x.parent_node is None and x.next_sibling is None
              and x.previous_sibling is None, 'neighbours of the ' + kind)
    return labels
