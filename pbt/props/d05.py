"""D05: what is written out reads back as the same document."""
import os
import shutil
import tempfile
from io import BytesIO, StringIO
from pathlib import PurePath

from svgpy import SVGParser
from svgpy.element import SVGElementClassLookup
from svgpy.element import HTMLElement
from svgpy.base import SVGElement
from svgpy.window import SVGDOMImplementation

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'D05',
    'Documents of up to about 30 nodes, with SVG, HTML, foreign and '
    'unqualified names, prefixed and unprefixed declarations, arbitrary '
    'XML 1.0 characters in text, attributes, comments and processing '
    'instructions, nodes beside the document element; built through the API, '
    'or written by an independent writer (references, CDATA sections, either '
    'quote). A case is non-trivial when it has character data or an attribute '
    'value that needs escaping, two namespaces, or nodes beside the document '
    'element.',
    ['characters XML 1.0 can carry; no "--" in comments, no "?>" in '
     'processing instructions',
     'an encoding that can carry the names, comments and instructions: those '
     'have no character references',
     'an element created without a namespace takes the default namespace '
     'in scope'])

SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'
FOO = 'urn:foo'

PIECES = ['a', 'b', ' ', '  ', '\n', '\t', '\r', '<', '>', '&', '"', "'",
          ']]>', '&amp;', '&#10;', '\u00e9', '\u6f22', '\U0001f600', '\x85',
          '\u2028', '\ufffd', '\xa0', '<!--x-->', '<g/>', '1.5', 'e\u0301',
          '\u05d0']
text = st.lists(st.sampled_from(PIECES), min_size=1, max_size=6).map(''.join)
comment = st.lists(st.sampled_from(
    ['a', ' ', '<g/>', '&', '\n', '\u00e9', '\U0001f600', '- ', '"']),
    max_size=5).map(''.join)
pi_data = st.lists(st.sampled_from(
    ['a', 'href="a.css"', ' ', '<g>', '&', '\u00e9', '? ', '\U0001f600']),
    max_size=4).map(lambda x: ''.join(x).lstrip())
target = st.sampled_from(['xml-stylesheet', 'foo', 'svgpy-x'])
misc = st.one_of(st.tuples(st.just('c'), comment),
                 st.tuples(st.just('p'), target, pi_data)).map(list)
NAMES = ['svg', 'g', 'rect', 'text', 'tspan', 'path', 'desc', 'style', 'a',
         'video', 'foo', 'x-y', 'linearGradient', 'clipPath', '\u6f22']
attr = st.tuples(
    st.sampled_from([None, None, None, XLINK, XML, FOO, SVG]),
    st.sampled_from(['id', 'class', 'x', 'href', 'lang', 'style', 'd', 'a-b',
                     '\u00e9l']),
    st.one_of(text, st.sampled_from(['', ' ', '1', 'fill: red; x: y'])),
).map(list).map(lambda x: [XML, 'lang', x[2]] if x[:2] == [XML, 'id'] else x)
attrs = st.lists(attr, max_size=4, unique_by=lambda x: (x[0], x[1]))
NSES = [SVG, SVG, SVG, XHTML, FOO]


def tree(nses):
    def element(kids):
        return st.tuples(st.just('e'), st.sampled_from(nses),
                         st.sampled_from(NAMES), attrs,
                         st.lists(kids, max_size=4) if kids is not None
                         else st.just([])).map(list)
    leaf = st.one_of(text, misc, element(None))
    return element(st.recursive(
        leaf, lambda kids: st.one_of(element(kids), element(kids), leaf),
        max_leaves=14))


def normal(node):
    """The expected shape: adjacent and empty character data merged."""
    if node[0] != 'e':
        return [node[0]] + [x for x in node[1:]]
    kids = []
    for kid in node[4]:
        if isinstance(kid, str):
            if kids and isinstance(kids[-1], str):
                kids[-1] += kid
            elif kid:
                kids.append(kid)
        else:
            kids.append(normal(kid))
    return ['e', node[1], node[2],
            sorted([x[0] or '', x[1], x[2]] for x in node[3]), kids]


def extract(node):
    """The shape of a tree of the code under test."""
    if node.node_type == node.COMMENT_NODE:
        return ['c', node.data]
    if node.node_type == node.PROCESSING_INSTRUCTION_NODE:
        return ['p', node.target, node.data or '']
    kids = [node.text] if node.text else []
    for kid in node.child_nodes:
        kids.append(extract(kid))
        if kid.tail:
            kids.append(kid.tail)
    return ['e', node.namespace_uri, node.local_name,
            sorted([x.namespace_uri or '', x.local_name, x.value]
                   for x in (node.attributes.item(i)
                             for i in range(len(node.attributes)))), kids]


def extract_all(root):
    return [[extract(x) for x in reversed(list(root.itersiblings(
        preceding=True)))], extract(root),
        [extract(x) for x in root.itersiblings()]]


def classes(root):
    out = []
    for node in root.iter():
        if node.node_type == node.ELEMENT_NODE:
            out.append((node.local_name, type(node)))
    return out


def check_classes(root):
    table = SVGElementClassLookup.ELEMENT_CLASS_MAP
    for node in root.iter():
        if node.node_type != node.ELEMENT_NODE:
            continue
        default = HTMLElement if node.namespace_uri == XHTML else SVGElement
        check(type(node) is table.get(node.local_name, default),
              'an element has the wrong class', name=node.local_name,
              type=type(node))


def labels_of(shape):
    text_ = str(shape)
    out = set()
    if any(x in text_ for x in '<&"'):
        out.add('needs escaping')
    if '\\r' in text_ or '\\n' in text_ or '\\t' in text_:
        out.add('control characters')
    if XHTML in text_ or FOO in text_ or XLINK in text_:
        out.add('two namespaces')
    if "['c'" in text_ or "['p'" in text_:
        out.add('comments or instructions')
    return out


def bare(shape):
    """What has to be written without character references."""
    for node in shape:
        if isinstance(node, list) and node:
            if node[0] == 'e':
                yield node[2]
                for x in node[3]:
                    yield x[1]
                for x in bare(node[4]):
                    yield x
            elif node[0] in ('c', 'p'):
                for x in node[1:]:
                    yield x
            else:
                for x in bare(node):
                    yield x


def round_trip(doc_or_element, root, expected, encoding, source, declaration):
    """Writes, reads, compares, writes again."""
    kwargs = {}
    if encoding not in ('utf-8', 'utf-16', 'unicode') and (
            not ''.join(bare(expected)).isascii()):
        encoding = 'utf-8'
    if encoding is not None:
        kwargs['encoding'] = encoding
    if declaration and encoding != 'unicode':
        kwargs['xml_declaration'] = True
    if doc_or_element is root:
        kwargs['with_tail'] = False
    data = doc_or_element.tostring(**kwargs)
    parser = SVGParser()
    impl = SVGDOMImplementation(parser)
    if source == 'string':
        new = parser.fromstring(data)
    elif source == 'file':
        new = parser.parse(
            StringIO(data) if isinstance(data, str) else BytesIO(data)
        ).getroot()
    elif source == 'impl':
        new = impl.parse(
            StringIO(data) if isinstance(data, str) else BytesIO(data))
    else:
        if isinstance(data, str):
            data_ = data.encode()
        else:
            data_ = data
        folder = tempfile.mkdtemp(prefix='svgpy-d05-')
        try:
            path = os.path.join(folder, 'a b.svg')
            with open(path, 'wb') as f:
                f.write(data_)
            url = PurePath(path).as_uri()
            if source == 'url':
                new = impl.parse(url)
            else:
                doc = impl.create_document(None)
                doc.location = url
                new = doc.document_element
                check(new.owner_document is doc,
                      'a loaded element has the wrong document')
        finally:
            shutil.rmtree(folder)
    got = extract_all(new)
    check(got == expected, 'the parsed document differs', text=data,
          source=source, got=got, expected=expected)
    check(classes(new) == classes(root),
          'the parsed elements have other classes', text=data)
    if doc_or_element is root:
        again = new.tostring(**kwargs)
    else:
        doc = impl.create_document(None)
        doc.append(new)
        again = doc.tostring(**kwargs)
    check(again == data, 'writing the parsed document differs', text=data,
          again=again, source=source)


ways = st.tuples(
    st.sampled_from([None, 'utf-8', 'unicode', 'utf-16', 'iso-8859-1',
                     'us-ascii', 'shift_jis']),
    st.sampled_from(['string', 'file', 'impl', 'url', 'location']),
    st.booleans()).map(list)


PREFIXES = {XLINK: 'xlink', FOO: 'f', SVG: 'svg'}


def generated(shape, found=None):
    """The namespaces for which the tree library has to make up prefixes."""
    found = set() if found is None else found
    if isinstance(shape, list) and shape and shape[0] == 'e':
        found.update(x for x in [shape[1]] if x == FOO)
        found.update(x[0] for x in shape[3] if x[0] in PREFIXES)
        for kid in shape[4]:
            generated(kid, found)
    return found


def build(parser, node, doc=None, declare=None):
    """Two made-up prefixes can clash when subtrees are put together (known
    finding D05-made-up-prefixes): then every element declares its own."""
    if declare is None:
        declare = len(generated(node)) > 1
    if node[0] == 'c':
        return (doc or parser).create_comment(node[1])
    if node[0] == 'p':
        return (doc or parser).create_processing_instruction(
            node[1], node[2] or None)
    used = generated(node[:4] + [[]]) if declare else ()
    element = (doc or parser).create_element_ns(
        node[1], node[2], nsmap={PREFIXES[x]: x for x in used})
    for ns, name, value in node[3]:
        if value == '':  # set '' through the mapping: see D02
            element.set('{%s}%s' % (ns, name) if ns else name, value)
        elif ns is None:
            element.set_attribute(name, value)
        else:
            element.set_attribute_ns(ns, name, value)
    for kid in node[4]:
        element.append(kid if isinstance(kid, str)
                       else build(parser, kid, doc, declare))
    return element


def fill(shape):
    """An element created without a namespace takes the default one."""
    if isinstance(shape, list) and shape and shape[0] == 'e':
        return ['e', shape[1] or SVG, shape[2], shape[3],
                [fill(x) for x in shape[4]]]
    return shape


@REG.test(st.tuples(tree(NSES + [None]), st.lists(misc, max_size=2),
                    st.lists(misc, max_size=2), ways, st.booleans()),
          quick=2600)
def built(case):
    """A document put together through the API."""
    spec, before, after, way, own = case
    parser = SVGParser()
    impl = SVGDOMImplementation(parser)
    doc = impl.create_document(None)
    root = build(parser, spec, doc if own else None)
    doc.append(root)
    doc.prepend(*[build(parser, x) for x in before])
    doc.append(*[build(parser, x) for x in after])
    expected = [[normal(x) for x in before], fill(normal(spec)),
                [normal(x) for x in after]]
    got = extract_all(root)
    check(got == expected, 'the built document differs', got=got,
          expected=expected)
    check_classes(root)
    round_trip(doc, root, expected, *way)
    out = labels_of(expected)
    if before or after:
        out.add('nodes beside the element')
    return out


@REG.test(st.tuples(tree(NSES + [None]), st.integers(0, 30), ways, text),
          quick=2000)
def fragment(case):
    """Any element of a document, on its own, with and without the character
    data that follows it."""
    spec, pick, way, tail = case
    parser = SVGParser()
    root = build(parser, spec)
    elements = [x for x in root.iter() if x.node_type == x.ELEMENT_NODE]
    element = elements[pick % len(elements)]
    shape = extract(element)
    round_trip(element, element, [[], shape, []], way[0],
               'string' if way[0] == 'unicode' else way[1], way[2])
    if element is not root:
        element.tail = tail
        data = '<w>' + element.tostring(encoding='unicode') + '</w>'
        new = parser.fromstring(data)
        check(len(new) == 1 and new[0].tail == tail
              and extract(new[0]) == shape,
              'the element and the text after it differ', text=data)
    for node in root.iter():
        if node.node_type != node.ELEMENT_NODE:
            new = parser.fromstring(
                b'<w>' + node.tostring(with_tail=False, encoding='utf-8')
                + b'</w>')
            check(extract(new[0]) == extract(node), 'the node differs',
                  got=extract(new[0]), expected=extract(node))
    return labels_of(shape)


# ---------------------------------------------------- an independent writer
def escape(text_, quote, style):
    out = []
    for i, ch in enumerate(text_):
        how = style[i % len(style)] if style else 0
        if ch in '<&' or (ch == '>' and how % 2 == 0):
            out.append({'<': '&lt;', '&': '&amp;', '>': '&gt;'}[ch]
                       if how < 2 else '&#%d;' % ord(ch))
        elif ch == '>' and text_[max(0, i - 2):i] == ']]':
            out.append('&gt;')
        elif ch == '\r' or (quote and ch in '\n\t'):
            out.append('&#x%X;' % ord(ch))
        elif quote and ch == quote:
            out.append('&quot;' if ch == '"' else '&apos;')
        elif how == 3 and ch not in '\n\t':
            out.append('&#x%x;' % ord(ch))
        else:
            out.append(ch)
    return ''.join(out)


def write(node, scope, style):
    """scope: prefix -> namespace; style: a list of small numbers."""
    if isinstance(node, str):
        if style and style[0] == 1 and ']]>' not in node and '\r' not in node:
            return '<![CDATA[' + node + ']]>'
        return escape(node, None, style)
    if node[0] == 'c':
        return '<!--' + node[1] + '-->'
    if node[0] == 'p':
        return '<?' + node[1] + (' ' + node[2] if node[2] else '') + '?>'
    _, ns, name, attrs_, kids = node
    scope = dict(scope)
    declared = []

    def prefix_for(uri, attribute):
        if uri == XML:
            return 'xml'
        found = [p for p, u in scope.items() if u == uri
                 and not (attribute and p is None)]
        if found:
            return found[style[-1] % len(found)] if style else found[0]
        p = None if not attribute and style and style[0] % 2 else \
            'n%d' % len(scope)
        scope[p] = uri
        declared.append((p, uri))
        return p

    if ns is None:
        if scope.get(None):
            scope[None] = None
            declared.append((None, ''))
        prefix = None
    else:
        prefix = prefix_for(ns, False)
    parts = []
    for uri, local, value in attrs_:
        p = prefix_for(uri, True) if uri else None
        q = '"' if (style or [0])[-1] % 2 else "'"
        parts.append('%s%s=%s%s%s' % (p + ':' if p else '', local, q,
                                      escape(value, q, style), q))
    for p, uri in declared:
        parts.insert(0, 'xmlns%s="%s"' % (':' + p if p else '', uri))
    tag = (prefix + ':' if prefix else '') + name
    head = '<' + ' '.join([tag] + parts)
    if not kids and (style or [0])[0] % 2:
        return head + ' />'
    return (head + '>' + ''.join(
        write(x, scope, style[i + 1:] + style[:i + 1])
        for i, x in enumerate(kids)) + '</' + tag + '\n>')


@REG.test(st.tuples(tree(NSES + [None]), st.lists(misc, max_size=2),
                    st.lists(misc, max_size=2), ways,
                    st.lists(st.integers(0, 3), min_size=1, max_size=5),
                    st.dictionaries(
                        st.sampled_from(['svg', 'h', 'xlink', 'f', '']),
                        st.sampled_from([SVG, XHTML, FOO, XLINK]),
                        max_size=3).map(lambda d: sorted(d.items()))),
          quick=2600)
def written(case):
    """A text by an independent writer reads as what was meant, and from
    there the round trip holds."""
    spec, before, after, way, style, scope = case
    root = write(spec, {}, style)
    if scope:
        # declarations no name needs
        known = {}
        wrapped = ['e', FOO, 'top', [], [spec]]
        for p, uri in scope:
            known[p or None] = uri
        inner = write(spec, known, style)
        decl = ' '.join('xmlns%s="%s"' % (':' + p if p else '', u)
                        for p, u in scope)
        q = [p for p, u in scope if u == FOO and p]
        if q:
            root = '<%s:top %s>%s</%s:top>' % (q[0], decl, inner, q[0])
        else:
            root = '<zz:top xmlns:zz="%s" %s>%s</zz:top>' % (FOO, decl, inner)
        spec = wrapped
    data = (''.join(write(x, {}, style) + '\n' for x in before) + root
            + ''.join('\n' + write(x, {}, style) for x in after))
    expected = [[normal(x) for x in before], normal(spec),
                [normal(x) for x in after]]
    parser = SVGParser()
    if style[-1] % 2:
        new = parser.fromstring(data)
    else:
        new = parser.parse(BytesIO(data.encode())).getroot()
    got = extract_all(new)
    check(got == expected, 'the text reads differently', text=data, got=got,
          expected=expected)
    check_classes(new)
    doc = SVGDOMImplementation(parser).create_document(None)
    doc.append(new)
    round_trip(doc, new, expected, *way)
    out = labels_of(expected)
    if before or after:
        out.add('nodes beside the element')
    return out


@REG.probe('D05-made-up-prefixes')
def made_up_prefixes():
    parser = SVGParser()
    a, b, c = (parser.create_element_ns(SVG, 'g') for _ in range(3))
    c.set_attribute_ns(XLINK, 'id', '1')
    c.set_attribute_ns(FOO, 'id', '2')
    b.append(c)
    b.set_attribute_ns(FOO, 'id', '2')
    a.append(b)
    a.set_attribute_ns(XLINK, 'id', '1')
    return b'ns0:id="1" ns0:id="2"' in a.tostring()
