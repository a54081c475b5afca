"""D06: element queries against a plain scan of the tree."""
import re

from svgpy import SVGParser
from svgpy.window import SVGDOMImplementation

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'D06',
    'Trees of up to about 25 elements (four namespaces and none, prefixed or '
    'not, repeated ids, class lists with any white space, names that need '
    'escaping, comments and instructions between) queried from the document '
    'and from every kind of element; the answer is compared with a scan of '
    'the generated tree by an independent matcher. A case is non-trivial when '
    'some query matches some but not all of the elements in scope.',
    ['from <svg> elements and documents the scope includes the element '
     'itself; selector queries always include it (project convention)',
     'a null namespace matches any namespace (project convention)',
     "the prefix 'svg' stands for the default namespace in selectors unless "
     'declared; a type selector without prefix matches any namespace',
     'a root element is nobody\'s only child'])

SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
FOO = 'urn:foo'
URIS = {'svg': SVG, 'h': XHTML, 'f': FOO, 'xlink': XLINK}
NAMES = (['g', 'rect'] * 6
         + ['svg', 'g', 'g', 'rect', 'rect', 'text', 'a.b', 'x-y', '\u6f22', 'G'])
IDS = ['a', 'a', 'a', 'b', 'b', 'a', 'b', 'A', 'a.b', 'a:b', '1', 'x y', "it's", '"', '\u00e9', '-a',
       'a\\b', '*', 'a]']
CLASSES = ['a', 'b', 'a', 'b', 'a', 'b', 'a', 'b', 'c', 'ab', 'A', 'a.b', 'a+', '(', '[a', '.', '*', '$', '^',
           'a|b', '\\d', '\u00e9', "'", '"', '-', 'a-b', '1', '\u00a0', 'b\u3000']
SPACES = [' ', '  ', '\t', '\n', ' \n ']

# the selector parser the package depends on misreads an escaped backslash
sel_ident = st.sampled_from([x for x in IDS if '\\' not in x])
sel_cls = st.sampled_from([x for x in CLASSES if '\\' not in x])
cls = st.sampled_from(CLASSES)
ident = st.sampled_from(IDS)
space = st.sampled_from(SPACES)
class_value = st.tuples(
    st.lists(st.tuples(cls, space).map(''.join), max_size=4),
    st.sampled_from(['', ' ', '\n']), st.booleans()).map(
        lambda x: x[1] + ''.join(x[0])[:None if x[2] else -1])
attr_value = st.sampled_from(['', 'a', 'ab', 'a b', 'a-b', 'b', 'en', 'en-US',
                              '"', "'", '\u00e9', ' a'])
name = st.sampled_from(NAMES)
prefix = st.sampled_from([None] * 9 + ['svg', 'h', 'f'])


def element(kids):
    return st.tuples(
        st.just('e'), prefix, name,
        st.fixed_dictionaries({}, optional={
            'id': ident, 'class': class_value, 'x': attr_value,
            'lang': attr_value, 'xlink:href': attr_value, 'f:x': attr_value}),
        kids).map(list)


other = st.sampled_from([['c', 'rect'], ['p', 'rect'], ['t', 'x']])
tree = element(st.lists(st.recursive(
    st.one_of(element(st.just([])), element(st.just([])), other),
    lambda k: element(st.lists(k, max_size=5)), max_leaves=16), min_size=1, max_size=6))

type_sel = st.tuples(
    st.sampled_from([None, None, 'svg', 'svg', None, 'svg', 'h', 'f', '*']),
    st.sampled_from(NAMES + ['*', '*'])).map(list)
series = st.sampled_from(['odd', 'even', '1', '2', '3', '2n', '2n+1', 'n',
                          '-n+2', '3n-1', 'n+2', '0'])
simple = st.one_of(
    st.tuples(st.just('id'), sel_ident), st.tuples(st.just('class'), sel_cls),
    st.tuples(st.just('attr'), st.sampled_from([None, None, 'xlink', 'f']),
              st.sampled_from(['id', 'class', 'x', 'lang', 'href']),
              st.sampled_from(['', '=', '~=', '|=', '^=', '$=', '*=']),
              st.one_of(attr_value, sel_ident, sel_cls)),
    st.tuples(st.just('pseudo'), st.sampled_from(
        ['root', 'first-child', 'last-child', 'only-child', 'empty'])),
    st.tuples(st.just('nth'), st.sampled_from(
        ['nth-child', 'nth-last-child']), series)).map(list)
typed = st.one_of(
    st.tuples(st.just('pseudo'), st.sampled_from(
        ['first-of-type', 'last-of-type', 'only-of-type'])),
    st.tuples(st.just('nth'), st.sampled_from(
        ['nth-of-type', 'nth-last-of-type']), series)).map(list)
negation = st.one_of(
    simple, type_sel.map(lambda x: ['type', x])).map(lambda x: ['not', x])
compound = st.one_of(
    st.tuples(type_sel, st.lists(st.one_of(simple, simple, negation),
                                 max_size=2)),
    st.tuples(type_sel, st.just([])), st.tuples(type_sel, st.just([])),
    st.tuples(st.none(), st.lists(st.one_of(simple, negation), min_size=1,
                                  max_size=2)),
    st.tuples(type_sel.filter(lambda x: x[0] in ('svg', 'h', 'f')
                              and x[1] != '*'),
              st.lists(typed, min_size=1, max_size=1))).map(list)
selector = st.lists(
    st.tuples(compound, st.lists(st.tuples(
        st.sampled_from([' ', ' ', '>', '>', '+', '~']), compound).map(list),
        max_size=2)).map(list), min_size=1, max_size=2)

query = st.one_of(
    st.tuples(st.just('id'), ident),
    st.tuples(st.just('class'), st.one_of(cls, class_value)),
    st.tuples(st.just('tag'), st.one_of(
        st.just('*'), st.tuples(prefix, name).map(
            lambda x: x[0] + ':' + x[1] if x[0] else x[1]))),
    st.tuples(st.just('tagns'), st.sampled_from(
        [SVG, SVG, XHTML, FOO, '*', None, 'urn:none', SVG[:-1], XHTML[:-2],
         FOO[:-1], FOO + 'x', SVG.upper()]),
        st.one_of(name, st.just('*'))),
    st.tuples(st.just('local'), name),
    st.tuples(st.just('select'), selector),
    st.tuples(st.just('select'), selector),
    st.tuples(st.just('select'), selector)).map(list)


def esc(text):
    return (text.replace('&', '&amp;').replace('<', '&lt;')
            .replace('"', '&quot;').replace('\n', '&#10;')
            .replace('\t', '&#9;'))


def write(spec, head=''):
    if spec[0] == 'c':
        return '<!--rect-->'
    if spec[0] == 'p':
        return '<?rect a?>'
    if spec[0] == 't':
        return 'rect'
    tag = (spec[1] + ':' if spec[1] else '') + spec[2]
    return '<{0}{1}{2}>{3}</{0}>'.format(
        tag, head, ''.join(' {}="{}"'.format(k, esc(v))
                           for k, v in spec[3].items()),
        ''.join(write(x) for x in spec[4]))


class Item(object):
    def __init__(self, spec, parent, default):
        self.prefix, self.name = spec[1], spec[2]
        self.uri = URIS[spec[1]] if spec[1] else default
        self.parent = parent
        self.text = any(x[0] == 't' for x in spec[4])
        self.attrs = {}
        for key, value in spec[3].items():
            p, _, local = key.rpartition(':')
            self.attrs[URIS[p] if p else None, local] = value
        self.kids = [Item(x, self, default) for x in spec[4] if x[0] == 'e']

    def walk(self):
        yield self
        for kid in self.kids:
            for x in kid.walk():
                yield x

    def get(self, local):
        return self.attrs.get((None, local))

    def words(self):
        return [x for x in re.split('[ \t\n\r\f]+', self.get('class') or '')
                if x]

    def siblings(self):
        return self.parent.kids if self.parent is not None else [self]


def nth(text, position):
    text = {'odd': '2n+1', 'even': '2n'}.get(text, text)
    m = re.match(r'^(?:([+-]?\d*)n)?([+-]?\d+)?$', text)
    a = m.group(1)
    a = 0 if a is None else int(a + '1') if a in ('', '-', '+') else int(a)
    b = int(m.group(2) or 0)
    return any(a * n + b == position for n in range(0, 60))


def matches_type(item, sel, ns):
    p, local = sel
    if local != '*' and item.name != local:
        return False
    return p in (None, '*') or item.uri == ns[p]


def matches_simple(item, sel, ns):
    kind = sel[0]
    if kind == 'type':
        return matches_type(item, sel[1], ns)
    if kind == 'not':
        return not matches_simple(item, sel[1], ns)
    if kind == 'id':
        return item.get('id') == sel[1]
    if kind == 'class':
        return sel[1] in item.words()
    if kind == 'attr':
        value = item.attrs.get((ns[sel[1]] if sel[1] else None, sel[2]))
        if value is None:
            return False
        how, want = sel[3], sel[4]
        if how == '':
            return True
        if how == '=':
            return value == want
        if how == '~=':
            return want != '' and want in re.split('[ \t\n\r\f]+', value)
        if how == '|=':
            return value == want or value.startswith(want + '-')
        if want == '':
            return False
        return {'^=': value.startswith(want), '$=': value.endswith(want),
                '*=': want in value}[how]
    sibs = item.siblings()
    if 'of-type' in sel[1]:
        sibs = [x for x in sibs
                if x.name == item.name and x.uri == item.uri]
    at = [i for i, x in enumerate(sibs) if x is item][0]
    if kind == 'nth':
        return nth(sel[2], len(sibs) - at if 'last' in sel[1] else at + 1)
    return {'root': item.parent is None, 'first': at == 0,
            'last': at == len(sibs) - 1, 
            'only': len(sibs) == 1 and item.parent is not None,
            'empty': not item.kids and not item.text}[sel[1].split('-')[0]]


def matches_compound(item, sel, ns):
    return ((sel[0] is None or matches_type(item, sel[0], ns))
            and all(matches_simple(item, x, ns) for x in sel[1]))


def matches_complex(item, first, rest, ns):
    if not rest:
        return matches_compound(item, first, ns)
    how, last = rest[-1]
    if not matches_compound(item, last, ns):
        return False
    if how == '>':
        others = [item.parent]
    elif how == ' ':
        others = []
        node = item.parent
        while node is not None:
            others.append(node)
            node = node.parent
    else:
        sibs = item.siblings()
        at = [i for i, x in enumerate(sibs) if x is item][0]
        others = sibs[:at] if how == '~' else sibs[at - 1:at] if at else []
    return any(x is not None and matches_complex(x, first, rest[:-1], ns)
               for x in others)


def css_ident(text):
    out = ''
    for i, ch in enumerate(text):
        if ch.isascii() and not (ch.isalpha() or ch == '_'
                                 or (ch in '-0123456789' and i)):
            out += ('\\%x ' % ord(ch) if ch.isdigit() or ch.isspace()
                    else '\\' + ch)
        else:
            out += ch
    return out


def css_string(text):
    return '"' + text.replace('\\', '\\\\').replace('"', '\\"') + '"'


def css_simple(sel):
    if sel[0] == 'type':
        return css_type(sel[1])
    if sel[0] == 'not':
        return ':not(' + css_simple(sel[1]) + ')'
    if sel[0] == 'id':
        return '#' + css_ident(sel[1])
    if sel[0] == 'class':
        return '.' + css_ident(sel[1])
    if sel[0] == 'attr':
        return '[%s%s%s]' % (sel[1] + '|' if sel[1] else '', sel[2],
                             sel[3] + css_string(sel[4]) if sel[3] else '')
    if sel[0] == 'nth':
        return ':%s(%s)' % (sel[1], sel[2])
    return ':' + sel[1]


def css_type(sel):
    local = sel[1] if sel[1] == '*' else css_ident(sel[1])
    return (sel[0] + '|' if sel[0] else '') + local


def css(sel):
    out = []
    for first, rest in sel:
        text = ''
        for how, comp in [['', first]] + rest:
            text += (how if how in ('', ' ') else ' ' + how + ' ')
            text += css_type(comp[0]) if comp[0] is not None else ''
            text += ''.join(css_simple(x) for x in comp[1])
        out.append(text)
    return ', '.join(out)


@REG.test(st.tuples(
    st.sampled_from([SVG, SVG, SVG, XHTML, None]), tree,
    st.lists(st.tuples(st.one_of(st.just(-1), st.just(0), st.integers(0, 24)), query).map(list), min_size=3,
             max_size=6),
    st.sampled_from([None, None, {}, {'q': FOO}])), quick=4000)
def queries(case):
    default, spec, todo, nsmap = case
    spec[1] = None if spec[2] == 'svg' and default == SVG else spec[1]
    declared = dict(URIS)
    uses_svg = re.search(r"'svg'", repr([x[1] for x in flat(spec)]))
    if default == SVG and not uses_svg:
        del declared['svg']  # 'svg' stands for the default namespace
    head = ''.join(' xmlns:%s="%s"' % x for x in declared.items())
    if default:
        head += ' xmlns="%s"' % default
    parser = SVGParser()
    root = parser.fromstring(write(spec, head))
    doc = SVGDOMImplementation(parser).create_document(None)
    doc.append(root)
    items = list(Item(spec, None, default).walk())
    nodes = [x for x in root.iter() if x.node_type == x.ELEMENT_NODE]
    check(len(items) == len(nodes), 'the tree differs')
    number = {id(x): i for i, x in enumerate(items)}
    before = doc.tostring()
    out = set()
    for at, q in todo:
        at = at if at < 0 else at % len(nodes)
        node = doc if at < 0 else nodes[at]
        top = items[max(at, 0)]
        inside = [number[id(x)] for x in top.walk()]
        with_self = at < 0 or items[at].name == 'svg'
        scope = inside if with_self or q[0] == 'select' else inside[1:]
        given = dict(nsmap) if nsmap is not None else None
        if q[0] == 'id':
            if not with_self:
                continue
            want = [i for i in scope if items[i].get('id') == q[1]][:1]
            got = node.get_element_by_id(q[1], given)
            got = [] if got is None else [got]
        elif q[0] == 'class':
            words = [x for x in re.split('[ \t\n\r\f]+', q[1]) if x]
            want = [i for i in scope if words
                    and all(w in items[i].words() for w in words)]
            got = node.get_elements_by_class_name(q[1], given)
        elif q[0] == 'tag':
            want = [i for i in scope if q[1] in (
                '*', (items[i].prefix + ':' if items[i].prefix else '')
                + items[i].name)]
            got = node.get_elements_by_tag_name(q[1], given)
        elif q[0] == 'tagns':
            want = [i for i in scope
                    if q[1] in ('*', None, items[i].uri)
                    and q[2] in ('*', items[i].name)]
            got = node.get_elements_by_tag_name_ns(q[1], q[2], given)
        elif q[0] == 'local':
            if at < 0:
                continue
            scope = inside[1:]
            want = [i for i in scope if items[i].name == q[1]]
            got = node.get_elements_by_local_name(q[1], given)
        else:
            want = [i for i in scope
                    if any(matches_complex(items[i], a, b, URIS)
                           for a, b in q[1])]
            got = node.query_selector_all(css(q[1]))
            first = node.query_selector(css(q[1]))
            check(first is (got[0] if got else None),
                  'query_selector is not the first match')
        check(all(any(x is y for y in nodes) for x in got),
              'the answer has nodes that are not elements of the tree')
        index = {id(x): i for i, x in enumerate(nodes)}
        got = [index[id(x)] for x in got]
        check(got == want, 'the answer differs', document=before, query=q,
              css=css(q[1]) if q[0] == 'select' else None, start=at, got=got,
              expected=want)
        check(given == nsmap, 'the query changed its argument', query=q)
        check(doc.tostring() == before, 'the query changed the document')
        if 0 < len(want) < len(scope):
            out.add(q[0])
            if q[0] == 'select' and any(b for _, b in q[1]):
                out.add('combinators')
    return out


def flat(spec):
    if spec[0] == 'e':
        yield spec
        for x in spec[4]:
            for y in flat(x):
                yield y


@REG.test(st.tuples(
    st.dictionaries(st.sampled_from(['a', 'svg', 'h']),
                    st.sampled_from([SVG, FOO, XHTML]), max_size=3),
    st.sampled_from([SVG, XHTML]), name), quick=100)
def creation(case):
    """Making an element leaves the prefix map it is given alone."""
    nsmap, uri, local = case
    parser = SVGParser()
    doc = SVGDOMImplementation(parser).create_document(None)
    for make in (parser.create_element_ns, doc.create_element_ns):
        given = dict(nsmap)
        node = make(uri, local, nsmap=given)
        check(given == nsmap, 'the prefix map was changed', got=given)
        check((node.namespace_uri, node.local_name) == (uri, local),
              'the new element has the wrong name', tag=node.tag)
        for p, u in nsmap.items():
            check(node.nsmap.get(p) == u, 'a prefix is not declared')
    return {'prefixes'} if nsmap else set()


PROLOG = st.lists(st.sampled_from([
    ['c', ' one '], ['p', 'go'], ['c', ''], ['p', 'stop']]), max_size=2)
SPECS = ['*', '{%s}*' % SVG, '{%s}g' % SVG, '{*}g', 'a', '{*}a', '{}a',
         '{%s}a' % FOO]


@REG.test(st.tuples(PROLOG, st.recursive(
    st.sampled_from([['c', 'x'], ['p', 'go'], ['t', 'text']]),
    lambda inner: st.tuples(
        st.just('e'), st.sampled_from([SVG, FOO, None]),
        st.sampled_from(['g', 'a', 'b']), st.lists(inner, max_size=3)
    ).map(list), max_leaves=8), PROLOG,
    st.lists(st.sampled_from(SPECS), max_size=3)), quick=400)
def iteration(case):
    """Document.iter() walks every node in document order."""
    prolog, inner, epilog, wanted = case
    want = []

    def spell(x):
        if x[0] == 't':
            return x[1]
        name = ('{%s}%s' % (x[1], x[2]) if x[1] else x[2]) \
            if x[0] == 'e' else x[0]
        want.append([x[0], name])
        if x[0] == 'c':
            return '<!--%s-->' % x[1]
        if x[0] == 'p':
            return '<?%s?>' % x[1]
        head = {SVG: 's:', FOO: 'f:', None: ''}[x[1]] + x[2]
        return '<%s>%s</%s>' % (head, ''.join(spell(y) for y in x[3]), head)

    text = ''.join(spell(x) for x in prolog)
    want.append(['e', '{%s}svg' % SVG])
    text += '<s:svg xmlns:s="%s" xmlns:f="%s">%s</s:svg>' % (
        SVG, FOO, spell(inner))
    text += ''.join(spell(x) for x in epilog)
    doc = SVGDOMImplementation().create_document(None)
    parser = SVGParser()
    root = parser.fromstring(text)
    nodes = []
    node = root.getprevious()
    while node is not None:
        nodes.insert(0, node)
        node = node.getprevious()
    nodes.append(root)
    node = root.getnext()
    while node is not None:
        nodes.append(node)
        node = node.getnext()
    doc.append(root)

    def matches(item):
        if not wanted:
            return True
        uri, name = ('', item[1])
        if item[0] == 'e' and item[1].startswith('{'):
            uri, name = item[1][1:].split('}')
        for w in wanted:
            if item[0] != 'e':
                continue
            ns, local = w[1:].split('}') if w.startswith('{') else ('', w)
            if w == '*':
                return True
            if (ns == '*' or ns == uri) and local in ('*', name):
                return True
        return False

    got = [['e' if x.node_type == x.ELEMENT_NODE else
            'c' if x.node_type == x.COMMENT_NODE else 'p',
            x.tag if x.node_type == x.ELEMENT_NODE else None]
           for x in doc.iter(*wanted)]
    expected = [[k, n if k == 'e' else None] for k, n in want
                if matches([k, n])]
    check(got == expected, 'the nodes of the document', document=text,
          tags=wanted, got=got, expected=expected)
    check([x is y for x, y in zip(doc.child_nodes, nodes)]
          == [True] * len(nodes) == [True] * len(doc.child_nodes),
          'the children of the document')
    return ['tags'] if len(expected) > 1 and len(expected) < len(want) else []
