"""D02: every view of an element's attributes."""
from svgpy import Attr, SVGParser
from svgpy.exception import InUseAttributeError, NotFoundError

from ..gens import op, st
from ..harness import Registry, check, fail

REG = Registry(
    'D02',
    'Histories of up to 15 edits of two elements through direct access, '
    'qualified and namespaced access, the named node map as a mapping and '
    'through its DOM methods, attribute nodes (attached, detached, moved '
    'between the elements) and reflecting properties; after every step all '
    'views of both elements and every attribute node ever seen are compared '
    'with a model. A case is non-trivial when attribute nodes are moved, '
    'replaced or refused, or namespaced names are used.',
    ['an empty value set through the attribute map or an attribute node '
     'removes the attribute (the convention of the library)',
     'an attribute node whose attribute was deleted behind the DOM is not '
     'judged any more'])

XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'
NAMES = [[None, 'id'], [None, 'class'], [None, 'x'], [None, 'data-a'],
         [XLINK, 'href'], [XML, 'lang'], ['urn:t', 'x'], [None, 'href']]
name = st.sampled_from(NAMES)
who = st.integers(0, 1)
value = st.sampled_from(['', 'a', 'b', 'c d', '<&">', '0', 'é', ' '])
full = st.sampled_from(['a', 'b', 'c d', '<&">', '0', 'é', ' '])
k = st.integers(0, 9)
step = st.one_of(
    op('set', who, name, full), op('setitem', who, name, value),
    op('set_attribute', who, name, full),
    op('set_attribute_ns', who, name, full),
    op('attrib', who, name, full), op('raw_del', who, name),
    op('remove_attribute', who, name), op('remove_attribute_ns', who, name),
    op('delitem', who, name), op('remove_named', who, name),
    op('remove_named_ns', who, name), op('remove_node', who, k),
    op('remove_node', who, k),
    op('new', name, full), op('new', name, full), op('get', who, name),
    op('get', who, name), op('item', who, st.integers(0, 3)),
    op('set_node', who, k), op('set_node', who, k), op('set_node', who, k),
    op('set_node_ns', who, k), op('map_set', who, k),
    op('map_setitem', who, k), op('map_wrong', who, k, name),
    op('value', k, value), op('node_value', k, full),
    op('text', k, full), op('toggle', who, name, st.sampled_from(
        [None, True, False])),
    op('pop', who, name), op('update', who, name, full),
    op('setdefault', who, name, full), op('clear', who),
    op('id', who, full), op('class_name', who, full),
    op('held_value', k, full))


def clark(n):
    return n[1] if n[0] is None else '{%s}%s' % tuple(n)


class Model(object):
    def __init__(self):
        p = SVGParser()
        self.root = p.create_element_ns('http://www.w3.org/2000/svg', 'svg')
        self.el = [self.root, self.root.create_sub_element('g')]
        self.maps = [e.attributes for e in self.el]
        self.at = [{}, {}]
        self.nodes = []  # [Attr, owner or None, name, detached value]

    def track(self, attr, owner, n, v=None):
        for i, e in enumerate(self.nodes):
            if e[0] is attr:
                return i
        self.nodes.append([attr, owner, clark(n) if isinstance(n, list)
                           else n, v])
        return len(self.nodes) - 1

    def attached(self, w, n):
        for e in self.nodes:
            if e[1] == w and e[2] == n:
                return e
        return None

    def dom_remove(self, w, n):
        """Removed through the DOM: its node is detached."""
        e = self.attached(w, n)
        v = self.at[w].pop(n)
        if e is not None:
            e[1], e[3] = None, v

    def drop(self, w, n):
        """Removed behind the DOM."""
        self.at[w].pop(n, None)
        self.nodes = [e for e in self.nodes
                      if not (e[1] == w and e[2] == n)]

    def look(self):
        for w in (0, 1):
            el, want, m = self.el[w], self.at[w], self.maps[w]
            check(dict(el.attrib) == want, 'attributes', got=dict(el.attrib),
                  expected=want, element=w)
            order = list(el.attrib)
            check(el.attributes is m, 'one attribute map per element')
            check(len(m) == len(want) == m.length, 'size of the map')
            check(list(m) == order and list(m.keys()) == order,
                  'names in the map', got=list(m), expected=order)
            check(el.get_attribute_names() == sorted(want),
                  'get_attribute_names()')
            check(el.has_attributes() == bool(want), 'has_attributes()')
            check(m.item(len(want)) is None, 'item() past the end')
            for i, n in enumerate(order):
                check(m.item(i).name == n and m.item(i).value == want[n],
                      'item()', index=i)
            for n in NAMES:
                c = clark(n)
                v = want.get(c)
                check(el.get(c) == v and el.get_attribute(c) == v
                      and el.get_attribute_ns(n[0], n[1]) == v,
                      'value', name=c, expected=v)
                check((c in m) == el.has_attribute(c)
                      == el.has_attribute_ns(n[0], n[1]) == (v is not None),
                      'presence', name=c)
                got = [m.get(c), m.get_named_item(c),
                       m.get_named_item_ns(n[0], n[1]),
                       el.get_attribute_node(c),
                       el.get_attribute_node_ns(n[0], n[1])]
                if v is None:
                    check(got == [None] * 5, 'node of a missing attribute')
                    continue
                a = m[c]
                check(all(x is a for x in got), 'one node per attribute',
                      name=c)
                check(a.owner_element is el and a.name == c
                      and a.local_name == n[1] and a.namespace_uri == n[0]
                      and a.value == v and a.node_value == v
                      and a.text_content == v and a.tostring() == v.encode(),
                      'attribute node', name=c, got=repr(a))
                e = self.attached(w, c)
                check(e is None or e[0] is a, 'identity of the node', name=c)
        for a, w, n, v in self.nodes:
            check(a.name == n, 'name of a node')
            if w is None:
                check(a.owner_element is None, 'detached node has no owner',
                      name=n)
                check(a.value == v, 'value of a detached node', name=n,
                      got=a.value, expected=v)
            else:
                check(a.owner_element is self.el[w], 'owner of a node',
                      name=n)
                check(a.value == self.at[w][n], 'value of a node', name=n)


def outcome(fn):
    try:
        return 'ok', fn()
    except (KeyError, InUseAttributeError, NotFoundError, ValueError) as exp:
        return type(exp).__name__, None


def run(m, s, labels):
    o, a = s[0], s[1:]
    if o == 'new':
        attr = Attr(a[0][0], a[0][1], value=a[1])
        m.nodes.append([attr, None, clark(a[0]), a[1]])
        return
    if o in ('value', 'node_value', 'text', 'held_value'):
        if not m.nodes:
            return
        e = m.nodes[a[0] % len(m.nodes)]
        if o == 'value' and a[1] == '' and e[1] is None:
            return
        setattr(e[0], {'value': 'value', 'held_value': 'value',
                       'node_value': 'node_value',
                       'text': 'text_content'}[o], a[1])
        if e[1] is None:
            e[3] = a[1]
        elif a[1] == '':
            m.drop(e[1], e[2])
        else:
            m.at[e[1]][e[2]] = a[1]
        return
    w = a[0]
    el, mp, at = m.el[w], m.maps[w], m.at[w]
    if o in ('remove_node', 'set_node', 'set_node_ns', 'map_set',
             'map_setitem', 'map_wrong'):
        if not m.nodes:
            return
        e = m.nodes[a[1] % len(m.nodes)]
        attr, n = e[0], e[2]
        if o == 'map_wrong':
            if clark(a[2]) == n:
                return
            got = outcome(lambda: mp.__setitem__(clark(a[2]), attr))
            check(got[0] == 'ValueError', 'wrong name refused', got=got)
            labels.add('refused')
            return
        if o == 'remove_node':
            got = outcome(lambda: el.remove_attribute_node(attr))
            if e[1] == w:
                check(got == ('ok', attr), 'removed node', got=got)
                m.dom_remove(w, n)
                labels.add('detached')
            else:
                check(got[0] in ('NotFoundError', 'KeyError'),
                      'removing a node of another element is refused',
                      got=got)
                labels.add('refused')
            return
        old = m.attached(w, n)
        before = mp.get(n)
        fn = {'set_node': lambda: el.set_attribute_node(attr),
              'set_node_ns': lambda: el.set_attribute_node_ns(attr),
              'map_set': lambda: mp.set_named_item(attr),
              'map_setitem': lambda: mp.__setitem__(n, attr)}[o]
        got = outcome(fn)
        if e[1] is not None and e[1] != w:
            check(got[0] == 'InUseAttributeError', 'attribute in use',
                  got=got)
            labels.add('refused')
            return
        check(got[0] == 'ok', 'setting a node', got=got)
        if o != 'map_setitem':
            check(got[1] is before, 'the replaced node is returned',
                  got=got)
        if e[1] == w:
            return
        if e[3] == '':
            if n in at:
                if old is None:
                    m.nodes.append([before, w, n, None])
                m.dom_remove(w, n)
            return
        labels.add('attached')
        if n in at:
            if old is None:
                m.nodes.append([before, None, n, at[n]])
            else:
                old[1], old[3] = None, at[n]
            labels.add('replaced')
        e[1] = w
        at[n] = e[3]
        return
    if o in ('clear', 'id', 'class_name'):
        if o == 'clear':
            for n in list(at):
                m.dom_remove(w, n)
            mp.clear()
        else:
            setattr(el, o, a[1])
            at['id' if o == 'id' else 'class'] = a[1]
        return
    if o == 'item':
        if at:
            i = a[1] % len(at)
            attr = mp.item(i)
            m.track(attr, w, attr.name)
        return
    n = clark(a[1])
    if a[1][0]:
        labels.add('namespaced')
    if o == 'set':
        el.set(n, a[2])
        at[n] = a[2]
    elif o == 'attrib':
        el.attrib[n] = a[2]
        at[n] = a[2]
    elif o == 'setitem':
        mp[n] = a[2]
        if a[2] == '':
            if n in at:
                m.dom_remove(w, n)
        else:
            at[n] = a[2]
    elif o == 'update':
        mp.update({n: a[2]})
        at[n] = a[2]
    elif o == 'setdefault':
        got = mp.setdefault(n, a[2])
        if n not in at:
            at[n] = a[2]
    elif o == 'set_attribute':
        el.set_attribute(n, a[2])
        at[n] = a[2]
    elif o == 'set_attribute_ns':
        local = a[1][1]
        if a[1][0] == XLINK:
            local = 'xlink:' + local
        el.set_attribute_ns(a[1][0], local, a[2])
        at[n] = a[2]
    elif o == 'raw_del':
        el.attrib.pop(n, None)
        m.drop(w, n)
    elif o in ('remove_attribute', 'remove_attribute_ns'):
        if o == 'remove_attribute':
            el.remove_attribute(n)
        else:
            el.remove_attribute_ns(a[1][0], a[1][1])
        if n in at:
            m.dom_remove(w, n)
    elif o in ('delitem', 'remove_named', 'remove_named_ns', 'pop'):
        before = mp.get(n)
        got = outcome({
            'delitem': lambda: mp.__delitem__(n),
            'remove_named': lambda: mp.remove_named_item(n),
            'remove_named_ns': lambda: mp.remove_named_item_ns(*a[1]),
            'pop': lambda: mp.pop(n)}[o])
        if n not in at:
            check(got[0] == 'KeyError', 'removing a missing attribute',
                  got=got)
            return
        check(got[0] == 'ok', o, got=got)
        if o != 'delitem':
            check(got[1] is before, 'the removed node is returned')
        v = at[n]
        if m.attached(w, n) is None:
            m.track(before, w, n)
        m.dom_remove(w, n)
        labels.add('detached')
    elif o == 'get':
        attr = mp.get(n)
        if n in at:
            m.track(attr, w, n)
    elif o == 'toggle':
        got = el.toggle_attribute(n, a[2]) if a[2] is not None else (
            el.toggle_attribute(n))
        want = (n not in at) if a[2] is None else a[2]
        check(got == want, 'toggle_attribute()', got=got)
        if want and n not in at:
            at[n] = ''
        elif not want and n in at:
            m.dom_remove(w, n)
    else:
        raise AssertionError(o)


@REG.test(st.fixed_dictionaries({
    'init': st.lists(st.tuples(who, name, full).map(list), max_size=5),
    'steps': st.lists(step, min_size=1, max_size=15)}),
    quick=3000, thorough=100000)
def history(case):
    m = Model()
    for w, n, v in case['init']:
        m.el[w].set(clark(n), v)
        m.at[w][clark(n)] = v
    labels = set()
    m.look()
    for s in case['steps']:
        run(m, s, labels)
        m.look()
    return labels
