"""D01: mutation histories of a small forest against a tree model."""
from svgpy import Node, SVGParser
from svgpy.dom import Comment, ProcessingInstruction
from svgpy.exception import HierarchyRequestError, NotFoundError

from ..gens import op, st
from ..harness import Registry, check, fail

REG = Registry(
    'D01',
    'Histories of up to 25 mutations (append, prepend, insert, extend, '
    'replace, remove, sibling insertion, text edits) of a forest of two '
    'documents, eight free elements, three comments and two processing '
    'instructions, valid or forbidden; after every step the whole forest is '
    'compared with an explicit model. A case is non-trivial when a node with '
    'a parent or with following character data is moved, or an operation is '
    'refused.',
    ['character data following a node travels with it (the convention of the '
     'underlying tree)',
     'nodes next to a document element belong to it: they leave and return '
     'with it',
     'the prefix the tree library gives a node it moves is not judged'])

SVG = 'http://www.w3.org/2000/svg'
NODES = ([['d', None], ['d', None]]
         + [['e', x] for x in ('svg', 'svg', 'g', 'g', 'text', 'tspan',
                               'tspan', 'rect', 'desc', 'text')]
         + [['c', 'c%d' % i] for i in range(3)]
         + [['p', 'p%d' % i] for i in range(2)])
DOCS, ELEMENTS = (0, 1), tuple(range(2, 12))
N = len(NODES)

node = st.integers(0, N - 1)
child = st.integers(2, N - 1)
parent = st.one_of(st.integers(2, 11), st.integers(2, 11),
                   st.integers(2, 11), st.integers(0, 1))
text = st.sampled_from(['a', 'b ', ' c', '<&', 'é'])
ref = st.one_of(st.integers(0, 5), st.integers(0, 5), st.just(-1), st.just(9))
step = st.one_of(
    op('append', parent, child), op('append', parent, child),
    op('append_child', parent, child),
    op('insert_before', parent, child, ref),
    op('insert_before', parent, child, ref),
    op('insert', parent, st.integers(0, 4), child),
    op('extend', parent, st.lists(child, max_size=3, unique=True)),
    op('append_many', parent, st.lists(st.one_of(child, text), max_size=4)),
    op('prepend_many', parent, st.lists(st.one_of(child, text), max_size=4)),
    op('replace', parent, ref, child), op('replace_child', parent, ref, child),
    op('remove', parent, ref), op('remove_child', parent, ref),
    op('remove_self', child), op('addnext', child, child),
    op('addprevious', child, child), op('text', child, text),
    op('tail', child, text), op('text_content', child, text),
    op('sub', st.integers(2, 11), st.sampled_from(['g', 'text', 'tspan']),
       st.one_of(st.none(), st.integers(0, 3))),
    op('leaf', st.integers(12, N - 1), child), op('wrong', node, node),
    op('detach', child, st.just(0)), op('attach', child, st.integers(0, 1)))


class Refused(Exception):
    pass


class Model(object):
    """items[p]: children (numbers) and character data (strings) of a parent;
    group[e]: the nodes at the level of a parentless element."""

    def __init__(self):
        self.kind = [x[0] for x in NODES]
        self.name = [x[1] for x in NODES]
        self.items = [[] for _ in NODES]
        self.data = [x[1] for x in NODES]
        self.root = {0: None, 1: None}
        self.own = [None] * N
        self.before = [[] for _ in NODES]  # at document level
        self.after = [[] for _ in NODES]

    def add(self, name):
        for lst, v in ((self.kind, 'e'), (self.name, name), (self.items, []),
                       (self.data, None), (self.own, None),
                       (self.before, []), (self.after, [])):
            lst.append(v)
        return len(self.kind) - 1

    # -- queries
    def children(self, p):
        if self.kind[p] == 'd':
            r = self.root[p]
            return [] if r is None else (
                self.before[r] + [r] + self.after[r])
        return [x for x in self.items[p] if not isinstance(x, str)]

    def parent(self, n):
        for p, items in enumerate(self.items):
            if n in items:
                return p
        return None

    def level(self, n):
        """The element whose document level a parentless node is on."""
        for e in range(len(self.kind)):
            if n in self.before[e] or n in self.after[e]:
                return e
        return n if self.kind[n] == 'e' else None

    def owner(self, n):
        while n is not None:
            if self.own[n] is not None:
                return self.own[n]
            n = self.parent(n)
        return None

    def inclusive_ancestors(self, n):
        out = []
        while n is not None:
            out.append(n)
            n = self.parent(n)
        return out

    def tail_of(self, n):
        p = self.parent(n)
        if p is None:
            return ''
        items, out = self.items[p], ''
        i = items.index(n) + 1
        while i < len(items) and isinstance(items[i], str):
            out += items[i]
            i += 1
        return out

    def text_of(self, p):
        out = ''
        for x in self.items[p]:
            if not isinstance(x, str):
                break
            out += x
        return out

    # -- edits
    def take(self, n):
        """Unlinks a node; returns it with its following strings."""
        for d, r in self.root.items():
            if r == n:
                self.root[d] = None
        p = self.parent(n)
        if p is None:
            if self.kind[n] != 'e':
                for lst in self.before + self.after:
                    if n in lst:
                        lst.remove(n)
            else:
                # what was next to it stays behind
                self.before[n], self.after[n] = [], []
            return [n]
        items = self.items[p]
        i = items.index(n)
        j = i + 1
        while j < len(items) and isinstance(items[j], str):
            j += 1
        run = items[i:j]
        del items[i:j]
        return run

    def adopt(self, n, doc):
        if doc is None:
            return
        self.own[n] = doc
        for x in self.children(n):
            self.adopt(x, doc)

    def put(self, p, i, n):
        """Inserts before the child number i (or at the end)."""
        kids = self.children(p)
        target = kids[i] if i < len(kids) else None
        if target == n:
            return
        doc = self.owner(p)
        run = self.take(n)
        items = self.items[p]
        at = len(items) if target is None else items.index(target)
        items[at:at] = run
        self.adopt(n, doc)

    def put_level(self, r, after, at, n):
        self.take(n)
        (self.after if after else self.before)[r].insert(at, n)
        self.adopt(n, self.owner(r))


class World(object):
    def __init__(self):
        p = SVGParser()
        self.m = Model()
        self.real = []
        for k, name in NODES:
            if k == 'd':
                x = p.create_document(SVG)
            elif k == 'e':
                x = p.create_element_ns(SVG, name)
            elif k == 'c':
                x = p.create_comment(name)
            else:
                x = p.create_processing_instruction('t', name)
            self.real.append(x)
        self.labels = set()
        for d, e in ((0, 2), (1, 3)):
            self.real[d].append(self.real[e])
            self.m.root[d] = e
            self.m.adopt(e, d)

    def refuses(self, fn, *types):
        try:
            fn()
        except types:
            self.labels.add('refused')
        else:
            fail('a forbidden operation was accepted')

    def forbidden(self, p, n, sibling_of_root=False):
        """The exceptions inserting n into p has to raise, or None."""
        m = self.m
        if m.kind[p] in 'cp' or m.kind[n] == 'd':
            return (HierarchyRequestError,)
        if m.kind[p] == 'd':
            if m.root[p] is None:
                if m.kind[n] != 'e':
                    return (HierarchyRequestError,)
            elif m.kind[n] == 'e' and n != m.root[p]:
                return (TypeError, HierarchyRequestError)
        elif n in m.inclusive_ancestors(p):
            return (HierarchyRequestError, ValueError)
        return None

    def note(self, n):
        if self.m.parent(n) is not None:
            self.labels.add('move')
        if self.m.tail_of(n):
            self.labels.add('tail')

    def usable_root(self, n):
        """Making an element with following text a document element is left
        alone."""
        return not self.m.tail_of(n)

    def doc_insert(self, d, n, before):
        """Models the insertion into a document before a child, or at the
        end."""
        m = self.m
        r = m.root[d]
        if r is None:
            siblings = m.before[n], m.after[n]
            keep = m.parent(n) is None and not any(
                x == n for x in m.root.values())
            m.take(n)
            if keep:
                m.before[n], m.after[n] = siblings
            m.root[d] = n
            m.adopt(n, d)
            return
        if n == r or before == n:
            return
        if before is None:
            m.take(n)
            m.put_level(r, True, len(m.after[r]), n)
        elif before == r:
            m.take(n)
            m.put_level(r, False, len(m.before[r]), n)
        else:
            m.take(n)
            after = before in m.after[r]
            lst = m.after[r] if after else m.before[r]
            m.put_level(r, after, lst.index(before), n)

    def stays(self, n):
        """An element that has neighbours at document level or is the element
        of a document is only moved between documents in simple cases."""
        m = self.m
        return bool(m.before[n] or m.after[n])

    def pick(self, p, i):
        kids = self.m.children(p)
        if i < 0:
            return None
        return kids[i % len(kids)] if kids and i < 6 else -1

    def step(self, name, *args):
        m, real = self.m, self.real
        X = lambda n: real[n]  # noqa: E731
        if name in ('append', 'append_child', 'insert_before', 'insert'):
            if name == 'insert':
                p, i, n = args
                kids = m.children(p)
                c = kids[i] if i < len(kids) else None
            else:
                p, n = args[:2]
                c = self.pick(p, args[2]) if name == 'insert_before' else None
            if self.stays(n):
                return
            bad = self.forbidden(p, n)
            if c == -1:
                # a reference node that is no child
                other = next((x for x in range(2, len(m.kind))
                              if x not in m.children(p)), None)
                self.refuses(lambda: X(p).insert_before(X(n), X(other)),
                             NotFoundError, *(bad or ()))
                return
            if name == 'append':
                fn = lambda: X(p).append(X(n))  # noqa: E731
            elif name == 'append_child':
                fn = lambda: X(p).append_child(X(n))  # noqa: E731
            elif name == 'insert':
                fn = lambda: X(p).insert(i, X(n))  # noqa: E731
            else:
                fn = lambda: X(p).insert_before(  # noqa: E731
                    X(n), None if c is None else X(c))
            if bad:
                self.refuses(fn, *bad)
                return
            if m.kind[p] == 'd':
                if m.root[p] is None and not self.usable_root(n):
                    return
                if c == n:
                    c = None if name == 'insert_before' else c
                    kids = m.children(p)
                    if name == 'insert_before':
                        k = kids.index(n) + 1
                        c = kids[k] if k < len(kids) else None
                        if c is None and n != m.root[p]:
                            c = None
                self.note(n)
                got = fn()
                self.doc_insert(p, n, c)
            else:
                self.note(n)
                got = fn()
                if c != n:
                    m.put(p, m.children(p).index(c) if c is not None
                          else N + 99, n)
                elif name == 'insert_before' or name == 'insert':
                    pass
            if name in ('append_child', 'insert_before'):
                check(got is X(n), 'returns the inserted node')
        elif name in ('extend', 'append_many', 'prepend_many'):
            p, what = args
            nodes = [x for x in what if not isinstance(x, str)]
            if (len(set(nodes)) < len(nodes)
                    or any(self.stays(n) for n in nodes)
                    or (m.kind[p] == 'd' and (
                        len(nodes) < len(what) or m.root[p] is None
                        or m.root[p] in nodes))):
                return
            # strings together with children of the same parent: the order of
            # the two is left alone
            kids = m.children(p)
            if len(nodes) < len(what) and any(n in kids for n in nodes):
                return
            arg = [x if isinstance(x, str) else X(x) for x in what]
            bad = [self.forbidden(p, n) for n in nodes]
            bad = [b for b in bad if b]
            if name == 'extend':
                fn = lambda: X(p).extend(arg)  # noqa: E731
            elif name == 'append_many':
                fn = lambda: X(p).append(*arg)  # noqa: E731
            else:
                fn = lambda: X(p).prepend(*arg)  # noqa: E731
            if bad:
                if m.kind[p] != 'd' or len(nodes) == 1:
                    self.refuses(fn, *[t for b in bad for t in b])
                return
            if any(n in m.inclusive_ancestors(q) for n in nodes
                   for q in nodes if n != q):
                return
            for n in nodes:
                self.note(n)
            fn()
            if name != 'prepend_many':
                for x in what:
                    if isinstance(x, str):
                        m.items[p].append(x)
                    elif m.kind[p] == 'd':
                        self.doc_insert(p, x, None)
                    else:
                        m.put(p, N + 99, x)
            elif m.kind[p] == 'd':
                first = next(k for k in kids
                             if k == m.root[p] or k not in nodes)
                for x in nodes:
                    self.doc_insert(p, x, first)
            else:
                doc = m.owner(p)
                run = []
                for x in what:
                    run += [x] if isinstance(x, str) else m.take(x)
                for x in nodes:
                    m.adopt(x, doc)
                m.items[p][0:0] = run
        elif name in ('replace', 'replace_child'):
            p, i, n = args
            c = self.pick(p, i)
            if c is None or self.stays(n):
                return
            if c == -1:
                c = next((x for x in range(2, len(m.kind))
                          if x not in m.children(p)), None)
                bad = (NotFoundError,) + (self.forbidden(p, n) or ())
            else:
                bad = self.forbidden(p, n)
                if m.kind[p] == 'd' and c == m.root[p]:
                    return
            if name == 'replace':
                fn = lambda: X(p).replace(X(c), X(n))  # noqa: E731
            else:
                fn = lambda: X(p).replace_child(X(n), X(c))  # noqa: E731
            if bad:
                self.refuses(fn, *bad)
                return
            if m.kind[p] == 'd' and n == m.root[p]:
                return
            self.note(n)
            got = fn()
            if name == 'replace_child':
                check(got is X(c), 'returns the replaced node')
            if c != n:
                if m.kind[p] == 'd':
                    self.doc_insert(p, n, c)
                    m.take(c)
                else:
                    m.put(p, m.children(p).index(c), n)
                    self.drop(c)
        elif name in ('remove', 'remove_child'):
            p, i = args
            c = self.pick(p, i)
            if c is None:
                return
            if c == -1:
                c = next(x for x in range(2, len(m.kind))
                         if x not in m.children(p))
                self.refuses(lambda: getattr(X(p), name)(X(c)),
                             NotFoundError)
                return
            self.note(c)
            got = getattr(X(p), name)(X(c))
            if name == 'remove_child':
                check(got is X(c), 'returns the removed node')
            self.drop(c)
        elif name == 'remove_self':
            n, = args
            if m.kind[n] != 'e':
                return
            X(n).remove()
            if m.parent(n) is not None:
                self.note(n)
                self.drop(n)
        elif name in ('addnext', 'addprevious'):
            a, n = args
            p = m.parent(a)
            if a == n or p is None or self.stays(n):
                return
            if n in m.inclusive_ancestors(a):
                self.refuses(lambda: getattr(X(a), name)(X(n)),
                             ValueError, HierarchyRequestError)
                return
            self.note(n)
            getattr(X(a), name)(X(n))
            doc = m.owner(a)
            run = m.take(n)
            items = m.items[p]
            i = items.index(a)
            if name == 'addnext':
                # after the text that belongs to the reference node
                i += 1
                while i < len(items) and isinstance(items[i], str):
                    i += 1
            items[i:i] = run
            m.adopt(n, doc)
        elif name == 'text':
            n, s = args
            if m.kind[n] != 'e':
                X(n).data = s
                m.data[n] = s
                return
            X(n).text = s
            while m.items[n] and isinstance(m.items[n][0], str):
                del m.items[n][0]
            m.items[n].insert(0, s)
        elif name == 'tail':
            n, s = args
            p = m.parent(n)
            if p is None:
                return
            X(n).tail = s
            items = m.items[p]
            i = items.index(n) + 1
            while i < len(items) and isinstance(items[i], str):
                del items[i]
            items.insert(i, s)
        elif name in ('detach', 'attach'):
            n, d = args
            if m.parent(n) is not None or m.level(n) in m.root.values() \
                    or self.stays(n):
                return  # only trees that are in no document
            if name == 'attach':
                check(X(n).attach_document(X(d)) is True,
                      'attach_document()')
                check(X(n).attach_document(None) is False,
                      'attach_document() of no document')
                m.adopt(n, d)
            else:
                X(n).detach_document()
                d = None
            todo = [n]
            while todo:
                x = todo.pop()
                m.own[x] = d
                self.same(X(x).owner_document, d, 'document given by ' + name,
                          x)
                todo.extend(m.children(x))
        elif name == 'text_content':
            n, s = args
            if m.kind[n] != 'e':
                X(n).text_content = s
                m.data[n] = s
                return
            X(n).text_content = s
            for c in m.children(n):
                self.drop(c)
            m.items[n] = [s]
        elif name == 'sub':
            p, tag, i = args
            if len(real) > 20:
                return
            real.append(X(p).create_sub_element_ns(SVG, tag, index=i))
            n = m.add(tag)
            m.put(p, N + 99 if i is None else i, n)
        elif name == 'leaf':
            p, n = args
            for fn in (lambda: X(p).append(X(n)),
                       lambda: X(p).append_child(X(n)),
                       lambda: X(p).insert(0, X(n)),
                       lambda: X(p).extend([X(n)]),
                       lambda: X(p).insert_before(X(n), None)):
                self.refuses(fn, HierarchyRequestError)
        elif name == 'wrong':
            p, n = args
            d = X(n if m.kind[n] == 'd' else 0)
            self.refuses(lambda: X(p).append_child(d), HierarchyRequestError)

    def drop(self, n):
        """Removes a node; what follows it goes with it, invisibly."""
        for d, r in self.m.root.items():
            if r == n:
                self.m.root[d] = None
                return
        run = self.m.take(n)
        if len(run) > 1:
            # the text is still there as long as the node has no parent
            self.real[n].tail = None

    # -- comparison
    def text_content(self, n):
        m = self.m
        if m.name[n] == 'desc':
            def full(k):
                return ''.join(x if isinstance(x, str) else
                               full(x) if m.kind[x] == 'e' else ''
                               for x in m.items[k])
            return full(n)
        if m.name[n] in ('text', 'tspan'):
            return ''.join(
                x if isinstance(x, str) else
                self.text_content(x) if m.kind[x] == 'e'
                and m.name[x] in ('text', 'tspan') else ''
                for x in m.items[n])
        return None

    def same(self, got, n, what, of):
        want = None if n is None else self.real[n]
        if got is not want:
            fail(what, of=of, got=self.label(got), expected=n)

    def label(self, x):
        for i, r in enumerate(self.real):
            if r is x:
                return i
        return repr(x)

    def look(self):
        m, real = self.m, self.real
        for n, x in enumerate(real):
            kids = m.children(n)
            got = list(x.child_nodes)
            if [self.label(c) for c in got] != kids:
                fail('child nodes', of=n, got=[self.label(c) for c in got],
                     expected=kids)
            check(x.has_child_nodes() == bool(kids), 'has_child_nodes()')
            self.same(x.first_child, kids[0] if kids else None,
                      'first child', n)
            self.same(x.last_child, kids[-1] if kids else None,
                      'last child', n)
            if m.kind[n] in 'de':
                check([self.label(c) for c in x] == kids, 'iteration', of=n)
                check(len(x) == len(kids), 'len()', of=n)
                el = [c for c in kids if m.kind[c] == 'e']
                check([self.label(c) for c in x.children] == el,
                      'children', of=n)
                check(x.child_element_count == len(el), 'element count')
                self.same(x.first_element_child, el[0] if el else None,
                          'first element child', n)
                self.same(x.last_element_child, el[-1] if el else None,
                          'last element child', n)
                for c in range(2, len(m.kind)):
                    check((real[c] in x) == (c in kids), 'membership', of=n,
                          node=c)
            if m.kind[n] == 'd':
                self.same(x.document_element, m.root[n],
                          'document element', n)
                check(x.parent_node is None and x.next_sibling is None
                      and x.owner_document is None, 'document')
                continue
            p = m.parent(n)
            self.same(x.parent_node, p, 'parent', n)
            self.same(x.parent_element, p, 'parent element', n)
            top = m.inclusive_ancestors(n)[-1]
            level = m.level(top)
            for d in DOCS:
                if level is not None and m.root[d] == level:
                    self.same(x.owner_document, d, 'owner document', n)
            if p is None:
                r = m.level(n)
                line = [n] if r is None else (
                    m.before[r] + [r] + m.after[r])
            else:
                line = m.children(p)
                check((x.tail or '') == m.tail_of(n), 'text after a node',
                      node=n, got=x.tail, expected=m.tail_of(n))
            self.same(x.get_root_node(), top if level is None else level,
                      'root node', n)
            i = line.index(n)
            self.same(x.previous_sibling, line[i - 1] if i else None,
                      'previous sibling', n)
            self.same(x.next_sibling,
                      line[i + 1] if i + 1 < len(line) else None,
                      'next sibling', n)
            pre = [c for c in line[:i] if m.kind[c] == 'e']
            post = [c for c in line[i + 1:] if m.kind[c] == 'e']
            self.same(x.previous_element_sibling,
                      pre[-1] if pre else None,
                      'previous element sibling', n)
            self.same(x.next_element_sibling, post[0] if post else None,
                      'next element sibling', n)
            if m.kind[n] == 'e':
                check(x.node_type == Node.ELEMENT_NODE
                      and x.local_name == m.name[n]
                      and x.namespace_uri == SVG, 'element node')
                check((x.text or '') == m.text_of(n), 'text', node=n,
                      got=x.text, expected=m.text_of(n))
                want = self.text_content(n)
                got = x.text_content
                check(got == want or (not got and not want), 'text content',
                      node=n, got=got, expected=want)
            else:
                check(x.data == m.data[n] == x.text_content
                      == x.node_value and x.length == len(m.data[n]),
                      'character data', node=n)
                check(isinstance(x, Comment if m.kind[n] == 'c'
                                 else ProcessingInstruction), 'node class')
        for d in (0, 1):
            def show(n):
                if m.kind[n] == 'c':
                    return ['<!--', m.data[n], '-->']
                if m.kind[n] == 'p':
                    return ['<?', m.data[n].lstrip()]
                return ['<' + m.name[n]] + [
                    y for c in m.items[n] for y in
                    ([c] if isinstance(c, str) else show(c))] + ['>']

            def read(x, with_tail=False):
                if x.node_type == Node.COMMENT_NODE:
                    out = ['<!--', x.data, '-->']
                elif x.node_type == Node.ELEMENT_NODE:
                    out = ['<' + x.local_name] + (
                        [x.text] if x.text else [])
                    for c in x:
                        out += read(c, True)
                    out += ['>']
                else:
                    out = ['<?', x.data]
                return out + ([x.tail] if with_tail and x.tail else [])

            def merge(lst):
                out = []
                for y in lst:
                    if out and y[:1] != '<' and out[-1][:1] != '<':
                        out[-1] += y
                    else:
                        out.append(y)
                return out
            if m.root[d] is None:
                check(real[d].tostring() == b'', 'text of an empty document')
                continue
            # the serialised document read back by an independent parser
            from lxml import etree
            data = real[d].tostring(encoding='utf-8')
            root = etree.fromstring(data)

            def plain(x, with_tail=False):
                if x.tag is etree.Comment:
                    out = ['<!--', x.text, '-->']
                elif x.tag is etree.PI:
                    out = ['<?', x.text]
                else:
                    out = ['<' + etree.QName(x).localname] + (
                        [x.text] if x.text else [])
                    for c in x:
                        out += plain(c, True)
                    out += ['>']
                return out + ([x.tail] if with_tail and x.tail else [])
            got = []
            top = list(root.itersiblings(preceding=True))[::-1] + [root] \
                + list(root.itersiblings())
            for x in top:
                got += plain(x)
            want = [y for n in m.children(d) for y in show(n)]
            if ''.join(got) != ''.join(want):
                fail('serialised document', got=got, expected=want)


@REG.test(st.lists(step, min_size=1, max_size=25), quick=6000,
          thorough=150000)
def history(case):
    w = World()
    for s in case:
        w.step(*s)
        w.look()
    return w.labels


dparent = st.sampled_from([0, 0, 0, 1, 2])
misc = st.one_of(st.integers(12, N - 1), st.integers(12, N - 1),
                 st.integers(12, N - 1), st.integers(2, 5))
dstep = st.one_of(
    op('append', dparent, misc), op('append_child', dparent, misc),
    op('insert_before', dparent, misc, ref),
    op('insert_before', dparent, misc, ref),
    op('insert', dparent, st.integers(0, 4), misc),
    op('extend', dparent, st.lists(misc, max_size=3, unique=True)),
    op('append_many', dparent, st.lists(misc, max_size=4)),
    op('prepend_many', dparent, st.lists(misc, max_size=4)),
    op('replace', dparent, ref, misc), op('replace_child', dparent, ref, misc),
    op('remove', dparent, ref), op('addnext', misc, misc),
    op('addprevious', misc, misc), op('remove_self', misc), step)


@REG.test(st.tuples(st.integers(2, 4), st.lists(dstep, min_size=1,
                                                max_size=15)), quick=1500,
          thorough=60000)
def document_level(case):
    """Comments and instructions around a document element."""
    w = World()
    w.step('append', 0, case[0])
    for s in case[1]:
        w.step(*s)
        w.look()
    if len(w.m.children(0)) > 2:
        w.labels.add('around')
    return w.labels
