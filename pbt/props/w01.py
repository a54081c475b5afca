"""W01: documents and windows follow their location."""
import atexit
import os
import shutil
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import quote, unquote, urldefrag, urljoin, urlsplit

from svgpy.window import SVGDOMImplementation, Window

from ..gens import op, st
from ..harness import Registry
from ..harness import check as _check

REG = Registry(
    'W01',
    'Histories of up to ten navigations of a document or a window (through '
    'location, href, assign, the parts of the location and reload; relative '
    'and absolute references; to pages of a scratch directory through file: '
    'URLs and through two loopback HTTP servers; to pages that are missing, '
    'broken or refused), of edits of the current document and of changes of '
    'the pages, against the URL resolved by urllib and a record of the pages. '
    'Pages in several encodings, declared in the header or in the document, '
    'are read from files, from the server and from data: URLs. A history is '
    'non-trivial when a navigation fails or stays on the page, and another '
    'succeeds.',
    ['a page that cannot be loaded leaves the document and the location as '
     'they were',
     'a change of the fragment alone does not load the page again'])

SVG = 'http://www.w3.org/2000/svg'
PAGES = ['a.svg', 'b.svg', 'sub/c.svg', 'sub/d e.svg', 'sub/deep/é.svg']
BAD = ['bad.svg', 'sub/gone.svg', 'empty.svg']


def check(condition, what, **info):
    _check(condition, what, **info)


class Site(object):
    """A scratch directory, and what is in it."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='w01-'))
        atexit.register(shutil.rmtree, self.dir, True)
        self.headers = {}
        self.hits = []
        self.servers = []
        for _ in range(2):
            server = ThreadingHTTPServer(('127.0.0.1', 0), handler(self))
            server.daemon_threads = True
            threading.Thread(target=server.serve_forever, daemon=True,
                             kwargs={'poll_interval': 0.02}).start()
            self.servers.append(server)
        self.bases = ['file://{}/'.format(self.dir)] + [
            'http://127.0.0.1:{}/'.format(x.server_address[1])
            for x in self.servers]
        self.versions = {}

    def reset(self):
        self.versions = {}
        for name in PAGES:
            self.write(name, 0)
        with open(os.path.join(self.dir, 'bad.svg'), 'w') as f:
            f.write('<svg xmlns="{}" id="bad">'.format(SVG))
        with open(os.path.join(self.dir, 'empty.svg'), 'w') as f:
            f.write('')

    def write(self, name, version):
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.versions[name] = version
        with open(path, 'w') as f:
            f.write('<?xml version="1.0"?><!--{0}--><svg xmlns="{1}" '
                    'id="{0}"><g id="v{2}"/></svg>'.format(
                        name, SVG, version))


def handler(site):
    class Handler(BaseHTTPRequestHandler):
        def log_message(self, *args):
            pass

        def do_GET(self):
            name = unquote(urlsplit(self.path).path).lstrip('/')
            path = os.path.join(site.dir, name)
            if not os.path.isfile(path):
                self.send_error(404)
                return
            with open(path, 'rb') as f:
                data = f.read()
            self.send_response(200)
            header = site.headers.get(name)
            if header is not None:
                self.send_header('Content-Type', header)
            self.send_header('Content-Length', str(len(data)))
            self.end_headers()
            self.wfile.write(data)
    return Handler


_site = []


def site():
    if not _site:
        _site.append(Site())
    return _site[0]


fragment = st.sampled_from(['', '#x', '#y', '#v0'])
query = st.sampled_from(['', '', '', '?q=1', '?q=2'])
page = st.one_of(st.sampled_from(PAGES), st.sampled_from(PAGES),
                 st.sampled_from(BAD))
how = st.sampled_from(['location', 'href', 'assign'])
step = st.one_of(
    op('go', how, st.integers(0, 2), page, query, fragment),
    op('go', how, st.integers(0, 2), page, query, fragment),
    op('rel', st.sampled_from(
        ['a.svg', './b.svg', '../a.svg', 'sub/c.svg', 'c.svg', '/a.svg',
         'sub/../b.svg', 'deep/%C3%A9.svg', '../sub/d%20e.svg', 'bad.svg',
         '#x', '#y', '?q=1', '?q=2#x', 'b.svg#y', 'gone.svg', '../../a.svg']),
       ),
    op('hash', st.sampled_from(['', 'x', '#y', 'v0'])),
    op('search', st.sampled_from(['', 'q=1', '?q=2'])),
    op('pathname', st.one_of(page, st.just('sub/'))),
    op('port', st.integers(0, 1)),
    op('host', st.sampled_from(['localhost', '127.0.0.1']),
       st.integers(0, 1)),
    op('hostname', st.sampled_from(['localhost', '127.0.0.1', '[::1'])),
    op('reload'), op('reload'), op('change', st.integers(0, 4)),
    op('change', st.integers(0, 4)),
    op('edit'), op('edit'),
    op('blank', how, st.sampled_from(['', '', '#x'])),
    op('refuse', st.sampled_from(
        ['', 'x/y', 'a.svg', 'file:', 'data:image/svg+xml,<svg/>', 'about:',
         'http://', 'http://127.0.0.1:99999/a.svg', 'blob:x',
         'nosuch://127.0.0.1/a.svg'])))


def encode(name):
    return quote(name)


@REG.test(st.fixed_dictionaries({
    'subject': st.sampled_from(['document', 'window']),
    'steps': st.lists(step, min_size=2, max_size=10)}), 700, 9000)
def navigation(case):
    """A page that was navigated to is the document; one that cannot be
    loaded, or a fragment, leaves the document as it was."""
    s = site()
    s.reset()
    impl = SVGDOMImplementation()
    win = None
    if case['subject'] == 'window':
        win = Window(impl)
        doc = win.document
        old = doc.document_element
        url = 'about:blank'
        check(win.location is doc.location, 'the location of the window')
    else:
        doc = impl.create_svg_document()
        old = doc.document_element
        url = 'about:blank'
    content = ('svg', None, 0) if old is not None else None
    counts = {'loaded': 0, 'failed': 0, 'stayed': 0, 'replaced': 0}
    cwd = os.getcwd()
    os.chdir(s.dir)
    try:
        for step_ in case['steps']:
            url, content, old = run(s, win, doc, url, content, old, step_,
                                    counts)
    finally:
        os.chdir(cwd)
    if not counts['loaded']:
        return []
    return [k for k in ('failed', 'stayed', 'replaced') if counts[k]]


def page_of(s, url):
    """What is at a URL, or None if it cannot be loaded."""
    for i, base in enumerate(s.bases):
        for b in ([base] if i == 0 else
                  [base, base.replace('127.0.0.1', 'localhost')]):
            if url.startswith(b):
                rest = urldefrag(url)[0][len(b):]
                if i == 0 and '?' in rest:
                    return None
                name = unquote(rest.split('?')[0])
                if name in s.versions:
                    return (name, s.versions[name], 0)
                return None
    return None


def run(s, win, doc, url, content, old, step_, counts):
    kind = step_[0]
    target = None
    reload_ = False
    act = None
    loc = doc.location
    base = url if not url.startswith('about:') else s.bases[0]
    local = url.startswith('file:')
    remote = url.startswith('http:')
    if kind == 'go':
        target = s.bases[step_[2]] + encode(step_[3]) + step_[4] + step_[5]
        act = setter(win, doc, step_[1], target)
    elif kind == 'rel':
        target = urljoin(base, step_[1])
        if step_[1][0] in '?#' and url.startswith('about:'):
            return url, content, old
        act = setter(win, doc, 'location', step_[1])
    elif kind == 'blank':
        target = 'about:blank' + step_[2]
        act = setter(win, doc, step_[1], target)
    elif kind == 'refuse':
        act = setter(win, doc, 'href', step_[1])
    elif kind == 'reload':
        target = url
        reload_ = True
        act = loc.reload
    elif kind == 'hash':
        value = step_[1].lstrip('#')
        target = urldefrag(url)[0] + ('#' + value if value else '')

        def act():
            loc.hash = step_[1]
    elif kind == 'search':
        if not (local or remote):
            return url, content, old
        value = step_[1].lstrip('?')
        target = urlsplit(url)._replace(query=value).geturl()

        def act():
            loc.search = step_[1]
    elif kind == 'pathname':
        if not (local or remote):
            return url, content, old
        path = '/' + encode(step_[1])
        if local:
            path = s.dir + path
        target = urlsplit(url)._replace(path=path).geturl()

        def act():
            loc.pathname = path
    elif kind in ('port', 'host', 'hostname'):
        if not remote:
            return url, content, old
        split = urlsplit(url)
        name, port = split.hostname, split.port
        if kind == 'port':
            port = value = s.servers[step_[1]].server_address[1]
        elif kind == 'hostname':
            name = value = step_[1]
        else:
            name, port = step_[1], s.servers[step_[2]].server_address[1]
            value = '{}:{}'.format(name, port)
        if '[' not in name:
            target = split._replace(netloc='{}:{}'.format(name, port)).geturl()

        def act():
            setattr(loc, kind, str(value))
    elif kind == 'change':
        name = PAGES[step_[1]]
        s.write(name, s.versions[name] + 1)
    elif kind == 'edit':
        if old is not None:
            old.append(doc.create_element_ns(SVG, 'rect'))
            content = content[:2] + (content[2] + 1,)

    expected, new_url, stayed = content, url, True
    fails = False
    if act is not None:
        if target is None:
            fails = True
        else:
            same = urldefrag(target)[0] == urldefrag(url)[0]
            has = '#' in target
            if not reload_ and same and (kind == 'hash' or has):
                new_url = target
                counts['stayed'] += 1
            elif target.startswith('about:'):
                expected, new_url, stayed = None, target, False
            else:
                found = page_of(s, target)
                if found is None:
                    fails = True
                else:
                    expected, new_url, stayed = found, target, False
        error = None
        try:
            act()
        except Exception as e:
            error = e
        check((error is not None) == fails,
              'navigations fail when the page cannot be loaded',
              step=step_, url=url, target=target, error=repr(error))
        counts['failed'] += fails
        counts['loaded'] += not fails and not stayed
        counts['replaced'] += old is not None and not stayed

    root = doc.document_element
    check(doc.location.href == new_url, 'the location', got=doc.location.href,
          expected=new_url, step=step_, url=url)
    check(doc.url == new_url and doc.document_uri == new_url
          and doc.location is loc and loc.tostring() == new_url
          and loc.hash == (
              '#' + urldefrag(new_url)[1] if urldefrag(new_url)[1] else '')
          and doc.origin == loc.origin,
          'the URL of the document', got=doc.url, expected=new_url)
    if win is not None:
        check(win.document is doc and win.location is loc
              and doc.default_view is win, 'the document of the window')
    if expected is None:
        check(root is None and doc.child_nodes == []
              and doc.style_sheets == [],
              'a blank page has no document element',
              got=root, step=step_, url=url)
    else:
        check(root is not None and root.owner_document is doc
              and doc.children == [root]
              and len(doc.get_elements_by_tag_name('svg')) == 1,
              'the document element', got=root, step=step_, url=url)
        if expected[1] is not None:
            check(root.id == expected[0]
                  and root[0].id == 'v{}'.format(expected[1])
                  and len(root) == 1 + expected[2]
                  and [x.node_type for x in doc.child_nodes] == [8, 1]
                  and doc.child_nodes[0].text == expected[0],
                  'the content of the document', got=doc.tostring(),
                  expected=expected, step=step_, url=url)
        else:
            check(root.local_name == 'svg' and len(root) == expected[2],
                  'the content of the document', got=doc.tostring())
        check(all(x.owner_document is doc for x in root.iter()),
              'the owner of the nodes')
    if stayed:
        check(root is old, 'the document was not replaced', step=step_,
              url=url, target=target)
    elif old is not None:
        check(root is not old and old not in doc.child_nodes,
              'the document was replaced', step=step_, url=url,
              target=target)
    return new_url, expected, root


def setter(win, doc, how_, value):
    def act():
        subject = win if win is not None else doc
        if how_ == 'location':
            subject.location = value
        elif how_ == 'href':
            subject.location.href = value
        else:
            subject.location.assign(value)
    return act


CHARSETS = {'utf-8': 'aé日😀&amp;', 'iso-8859-1': 'aéÿ&amp;',
            'shift_jis': 'a日本ア', 'koi8-r': 'aЖя', 'utf-16': 'aé日',
            'us-ascii': 'abc'}


@REG.test(st.fixed_dictionaries({
    'charset': st.sampled_from(sorted(CHARSETS)),
    'text': st.lists(st.integers(0, 20), min_size=1, max_size=6),
    'declared': st.sampled_from(['same', 'none', 'other', 'bare']),
    'header': st.sampled_from(
        ['none', 'plain', 'charset', 'upper', 'quoted', 'params', 'spaced']),
    'bom': st.booleans(), 'space': st.booleans(),
    'how': st.sampled_from(['http', 'http', 'file', 'data', 'base64',
                            'object'])}), 700, 9000)
def encodings(case):
    """The text of a page is decoded by the header, or else by the document
    itself."""
    s = site()
    charset = case['charset']
    chars = list(CHARSETS[charset].replace('&amp;', '&'))
    text = ''.join(chars[i % len(chars)] for i in case['text'])
    header = case['header'] if case['how'] in ('http', 'data', 'base64') \
        else 'none'
    if header == 'quoted' and case['how'] != 'http':
        header = 'charset'
    by_header = header not in ('none', 'plain')
    declared = case['declared']
    if charset == 'utf-16' and not by_header and declared == 'other':
        declared = 'same'
    if not by_header and (declared == 'other' or (
            declared != 'same'
            and charset not in ('utf-8', 'utf-16', 'us-ascii'))):
        # nothing tells the encoding
        declared = 'same'
    name = {'same': charset, 'other': 'iso-8859-5'}.get(declared)
    prolog = ''
    if declared != 'none':
        prolog = '<?xml version="1.0"{}{}?>'.format(
            ' encoding="{}"'.format(name) if name else '',
            ' standalone="yes"' if case['space'] else '')
    source = '{}<svg xmlns="{}"><text id="{}">{}</text></svg>'.format(
        prolog + ('\n' if case['space'] else ''), SVG,
        text.replace('&', '&amp;'), text.replace('&', '&amp;'))
    if not prolog:
        source = source.lstrip()
    data = source.encode(charset)
    if charset == 'utf-8' and case['bom']:
        data = b'\xef\xbb\xbf' + data
    mime = 'image/svg+xml'
    value = {
        'none': None, 'plain': mime,
        'charset': '{};charset={}'.format(mime, charset),
        'upper': '{};Charset={}'.format(mime, charset.upper()),
        'quoted': '{};charset="{}"'.format(mime, charset),
        'params': '{};v=1;charset={};w=2'.format(mime, charset),
        'spaced': '{} ; charset={} '.format(mime, charset)}[header]
    impl = SVGDOMImplementation()
    where = case['how']
    if where in ('data', 'base64'):
        if value is None:
            value = mime
        value = value.replace(' ', '')
        if where == 'data':
            src = 'data:{},{}'.format(value, quote(data))
        else:
            import base64
            src = 'data:{};base64,{}'.format(
                value, quote(base64.b64encode(data).decode()))
    else:
        path = os.path.join(s.dir, 'enc.svg')
        with open(path, 'wb') as f:
            f.write(data)
        s.headers['enc.svg'] = value
        src = {'http': s.bases[1] + 'enc.svg',
               'file': s.bases[0] + 'enc.svg'}.get(where)
        if src is None:
            src = open(path, 'rb')
    try:
        root = impl.parse(src)
    finally:
        if hasattr(src, 'close'):
            src.close()
    node = root[0]
    check(node.text == text and node.id == text, 'the text of the page',
          got=[node.text, node.id], expected=text, header=value, data=data)
    return [charset] if charset not in ('us-ascii', 'utf-8') else []
