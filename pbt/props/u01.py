"""U01: URLs parse, resolve and serialise stably."""
import os
import shutil
import tempfile
from urllib.parse import parse_qsl, quote, unquote_to_bytes, urlsplit

from svgpy.url import Location, URL
from svgpy.utils import normalize_url

from ..gens import st
from ..harness import Registry, check, fail

REG = Registry(
    'U01',
    'URLs are built from components (scheme in any case, user information, '
    'domain, international, IPv4 and IPv6 hosts, ports incl. default ones, '
    'path segments incl. dot segments, empty ones and percent-encoded bytes, '
    'unique query pairs, fragments) and compared with them; references of '
    'every form are resolved against them and against the algorithm of RFC '
    '3986, 5.2 written here. A case is non-trivial when it has a percent-'
    'encoded byte, a dot segment, an international or IPv6 host, a default '
    'port or a reference other than an absolute path.',
    ['a query is a set of pairs with distinct keys, written sorted by key',
     'an existing directory is a base with a slash (file: only)',
     'back slashes are not characters of a URL'])

SPECIAL = {'ftp': '21', 'gopher': '70', 'http': '80', 'https': '443',
           'ws': '80', 'wss': '443'}
scheme = st.sampled_from(['http', 'https', 'HTTP', 'Https', 'ftp', 'ws',
                          'wss', 'scheme', 'svn+ssh', 'x.y-z', 'file'])
host = st.sampled_from([
    'example.org', 'EXAMPLE.com', 'a', 'localhost', '127.0.0.1', '[::1]',
    '[2001:DB8::1]', '日本語.example', 'bücher.de', 'x-y.example.'])
port = st.one_of(st.just(''), st.sampled_from(
    ['80', '443', '21', '8080', '0', '65535', '080']),
    st.integers(0, 65535).map(str))
letter = st.one_of(
    st.sampled_from('abAZ09-._~'), st.sampled_from("!$&'()*+,;=:@ <>^`|{}é日😀"),
    st.sampled_from('%#?/\\"[]'), st.characters(
        min_codepoint=0xa1, exclude_categories=['Cs', 'Cc', 'Zs', 'Zl', 'Zp']))
RAW = {'path': "abAZ09-._~!$&'()*+,;=:@ <>^`|{}\"",
       'hash': "abAZ09-._~!$&'()*+,;=:@ <>^`|{}\"?/[]\\%#",
       'user': "abAZ09-._~!$&'()*+,;=",
       'query': "abAZ09-._~!$'()*,;:@<>^`|{}\"?/[]\\"}
unit = st.tuples(letter, st.sampled_from(['raw', 'raw', 'enc', 'lower', 'all'])
                 ).map(list)
text = st.lists(unit, max_size=5)
byte = st.sampled_from([['%FF', 'byte'], ['%2F', 'byte'], ['%25', 'byte'],
                        ['%e9', 'byte'], ['%5c', 'byte'], ['%7E', 'byte'],
                        ['%41', 'byte'], ['%00', 'byte']])
rough = st.lists(st.one_of(unit, unit, byte), max_size=5)
segment = st.one_of(
    rough, rough, rough, st.sampled_from(
        [[['.', 'raw']], [['..', 'raw']], [], [['%2e', 'byte']],
         [['%2E', 'byte'], ['.', 'raw']], [['...', 'raw']]]))


def put(units, kind, follow=''):
    """The text of a component and its bytes."""
    out, data = '', b''
    for c, how in units:
        if how == 'byte':
            out += c
            data += unquote_to_bytes(c)
            continue
        data += c.encode()
        raw = all(x in RAW[kind] or (ord(x) > 127) for x in c)
        if c == '%':
            raw = False
        if how == 'raw' and raw:
            out += c
        elif how == 'lower':
            out += quote(c, safe='').lower() if not raw else c
        elif how == 'all':
            out += ''.join('%%%02X' % x for x in c.encode())
        else:
            out += quote(c, safe='')
    return out, data


def write(parts):
    """The text of a URL and what its components are."""
    sch, user, pw, h, p, segs, pairs, frag = parts
    out = sch + '://'
    m = {'protocol': sch.lower() + ':', 'username': b'', 'password': b'',
         'hostname': h.lower() if h[0] == '[' else
         h.lower().encode('idna').decode(), 'port': '', 'params': {},
         'hash': b''}
    if user is not None:
        t, m['username'] = put(user, 'user')
        out += t
        if pw is not None:
            t, m['password'] = put(pw, 'user')
            out += ':' + t
        out += '@'
    out += h
    if p:
        out += ':' + p
        m['port'] = str(int(p))
    path = ''.join('/' + put(s, 'path')[0] for s in segs)
    out += path
    m['path'] = segments(path or '/')
    query = [[put(k, 'query'), put(v, 'query')] for k, v in pairs]
    seen = {}
    for (kt, kb), (vt, vb) in query:
        seen.setdefault(kb, (kt, vt, vb))
    text_ = '&'.join(kt + '=' + vt for kt, vt, vb in seen.values())
    if seen:
        out += '?' + text_
    m['params'] = {dec(k): dec(v[2]) for k, v in seen.items()}
    if frag is not None:
        t, m['hash'] = put(frag, 'hash')
        out += '#' + t
    return out, m, path or '/', text_


def dec(data):
    return data.decode('utf-8', 'surrogateescape')


def segments(path):
    """The bytes of the segments of a path without dot segments (RFC 3986)."""
    out = []
    segs = [unquote_to_bytes(x) for x in path.split('/')][1:]
    plain = [x if unquote_to_bytes(x).strip(b'.') == b'' else 'x'
             for x in path.split('/')][1:]
    for i, s in enumerate(segs):
        dots = s if plain[i] != 'x' else b'x'
        if dots == b'.' or dots == b'..':
            if dots == b'..' and out:
                out.pop()
            if i == len(segs) - 1:
                out.append(b'')
        else:
            out.append(s)
    return out


def read(url):
    return {'protocol': url.protocol, 'username': unquote_to_bytes(url.username),
            'password': unquote_to_bytes(url.password),
            'hostname': url.hostname, 'port': url.port,
            'path': [unquote_to_bytes(x) for x in url.pathname.split('/')[1:]],
            'params': dict(url.search_params),
            'hash': unquote_to_bytes(url.hash[1:])}


def shown(m):
    default = SPECIAL.get(m['protocol'][:-1])
    if m['port'] and m['port'] != default:
        return m['hostname'] + ':' + m['port']
    return m['hostname']


def agrees(url, m, text_):
    """Every attribute of the URL shows the components."""
    got = read(url)
    check(got == m, 'other components', url=text_, got=got, expected=m)
    check(url.host == shown(m), 'another host', url=text_, got=url.host,
          expected=shown(m))
    origin = 'null'
    if m['protocol'][:-1] in SPECIAL:
        origin = m['protocol'] + '//' + shown(m)
    check(url.origin == origin, 'another origin', url=text_, got=url.origin,
          expected=origin)
    query = parse_qsl(url.search[1:], keep_blank_values=True,
                      errors='surrogateescape')
    check(query == sorted(m['params'].items()), 'another query', url=text_,
          got=url.search, expected=m['params'])
    whole = m['protocol'] + '//'
    if m['username'] or m['password']:
        whole += url.username
        if m['password']:
            whole += ':' + url.password
        whole += '@'
    whole += shown(m) + url.pathname + url.search
    check(url.href == whole + url.hash, 'the URL is not its components',
          url=text_, got=url.href, expected=whole + url.hash)
    check(url.tostring() == url.href, 'tostring is not href')
    check(url.tostring(exclude_fragment=True) == whole,
          'the fragment is not excluded', url=text_)
    ok = all('!' <= c <= '~' and c not in '<>"' for c in url.href)
    check(ok, 'the URL has characters that are not those of a URL',
          href=url.href)
    split = urlsplit(url.href)
    check(split.path == url.pathname and '#' + split.fragment in
          (url.hash, '#') and '?' + split.query in (url.search, '?'),
          'another parser finds other components', href=url.href, got=split)


userinfo = st.one_of(st.none(), text)
pairs = st.lists(st.tuples(text, rough).map(list), max_size=3)
PARTS = st.tuples(scheme, userinfo, userinfo, host, port,
                  st.lists(segment, max_size=5), pairs,
                  st.one_of(st.none(), text)).map(list)


def marks(text_, m=None):
    out = set()
    if '%' in text_:
        out.add('encoded')
    if '/.' in text_:
        out.add('dots')
    if '[' in text_ or 'xn--' in (m or {}).get('hostname', ''):
        out.add('host')
    if m and m['port'] and m['port'] == SPECIAL.get(m['protocol'][:-1]):
        out.add('default port')
    return out


@REG.test(PARTS, quick=3500, thorough=120000)
def parses(parts):
    """Components in, components out; the text form is a fixed point."""
    text_, m, _, _ = write(parts)
    url = URL(text_)
    agrees(url, m, text_)
    again = URL(url.href)
    if m['port'] == SPECIAL.get(m['protocol'][:-1]):
        m['port'] = ''  # not written
    agrees(again, m, text_ + ' again')
    check(again.href == url.href, 'another text when read again',
          first=url.href, second=again.href)
    loc = Location()
    loc.href = text_
    for name in ('href', 'protocol', 'host', 'hostname', 'port', 'pathname',
                 'search', 'hash', 'origin'):
        check(getattr(loc, name) == getattr(url, name),
              'a location shows another ' + name, url=text_)
    twin = list(parts)
    twin[1], twin[2], twin[5:] = None, None, [[], [], None]
    check(URL(write(twin)[0]).origin == url.origin,
          'the origin depends on more than scheme, host and port', url=text_)
    return marks(text_, m)


REF = st.tuples(
    st.sampled_from(['scheme', 'host', 'absolute', 'relative', 'relative',
                     'query', 'fragment', 'empty']),
    PARTS, st.booleans(), st.booleans()).map(list)


def resolve(base, ref, base_path, base_query, base_head):
    """RFC 3986, 5.2.2, on text."""
    head, hash_, fragment = ref.partition('#')
    path, mark, query = head.partition('?')
    if path.startswith('//'):
        return base_head[:base_head.index('//')] + ref
    if path == '':
        out = base_head + base_path
        if mark:
            out += mark + query
        elif base_query:
            out += '?' + base_query
    elif path.startswith('/'):
        out = base_head + path + mark + query
    else:
        out = (base_head + base_path[:base_path.rindex('/') + 1] + path + mark
               + query)
    return out + hash_ + fragment


@REG.test(st.tuples(PARTS, REF), quick=2500, thorough=100000)
def resolves(case):
    """References against a base."""
    parts, (form, other, query, fragment) = case
    parts = list(parts)
    base, m, base_path, base_query = write(parts)
    bare = list(parts)
    bare[5:] = [[], [], None]
    base_head = write(bare)[0]
    other = list(other)
    if not query and form != 'query':
        other[6] = []
    if not fragment and form != 'fragment':
        other[7] = None
    ref = write(other)[0]
    if form != 'scheme':
        ref = ref[ref.index(':') + 1:]
    if form not in ('scheme', 'host'):
        rest = ref[2:]
        stop = [rest.find(c) for c in '/?#' if c in rest]
        ref = rest[min(stop):] if stop else ''
    path = ref.partition('#')[0].partition('?')[0]
    if form in ('relative', 'query', 'fragment', 'empty'):
        if form == 'relative':
            keep = path.lstrip('/')
            if ':' in keep.split('/')[0] or keep.startswith(' '):
                keep = './' + keep
        else:
            keep = ''
        ref = keep + ref[len(path):]
        if form == 'empty' and not fragment:
            ref = ''
    elif form == 'absolute':
        ref = '/' + path.lstrip('/') + ref[len(path):]
    base = URL(base).href
    base_path = urlsplit(base).path
    want_text = ref if form == 'scheme' else resolve(
        base, ref, base_path, base_query, base_head)
    want = URL(want_text).href
    before = URL(base)
    for given in (base, before):
        got = URL(ref, base=given)
        check(got.href == want, 'a reference resolves to another URL',
              base=base, ref=ref, got=got.href, expected=want)
    check(before.href == URL(base).href, 'the base was changed', base=base,
          ref=ref, got=before.href)
    check(normalize_url(ref, base).href == want,
          'normalize_url resolves to another URL', base=base, ref=ref)
    out = marks(ref)
    if form not in ('scheme', 'absolute'):
        out.add(form)
    return out


BAD = ['', 'a', '/a', '../a', '?a', '#a', '1http://h/', 'http://h:99999/',
       'http://h:x/', 'http://:80/', 'http://a b/', 'http://a%20b/',
       'http://[::1/', 'http://u@/', 'data:', 'blob:', 'about:', '//']


@REG.test(st.tuples(st.sampled_from(BAD), PARTS), quick=400, thorough=4000)
def refuses(case):
    """What is not a URL is refused and changes nothing."""
    bad, parts = case
    refused(lambda: URL(bad), bad)
    if '://' in bad and bad[0] != '1':
        refused(lambda: URL(bad, base=write(parts)[0]), bad)
    for target in (URL(write(parts)[0]), Location()):
        if isinstance(target, Location):
            target.href = write(parts)[0]
        before = target.href
        refused(lambda: setattr(target, 'href', bad), bad)
        check(target.href == before, 'a refused URL was assigned in part',
              bad=bad, before=before, after=target.href)
    for base in ('data:text/plain,a', 'about:blank',
                 'blob:https://example.org/1'):
        if ':' not in bad:
            refused(lambda: URL(bad or 'b', base=base), bad)
    return {'refused'}


def refused(call, bad):
    try:
        call()
    except ValueError:
        return
    fail('not a URL, but accepted', text=bad)


@REG.test(st.tuples(st.lists(unit, min_size=1, max_size=8),
                    st.one_of(st.none(), text), st.one_of(st.none(), text),
                    st.sampled_from(['data:text/plain,', 'about:', 'blob:'])),
          quick=1200, thorough=20000)
def opaque(case):
    """data:, about: and blob: URLs keep what follows the scheme."""
    body, query, frag, head = case
    t, data = put(body, 'path')
    if head == 'about:':
        t, data = 'blank', b'blank'
    text_ = head + t
    if query is not None:
        q, qb = put(query, 'query')
        text_ += '?' + q
    if frag is not None:
        text_ += '#' + put(frag, 'hash')[0]
    url = URL(text_)
    rest = url.href[len(head):]
    if head == 'data:text/plain,':
        want = data
        if query:
            want += b'?' + qb
        check(unquote_to_bytes(rest[:len(rest) - len(url.hash)]) == want.strip()
              or unquote_to_bytes(rest[:len(rest) - len(url.hash)]) == want,
              'other data', url=text_, got=url.href, expected=want)
    check(URL(url.href).href == url.href, 'another text when read again',
          first=url.href, second=URL(url.href).href)
    check(url.host == url.hostname == url.port == '', 'a host', url=text_)
    check(url.origin == 'null', 'an origin', url=text_, got=url.origin)
    if head == 'blob:':
        inner = 'https://Example.org:443/' + quote(t, safe='%/')
        check(URL('blob:' + inner).origin == URL(inner).origin,
              'the origin of a blob: URL is not that of its URL', url=inner)
    return {'query'} if query else set()


@REG.test(st.tuples(st.sampled_from(['d', 'a b', 'é']),
                    st.sampled_from(['x.svg', 'sub/x.svg', '../x.svg', './x',
                                     'a b.svg', '?q=1', '#f', '']),
                    st.booleans()), quick=200, thorough=500)
def directories(case):
    """A file: base that is a directory stands for its inside."""
    name, ref, nested = case
    top = os.path.realpath(tempfile.mkdtemp(prefix='u01-'))
    try:
        path = os.path.join(top, name)
        os.mkdir(path)
        base = 'file://' + quote(path)
        file_base = base + '/file.css'
        want = URL(resolve(file_base, ref, quote(path) + '/file.css', '',
                           'file://')).href
        got = URL(ref, base=file_base).href
        check(got == want, 'another URL beside a file', base=file_base,
              ref=ref, got=got, expected=want)
        if ref[:1] not in ('?', '#', ''):
            got = URL(ref, base=base).href
            check(got == want, 'another URL in a directory', base=base,
                  ref=ref, got=got, expected=want)
    finally:
        shutil.rmtree(top)
    return {'directory'} if ref.startswith('..') or ' ' in name else set()
