"""U02: URL setters and search parameters change only their component."""
from urllib.parse import parse_qsl, unquote_to_bytes

from svgpy.url import Location, URL, URLSearchParams

from ..gens import st
from ..harness import Registry, check, fail
from . import u01

REG = Registry(
    'U02',
    'Histories of up to ten assignments to any component of a URL or '
    'location (valid and refused), of edits of the parameter map (set, '
    'delete, update, clear, pop, setdefault) and of the search text, on URLs '
    'made from components, against a record of the components. A case is '
    'non-trivial when the history changes at least two components, or a '
    'parameter and another one, or an assignment is refused.',
    ['keys of parameters are distinct, and their order is that of the keys',
     'a host name with a port sets the port (tests pin it)',
     'a default port is kept but not shown (tests pin it)'])

key = st.text(st.one_of(
    st.sampled_from('ab=&+%#? \'"0;4151/é😀'),
    st.characters(exclude_categories=['Cs'])), max_size=4)
val = st.one_of(key, st.sampled_from(
    ['%41', '%', '%zz', 'a=b', 'a+b', '100&#x0025; 80', '&#1234;', '%%41',
     '%2', '=']))
HOSTS = ['example.net', 'B.example', '日本語.example', '127.0.0.1', '::1',
         '[2001:db8::2]', 'localhost']
PORTS = ['', '80', '443', '21', '8080', '0', '65535', '0080']
OP = st.one_of(
    st.tuples(st.just('protocol'), st.sampled_from(
        ['http', 'https:', 'HTTP', 'ftp:', 'ws', 'file', 'scheme', 'a+b.c-d:',
         'gopher'])),
    st.tuples(st.just('host'), st.sampled_from(HOSTS),
              st.one_of(st.none(), st.sampled_from(PORTS[1:]))),
    st.tuples(st.just('hostname'), st.sampled_from(HOSTS),
              st.one_of(st.none(), st.none(), st.sampled_from(PORTS[1:]))),
    st.tuples(st.just('port'), st.sampled_from(PORTS)),
    st.tuples(st.just('port'), st.integers(0, 65535).map(str)),
    st.tuples(st.just('username'), u01.rough),
    st.tuples(st.just('password'), u01.rough),
    st.tuples(st.just('pathname'), st.lists(u01.segment, max_size=4)),
    st.tuples(st.just('hash'), u01.text, st.booleans()),
    st.tuples(st.just('search'), u01.pairs, st.booleans()),
    st.tuples(st.just('set'), key, val), st.tuples(st.just('set'), key, val),
    st.tuples(st.just('del'), st.integers(0, 4)),
    st.tuples(st.just('pop'), key, val),
    st.tuples(st.just('setdefault'), key, val),
    st.tuples(st.just('update'), st.dictionaries(key, val, max_size=3)),
    st.tuples(st.just('clear')),
    st.tuples(st.just('href'), u01.PARTS),
    st.tuples(st.just('bad'), st.sampled_from(
        [['protocol', '0http'], ['protocol', 'a_b'], ['protocol', ':'],
         ['protocol', 'é'], ['port', '65536'], ['port', '-1'], ['port', 'x'],
         ['port', '0.1'], ['port', '٣'], ['port', '²'], ['host', 'a b'],
         ['host', 'a.example:99999'], ['host', '[::1'], ['host', '[::1]x'],
         ['host', 'x%41'], ['host', 'a/b'], ['hostname', 'a#b'],
         ['hostname', 'a@b'], ['hostname', 'a.example:99999'],
         ['hostname', ':80'], ['href', 'http://h:99999/'], ['href', 'x/y'],
         ['href', 'http://a b/'], ['href', '']]))).map(list)


def hostname(text):
    text = text.lower()
    if ':' in text:
        return '[' + text.strip('[]') + ']'
    return text.encode('idna').decode()


def apply(target, params, m, op):
    kind = op[0]
    if kind == 'protocol':
        target.protocol = op[1]
        m['protocol'] = op[1].rstrip(':').lower() + ':'
    elif kind in ('host', 'hostname'):
        text = op[1]
        if op[2] is not None:
            if text.count(':') and text[0] != '[':
                text = '[' + text + ']'
            text += ':' + op[2]
        setattr(target, kind, text)
        m['hostname'] = hostname(op[1])
        if op[2] is not None:
            m['port'] = str(int(op[2]))
        elif kind == 'host':
            m['port'] = ''
    elif kind == 'port':
        target.port = op[1]
        m['port'] = str(int(op[1])) if op[1] else ''
    elif kind in ('username', 'password'):
        text, data = u01.put(op[1], 'user')
        setattr(target, kind, text)
        m[kind] = data
    elif kind == 'pathname':
        path = ''.join('/' + u01.put(s, 'path')[0] for s in op[1])
        target.pathname = path
        m['path'] = u01.segments(path or '/')
    elif kind == 'hash':
        text, data = u01.put(op[1], 'hash')
        if op[2] or text.startswith('#'):
            text = '#' + text
        target.hash = text
        m['hash'] = data
    elif kind == 'search':
        texts = {}
        for k, v in op[1]:
            (kt, kb), (vt, vb) = u01.put(k, 'query'), u01.put(v, 'query')
            texts[kb] = (kt + '=' + vt, vb)
        text = '&'.join(t for t, _ in texts.values())
        target.search = '?' + text if op[2] or text[:1] == '?' else text
        m['params'] = {u01.dec(k): u01.dec(v) for k, (_, v) in texts.items()}
    elif kind == 'href':
        text, new, _, _ = u01.write(op[1])
        target.href = text
        m.clear()
        m.update(new)
    elif kind == 'bad':
        try:
            setattr(target, *op[1])
        except ValueError:
            return
        fail('a bad value was accepted', op=op, href=target.href)
    elif kind == 'set':
        params[op[1]] = op[2]
        m['params'][op[1]] = op[2]
    elif kind == 'del':
        if m['params']:
            k = sorted(m['params'])[op[1] % len(m['params'])]
            del params[k]
            del m['params'][k]
    elif kind == 'pop':
        got, want = params.pop(op[1], op[2]), m['params'].pop(op[1], op[2])
        check(got == want, 'another value popped', got=got, expected=want)
    elif kind == 'setdefault':
        got = params.setdefault(op[1], op[2])
        want = m['params'].setdefault(op[1], op[2])
        check(got == want, 'another default', got=got, expected=want)
    elif kind == 'update':
        params.update(op[1])
        m['params'].update(op[1])
    else:
        params.clear()
        m['params'].clear()


@REG.test(st.tuples(u01.PARTS, st.lists(OP, min_size=1, max_size=10)),
          quick=3000, thorough=80000)
def setters(case):
    """A history of assignments against a record."""
    parts, ops = case
    text, m, _, _ = u01.write(parts)
    url = URL(text)
    params = url.search_params
    kinds = set()
    for op in ops:
        apply(url, params, m, op)
        check(url.search_params is params, 'another map of parameters')
        u01.agrees(url, m, 'after %r' % op)
        again = URL(url.href)
        check(again.href == url.href, 'the text does not read back',
              href=url.href, again=again.href)
        query = parse_qsl(params.tostring(), keep_blank_values=True,
                          errors='surrogateescape')
        check(query == sorted(m['params'].items()),
              'the parameters have another text', got=params.tostring(),
              expected=m['params'])
        kinds.add('params' if op[0] in ('set', 'del', 'pop', 'update', 'clear',
                                        'setdefault') else op[0])
    out = set()
    if len(kinds) > 1:
        out.add('mixed')
    if 'bad' in kinds:
        out.add('refused')
    return out


LOCATION = OP.filter(lambda x: x[0] in (
    'protocol', 'host', 'hostname', 'port', 'pathname', 'hash', 'search',
    'href', 'bad'))


@REG.test(st.tuples(u01.PARTS, st.lists(LOCATION, min_size=1, max_size=8)),
          quick=1500, thorough=40000)
def location(case):
    """The same for a location."""
    parts, ops = case
    text, m, _, _ = u01.write(parts)
    loc = Location()
    loc.assign(text)
    url = URL(text)
    for op in ops:
        apply(loc, None, m, op)
        if op[0] == 'bad':
            pass
        else:
            apply(url, None, {'params': {}}, op)
        for name in ('protocol', 'host', 'hostname', 'port', 'pathname',
                     'search', 'hash', 'origin', 'href'):
            check(getattr(loc, name) == getattr(url, name),
                  'a location shows another ' + name, op=op,
                  got=getattr(loc, name), expected=getattr(url, name))
        check(loc.hostname == m['hostname'] and loc.port == m['port'],
              'another host', got=loc.host, expected=m)
        check([unquote_to_bytes(x) for x in loc.pathname.split('/')[1:]]
              == m['path'], 'another path', got=loc.pathname, expected=m)
        check(loc.tostring(exclude_fragment=True) + loc.hash == loc.href,
              'the text is not the location')
    return {'mixed'} if len({x[0] for x in ops}) > 1 else set()


@REG.test(st.tuples(st.dictionaries(key, val, max_size=4), st.lists(
    OP.filter(lambda x: x[0] in ('set', 'del', 'pop', 'setdefault', 'update',
                                 'clear')), max_size=8)),
          quick=1500, thorough=30000)
def parameters(case):
    """A map of parameters of its own."""
    first, ops = case
    params, m = URLSearchParams(first), {'params': dict(first)}
    for op in ops:
        apply(None, params, m, op)
        check(dict(params) == m['params'] and len(params) == len(m['params']),
              'other parameters', got=dict(params), expected=m['params'])
        query = parse_qsl(params.tostring(), keep_blank_values=True)
        check(query == sorted(m['params'].items()), 'another text',
              got=params.tostring(), expected=m['params'])
        url = URL('http://h/?' + params.tostring())
        check(dict(url.search_params) == m['params'],
              'the text does not read back', text=params.tostring(),
              got=dict(url.search_params), expected=m['params'])
        for k in m['params']:
            check(k in params and params[k] == m['params'][k], 'no value')
    return {'edited'} if len(ops) > 2 else set()
