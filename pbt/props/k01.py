"""K01: CaseInsensitiveMapping against a dictionary on folded keys."""
from svgpy.utils import CaseInsensitiveMapping, get_content_type

from ..gens import op, st
from ..harness import Registry, check, fail

REG = Registry(
    'K01',
    'Histories of up to 20 edits (assignment, deletion, pop, popitem, '
    'setdefault, update, clear) with keys from a pool of case variants of a '
    'few names (and None), compared after each step with a dictionary over '
    'lower-cased keys. A case is non-trivial when one key is used in two '
    'spellings.')

BASE = ['content-type', 'charset', 'x', 'straße', 'strasse', 'éa', 'a1', 'width']


@st.composite
def spelling(draw):
    name = draw(st.sampled_from(BASE))
    mode = draw(st.sampled_from(['lower', 'upper', 'title', 'mixed']))
    if mode == 'lower':
        return name
    if name == 'straße':
        return name.replace('s', 'S')
    if mode == 'upper':
        return name.upper()
    if mode == 'title':
        return name.title()
    return ''.join(c.upper() if i % 2 else c for i, c in enumerate(name))


key = st.one_of(spelling(), spelling(), spelling(), st.none())
value = st.one_of(st.integers(-3, 3), st.text('ab', max_size=2), st.none())
pairs = st.lists(st.tuples(key, value).map(list), max_size=4)
step = st.one_of(
    op('set', key, value), op('set', key, value), op('set', key, value),
    op('del', key), op('pop', key), op('popd', key, value), op('popitem'),
    op('setdefault', key, value), op('update', pairs),
    op('updatemap', pairs), st.sampled_from([['clear']]), op('get', key))


def fold(k):
    return k.lower() if isinstance(k, str) else k


class Model(object):
    def __init__(self):
        self.d = {}  # folded -> (spelling, value)

    def set(self, k, v):
        f = fold(k)
        first = self.d[f][0] if f in self.d else k
        self.d[f] = (first, v)


def outcome(fn):
    try:
        return ['ok', fn()]
    except KeyError:
        return ['KeyError']


def compare(m, d, probes):
    check(len(m) == len(d.d), 'length', got=len(m), expected=len(d.d))
    for got, want, what in (
            (list(m), [s for s, _ in d.d.values()], 'iteration'),
            (list(m.keys()), [s for s, _ in d.d.values()], 'keys()'),
            (list(m.values()), [v for _, v in d.d.values()], 'values()'),
            (list(m.items()), list(d.d.values()), 'items()')):
        check(got == want, what, got=got, expected=want)
    for k in probes:
        f = fold(k)
        check((k in m) == (f in d.d), 'membership', key=k)
        check(m.get(k, 'missing') == (
            d.d[f][1] if f in d.d else 'missing'), 'get()', key=k)
        if f in d.d:
            check(m[k] == d.d[f][1], 'lookup', key=k)
        else:
            check(outcome(lambda: m[k]) == ['KeyError'], 'missing key raises',
                  key=k)


@REG.test(st.fixed_dictionaries({
    'init': pairs, 'steps': st.lists(step, max_size=20)}),
    quick=4000, thorough=150000)
def history(case):
    init = {}
    for k, v in case['init']:
        if fold(k) not in [fold(x) for x in init]:
            init[k] = v
    m = CaseInsensitiveMapping(init)
    d = Model()
    for k, v in init.items():
        d.set(k, v)
    probes = [k for k in BASE] + [k.upper() for k in BASE if 'ß' not in k]
    probes += [None, 'zz']
    compare(m, d, probes)
    spelled = {}
    for s in case['steps']:
        name, args = s[0], s[1:]
        if args and not isinstance(args[0], list):
            spelled.setdefault(fold(args[0]), set()).add(args[0])
        if name == 'set':
            m[args[0]] = args[1]
            d.set(*args)
        elif name == 'get':
            check(outcome(lambda: m[args[0]])
                  == (['ok', d.d[fold(args[0])][1]] if fold(args[0]) in d.d
                      else ['KeyError']), 'lookup', key=args[0])
        elif name == 'del':
            got = outcome(lambda: m.__delitem__(args[0]))
            want = outcome(lambda: d.d.__delitem__(fold(args[0])))
            check(got == want, 'deletion', key=args[0], got=got)
        elif name == 'pop':
            got = outcome(lambda: m.pop(args[0]))
            want = outcome(lambda: d.d.pop(fold(args[0]))[1])
            check(got == want, 'pop', key=args[0], got=got)
        elif name == 'popd':
            got = m.pop(args[0], args[1])
            want = d.d.pop(fold(args[0]), (None, args[1]))[1]
            check(got == want, 'pop with default', key=args[0], got=got)
        elif name == 'popitem':
            got = outcome(m.popitem)
            if not d.d:
                check(got == ['KeyError'], 'popitem of an empty map', got=got)
            else:
                check(got[0] == 'ok' and got[1] in list(d.d.values()),
                      'popitem', got=got)
                del d.d[fold(got[1][0])]
        elif name == 'setdefault':
            got = m.setdefault(args[0], args[1])
            if fold(args[0]) not in d.d:
                d.set(*args)
            check(got == d.d[fold(args[0])][1], 'setdefault', got=got)
        elif name == 'update':
            m.update([tuple(p) for p in args[0]])
            for k, v in args[0]:
                d.set(k, v)
        elif name == 'updatemap':
            other = CaseInsensitiveMapping()
            for k, v in args[0]:
                other[k] = v
            before = list(other.items())
            m.update(other)
            for k, v in before:
                d.set(k, v)
            check(list(other.items()) == before, 'update source unchanged')
        elif name == 'clear':
            m.clear()
            d.d.clear()
        compare(m, d, probes)
    return ['two spellings'] if any(
        len(v) > 1 for v in spelled.values()) else []


token = st.text('abcXYZ019-+.', min_size=1, max_size=6)
ows = st.sampled_from(['', ' ', '  '])


@REG.test(st.fixed_dictionaries({
    'type': st.tuples(token, token).map('/'.join),
    'params': st.lists(st.tuples(ows, token, token, ows).map(list),
                       max_size=4),
    'name': st.sampled_from(['Content-Type', 'content-type', 'CONTENT-TYPE']),
    'other': st.booleans()}), quick=1500, thorough=40000)
def content_type(case):
    """Header lookup and parameter names ignore case; the last one wins."""
    text = case['type']
    want = {}
    for a, n, v, b in case['params']:
        text += a + ';' + b + n + '=' + v
        want[n.lower()] = v
    headers = {'Content-Length': '3'} if case['other'] else {}
    headers[case['name']] = text
    got = get_content_type(headers)
    check(got[None] == case['type'], 'media type', got=got[None], text=text)
    check(len(got) == len(want) + 1, 'number of parameters', got=repr(got))
    for n, v in want.items():
        check(got.get(n) == v and got.get(n.upper()) == v, 'parameter',
              name=n, text=text)
    check(get_content_type({'Content-Length': '3'}) is None, 'no media type')
    return ['parameters'] if case['params'] else []
