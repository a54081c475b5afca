"""D04: the dataset map."""
import re

from svgpy import SVGParser
from svgpy.exception import InvalidCharacterError

from ..gens import op, st
from ..harness import Registry, check, fail

REG = Registry(
    'D04',
    'Histories of up to 12 edits through the dataset, the element and its '
    'attribute map with names over letters of both cases, digits, hyphens, '
    'dots and non-ASCII letters, compared after every step with the set of '
    'data-* attributes converted as the HTML standard defines it. A case is '
    'non-trivial when a name needs conversion or is refused.',
    ['setting an empty value removes the attribute (the convention of the '
     'whole library)', 'names without a colon'])

ALPHA = 'abzABZ019-_.éÉßö'
name = st.one_of(
    st.sampled_from(['foo', 'fooBar', 'fooBarBaz', 'a', 'A', 'AB', '', 'x1',
                     'x-1', 'X-', 'a--B', 'foo-', '-1', 'a.b', 'aÉ', '-A',
                     'fooBar1Baz', 'xY-Z']),
    st.text(ALPHA, max_size=6))
bad = st.one_of(st.sampled_from(['a-b', '-a', 'foo-bar', 'aB-c', 'a b', 'a/',
                                 '<', 'a\u00d7', 'a=', '"', 'x\ny']),
                st.tuples(name, st.sampled_from(['-x', ' ', '<', '\u2000',
                                                 '@']), name).map(''.join))
anyname = st.one_of(name, name, name, bad)
attr = st.one_of(
    name.map(lambda s: 'data-' + s), name.map(lambda s: 'data-' + s.lower()),
    name.map(lambda s: 'data-' + s.lower()),
    st.sampled_from(['id', 'class', 'data', 'DATA-a', 'xdata-a', 'data-A',
                     'data-a-b', 'data-a--b', 'data-aé-é']))
value = st.sampled_from(['0', 'x', ' ', 'é', 'a-b', ''])
step = st.one_of(
    op('set', anyname, value), op('set', anyname, value), op('set', name,
                                                             value),
    op('del', anyname), op('pop', name), op('attr', attr, value),
    op('attrs', attr, value), op('unset', attr), op('get', anyname),
    op('setdefault', name, value), st.just(['clear']))


def valid(k):
    return (re.search('-[a-z]', k) is None
            and all(c.isalnum() or c in '-_.' for c in k))


def to_attr(k):
    return 'data-' + ''.join('-' + c.lower() if 'A' <= c <= 'Z' else c
                             for c in k)


def to_key(a):
    out = ''
    rest = a[5:]
    i = 0
    while i < len(rest):
        if rest[i] == '-' and i + 1 < len(rest) and 'a' <= rest[i + 1] <= 'z':
            out += rest[i + 1].upper()
            i += 2
        else:
            out += rest[i]
            i += 1
    return out


def is_data(a):
    return a.startswith('data-') and not any('A' <= c <= 'Z' for c in a)


def look(el, d, model):
    check(dict(el.attrib) == model, 'attributes of the element',
          got=dict(el.attrib), expected=model)
    want = {to_key(a): v for a, v in model.items() if is_data(a)}
    check(len(want) == sum(map(is_data, model)), 'model: conversion is 1:1')
    for what, got, exp in (
            ('keys', list(d), list(want)), ('keys()', list(d.keys()),
                                            list(want)),
            ('values()', list(d.values()), list(want.values())),
            ('items()', list(d.items()), list(want.items())),
            ('len', len(d), len(want))):
        check(got == exp, 'dataset ' + what, got=got, expected=exp)
    for k, v in want.items():
        check(d[k] == v and d.get(k) == v and k in d, 'dataset value', key=k)
        check(el.get(to_attr(k)) == v, 'conversion back', key=k)


@REG.test(st.fixed_dictionaries({
    'init': st.lists(st.tuples(attr, value).map(list), max_size=4),
    'steps': st.lists(step, min_size=1, max_size=12)}),
    quick=3500, thorough=120000)
def history(case):
    el = SVGParser().create_element_ns('http://www.w3.org/2000/svg', 'g')
    model = {}
    for a, v in case['init']:
        if v:
            el.set(a, v)
            model[a] = v
    d = el.dataset
    labels = set()
    look(el, d, model)

    def put(a, v):
        if v == '':
            model.pop(a, None)
        else:
            model[a] = v

    def attempt(fn, what):
        try:
            return 'ok', fn()
        except KeyError:
            return 'KeyError', None
        except (ValueError, InvalidCharacterError):
            return 'invalid', None

    for s in case['steps']:
        k, a = s[0], s[1:]
        if a and k in ('set', 'del', 'get', 'pop', 'setdefault'):
            ok = valid(a[0])
            if not ok:
                labels.add('refused')
            elif to_attr(a[0]) != 'data-' + a[0] or '-' in a[0]:
                labels.add('converted')
            present = ok and to_attr(a[0]) in model
        if k == 'set':
            got = attempt(lambda: d.__setitem__(a[0], a[1]), k)
            if ok:
                put(to_attr(a[0]), a[1])
            check(got[0] == ('ok' if ok else 'invalid'), 'set', got=got,
                  name=a[0])
        elif k in ('del', 'pop', 'get'):
            fn = {'del': d.__delitem__, 'pop': d.pop,
                  'get': d.__getitem__}[k]
            got = attempt(lambda: fn(a[0]), k)
            if not present:
                check(got[0] in ('KeyError', 'invalid'), k + ' of a missing '
                      'name', got=got, name=a[0])
            else:
                v = model[to_attr(a[0])]
                check(got == ('ok', v if k != 'del' else None), k, got=got,
                      name=a[0])
                if k != 'get':
                    del model[to_attr(a[0])]
        elif k == 'setdefault':
            if not present and a[1] == '':
                continue
            got = attempt(lambda: d.setdefault(a[0], a[1]), k)
            if not present and ok:
                put(to_attr(a[0]), a[1])
            check(got == (('ok', model[to_attr(a[0])]) if ok
                          else ('invalid', None)), k, got=got, name=a[0])
        elif k == 'attr':
            if a[1] == '':
                continue
            el.set(a[0], a[1])
            model[a[0]] = a[1]
        elif k == 'attrs':
            el.attributes[a[0]] = a[1]
            put(*a)
        elif k == 'unset':
            el.attrib.pop(a[0], None)
            model.pop(a[0], None)
        elif k == 'clear':
            d.clear()
            for x in [x for x in model if is_data(x)]:
                del model[x]
        look(el, d, model)
        look(el, el.dataset, model)
    return labels
