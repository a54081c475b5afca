"""D03: DOMTokenList against an ordered set."""
from svgpy import SVGParser

from ..gens import op, st
from ..harness import Registry, check, fail

REG = Registry(
    'D03',
    'Histories of up to 15 operations (add, remove, toggle, replace, insert, '
    'append, extend, item and slice assignment and deletion, pop, clear, '
    'direct attribute writes with duplicates and every ASCII white space) on '
    'the class list of an svg element and the rel list of a link element, '
    'compared with an ordered set after every step. A case is non-trivial '
    'when the attribute holds duplicates or irregular white space at some '
    'point or an invalid token is refused.',
    ['slice assignment only with tokens that are not in the list yet'])

POOL = ['a', 'b', 'c', 'A', 'é', 'x-1', 'a\u00a0b', '\u3000', 'id.2', '𝒳']
BAD = ['', ' ', 'a b', 'a\t', '\nb', 'a\rb', 'a\fb']
tok = st.sampled_from(POOL)
anytok = st.one_of(tok, tok, tok, tok, st.sampled_from(BAD))
toks = st.lists(anytok, max_size=3)
raw = st.lists(st.one_of(st.sampled_from(POOL + POOL + [' ', '\t', '\n',
                                                        '\r', '  '])),
               max_size=8)
ws = st.sampled_from([' ', '  ', '\t', '\n', '\r', ' \n\t'])
idx = st.integers(-4, 4)
step = st.one_of(
    op('add', toks), op('add', toks), op('remove', toks),
    op('remove', toks), op('toggle', anytok, st.sampled_from(
        [None, None, True, False])),
    op('replace', anytok, anytok), op('replace', tok, tok),
    op('insert', idx, anytok), op('append', anytok), op('extend', toks),
    op('setitem', idx, anytok), op('delitem', idx),
    op('setslice', idx, idx, toks), op('delslice', idx, idx), op('pop', idx),
    st.sampled_from([['clear'], ['unset']]),
    op('attr', raw, ws), op('attr', raw, ws))


def split(text):
    for ch in '\t\n\f\r':
        text = text.replace(ch, ' ')
    return list(dict.fromkeys(t for t in text.split(' ') if t))


def valid(t):
    return bool(t) and not any(c in t for c in '\t\n\f\r ')


def attempt(fn):
    try:
        return 'ok', fn()
    except ValueError:
        return 'ValueError', None
    except IndexError:
        return 'IndexError', None


def look(el, name, lst, want, raw_text):
    got = list(lst)
    check(got == want, 'tokens', got=got, expected=want)
    check(len(lst) == len(want) == lst.length, 'length')
    check(lst.value == ' '.join(want), 'value', got=lst.value)
    for i, t in enumerate(want):
        check(lst.item(i) == t and lst[i] == t and lst[i - len(want)] == t
              and lst.index(t) == i and lst.count(t) == 1, 'item', index=i)
    for t in POOL:
        check(lst.contains(t) == (t in want) == (t in lst), 'contains',
              token=t)
    check(el.get(name) == raw_text, 'attribute', got=el.get(name),
          expected=raw_text)
    check(attempt(lambda: lst[len(want)])[0] == 'IndexError',
          'index out of range')


@REG.test(st.fixed_dictionaries({
    'init': st.one_of(st.none(), st.tuples(raw, ws).map(list)),
    'link': st.booleans(), 'steps': st.lists(step, max_size=15)}),
    quick=3500, thorough=120000)
def history(case):
    p = SVGParser()
    if case['link']:
        el = p.create_element_ns('http://www.w3.org/1999/xhtml', 'link')
        name, get = 'rel', lambda: el.rel_list
    else:
        el = p.create_element_ns('http://www.w3.org/2000/svg', 'g')
        name, get = 'class', lambda: el.class_list
    lst = get()
    el.set('id', 'keep')
    labels = set()
    text = None
    if case['init'] is not None:
        text = case['init'][1].join(case['init'][0])
        el.set(name, text)
    model = split(text or '')
    for s in case['steps']:
        if text is not None and ' '.join(model) != text:
            labels.add('irregular attribute')
        look(el, name, lst, model, text)
        check(list(get()) == model, 'a second view of the list')
        k, a = s[0], s[1:]
        new = list(model)
        want = 'ok'
        result = None
        touched = True
        if k == 'add':
            if all(valid(t) for t in a[0]):
                new = list(dict.fromkeys(new + a[0]))
                touched = bool(set(a[0]) - set(model))
            else:
                want = 'ValueError'
            got = attempt(lambda: lst.add(*a[0]))
        elif k in ('append', 'extend'):
            ts = [a[0]] if k == 'append' else a[0]
            n = 0
            for t in ts:
                if not valid(t):
                    want = 'ValueError'
                    break
                n += 1
            if want != 'ok' and n:
                continue  # valid tokens before an invalid one: not specified
            if want == 'ok':
                new = list(dict.fromkeys(new + ts))
                touched = bool(set(ts) - set(model))
            got = attempt(lambda: getattr(lst, k)(a[0]))
        elif k == 'remove':
            if all(valid(t) for t in a[0]):
                new = [t for t in new if t not in a[0]]
                touched = new != model
            else:
                want = 'ValueError'
            got = attempt(lambda: lst.remove(*a[0]))
        elif k == 'toggle':
            t, force = a
            if not valid(t):
                want = 'ValueError'
            elif t in new:
                result = force is True
                if not result:
                    new.remove(t)
                touched = not result
            else:
                result = force is not False
                if result:
                    new.append(t)
                touched = result
            got = attempt(lambda: lst.toggle(t, force) if force is not None
                          else lst.toggle(t))
        elif k == 'replace':
            if not (valid(a[0]) and valid(a[1])):
                want = 'ValueError'
            elif a[0] not in new:
                result = False
                touched = False
            else:
                result = True
                new = list(dict.fromkeys(
                    a[1] if t == a[0] else t for t in new))
            got = attempt(lambda: lst.replace(a[0], a[1]))
        elif k == 'insert':
            if not valid(a[1]):
                want = 'ValueError'
            elif a[1] in new:
                touched = False
            else:
                new.insert(a[0], a[1])
            got = attempt(lambda: lst.insert(a[0], a[1]))
        elif k == 'setitem':
            i, t = a
            if t == '':
                continue  # removes the token
            if not valid(t):
                want = 'ValueError'
            elif t in new:
                touched = False
            elif not -len(new) <= i < len(new):
                want = 'IndexError'
            else:
                new[i] = t
            got = attempt(lambda: lst.__setitem__(i, t))
        elif k == 'setslice':
            i, j, ts = a
            if any(not valid(t) for t in ts):
                want = 'ValueError'
            elif set(ts) & set(new) or not ts:
                continue
            else:
                new[i:j] = list(dict.fromkeys(ts))
            given = list(ts)
            got = attempt(lambda: lst.__setitem__(slice(i, j), given))
            check(given == ts, 'the given list is not changed')
        elif k in ('delitem', 'pop'):
            if not -len(new) <= a[0] < len(new):
                want = 'IndexError'
            else:
                r = new.pop(a[0])
                result = r if k == 'pop' else None
            got = attempt(lambda: lst.pop(a[0]) if k == 'pop'
                          else lst.__delitem__(a[0]))
        elif k == 'delslice':
            del new[a[0]:a[1]]
            touched = new != model
            got = attempt(lambda: lst.__delitem__(slice(a[0], a[1])))
        elif k == 'clear':
            touched = bool(new)
            new = []
            got = attempt(lst.clear)
        elif k == 'unset':
            el.attrib.pop(name, None)
            text, model = None, []
            continue
        else:
            text = a[1].join(a[0])
            el.set(name, text)
            model = split(text)
            continue
        check(got[0] == want, k + ': outcome', got=got, expected=want,
              args=a)
        if want != 'ok':
            labels.add('refused')
            new = model
        else:
            check(got[1] == result, k + ': result', got=got[1],
                  expected=result, args=a)
            if touched:
                text = ' '.join(new) or None
            else:
                # a no-op may normalise the white space but nothing else
                check(split(el.get(name) or '') == model, k + ': attribute')
                text = el.get(name)
        model = new
        check(el.get('id') == 'keep', 'other attribute')
    look(el, name, lst, model, text)
    return labels
