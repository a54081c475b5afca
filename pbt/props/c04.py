"""C04: media lists."""
from svgpy.css import CSSParser, MediaList

from ..gens import st
from ..harness import Registry, check, fail

REG = Registry(
    'C04',
    'Histories of up to 14 edits (append, delete, insert, item assignment and '
    'deletion, slices, text assignment) on free media lists and on those of '
    '@media and @import rules, over media queries written with varied case, '
    'white space and comments. A case is non-trivial when it appends a '
    'duplicate, deletes a present query, assigns a text of two or more '
    'queries, or is refused.',
    ['queries compare case-insensitively after white space and comments are '
     'normalised; an empty query is "not all" (CSS Media Queries)'])

QUERIES = ['screen', 'print', 'all', 'not all', 'speech', 'only screen',
           'not print', '(color)', '(min-width: 100px)', '(width >= 20em)',
           'screen and (color)', 'print and (min-width: 10cm)',
           '(color) and (hover)', 'not (color)', '(min-aspect-ratio: 16/9)',
           '(400px <= width <= 700px)', '((color) or (hover))']
GAPS = [' ', '  ', '\n ', '\t', ' /* , */ ', ' /**/']


def respell(query, how):
    """Another spelling of a query."""
    gap, case, pad = how
    if case == 'upper':
        query = query.upper()
    elif case == 'title':
        query = query.title()
    words = query.split(' ')
    return pad + gap.join(words) + pad


how = st.tuples(st.sampled_from([' ', ' ', ' '] + GAPS),
                st.sampled_from(['lower', 'lower', 'upper', 'title']),
                st.sampled_from(['', '', ' ', '\n']))
query = st.sampled_from(QUERIES)
spelt = st.tuples(query, how).map(
    lambda x: [x[0], respell(x[0], x[1])])
many = st.lists(spelt, min_size=0, max_size=4)
position = st.integers(0, 6)
OPS = st.one_of(
    st.tuples(st.just('append'), spelt), st.tuples(st.just('append'), spelt),
    st.tuples(st.just('append_medium'), spelt),
    st.tuples(st.just('append_many'), st.lists(spelt, min_size=2,
                                               max_size=3)),
    st.tuples(st.just('delete'), spelt), st.tuples(st.just('delete'), spelt),
    st.tuples(st.just('insert'), position, spelt),
    st.tuples(st.just('set'), position, spelt),
    st.tuples(st.just('del'), position),
    st.tuples(st.just('text'), many, st.sampled_from([',', ', ', ' ,\n'])),
    st.tuples(st.just('hole'), spelt, spelt),
    st.tuples(st.just('clear')), st.tuples(st.just('pop'))).map(list)


def view(media):
    items = [' '.join(x.lower().split()) for x in media]
    check(media.length == len(media) == len(items), 'lengths disagree')
    check([media.item(i) for i in range(len(media))] == list(media),
          'item() disagrees')
    return items


def compare(media, model, op):
    got = view(media)
    check(got == model, 'the list differs from the model', after=op, got=got,
          expected=model)
    other = MediaList()
    other.media_text = media.media_text
    check(view(other) == model, 'the text reads back as another list',
          after=op, text=media.media_text, got=view(other), expected=model)
    check(other.media_text == media.media_text,
          'the text is not stable', text=media.media_text,
          got=other.media_text)


@REG.test(st.tuples(st.sampled_from(['free', 'media', 'import']), many,
                    st.lists(OPS, min_size=1, max_size=14)),
          quick=4000, thorough=80000)
def history(case):
    """A media list against a plain list."""
    kind, first, ops = case
    text = ','.join(w for _, w in first)
    if kind == 'free':
        media, rule = MediaList(), None
        media.media_text = text
    elif kind == 'media':
        rule = CSSParser.fromstring('@media %s { a { b: c } }' % text)[0]
        media = rule.media
    else:
        rule = CSSParser.fromstring('@import url("data:text/css,") %s;'
                                    % text)[0]
        media = rule.media
    model = [q for q, _ in first]
    out = set()
    compare(media, model, 'start')
    for op in ops:
        name = op[0]
        if name in ('append', 'append_medium'):
            q, w = op[1]
            getattr(media, name)(w)
            if q in model:
                out.add('duplicate')
            else:
                model.append(q)
        elif name == 'append_many':
            media.append_medium(','.join(w for _, w in op[1]))
            out.add('refused')
        elif name == 'delete':
            q, w = op[1]
            if q in model:
                media.delete_medium(w)
                model.remove(q)
                out.add('deleted')
            else:
                try:
                    media.delete_medium(w)
                except ValueError:
                    out.add('refused')
                else:
                    fail('deleting an absent query is accepted', query=w)
        elif name == 'insert':
            i = min(op[1], len(model))
            media.insert(i, op[2][1])
            model.insert(i, op[2][0])
        elif name == 'set':
            if op[1] < len(model):
                media[op[1]] = op[2][1]
                model[op[1]] = op[2][0]
            else:
                try:
                    media[op[1]] = op[2][1]
                except IndexError:
                    out.add('refused')
                else:
                    fail('an index out of range is accepted', index=op[1])
        elif name == 'del':
            if op[1] < len(model):
                del media[op[1]]
                del model[op[1]]
            else:
                try:
                    del media[op[1]]
                except IndexError:
                    out.add('refused')
                else:
                    fail('an index out of range is accepted', index=op[1])
        elif name == 'text':
            media.media_text = op[2].join(w for _, w in op[1])
            model[:] = [q for q, _ in op[1]]
            if len(model) > 1:
                out.add('text')
        elif name == 'hole':
            media.media_text = op[1][1] + ',,' + op[2][1]
            model[:] = [op[1][0], 'not all', op[2][0]]
        elif name == 'clear':
            media.clear()
            model.clear()
        elif name == 'pop' and model:
            media.pop()
            model.pop()
        compare(media, model, op)
        if kind == 'media':
            check(rule.condition_text == media.media_text,
                  'the condition text differs')
        if rule is not None:
            again = CSSParser.fromstring(rule.css_text)
            check(len(again) == 1 and view(again[0].media) == model,
                  'the rule text has another media list',
                  text=rule.css_text, expected=model)
    return out
