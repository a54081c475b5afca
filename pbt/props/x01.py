"""X01: the characters of a text element after white-space processing."""
import unicodedata
from xml.sax.saxutils import escape

from svgpy import SVGParser
from svgpy.core import CSSUtils

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'X01',
    'Text elements with nested tspan elements (some of them not displayed), '
    'comments, processing instructions, title and other children between '
    'pieces of text of letters, wide characters, spaces, tabs, newlines and '
    'zero width spaces, with a white-space value on any element, set by '
    'attribute or style. The characters of every element are compared with a '
    'reference that follows css-text. A case is non-trivial when there are '
    'two or more pieces of text, or the text has white space to process.',
    ['line breaks are processed within each piece of text', 'a collapsible '
     'space after any space or line break goes', 'character references in '
     'the character data are resolved once more by the library (pinned by '
     'its tests), so that no ampersand is generated', 'an a element in a text '
     'is not supported by the library'])

NS = 'http://www.w3.org/2000/svg'
WHITE_SPACE = ['normal', 'nowrap', 'pre', 'pre-wrap', 'pre-line']
CHARS = ['a', 'b', 'c', '.', ' ', ' ', ' ', '\t', '\n', '\n', '\u6f22', '\uff76',
         '\ud55c', '\u200b', '\u00a0', '\u00e9']
piece = st.lists(st.sampled_from(CHARS), max_size=8).map(''.join)
asian = st.lists(st.sampled_from(
    ['\u6f22', '\uff76', '\ud55c', '\n', '\n', '\u1100', '\u200b', 'a']),
    min_size=3, max_size=9).map(''.join)
plain = st.text(alphabet='ab \n', max_size=5)
space = st.sampled_from([None, None, None] + WHITE_SPACE)


def spans(children):
    return st.tuples(st.just('tspan'), space, st.sampled_from(
        [True, True, True, True, False]), items(children)).map(list)


def items(children):
    return st.lists(st.one_of(
        piece, plain, piece, asian, children,
        st.tuples(st.sampled_from(['comment', 'pi', 'title', 'rect']),
                  plain).map(list)), max_size=5)


span = st.recursive(
    st.tuples(st.just('tspan'), space, st.just(True),
              st.lists(piece, max_size=2)).map(list), spans, max_leaves=6)
documents = st.tuples(space, space, items(span), st.sampled_from(
    ['attribute', 'style', 'mixed']),
    # the spans to look at: each takes a while
    st.sampled_from([[0, 1], [1, 2], [0, 3], [2], [0]]))


def markup_of(item, how):
    if isinstance(item, str):
        return escape(item)
    if item[0] == 'comment':
        return '<!--{}-->'.format(item[1])
    if item[0] == 'pi':
        return '<?p {}?>'.format(item[1])
    if item[0] in ('title', 'rect'):
        return '<{0}>{1}</{0}>'.format(item[0], item[1])
    _, ws, shown, children = item
    return '<tspan{}{}>{}</tspan>'.format(
        space_of(ws, how), '' if shown else ' display="none"',
        ''.join(markup_of(x, how) for x in children))


def space_of(ws, how):
    if ws is None:
        return ''
    if how == 'attribute' or (how == 'mixed' and ws in ('pre', 'pre-line')):
        return ' white-space="{}"'.format(ws)
    return ' style="white-space: {}"'.format(ws)


def wide(c):
    hangul = ('\u1100' <= c <= '\u11ff' or '\u3130' <= c <= '\u318f'
              or '\ua960' <= c <= '\ua97f' or '\uac00' <= c <= '\ud7ff')
    return unicodedata.east_asian_width(c) in 'FWH' and not hangul


def collapsed(text, ws):
    """One piece of text, by css-text 4.1.1, on its own."""
    if ws in ('pre', 'pre-wrap'):
        return text
    # spaces and tabs beside a line break go
    out = []
    lines = text.split('\n')
    for i, line in enumerate(lines):
        if i > 0:
            line = line.lstrip(' \t')
        if i < len(lines) - 1:
            line = line.rstrip(' \t')
        out.append(line)
    text = '\n'.join(out)
    if ws != 'pre-line':
        # a line break is a space or nothing
        result, i = '', 0
        while i < len(text):
            if text[i] != '\n':
                result += text[i]
                i += 1
                continue
            j = i
            while j < len(text) and text[j] == '\n':
                j += 1
            before = text[i - 1] if i else ''
            after = text[j] if j < len(text) else ''
            if not ('\u200b' in (before, after)
                    or (before and after and wide(before) and wide(after))):
                result += ' '
            i = j
        text = result
    out = ''
    for c in text:
        if c == '\t':
            c = ' '
        if c == ' ' and out.endswith(' '):
            continue
        out += c
    return out


def reference(outer, ws, children):
    """[text, path] of each piece, path being the spans it is in."""
    pieces = []
    counter = [0]

    def walk(nodes, space, path):
        # adjacent strings are one piece of character data
        data = ''
        for node in list(nodes) + [None]:
            if isinstance(node, str):
                data += node
                continue
            if data:
                pieces.append([data, space, path])
                data = ''
            if node is None:
                break
            if node[0] == 'tspan':
                own = counter[0]
                counter[0] += 1
                before = len(pieces)
                walk(node[3], node[1] or space, path + [own])
                if not node[2]:
                    del pieces[before:]

    walk(children, ws or outer or 'normal', [])
    out = []
    previous = None
    for data, space, path in pieces:
        text = collapsed(data, space)
        soft = space not in ('pre', 'pre-wrap')
        if soft and (previous is None or previous.endswith((' ', '\n'))):
            text = text.lstrip(' ')
        if text:
            previous = text
            out.append([text, soft, path])
    if out and out[-1][1]:
        out[-1][0] = out[-1][0].rstrip(' ')
    return out


@REG.test(documents, quick=220, thorough=4000)
def characters_of_a_text(case):
    """Every element has the characters of the displayed text in it."""
    outer, ws, children, how, picked = case
    markup = '<svg xmlns="{}"><g{}><text{}>{}</text></g></svg>'.format(
        NS, space_of(outer, how), space_of(ws, how),
        ''.join(markup_of(x, how) for x in children))
    root = SVGParser().fromstring(markup)
    text = root[0][0]
    tspans = [x for x in text.iter() if isinstance(x.tag, str)
              and x.local_name == 'tspan']
    want = reference(outer, ws, children)
    whole = ''.join(x[0] for x in want)
    got = text.get_chars()
    check(got == whole, 'the characters of a text', markup=markup, got=got,
          want=whole)
    if not tspans:
        check(text.get_number_of_chars() == len(whole),
              'the number of chars', want=len(whole), markup=markup)
    for i, element in enumerate(tspans):
        if i not in picked:
            continue
        own = ''.join(x[0] for x in want if i in x[2])
        if i % 2 == 0:
            got = element.get_chars() or ''
            check(got == own, 'the characters of a span', markup=markup,
                  got=got, want=own, span=i)
        else:
            check(element.get_number_of_chars() == len(own),
                  'the number of chars of a span', span=i)
    labels = []
    if len(want) >= 2:
        labels.append('several pieces')
    if any(isinstance(x, str) and collapsed(x, ws or 'normal') != x
           for x in children):
        labels.append('white space')
    return labels


@REG.test(st.tuples(piece, st.sampled_from(WHITE_SPACE), st.booleans(),
                    st.booleans(),
                    st.one_of(st.none(), st.sampled_from(
                        ['a', 'a ', 'b\n', ' ', '\u6f22']))),
          quick=1000, thorough=20000)
def one_piece(case):
    """One piece of text, at the start, in the middle or at the end."""
    data, ws, first, tail, previous = case
    element = SVGParser().create_element_ns(NS, 'text')
    got = CSSUtils.normalize_text_content(
        element, data, {'white-space': ws}, prev_text=previous, first=first,
        tail=tail)
    want = collapsed(data, ws)
    if ws not in ('pre', 'pre-wrap'):
        if first or (previous or '').endswith((' ', '\n')):
            want = want.lstrip(' ')
        if tail:
            want = want.rstrip(' ')
    check(got == want, 'white space processing', data=data, got=got,
          want=want, ws=ws)
    if ws not in ('pre', 'pre-wrap'):
        again = CSSUtils.normalize_text_content(
            element, got, {'white-space': ws}, prev_text=previous,
            first=first, tail=tail)
        check(again == got, 'white space processing is idempotent', got=got,
              again=again)
    return ['changed'] if want != data else []


@REG.test(st.tuples(items(span), plain), quick=500, thorough=8000)
def text_content(case):
    """textContent is the character data of the text and its spans; setting it
    leaves just that text."""
    children, new = case
    markup = '<svg xmlns="{}"><text>{}</text></svg>'.format(
        NS, ''.join(markup_of(x, 'style') for x in children))
    text = SVGParser().fromstring(markup)[0]

    def data(nodes):
        return ''.join(x if isinstance(x, str)
                       else data(x[3]) if x[0] == 'tspan' else ''
                       for x in nodes)

    check(text.text_content == data(children), 'the text content',
          got=text.text_content, want=data(children), markup=markup)
    text.text_content = new
    check(len(text) == 0 and text.text_content == new,
          'the text content that was set', got=text.text_content, want=new)
    return ['nested'] if any(not isinstance(x, str) for x in children) else []
