"""X02: text measurement and layout."""
import math
from xml.sax.saxutils import escape

from svgpy import SVGParser

from ..gens import st
from ..harness import Registry, check
from .x03 import levels_of, part, visual_order

REG = Registry(
    'X02',
    'Texts of up to ten characters (Latin with and without kerning and '
    'ligatures, combining marks, Hebrew, symbols of the supplementary '
    'planes) at any position and font size, whole or cut into spans, with '
    'lists of x, y, dx, dy and rotate values. Measurements are compared with '
    'one another, and outlines, lengths and boxes with those of the single '
    'characters set one by one. A case is non-trivial when it has two or '
    'more characters.',
    ['DejaVu Sans is installed', 'lengths are multiples of 1/64 pixel, so '
     'that scaling is checked up to one such unit per character',
     'horizontal text from left to right'])

NS = 'http://www.w3.org/2000/svg'
PLAIN = 'font-kerning: none; font-variant-ligatures: none'
LATIN = ['a', 'b', 'H', 'i', 'A', 'V', 'T', 'o', 'f', 'l', '.', ' ', '1',
         '\u00e9', 'W', ',']
LIGATURES = ['f', 'i', 'l', 'fi', 'ffi', 'fl', 'a', ' ', '\u00e9']
SYMBOLS = ['\u263a', '\U0001f600', '\U0001d538', '\u00df', '\u20ac']
HEBREW = ['\u05d0', '\u05d1']


def joined(alphabet, n=10):
    return st.lists(st.sampled_from(alphabet), min_size=1, max_size=n).map(
        ''.join)


def tidy(text):
    """A text that white space processing leaves alone."""
    return ' '.join(text.split()) or 'a'


any_text = st.one_of(joined(LATIN), joined(LIGATURES, 6), joined(LIGATURES, 6),
                     joined(LATIN + SYMBOLS),
                     joined(['a', 'e\u0301', 'f', '\u0301', 'i', '\u05d0'])
                     ).map(tidy)
plain_text = st.one_of(joined(LATIN), joined(LATIN + SYMBOLS)).map(tidy)
coordinate = st.one_of(st.integers(-100, 300),
                       st.integers(-400, 1200).map(lambda n: n / 4))
size = st.sampled_from([10, 12, 16, 20, 24.5, 40, 64, 100])


def number(v):
    return repr(v)


def text_element(inner, fs=20, style='', **attributes):
    attrs = ''.join(' {}="{}"'.format(k, v) for k, v in attributes.items()
                    if v is not None)
    return SVGParser().fromstring(
        '<svg xmlns="{}"><text font-family="DejaVu Sans" font-size="{}" '
        'style="{}"{}>{}</text></svg>'.format(NS, fs, style, attrs,
                                              inner))[0]


def box(rect):
    return [rect.x, rect.y, rect.width, rect.height]


def segments(element):
    return [[s.type] + list(s.values) for s in element.get_path_data()]


def close(a, b, tolerance=0.05):
    return len(a) == len(b) and all(
        x[0] == y[0] and len(x) == len(y)
        and all(abs(u - v) <= tolerance for u, v in zip(x[1:], y[1:]))
        for x, y in zip(a, b))


def near(a, b, tolerance=1e-4):
    return len(a) == len(b) and all(abs(u - v) <= tolerance
                                    for u, v in zip(a, b))


GLYPHS = {}


def glyph(c, fs):
    """The outline, advance and box of a character at the origin."""
    key = c, fs
    if key not in GLYPHS:
        element = text_element(escape(c), fs, PLAIN + '; white-space: pre',
                               x='0', y='0')
        GLYPHS[key] = (segments(element), element.get_computed_text_length(),
                       box(element.get_bbox()))
    return GLYPHS[key]


def placed(outline, x, y, rotate):
    """The outline turned about the origin and moved."""
    c, s = math.cos(math.radians(rotate)), math.sin(math.radians(rotate))
    out = []
    for seg in outline:
        values = seg[1:]
        item = [seg[0]]
        for i in range(0, len(values), 2):
            u, v = values[i], values[i + 1]
            item += [u * c - v * s + x, u * s + v * c + y]
        out.append(item)
    return out


def union(boxes):
    x0 = min(b[0] for b in boxes)
    y0 = min(b[1] for b in boxes)
    x1 = max(b[0] + b[2] for b in boxes)
    y1 = max(b[1] + b[3] for b in boxes)
    return [x0, y0, x1 - x0, y1 - y0]


@REG.test(st.tuples(any_text, size, coordinate, coordinate,
                    st.integers(0, 12), st.integers(-1, 12)),
          quick=60, thorough=2500)
def sums_of_lengths(case):
    """The length is the sum of the lengths of the characters, and that of a
    part is the sum over the part."""
    text, fs, x, y, start, count = case
    element = text_element(escape(text), fs, x=x, y=y)
    total = element.get_computed_text_length()
    n = element.get_number_of_chars()
    check(n == len(text), 'the number of characters', text=text, got=n)
    single = [element.get_sub_string_length(i, 1) for i in range(n)]
    check(abs(sum(single) - total) < 1e-6, 'the sum of the lengths',
          text=text, single=single, total=total)
    check(element.get_sub_string_length() == total, 'the whole length')
    got = element.get_sub_string_length(start, count)
    want = sum(single[start:] if count == -1 else single[start:start + count])
    check(abs(got - want) < 1e-6, 'the length of a part', text=text,
          start=start, count=count, got=got, want=want)
    check(all(v >= 0 for v in single), 'no length is negative')
    # what follows a blank does not depend on what is before it
    for i, c in enumerate(text):
        if c == ' ':
            own = text_element(escape(text[i + 1:]), fs)
            check(abs(element.get_sub_string_length(i + 1)
                      - own.get_computed_text_length()) < 1e-6,
                  'the length of the last words', text=text, at=i)
            break
    return ['text'] if n > 1 else []


@REG.test(st.tuples(any_text, size, coordinate, coordinate, coordinate,
                    coordinate), quick=40, thorough=2500)
def moved_text(case):
    """Another position moves the box and the outline, nothing else."""
    text, fs, x0, y0, x1, y1 = case
    a = text_element(escape(text), fs, x=x0, y=y0)
    b = text_element(escape(text), fs, x=x1, y=y1)
    check(a.get_computed_text_length() == b.get_computed_text_length(),
          'the length at another position', text=text)
    dx, dy = x1 - x0, y1 - y0
    p, q = box(a.get_bbox()), box(b.get_bbox())
    check(near([p[0] + dx, p[1] + dy] + p[2:], q), 'the moved box', text=text,
          got=q, was=p, move=[dx, dy])
    check(close(placed(segments(a), dx, dy, 0), segments(b)),
          'the moved outline', text=text, move=[dx, dy])
    return ['text'] if len(text) > 1 else []


@REG.test(st.tuples(any_text, size, st.sampled_from([10, 15, 32, 50, 80, 128]),
                    st.sampled_from(['attribute', 'style', 'em', 'group'])),
          quick=40, thorough=2500)
def scaled_text(case):
    """The length is in proportion to the font size."""
    text, a, b, how = case
    first = text_element(escape(text), a).get_computed_text_length()
    if how == 'attribute':
        other = text_element(escape(text), b)
    elif how == 'style':
        other = text_element(escape(text), 11,
                             'font-size: {}px'.format(b))
    else:
        spec = {'em': '2em', 'group': None}[how]
        outer = b / 2 if how == 'em' else b
        if outer < 10:
            return []
        root = SVGParser().fromstring(
            '<svg xmlns="{}"><g font-size="{}"><text font-family="DejaVu '
            'Sans"{}>{}</text></g></svg>'.format(
                NS, outer, ' font-size="2em"' if spec else '', escape(text)))
        other = root[0][0]
    second = other.get_computed_text_length()
    tolerance = (len(text) + 1) / 64
    check(abs(first / a - second / b) <= tolerance / a + tolerance / b,
          'the length is in proportion to the font size', text=text, a=a, b=b,
          first=first, second=second)
    return ['text'] if len(text) > 1 else []


lists = st.lists(coordinate, max_size=12)
SEPARATORS = [' ', ',', ', ', ' , ']


@REG.test(st.tuples(
    plain_text, st.sampled_from([20, 40]), st.one_of(st.none(), lists),
    st.one_of(st.none(), lists), st.one_of(st.none(), st.none(), lists),
    st.one_of(st.none(), st.none(), lists),
    st.one_of(st.none(), st.lists(st.sampled_from([0, 90, -90, 45, 30, 180]),
                                  max_size=12)),
    st.sampled_from(SEPARATORS), st.lists(st.integers(1, 9), max_size=2)),
    quick=120, thorough=5000)
def placed_characters(case):
    """Each character is its own outline at the place and the angle that the
    lists, or the advance of the one before, give it."""
    text, fs, xs, ys, dxs, dys, rs, sep, cuts = case
    lists_ = {k: v or None for k, v in zip(('x', 'y', 'dx', 'dy', 'rotate'),
                                           (xs, ys, dxs, dys, rs))}
    attributes = {k: None if v is None else sep.join(number(n) for n in v)
                  for k, v in lists_.items()}
    # spans make no difference
    cuts = sorted({c for c in cuts if 0 < c < len(text)})
    pieces = [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]
    inner = ''.join('<tspan fill="red">{}</tspan>'.format(escape(p)) if i % 2
                    else escape(p) for i, p in enumerate(pieces))
    element = text_element(inner, fs, PLAIN, **attributes)
    outline, boxes = [], []
    x = y = 0
    total = 0
    for i, c in enumerate(text):
        def at(key, default):
            values = lists_[key] or []
            return values[i] if i < len(values) else default
        x = at('x', x) + at('dx', 0)
        y = at('y', y) + at('dy', 0)
        rotations = lists_['rotate'] or [0]
        r = rotations[min(i, len(rotations) - 1)]
        own, advance, bbox = glyph(c, fs)
        outline += placed(own, x, y, r)
        if r % 90 == 0:
            corners = placed([['M', bbox[0], bbox[1], bbox[0] + bbox[2],
                               bbox[1] + bbox[3]]], x, y, r)[0][1:]
            boxes.append([min(corners[0], corners[2]),
                          min(corners[1], corners[3]),
                          abs(corners[2] - corners[0]),
                          abs(corners[3] - corners[1])])
        x += advance
        total += advance
    check(abs(element.get_computed_text_length() - total) < 1e-6,
          'the length', text=text, got=element.get_computed_text_length(),
          want=total)
    got = segments(element)
    check(close(got, outline, 0.05), 'the outline of a text', text=text,
          lists=lists_, pieces=pieces, got=got[:6], want=outline[:6])
    if len(boxes) == len(text):
        check(near(box(element.get_bbox()), union(boxes), 0.05),
              'the box of a text', text=text, lists=lists_,
              got=box(element.get_bbox()), want=union(boxes))
    labels = []
    if len(text) > 1:
        labels.append('text')
    if len(pieces) > 1:
        labels.append('spans')
    return labels


@REG.test(st.tuples(
    st.lists(st.sampled_from(['a', 'b', ' '] + HEBREW + HEBREW
                             + ['\U0001f600', '!', '\U00010400']),
             min_size=1, max_size=8).map(''.join).map(tidy),
    coordinate, coordinate), quick=60, thorough=3000)
def bidirectional_text(case):
    """Characters stand in visual order, each with its own outline."""
    text, x, y = case
    fs = 20
    element = text_element(escape(text), fs, PLAIN + '; direction: ltr', x=x,
                           y=y)
    levels, bases = levels_of(text, 254)
    if any(bases):
        # the direction of the paragraph is that of its first strong letter
        return []
    order = [k for k in visual_order(levels)]
    seen, at, want = set(), x, []
    starts = []
    n = 0
    for c in text:
        starts.append(n)
        n += 2 if ord(c) > 0xffff else 1
    where = {}
    for k in order:
        i = max(j for j, s in enumerate(starts) if s <= k)
        if i in seen:
            continue
        seen.add(i)
        where[i] = at
        at += glyph(text[i], fs)[1]
    for i, c in enumerate(text):
        outline = placed(glyph(c, fs)[0], where[i], y, 0)
        if outline:
            want.append(outline)
    got, rest = segments(element), []
    for seg in got:
        rest.append(tuple([seg[0]] + [round(v, 2) for v in seg[1:]]))
    total = sum(glyph(c, fs)[1] for c in text)
    check(abs(element.get_computed_text_length() - total) < 1e-6,
          'the length', text=text)
    for i in range(len(text)):
        check(abs(element.get_sub_string_length(i, 1)
                  - glyph(text[i], fs)[1]) < 1e-6,
              'the length of a character', text=text, at=i)
    remaining = list(got)
    for outline in want:
        for seg in outline:
            for other in remaining:
                if close([seg], [other], 0.05):
                    remaining.remove(other)
                    break
            else:
                check(False, 'a character stands elsewhere', text=text,
                      seg=seg, where=where)
    check(not remaining, 'nothing else is drawn', text=text)
    return ['mixed'] if len(set(levels)) > 1 else []
