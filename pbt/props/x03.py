"""X03: segmentation and bidi results index the given string."""
from svgpy.icu import UBiDi, UBreakIterator

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'X03',
    'Strings of letters, digits, marks, emoji, Hangul, spaces and signs of '
    'the basic and the supplementary planes, in left-to-right and '
    'right-to-left scripts. Break iterators of all four kinds are walked '
    'forwards, backwards and as Python iterators; character, word and line '
    'breaks are compared with the rules of UAX 29 and 14, and bidi levels, '
    'runs, maps and reordered text with UAX 9 implemented here. A case is '
    'non-trivial when there are two or more segments or runs.',
    ['positions are in UTF-16 code units as in ICU', 'no explicit '
     'embeddings, isolates or brackets', 'no NUL and no lone surrogates'])


def units(text):
    """The code units of a text, each with the character it belongs to."""
    out = []
    for c in text:
        out.extend([c] * (2 if ord(c) > 0xffff else 1))
    return out


def length(text):
    return len(text.encode('utf-16-le')) // 2


def part(text, start, end):
    return text.encode('utf-16-le')[start * 2:end * 2].decode('utf-16-le')


# -- break iterators
KINDS = {'character': UBreakIterator.UBRK_CHARACTER,
         'word': UBreakIterator.UBRK_WORD, 'line': UBreakIterator.UBRK_LINE,
         'sentence': UBreakIterator.UBRK_SENTENCE}

GRAPHEME = {
    'a': 'O', '1': 'O', '\u6f22': 'O', '\U00010400': 'O', ' ': 'O',
    '\u0301': 'X', '\u0308': 'X', '\ufe0f': 'X', '\u200d': 'Z',
    '\r': 'R', '\n': 'N', '\u200b': 'C', '\t': 'C',
    '\u1100': 'L', '\u1161': 'V', '\u11a8': 'T', '\uac00': 'LV',
    '\uac01': 'LVT', '\U0001f1ef': 'F', '\U0001f1f5': 'F', '\U0001f600': 'E',
    '\U0001f468': 'E', '\u2764': 'E', '\U0001f3fd': 'X', '\u0e33': 'S',
    '\u0903': 'S'}
WORD = {'a': 'A', 'b': 'A', 'Z': 'A', '\u00e9': 'A', '\u0431': 'A',
        '\U00010400': 'A', '1': '9', '2': '9', '_': '_', "'": "'", '.': '.',
        ',': ',', ' ': ' ', '!': '!', '\n': '\n', '\U0001f600': '!'}
LINE = {'a': 'A', 'b': 'A', '\u00e9': 'A', '\U00010400': 'A', ' ': ' ',
        '\n': '\n', '\u200b': 'z', '\u00a0': 'g'}

texts = {
    'character': st.text(alphabet=sorted(GRAPHEME), max_size=12),
    'word': st.text(alphabet=sorted(WORD), max_size=14),
    'line': st.text(alphabet=sorted(LINE), max_size=14),
    'sentence': st.text(alphabet='aB. !?\n\U0001f600\u6f22\u3002', max_size=14),
}


def grapheme_break(cls, i):
    """Is there a boundary between cls[i - 1] and cls[i]?"""
    a, b = cls[i - 1], cls[i]
    if a == 'R' and b == 'N':
        return False
    if a in ('R', 'N', 'C') or b in ('R', 'N', 'C'):
        return True
    if a == 'L' and b in ('L', 'V', 'LV', 'LVT'):
        return False
    if a in ('LV', 'V') and b in ('V', 'T'):
        return False
    if a in ('LVT', 'T') and b == 'T':
        return False
    if b in ('X', 'Z', 'S'):
        return False
    if a == 'Z' and b == 'E':
        j = i - 2
        while j >= 0 and cls[j] == 'X':
            j -= 1
        return not (j >= 0 and cls[j] == 'E')
    if a == 'F' and b == 'F':
        j = i - 1
        while j >= 0 and cls[j] == 'F':
            j -= 1
        return (i - 1 - j) % 2 == 0
    return True


def word_break(cls, i):
    a, b = cls[i - 1], cls[i]
    before = cls[i - 2] if i >= 2 else ''
    after = cls[i + 1] if i + 1 < len(cls) else ''
    if a == '\n' or b == '\n':
        return True
    if a == ' ' and b == ' ':
        return False
    if a in 'A9' and b in 'A9':
        return False
    if a == 'A' and b in "'." and after == 'A':
        return False
    if before == 'A' and a in "'." and b == 'A':
        return False
    if before == '9' and a in "'.," and b == '9':
        return False
    if a == '9' and b in "'.," and after == '9':
        return False
    if (a in 'A9_' and b == '_') or (a == '_' and b in 'A9_'):
        return False
    return True


def line_break(cls, i):
    a, b = cls[i - 1], cls[i]
    if a == '\n':
        return True
    if b in '\n z':
        return False
    # a break after zero width space, spaces between or not
    j = i - 1
    while j >= 0 and cls[j] == ' ':
        j -= 1
    if j >= 0 and cls[j] == 'z':
        return True
    return a == ' '


RULES = {'character': (GRAPHEME, grapheme_break), 'word': (WORD, word_break),
         'line': (LINE, line_break)}


def walk(kind, text):
    bi = UBreakIterator(KINDS[kind], 'en', text)
    out = [bi.first()]
    while True:
        check(bi.current() == out[-1], 'the current position', text=text)
        n = bi.next()
        if n == UBreakIterator.UBRK_DONE:
            break
        out.append(n)
        check(len(out) <= length(text) + 1, 'the walk ends', text=text)
    back = [bi.last()]
    while True:
        n = bi.previous()
        if n == UBreakIterator.UBRK_DONE:
            break
        back.append(n)
        check(len(back) <= length(text) + 1, 'the walk ends', text=text)
    return bi, out, back


@REG.test(st.sampled_from(sorted(KINDS)).flatmap(
    lambda k: st.tuples(st.just(k), texts[k],
                        texts[k])), quick=6000, thorough=100000)
def breaks(case):
    """Boundaries go from 0 to the length, the same both ways; segments are
    the text, and the boundaries are those of the Unicode rules."""
    kind, text, other = case
    bi, forward, backward = walk(kind, text)
    check(forward[0] == 0 and forward[-1] == length(text)
          and all(a < b for a, b in zip(forward, forward[1:])),
          'boundaries increase from 0 to the length', text=text,
          got=forward)
    check(backward == forward[::-1], 'the boundaries backwards', text=text,
          got=backward, want=forward[::-1])
    want = [part(text, a, b) for a, b in zip(forward, forward[1:])]
    for _ in range(2):
        check(list(bi) == want, 'the segments', text=text, want=want)
    check(list(reversed(bi)) == want[::-1], 'the segments backwards',
          text=text, want=want[::-1])
    check(''.join(want) == text, 'the segments are the text')
    if kind in RULES:
        classes, rule = RULES[kind]
        cls = [classes[c] for c in text]
        expected, at = [0] if text else [0], 0
        for i, c in enumerate(text):
            if i and rule(cls, i):
                expected.append(at)
            at += length(c)
        if text:
            expected.append(at)
        check(forward == expected, 'the boundaries', kind=kind, text=text,
              got=forward, want=expected)
    # another text, the same iterator
    bi.set_text(other)
    _, again, _ = walk(kind, other)
    got = [x for x in bi]
    check(got == [part(other, a, b) for a, b in zip(again, again[1:])],
          'the segments of another text', text=text, other=other, got=got)
    return [kind] if len(want) > 1 else []


# -- bidi
BIDI = {
    'L': 'ab\u3042\U00010400\u200e', 'R': '\u05d0\u05d1\U00010900\u200f',
    'AL': '\u0627\u0628', 'EN': '12', 'AN': '\u0661\u0662', 'ES': '+-',
    'CS': ',.', 'ET': '%$', 'WS': ' ', 'ON': '!<>\U0001f600', 'NSM': '\u0301',
    'S': '\t', 'B': '\n'}
CLASS = {c: k for k, v in BIDI.items() for c in v}
one_line = st.lists(st.sampled_from(sorted(set(CLASS) - {'\n'})),
                    max_size=14).map(''.join)
some = st.lists(st.sampled_from(['a', 'b', '\u05d0', '\u05d1', '\U00010900',
                                 '\U00010400', '\u0627', '1', ' ', '\u0661']),
                max_size=10).map(''.join)
lines = st.lists(st.sampled_from(sorted(CLASS)), max_size=14).map(''.join)
para_levels = st.sampled_from([0, 1, UBiDi.UBIDI_DEFAULT_LTR,
                               UBiDi.UBIDI_DEFAULT_RTL])


def base_level(classes, asked):
    if asked in (0, 1):
        return asked
    for c in classes:
        if c == 'L':
            return 0
        if c in ('R', 'AL'):
            return 1
    return 0 if asked == UBiDi.UBIDI_DEFAULT_LTR else 1


def levels_of_paragraph(text, asked):
    """UAX 9 for a paragraph without embeddings and brackets."""
    original = [CLASS[c] for c in text]
    base = base_level(original, asked)
    sor = 'R' if base else 'L'
    t = list(original)
    # W1
    prev = sor
    for i, c in enumerate(t):
        if c == 'NSM':
            t[i] = prev
        prev = t[i]
    # W2, W3
    strong = sor
    for i, c in enumerate(t):
        if c in ('L', 'R', 'AL'):
            strong = c
        elif c == 'EN' and strong == 'AL':
            t[i] = 'AN'
    t = ['R' if c == 'AL' else c for c in t]
    # W4
    for i in range(1, len(t) - 1):
        a, b, c = t[i - 1], t[i], t[i + 1]
        if b == 'ES' and a == c == 'EN':
            t[i] = 'EN'
        elif b == 'CS' and a == c and a in ('EN', 'AN'):
            t[i] = a
    # W5
    i = 0
    while i < len(t):
        if t[i] == 'ET':
            j = i
            while j < len(t) and t[j] == 'ET':
                j += 1
            if (i and t[i - 1] == 'EN') or (j < len(t) and t[j] == 'EN'):
                t[i:j] = ['EN'] * (j - i)
            i = j
        else:
            i += 1
    # W6, W7
    t = ['ON' if c in ('ES', 'ET', 'CS') else c for c in t]
    strong = sor
    for i, c in enumerate(t):
        if c in ('L', 'R'):
            strong = c
        elif c == 'EN' and strong == 'L':
            t[i] = 'L'
    # N1, N2
    i = 0
    while i < len(t):
        if t[i] in ('B', 'S', 'WS', 'ON'):
            j = i
            while j < len(t) and t[j] in ('B', 'S', 'WS', 'ON'):
                j += 1
            a = t[i - 1] if i else sor
            b = t[j] if j < len(t) else sor
            a = 'R' if a in ('EN', 'AN') else a
            b = 'R' if b in ('EN', 'AN') else b
            t[i:j] = [a if a == b else sor] * (j - i)
            i = j
        else:
            i += 1
    # I1, I2
    out = []
    for c in t:
        if base == 0:
            out.append({'L': 0, 'R': 1, 'AN': 2, 'EN': 2}[c])
        else:
            out.append({'L': 2, 'R': 1, 'AN': 2, 'EN': 2}[c])
    # L1
    trailing = True
    for i in reversed(range(len(t))):
        if original[i] in ('B', 'S'):
            out[i] = base
            trailing = True
        elif original[i] == 'WS' and trailing:
            out[i] = base
        else:
            trailing = False
    return base, out


def levels_of(text, asked):
    """(levels of the code units, base levels of the paragraphs)"""
    out, bases, start = [], [], 0
    for i, c in enumerate(text + '\n'):
        if c == '\n' and (i < len(text) or start < len(text)):
            paragraph = text[start:i + 1]
            base, levels = levels_of_paragraph(paragraph, asked)
            bases.append(base)
            for ch, level in zip(paragraph, levels):
                out.extend([level] * length(ch))
            start = i + 1
    found = {CLASS[c] for c in text}
    if not (any(bases) or found & {'R', 'AL'}
            or ('AN' in found and found & {'ES', 'CS', 'ET', 'WS', 'ON', 'S',
                                           'B'})
            or ('AN' in found and any(ord(c) > 0xffff for c in text))):
        # ICU does not raise the level of Arabic numbers on their own
        out = [0] * len(out)
    return out, bases


def visual_order(levels):
    """L2: the logical index at each visual position."""
    order = list(range(len(levels)))
    if not levels:
        return order
    for level in range(max(levels), 0, -1):
        i = 0
        while i < len(order):
            if levels[order[i]] >= level:
                j = i
                while j < len(order) and levels[order[j]] >= level:
                    j += 1
                order[i:j] = order[i:j][::-1]
                i = j
            else:
                i += 1
    return order


def runs_of(levels):
    out = []
    for i, level in enumerate(levels):
        if out and out[-1][2] == level:
            out[-1][1] = i + 1
        else:
            out.append([i, i + 1, level])
    return out


@REG.test(st.tuples(lines, para_levels), quick=6000, thorough=100000)
def bidi_runs(case):
    """Logical runs have the levels of UAX 9 and cover the text."""
    text, asked = case
    bidi = UBiDi()
    bidi.set_para(text, asked)
    n = length(text)
    check(bidi.status <= 0, 'no error', text=text)
    check(bidi.get_length() == n == bidi.get_processed_length()
          == bidi.get_result_length(), 'the length', text=text)
    check(bidi.get_text() == text, 'the text', text=text)
    levels, bases = levels_of(text, asked)
    check(bidi.count_paragraphs() == len(bases), 'the paragraphs', text=text,
          got=bidi.count_paragraphs(), want=len(bases))
    if bases:
        check(bidi.get_para_level() == bases[0], 'the paragraph level',
              text=text)
    if len(set(bases)) > 1:
        # ICU lets the level of a paragraph act upon the next one
        return []
    got, at = [], 0
    while at < n:
        limit, level = bidi.get_logical_run(at)
        check(limit > at, 'a run is not empty', text=text)
        got.append([at, limit, level])
        at = limit
    want = runs_of(levels)
    check(got == want, 'the logical runs', text=text, asked=asked, got=got,
          want=want)
    for i in range(n):
        start, limit, level = [r for r in want if r[0] <= i < r[1]][0]
        check(bidi.get_logical_run(i) == (limit, level),
              'the run of a position', text=text, at=i)
    if n:
        parity = {x % 2 for x in levels}
        direction = bidi.get_direction()
        # a text of one direction can be called mixed, but not the reverse
        check(direction == UBiDi.UBIDI_MIXED or parity == {direction},
              'the direction', text=text, got=direction, want=parity)
        if parity | set(bases) == {0} and 2 not in levels:
            check(direction == UBiDi.UBIDI_LTR, 'a text from left to right',
                  text=text, got=direction)
    return ['runs'] if len(want) > 1 else []


MIRROR = {'<': '>', '>': '<'}


@REG.test(st.tuples(st.one_of(one_line, some), para_levels),
          quick=6000, thorough=100000)
def bidi_order(case):
    """Visual runs and index maps are the permutation of rule L2, and the
    reordered text follows it."""
    text, asked = case
    bidi = UBiDi()
    bidi.set_para(text, asked)
    levels, bases = levels_of(text, asked)
    order = visual_order(levels)
    n = len(levels)
    check([bidi.get_logical_index(i) for i in range(n)] == order,
          'the visual order', text=text, asked=asked, want=order)
    where = {k: v for v, k in enumerate(order)}
    check([bidi.get_visual_index(i) for i in range(n)]
          == [where[i] for i in range(n)], 'the visual positions', text=text)
    count = bidi.count_runs()
    runs = [bidi.get_visual_run(i) for i in range(count)]
    check(count == len(runs_of(levels)), 'the number of runs', text=text)
    flat = []
    for start, size, direction in runs:
        span = list(range(start, start + size))
        flat += span if direction == UBiDi.UBIDI_LTR else span[::-1]
        check({levels[i] % 2 for i in span} == {direction},
              'the direction of a run', text=text)
    check(flat == order, 'the visual runs', text=text, runs=runs, want=order)
    # the text: runs in visual order, characters kept whole
    strings = []
    for start, size, direction in runs:
        piece = part(text, start, start + size)
        strings.append(piece if direction == UBiDi.UBIDI_LTR
                       else piece[::-1])
    check(list(bidi.visual_iter()) == strings, 'the text of the visual runs',
          text=text, want=strings)
    whole = ''.join(strings)
    got, size = bidi.write_reordered()
    check((got or '') == whole and size == length(whole),
          'the reordered text', text=text, got=got, want=whole, size=size)
    got, size = bidi.write_reordered(UBiDi.UBIDI_REMOVE_BIDI_CONTROLS)
    plain = whole.replace('\u200e', '').replace('\u200f', '')
    check((got or '') == plain and size == length(plain),
          'the text without controls', text=text, got=got, want=plain)
    got, size = bidi.write_reordered(UBiDi.UBIDI_DO_MIRRORING)
    mirrored = ''
    for (start, size_, direction), piece in zip(runs, strings):
        mirrored += ''.join(MIRROR.get(c, c) for c in piece) \
            if direction == UBiDi.UBIDI_RTL else piece
    check((got or '') == mirrored, 'the mirrored text', text=text, got=got,
          want=mirrored)
    got, size = bidi.write_reordered(UBiDi.UBIDI_INSERT_LRM_FOR_NUMERIC)
    check((got or '').replace('\u200e', '').replace('\u200f', '') == plain,
          'marks are all that is inserted', text=text, got=got)
    check(size == length(got or ''), 'the size', text=text, got=got)
    return ['runs'] if count > 1 else []


RTL = {'ar', 'he', 'fa', 'ur', 'yi'}
SCRIPTS = {None: '', 'Latn': 'Latn', 'latn': 'Latn', 'CYRL': 'Cyrl',
           'Arab': 'Arab', 'Hebr': 'Hebr', 'Jpan': 'Jpan'}


@REG.test(st.tuples(
    st.sampled_from(['en', 'EN', 'sr', 'ja', 'ar', 'he', 'fa', 'ur', 'zh',
                     'de', 'yi']),
    st.sampled_from(['-', '_']), st.sampled_from(sorted(
        SCRIPTS, key=str)), st.sampled_from([None, 'US', 'RS', 'JP']),
    st.sampled_from(['', '@currency=USD'])), quick=300, thorough=3000)
def locales(case):
    """The language and the script of a locale, and the way it is written."""
    from svgpy.icu import ULocale
    language, sep, script, region, extra = case
    name = sep.join(x for x in (language, script, region) if x) + extra
    locale = ULocale(name)
    check(locale.get_language() == language.lower(), 'the language',
          name=name, got=locale.get_language())
    check(locale.get_script() == SCRIPTS[script], 'the script', name=name,
          got=locale.get_script())
    check(locale.get_line_orientation() == ULocale.ULOC_LAYOUT_TTB,
          'lines go from top to bottom', name=name)
    if script is None:
        check(locale.get_character_orientation()
              == (ULocale.ULOC_LAYOUT_RTL if language in RTL
                  else ULocale.ULOC_LAYOUT_LTR), 'the direction', name=name)
    return ['parts'] if script or region or extra else []


@REG.test(st.tuples(st.sampled_from(['first', 'last', 'any']),
                    st.integers(-3, 3)), quick=60, thorough=500)
def available_locales(case):
    """Every index below the count has a locale, and no other one has."""
    where, offset = case
    count = UBreakIterator.count_available()
    index = {'first': 0, 'last': count, 'any': count // 2}[where] + offset
    name = UBreakIterator.get_available(index)
    inside = 0 <= index < count
    check((name is not None) == inside, 'the locale of an index',
          index=index, count=count, got=name)
    if inside:
        check(len(name) > 0 and UBreakIterator(
            UBreakIterator.UBRK_WORD, name, 'a b').next() == 1,
            'a locale can be used', name=name)
    return ['inside'] if inside else []
