"""F02: text shaped through HarfBuzz keeps its characters, and the objects
that take part may be dropped in any order."""
import json
import os

from svgpy.freetype import FreeType, FTFace
from svgpy.harfbuzz import HBBlob, HBBuffer, HBDirection, HBFace, HBFeature, \
    HBFont, HBFTFace, HBFTFont, HBLanguage, HBOTFont, HBScript

from ..gens import st
from ..harness import Registry
from ..harness import check as _check

REG = Registry(
    'F02',
    'Texts of up to eight characters of six scripts shaped with five fonts, '
    'added to the buffer in three encodings and in several pieces, in four '
    'directions, with features; histories of buffer operations against a '
    'list; and histories that create, share and drop blobs, faces, fonts and '
    'buffers, run in a child process against the same calls with everything '
    'kept. A case is non-trivial when the text has characters of more than '
    'one byte, or an object is dropped before one made from it.',
    ['positions of scaled fonts agree within one unit of rounding'])
FONTS = '/usr/share/fonts/truetype/dejavu'
NAMES = ['DejaVuSans', 'DejaVuSerif-Bold', 'DejaVuSansMono',
         'DejaVuSans-Oblique', 'DejaVuSerifCondensed']
FILES = [os.path.join(FONTS, x + '.ttf') for x in NAMES]


def check(condition, what, **info):
    _check(condition, what, **info)


plain = st.sampled_from('AVToy fi.1')
wide = st.sampled_from('éßЖאبلا日한😀𝐀٣e\u0301\u200d')
text = st.one_of(st.lists(plain, min_size=1, max_size=8).map(''.join),
                 st.lists(st.one_of(plain, wide), min_size=1,
                          max_size=8).map(''.join))
feature = st.one_of(
    st.sampled_from(['kern', '-kern', 'liga=0', '+liga', 'dlig', 'frac=1',
                     'smcp', '-ccmp']),
    st.tuples(st.sampled_from(['kern', 'liga', 'ss01', 'aalt']),
              st.integers(0, 5), st.integers(1, 6), st.integers(0, 3)).map(
                  lambda t: '{}[{}:{}]={}'.format(t[0], t[1], t[1] + t[2],
                                                  t[3])))
DIRECTIONS = {'ltr': 4, 'rtl': 5, 'ttb': 6, 'btt': 7}
BASIC = ['-kern', '-liga', '-clig', '-ccmp', '-calt', '-rlig', '-locl',
         '-mark', '-mkmk', '-rclt']


def ft_font(index, size):
    face = FTFace.new_face(FILES[index])
    face.set_char_size(size * 64, 0, 72, 72)
    return face, HBFTFont.create(face)


def add(buf, encoding, pieces):
    for piece in pieces:
        getattr(buf, 'add_' + encoding)(piece)


def setup(buf, direction, script='Latn', language='en'):
    buf.set_cluster_level(HBBuffer.CLUSTER_LEVEL_MONOTONE_CHARACTERS)
    buf.set_direction(HBDirection.fromstring(direction))
    buf.set_script(HBScript.fromstring(script))
    buf.set_language(HBLanguage.fromstring(language))


def glyphs(buf):
    infos, positions = buf.get_glyph_infos(), buf.get_glyph_positions()
    check(len(infos) == len(positions) == buf.get_length(),
          'as many positions as glyphs')
    return [[i.codepoint, i.cluster, p.x_advance, p.y_advance, p.x_offset,
             p.y_offset] for i, p in zip(infos, positions)]


def sizes(encoding, s):
    return [{'utf8': len(c.encode()), 'utf16': len(c.encode('utf-16-le')) // 2,
             'utf32': 1}[encoding] for c in s]


def starts(encoding, s):
    """The clusters of the characters of a text."""
    result, n = [], 0
    for size in sizes(encoding, s):
        result.append(n)
        n += size
    return result


@REG.test(st.fixed_dictionaries({
    'font': st.integers(0, 4), 'size': st.integers(5, 60), 'text': text,
    'direction': st.sampled_from(sorted(DIRECTIONS)),
    'features': st.lists(feature, max_size=3),
    'script': st.sampled_from(['Latn', 'Arab', 'Hebr', 'Cyrl'])}), 900, 12000)
def shaping(case):
    """The encoding of the text makes no difference, and the glyphs keep the
    order and the clusters of the characters."""
    face, font = ft_font(case['font'], case['size'])
    s = case['text']
    features = [HBFeature.fromstring(x) for x in case['features']]
    check(None not in features, 'features are understood')
    # the range of a feature counts characters in the units of the encoding
    ranged = any('[' in x for x in case['features'])
    backward = case['direction'] in ('rtl', 'btt')
    vertical = case['direction'] in ('ttb', 'btt')
    results = {}
    for encoding in ('utf32', 'utf16', 'utf8'):
        buf = HBBuffer.create()
        setup(buf, case['direction'], case['script'])
        add(buf, encoding, [s])
        check(buf.get_length() == len(s),
              'a character is an item of the buffer', encoding=encoding,
              text=s, got=buf.get_length())
        buf.shape(font, features if features else None)
        result = glyphs(buf)
        at = starts(encoding, s)
        clusters = [g[1] for g in result]
        check(all(c in at for c in clusters), 'a cluster is a character',
              encoding=encoding, text=s, got=clusters, expected=at)
        check(clusters == sorted(clusters, reverse=backward),
              'clusters follow the direction', got=clusters,
              direction=case['direction'])
        check(min(clusters) == 0, 'the first character has a cluster')
        check(all(g[3] == 0 for g in result) if not vertical
              else all(g[2] == 0 for g in result),
              'glyphs advance along the direction', got=result)
        back = dict(zip(at, range(len(s))))
        results[encoding] = [[g[0], back[g[1]]] + g[2:] for g in result]
    if not ranged or all(ord(c) < 0x80 for c in s):
        for encoding in ('utf16', 'utf8'):
            check(results[encoding] == results['utf32'],
                  'the encoding makes no difference', encoding=encoding,
                  got=results[encoding], expected=results['utf32'], text=s)
    # letter by letter
    simple = all(ord(c) < 0x80 for c in s)
    if simple:
        buf = HBBuffer.create()
        setup(buf, case['direction'])
        add(buf, 'utf8', [s])
        buf.shape(font, [HBFeature.fromstring(x) for x in BASIC])
        got = [[g[0], g[1], g[2] if not vertical else g[3]]
               for g in glyphs(buf)]
        expected = [[font.get_glyph(ord(c)), i,
                     font.get_glyph_h_advance(font.get_glyph(ord(c)))
                     if not vertical else
                     font.get_glyph_v_advance(font.get_glyph(ord(c)))]
                    for i, c in enumerate(s)]
        if backward:
            expected.reverse()
        check(got == expected, 'letters without features are their glyphs',
              got=got, expected=expected, text=s)
        for c in s:
            index = face.get_char_index(c)
            check(index == font.get_glyph(ord(c)), 'the glyph of a letter')
    again = HBBuffer.create()
    setup(again, case['direction'], case['script'])
    add(again, 'utf32', [s])
    again.shape(font, features)
    at = starts('utf32', s)
    check([[g[0], g[1]] + g[2:] for g in glyphs(again)] == results['utf32'],
          'shaping again gives the same')
    return [] if simple else ['wide']


@REG.test(st.fixed_dictionaries({
    'font': st.integers(0, 4), 'text': text,
    'scale': st.integers(100, 4000), 'factor': st.integers(2, 5),
    'feature': st.sampled_from(['kern', 'liga', 'dlig', 'smcp']),
    'start': st.integers(0, 4), 'len': st.integers(1, 4),
    'value': st.integers(0, 9)}), 500, 6000)
def fonts(case):
    """Positions grow with the scale of the font; features are written as
    they are read."""
    with open(FILES[case['font']], 'rb') as f:
        data = f.read()
    blob = HBBlob.create(data)
    check(blob.get_length() == len(data) and blob.get_data() == data,
          'the data of a blob')
    face = HBFace.create(blob)
    ft = FTFace.new_face(FILES[case['font']])
    check(face.get_index() == 0 and face.get_upem() == 2048
          and face.get_glyph_count() == HBFTFace.create(ft).get_glyph_count(),
          'the face', count=face.get_glyph_count())
    font = HBFont.create(face)
    HBOTFont.set_funcs(font)
    check(font.get_scale() == (2048, 2048), 'the scale is the size of the em')
    s = case['text']

    def shaped(scale):
        font.set_scale(scale, scale)
        check(font.get_scale() == (scale, scale), 'the scale was set')
        buf = HBBuffer.create()
        setup(buf, 'ltr')
        add(buf, 'utf32', [s])
        buf.shape(font)
        return glyphs(buf)
    small = shaped(case['scale'])
    large = shaped(case['scale'] * case['factor'])
    check([g[:2] for g in small] == [g[:2] for g in large],
          'the same glyphs at any scale')
    check(all(abs(a * case['factor'] - b) <= 2 * case['factor'] + 2
              for g, h in zip(small, large)
              for a, b in zip(g[2:], h[2:])), 'positions follow the scale',
          small=small, large=large)
    text_ = '{}[{}:{}]={}'.format(case['feature'], case['start'],
                                  case['start'] + case['len'], case['value'])
    x = HBFeature.fromstring(text_)
    y = HBFeature.fromstring(x.tostring())
    if case['start'] == 0 and case['len'] == 1:
        y = x  # HarfBuzz writes this range as []
    for f in (x, y):
        check((f.tag, f.start, f.end, f.value) == (
            int.from_bytes(case['feature'].encode(), 'big'), case['start'],
            case['start'] + case['len'], case['value']), 'a feature',
            text=text_, got=repr(f), written=x.tostring())
    return ['wide'] if any(ord(c) > 127 for c in s) else []


item = st.one_of(
    st.tuples(st.just('add'), st.sampled_from(['utf8', 'utf16', 'utf32']),
              text),
    st.tuples(st.just('add'), st.sampled_from(['utf8', 'utf16', 'utf32']),
              text),
    st.tuples(st.just('reverse')), st.tuples(st.just('reverse')),
    st.tuples(st.just('range'), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.just('clusters')),
    st.tuples(st.just('clear')), st.tuples(st.just('reset')),
    st.tuples(st.just('direction'), st.sampled_from(sorted(DIRECTIONS))),
    st.tuples(st.just('script'), st.sampled_from(
        ['Latn', 'Arab', 'Hebr', 'Hang', 'Zyyy', 'Cyrl'])),
    st.tuples(st.just('language'), st.sampled_from(
        ['en', 'ja', 'zh-hant', 'tr', 'ar'])),
    st.tuples(st.just('level'), st.integers(0, 2))).map(list)


@REG.test(st.lists(item, min_size=1, max_size=8), 800, 10000)
def buffers(case):
    """A buffer is a list of characters with a few settings."""
    buf = HBBuffer.create()
    items, level = [], 0
    direction, script, language = None, None, None
    for step in case:
        kind = step[0]
        if kind == 'add':
            add(buf, step[1], [step[2]])
            items += [[ord(c), n]
                      for c, n in zip(step[2], starts(step[1], step[2]))]
        elif kind == 'reverse':
            buf.reverse()
            items.reverse()
        elif kind == 'range':
            a, b = sorted(min(x, len(items)) for x in step[1:])
            if b - a < 1:
                continue
            buf.reverse_range(a, b)
            items[a:b] = items[a:b][::-1]
        elif kind == 'clusters':
            buf.reverse_clusters()
            groups = []
            for x in items:
                if groups and groups[-1][0][1] == x[1]:
                    groups[-1].append(x)
                else:
                    groups.append([x])
            items = [x for g in reversed(groups) for x in g]
        elif kind == 'clear':
            buf.clear_contents()
            items = []
            direction = script = language = None
        elif kind == 'reset':
            buf.reset()
            items, level = [], 0
            direction = script = language = None
        elif kind == 'direction':
            direction = step[1]
            buf.set_direction(HBDirection.fromstring(direction))
        elif kind == 'script':
            script = step[1]
            buf.set_script(HBScript.fromstring(script))
        elif kind == 'language':
            language = step[1]
            buf.set_language(HBLanguage.fromstring(language))
        elif kind == 'level':
            level = step[1]
            buf.set_cluster_level(level)
        got = [[x.codepoint, x.cluster] for x in buf.get_glyph_infos()]
        check(got == items and buf.get_length() == len(items),
              'the items of the buffer', got=got, expected=items, step=step)
        d = buf.get_direction()
        check(d.direction == DIRECTIONS.get(direction, 0),
              'the direction of the buffer', got=d.direction,
              expected=direction)
        if direction is not None:
            check(d.tostring() == direction and d.is_valid()
                  and d.is_horizontal() == (direction in ('ltr', 'rtl'))
                  and d.is_vertical() == (direction in ('ttb', 'btt'))
                  and d.is_forward() == (direction in ('ltr', 'ttb'))
                  and d.is_backward() == (direction in ('rtl', 'btt')),
                  'the kind of direction', direction=direction)
            check(d.reverse().tostring() == {
                'ltr': 'rtl', 'rtl': 'ltr', 'ttb': 'btt',
                'btt': 'ttb'}[direction], 'the reverse of a direction')
        else:
            check(not d.is_valid(), 'no direction')
        if script is not None:
            x = buf.get_script()
            check(x.to_iso15924_string() == script
                  and x.to_iso15924_tag() == int.from_bytes(
                      script.encode(), 'big')
                  and HBScript.from_iso15924_tag(
                      x.to_iso15924_tag()).script == x.script,
                  'the script of the buffer', got=x.to_iso15924_string(),
                  expected=script)
            check(x.get_horizontal_direction().tostring() == (
                'rtl' if script in ('Arab', 'Hebr') else 'ltr'),
                'the direction of a script', script=script)
        if language is not None:
            check(buf.get_language().tostring() == language,
                  'the language of the buffer')
        check(buf.get_cluster_level() == level, 'the cluster level',
              got=buf.get_cluster_level(), expected=level)
    return ['history'] if len(items) > 1 and len(case) > 2 else []


make = st.one_of(
    st.tuples(st.just('blob'), st.integers(0, 4)),
    st.tuples(st.just('face'), st.integers(0, 7)),
    st.tuples(st.just('face'), st.integers(0, 7)),
    st.tuples(st.just('ftface'), st.integers(0, 4)),
    st.tuples(st.just('font'), st.integers(0, 7)),
    st.tuples(st.just('font'), st.integers(0, 7)),
    st.tuples(st.just('hbftface'), st.integers(0, 7)),
    st.tuples(st.just('ftfont'), st.integers(0, 7)),
    st.tuples(st.just('faceof'), st.integers(0, 7)),
    st.tuples(st.just('faceof'), st.integers(0, 7)),
    st.tuples(st.just('setface'), st.integers(0, 7), st.integers(0, 7)),
    st.tuples(st.just('shape'), st.integers(0, 7), text),
    st.tuples(st.just('read'), st.integers(0, 7)),
    st.tuples(st.just('drop'), st.integers(0, 7)),
    st.tuples(st.just('drop'), st.integers(0, 7)),
    st.tuples(st.just('churn'))).map(list)


@REG.test(st.tuples(
    st.sampled_from(['blob', 'ft', 'mem']), st.integers(0, 4),
    st.lists(make, min_size=3, max_size=12)).map(list), 700, 8000)
def lifetimes(case):
    """Dropping an object never changes what an object made from it does."""
    for i in range(5):
        data_of(i)
    outputs = []
    for keep in (True, False):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                os.close(r)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                out = json.dumps(play(case, keep)[0])
                os.write(w, out.encode()[:60000])
                status = 0
            finally:
                os._exit(status)
        os.close(w)
        data = b''
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        outputs.append((status, data.decode()))
    check(outputs[0][0] == 0, 'the history runs with everything kept',
          status=outputs[0][0])
    check(outputs[1][0] == 0, 'the history runs when objects are dropped',
          status=outputs[1][0])
    check(outputs[0][1] == outputs[1][1],
          'the same results when objects are dropped',
          kept=outputs[0][1], dropped=outputs[1][1])
    drops = [i for i, x in enumerate(case[2]) if x[0] == 'drop']
    return ['dropped'] if drops and len(json.loads(outputs[0][1])) > 1 else []


_data = {}


def data_of(i):
    if i not in _data:
        with open(FILES[i], 'rb') as f:
            _data[i] = bytearray(f.read())
    return _data[i]


def play(case, keep):
    kept = []
    out = []
    objects = []

    def pick(i, *kinds):
        found = [x for x in objects if x[0] in kinds]
        return found[i % len(found)][1] if found else None

    def made(kind, x):
        if len(objects) < 8:
            objects.append([kind, x])
    steps = list(case[2])
    start = {'blob': [['blob', case[1]], ['face', 0], ['font', 0]],
             'ft': [['ftface', case[1]], ['ftfont', 0]],
             'mem': [['memface', case[1]], ['ftfont', 0]]}[case[0]]
    for step in start + steps:
        kind = step[0]
        if kind == 'blob':
            made('blob', HBBlob.create(bytes(data_of(step[1]))))
        elif kind == 'face':
            blob = pick(step[1], 'blob')
            if blob is not None:
                made('face', HBFace.create(blob))
        elif kind == 'ftface':
            face = FTFace.new_face(FILES[step[1]])
            face.set_char_size(640, 0, 72, 72)
            made('ftface', face)
        elif kind == 'memface':
            face = FTFace.new_memory_face(bytes(data_of(step[1])))
            face.set_char_size(640, 0, 72, 72)
            made('ftface', face)
        elif kind == 'hbftface':
            face = pick(step[1], 'ftface')
            if face is not None:
                made('face', HBFTFace.create(face))
        elif kind == 'font':
            face = pick(step[1], 'face')
            if face is not None:
                font = HBFont.create(face)
                HBOTFont.set_funcs(font)
                made('font', font)
        elif kind == 'ftfont':
            face = pick(step[1], 'ftface')
            if face is not None:
                made('ftfont', HBFTFont.create(face))
        elif kind == 'faceof':
            font = pick(step[1], 'font', 'ftfont')
            if font is not None:
                face = font.get_face()
                made('ftface' if isinstance(face, FTFace) else 'face', face)
        elif kind == 'setface':
            font = pick(step[1], 'font')
            face = pick(step[2], 'face')
            if font is not None and face is not None:
                font.set_face(face)
        elif kind == 'shape':
            font = pick(step[1], 'font', 'ftfont')
            if font is not None:
                buf = HBBuffer.create()
                setup(buf, 'ltr')
                add(buf, 'utf8', [step[2]])
                buf.shape(font)
                out.append(glyphs(buf))
        elif kind == 'drop':
            if objects:
                x = objects.pop(step[1] % len(objects))
                if keep:
                    kept.append(x)
                x = None
        elif kind == 'churn':
            # reuse freed memory
            junk = [bytes([i]) * n for i in range(6)
                    for n in (40, 300, 5000)] + [b'x' * len(data_of(i))
                                                 for i in range(5)]
            del junk
        face = font = blob = None
        for name, x in objects:
            if kind == 'read' or kind == 'churn':
                out.append(read(name, x))
        x = None
    for name, x in objects:
        out.append(read(name, x))
    return out, kept


def read(name, x):
    if name == 'blob':
        data = x.get_data()
        return ['blob', len(data), sum(data[::97])]
    if name == 'face':
        return ['face', x.get_glyph_count(), x.get_upem(), x.get_index()]
    if name == 'ftface':
        return ['ftface', x.family_name, x.get_char_index('A')]
    buf = HBBuffer.create()
    setup(buf, 'ltr')
    add(buf, 'utf8', ['AVfi'])
    buf.shape(x)
    return [name, glyphs(buf)]
