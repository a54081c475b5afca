"""F03: the font chosen for an element and its metrics.

The process sees only the small fonts built here (pbt.tinyfont), so that the
right answer and every number are known."""
import atexit
import os
import random
import shutil
import tempfile

from .. import tinyfont
from ..gens import st
from ..harness import Registry, check

CHARS = 'xXHh0ab \u6c34\u00e9\u05d0'
STRETCH = {'ultra-condensed': 50, 'extra-condensed': 63, 'condensed': 75,
           'semi-condensed': 87, 'normal': 100, 'semi-expanded': 113,
           'expanded': 125, 'extra-expanded': 150, 'ultra-expanded': 200}


def world():
    """The installed fonts: the same ones in every run."""
    rng = random.Random(20)
    faces = []

    def add(family, width, weight, slant, chars):
        glyphs = {c: (rng.randrange(30, 90) * 10,
                      0 if c == ' ' else rng.randrange(30, 90) * 10)
                  for c in chars}
        faces.append({
            'family': family, 'width': width, 'weight': weight,
            'slant': slant, 'glyphs': glyphs,
            'ascent': rng.randrange(70, 110) * 10,
            'descent': rng.randrange(10, 40) * 10})

    for weight in (100, 200, 300, 400, 500, 600, 700, 800, 900):
        add('Alpha', 100, weight, 'normal', CHARS)
    add('Alpha', 75, 400, 'normal', CHARS)
    add('Alpha', 100, 700, 'italic', CHARS)
    for family, chars in (
            ('Beta', CHARS), ('Gamma Two', 'xH0ab '), ('Delta-9', 'x0ab '),
            ('Eta', 'xHh0a \u6c34'), ('Zeta: 1, 2', 'xX0ab \u05d0'),
            ('Theta', 'xab '), ('Iota', CHARS), ('Kappa', CHARS),
            ('Lambda', CHARS), ('Mu', CHARS)):
        combos = [(w, k, s) for w in sorted(STRETCH.values())
                  for k in (100, 200, 250, 300, 400, 450, 500, 600, 700, 800,
                            900, 950)
                  for s in ('normal', 'italic', 'oblique')]
        if family in ('Iota', 'Kappa'):  # many weights
            combos = [c for c in combos if c[0] == 100]
        elif family in ('Lambda', 'Mu'):  # many widths
            combos = [c for c in combos if c[1] == 400]
        for combo in rng.sample(combos, 9):
            add(family, *combo, chars)
    return faces


FACES = world()
FAMILIES = sorted({f['family'] for f in FACES})
ALIASES = [('sans-serif', 'Alpha', 'weak'), ('serif', 'Beta', 'weak'),
           ('monospace', 'Iota', 'weak'), ('cursive', 'Alpha', 'weak'),
           ('fantasy', 'Eta', 'weak'), ('Betalike', 'Beta', 'same')]
GENERIC = {f: t for f, t, _b in ALIASES}
FOLDER = tempfile.mkdtemp(prefix='f03-')
_OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(FOLDER, ignore_errors=True)


os.environ['FONTCONFIG_FILE'] = tinyfont.configure(
    FOLDER,
    {'{:03d}.ttf'.format(i): tinyfont.build(
        f['family'], f['width'], f['weight'], f['slant'], f['glyphs'],
        f['ascent'], f['descent']) for i, f in enumerate(FACES)},
    ALIASES)

from svgpy import SVGLength, SVGParser  # noqa: E402
from svgpy.core import Font, FontManager  # noqa: E402

REG = Registry(
    'F03',
    'Lists of families (installed ones in any case, generic ones, aliases, '
    'names that are not installed), widths by keyword and percentage, styles, '
    'weights from 1 to 1000 and sizes, with a text, given by attributes, a '
    'style attribute, a style sheet or inherited. The face and every metric '
    'are compared with CSS font matching over about a hundred tiny fonts '
    'made by the check. A case is non-trivial when the face is not the '
    'default one.',
    ['FreeType and fontconfig of the sandbox', 'metrics up to the pixel they '
     'are rounded to'])

NS = 'http://www.w3.org/2000/svg'
family = st.one_of(
    st.sampled_from(FAMILIES), st.sampled_from(FAMILIES),
    st.sampled_from(sorted(GENERIC)),
    st.sampled_from(['No Such', 'nosuch', 'Alphabet', 'Alph', 'Gamma']),
    st.sampled_from(['ALPHA', 'beta', 'gamma two', 'iOTA']))
families = st.lists(family, min_size=1, max_size=4)
stretch = st.one_of(
    st.sampled_from(sorted(STRETCH)), st.sampled_from(['normal'] * 2),
    st.sampled_from(['50%', '62.5%', '75%', '87.5%', '100%', '112.5%',
                     '125%', '150%', '200%', '60%', '95%', '101%', '180%']))
style = st.sampled_from(['normal', 'normal', 'italic', 'oblique',
                         'oblique 10deg'])
weight = st.one_of(
    st.sampled_from(['normal', 'bold']),
    st.integers(1, 9).map(lambda n: str(100 * n)),
    st.sampled_from(['1', '150', '250', '350', '399', '401', '449', '450',
                     '499', '501', '550', '950', '1000']))
size = st.sampled_from([10, 16, 20, 31, 50, 100])
text = st.one_of(
    st.just('x'), st.sampled_from(['a b', '\tx\n', ' ', '']),
    st.lists(st.sampled_from(CHARS), min_size=1, max_size=4).map(''.join),
    st.sampled_from(['q', 'x\u0416']))
HOW = ['attribute', 'style', 'sheet', 'inherit', 'important']
case = st.fixed_dictionaries({
    'families': families, 'stretch': stretch, 'style': style,
    'weight': weight, 'size': size, 'text': text,
    'how': st.sampled_from(HOW)})


def escape(s):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('"', '&quot;')):
        s = s.replace(a, b)
    return s


def declarations(c):
    names = ', '.join(n if n.isalpha() or n in GENERIC else
                      "'{}'".format(n) for n in c['families'])
    return [('font-family', names), ('font-stretch', c['stretch']),
            ('font-style', c['style']), ('font-weight', c['weight']),
            ('font-size', '{}px'.format(c['size']))]


def element(c):
    decls = declarations(c)
    body = escape(c['text'])
    css = '; '.join('{}: {}'.format(*d) for d in decls)
    attrs = ' '.join('{}="{}"'.format(n, escape(v)) for n, v in decls)
    sheet = ''
    if c['how'] == 'attribute':
        inner = '<text {}>{}</text>'.format(attrs, body)
    elif c['how'] == 'inherit':
        inner = '<g {}><text>{}</text></g>'.format(attrs, body)
    elif c['how'] == 'style':
        inner = '<text style="{}">{}</text>'.format(css, body)
    elif c['how'] == 'important':
        sheet = 'text {{ {} }}'.format(
            '; '.join('{}: {} !important'.format(*d) for d in decls))
        inner = ('<text style="font-family: Theta; font-weight: 100">{}'
                 '</text>').format(body)
    else:
        sheet = 'text {{ {} }}'.format(css)
        inner = '<text font-family="Theta">{}</text>'.format(body)
    root = SVGParser().fromstring(
        '<svg xmlns="{}" width="100" height="100"><style>{}</style>{}</svg>'
        .format(NS, escape(sheet), inner))
    found = [x for x in root.iter() if x.local_name == 'text']
    return found[0]


# ------------------------------------------------------------------- oracle

def pick(values, wanted, order):
    """The value CSS takes: `order` gives the directions to search."""
    if wanted in values:
        return wanted
    for lower, upper, downwards in order:
        inside = [v for v in values if lower < v < upper]
        if inside:
            return max(inside) if downwards else min(inside)
    raise AssertionError


def by_width(faces, wanted):
    values = {f['width'] for f in faces}
    near = [v for v in values if abs(v - wanted) <= 0.5]
    if near:
        return near[0]
    down, up = (0, wanted, True), (wanted, 1e9, False)
    return pick(values, wanted,
                [down, up] if wanted <= 100 else [up, down])


def by_slant(faces, wanted):
    values = {f['slant'] for f in faces}
    order = {'normal': ('normal', 'oblique', 'italic'),
             'italic': ('italic', 'oblique', 'normal'),
             'oblique': ('oblique', 'italic', 'normal')}[wanted.split()[0]]
    return [s for s in order if s in values][0]


def by_weight(faces, wanted):
    values = {f['weight'] for f in faces}
    down, up = (0, wanted, True), (wanted, 1e9, False)
    if wanted < 400:
        order = [down, up]
    elif wanted <= 500:
        order = [(wanted, 500.5, False), down, (500, 1e9, False)]
    else:
        order = [up, down]
    return pick(values, wanted, order)


def resolve(name):
    """The installed family that a name stands for."""
    for f in FAMILIES:
        if f.lower() == name.lower():
            return f
    return GENERIC.get(name)


def best(name, c):
    faces = [f for f in FACES if f['family'] == name]
    wanted = STRETCH.get(c['stretch'])
    if wanted is None:
        wanted = float(c['stretch'][:-1])
    width = by_width(faces, wanted)
    faces = [f for f in faces if f['width'] == width]
    slant = by_slant(faces, c['style'])
    faces = [f for f in faces if f['slant'] == slant]
    number = {'normal': 400, 'bold': 700}.get(c['weight'])
    weight_ = by_weight(faces, int(c['weight']) if number is None else number)
    faces = [f for f in faces if f['weight'] == weight_]
    assert len(faces) == 1
    return faces[0]


def expected(c):
    names = [resolve(n) for n in c['families']] + ['Alpha']
    for name in names:
        if name is None:
            continue
        face = best(name, c)
        if all(ch in face['glyphs'] or ch in ' \t\r\n' for ch in c['text']):
            return face
    return None


def describe(face):
    return (face['family'],
            '{} W{} S{}'.format(tinyfont.SLANT_NAME[face['slant']],
                                face['width'], face['weight']))


@REG.test(case, quick=900, thorough=40000)
def chosen(c):
    font = Font(element(c))
    got = (font.family, font.face.style_name)
    want = expected(c)
    if want is None:
        check(got[0] == 'Alpha', 'no font has the characters, and the '
              'default font is not used', got=got)
        return ['fallback']
    check(got == describe(want), 'CSS font matching picks another face',
          got=got, want=describe(want))
    labels = [want['slant'], c['how']]
    return labels if want['family'] != 'Alpha' else []


@REG.test(case, quick=350, thorough=10000)
def metrics(c):
    want = expected(c)
    el = element(c)
    font = Font(el)
    if want is None:
        return []
    k = c['size'] / tinyfont.UPEM

    def close(name, value, units, slack=1.02):
        check(abs(value - units * k) <= slack,
              'the metric is not the one of the font', name=name, got=value,
              want=units * k)

    glyphs = want['glyphs']
    check(font.height == c['size'], 'pixels per em', got=font.height)
    close('ascent', font.ascent, want['ascent'])
    close('descent', font.descent, -want['descent'])
    close('line_height', font.line_height, want['ascent'] + want['descent'], 2)
    labels = []
    zero = glyphs.get('0', (500, 700))
    close('ch', font.ch_advance, zero[0])
    close('x-height', font.x_height, glyphs['x'][1])
    check(font.cap_height > 0, 'cap height')
    if '\u6c34' in glyphs:
        close('ic', font.ic_advance, glyphs['\u6c34'][0])
        labels.append('ic')
    else:
        check(font.ic_advance == 0, 'ic without a glyph')
    for unit, value in (('ex', font.x_height), ('ch', font.ch_advance),
                        ('cap', font.cap_height), ('ic', font.ic_advance)):
        value = value or c['size']
        got = SVGLength('3' + unit, context=el).value()
        check(abs(got - 3 * value) < 1e-6, 'a length in font units',
              unit=unit, got=got, want=3 * value)
    # the text is set in that font
    shown = ' '.join(c['text'].split())
    if all(ch in glyphs for ch in shown):
        length = sum(glyphs[ch][0] for ch in shown) * k
        got = el.get_computed_text_length()
        check(abs(got - length) <= 0.02 + 0.6 * len(shown),
              'the text is not as long as its characters', got=got,
              want=length)
        labels.append('text')
    return labels + ['metrics']


@REG.probe('F03-cap-height')
def _cap_height():
    font = Font(element({
        'families': ['Beta'], 'stretch': 'normal', 'style': 'normal',
        'weight': '400', 'size': 100, 'text': 'H', 'how': 'attribute'}))
    # every tiny glyph is lower than 900 units; its line is higher
    face = best('Beta', {'stretch': 'normal', 'style': 'normal',
                         'weight': '400'})
    return abs(font.cap_height - face['glyphs']['H'][1] / 10) > 1.02


def contours(path_data):
    out = []
    for segment in path_data:
        if segment.type in 'Mm':
            out.append([])
        if segment.type not in 'Zz':
            out[-1].append(tuple(segment.values[-2:]))
    return out


@REG.test(st.tuples(case, st.sampled_from(['', 'none', 'weight', 'style',
                                           'weight style']),
                    st.integers(-50, 50), st.integers(-50, 50)),
          quick=350, thorough=10000)
def outlines(data):
    """Every character is drawn by its glyph, with a fat or slanted one
    only where the style asks for it and the face has none."""
    c, synthesis, x, y = data
    c = dict(c, text=c['text'].replace('\u05d0', 'x'))
    want = expected(c)
    if want is None:
        return []
    el = element(c)
    el.set('x', str(x))
    el.set('y', str(y))
    if synthesis:
        el.set('font-synthesis', synthesis)
    number = {'normal': 400, 'bold': 700}.get(c['weight'], c['weight'])
    fat, slanted = None, None  # unknown
    if (int(number) <= 400 or want['weight'] >= min(int(number), 700)
            or synthesis in ('none', 'style')):
        fat = False
    elif int(number) >= 700 and want['weight'] <= 400:
        fat = True
    if c['style'] == 'normal' or want['slant'] != 'normal' or synthesis in (
            'none', 'weight'):
        slanted = False
    else:
        slanted = True
    shown = ' '.join(c['text'].split())
    if not all(ch in want['glyphs'] for ch in shown):
        return []
    k = c['size'] / tinyfont.UPEM
    got = contours(el.get_path_data())
    drawn = [i for i, ch in enumerate(shown) if want['glyphs'][ch][1]]
    check(len(got) == len(drawn), 'the number of outlines', text=shown,
          got=len(got))
    pen = x
    slack = 0.6
    for i, ch in enumerate(shown):
        advance, height = want['glyphs'][ch]
        if i in drawn:
            box = got[drawn.index(i)]
            xs, ys = [p[0] for p in box], [p[1] for p in box]
            tall = max(ys) - min(ys)
            low = [p[0] for p in box if p[1] > min(ys) + tall / 2]
            high = [p[0] for p in box if p[1] <= min(ys) + tall / 2]
            lean = min(high) - min(low)
            if slanted is not None:
                check((lean > 0.1 * tall) is slanted and lean > -0.1,
                      'the glyph leans', lean=lean, wanted=slanted,
                      face=describe(want))
            if fat is not None:
                wider = (max(low) - min(low)) - (max(advance - 20, 40)
                                                 - 20) * k
                taller = tall - height * k
                check((wider > 0.01 * c['size']) is fat
                      and (taller > 0.01 * c['size']) is fat,
                      'the glyph is fat', wider=wider, taller=taller,
                      wanted=fat, face=describe(want))
            if fat is False:
                check(abs(min(low) - pen - 20 * k) <= slack
                      and abs(max(ys) - y) <= 0.01
                      and abs(tall - height * k) <= 0.51,
                      'the glyph is drawn elsewhere', char=ch, at=i, got=box,
                      pen=pen, height=height * k)
        pen += advance * k
        slack += 0.55
    return [n for n, on in (('fat', fat), ('slanted', slanted),
                            ('text', shown)) if on]


VARY = ['families', 'stretch', 'style', 'weight', 'size', 'text', 'how']


@REG.test(st.tuples(case, case, st.lists(st.sampled_from(VARY), max_size=2)),
          quick=200, thorough=6000)
def equality(data):
    a, other, fields = data
    b = dict(a)
    for f in fields:
        b[f] = other[f]
    x, y = Font(element(a)), Font(element(b))

    def key(c):
        number = {'normal': 400, 'bold': 700}.get(c['weight'], c['weight'])
        return (c['families'], c['stretch'], c['style'], int(number),
                c['size'])

    same = key(a) == key(b)
    check((x == y) is same and (y == x) is same and (x != y) is not same,
          'fonts of two elements compare wrongly', same=same)
    check(x != 1 and not (x == 'a'), 'a font equals something else')
    check(x.attributes['font-family'] == a['families'], 'computed family',
          got=x.attributes['font-family'])
    return fields


@REG.test(st.one_of(family, st.sampled_from(FAMILIES)), quick=60,
          thorough=400)
def installed(name):
    rows = FontManager.list(name)
    here = [f for f in FACES if f['family'].lower() == name.lower()]
    slants = {'normal': 0, 'italic': 100, 'oblique': 110}
    got = sorted((r['width'], r['weight'], r['slant'], r['index'])
                 for r in rows)
    want = sorted((f['width'], f['weight'], slants[f['slant']], 0)
                  for f in here)
    check(got == want, 'the list of faces', got=got[:4], want=want[:4])
    for r in rows:
        face = FACES[int(os.path.basename(r['file'])[:3])]
        check(face['family'] == r['family'] and face['weight'] == r['weight'],
              'the file of a face', row=r)
    match = FontManager.match(name)
    check(match == (resolve(name) or 'Alpha'), 'the family matched', got=match)
    return [name] if here else []
