"""X04: font features and families follow the style that asks for them."""
from svgpy import SVGDOMImplementation
from svgpy.core import CSSUtils
from svgpy.harfbuzz import HBFeature
from svgpy.opentype import features_from_style
from svgpy.window import Window

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'X04',
    'Chains of one to three elements that declare font-kerning, the '
    'font-variant shorthand and longhands (any combination of one keyword '
    'per group, in any order) and font-feature-settings in any spelling, '
    'whose computed style is turned into font features and compared with a '
    'table from css-fonts; lists of quoted and unquoted family names in '
    'font-family and font; and feature descriptions written and read by '
    'HarfBuzz. A case is non-trivial when two or more properties ask for '
    'features, two or more families are named, or a range is given.',
    ['keywords in lower case', 'font-variant-alternates functions are not '
     'implemented by the library', 'a value has at most one keyword of each '
     'group'])

ALT = {'historical-forms': {'hist': 1}}
CAPS = {
    'small-caps': {'smcp': 1}, 'all-small-caps': {'smcp': 1, 'c2sc': 1},
    'petite-caps': {'pcap': 1}, 'all-petite-caps': {'pcap': 1, 'c2pc': 1},
    'unicase': {'unic': 1}, 'titling-caps': {'titl': 1}}
EAST_ASIAN = [
    {'jis78': {'jp78': 1}, 'jis83': {'jp83': 1}, 'jis90': {'jp90': 1},
     'jis04': {'jp04': 1}, 'simplified': {'smpl': 1},
     'traditional': {'trad': 1}},
    {'full-width': {'fwid': 1}, 'proportional-width': {'pwid': 1}},
    {'ruby': {'ruby': 1}}]
LIGATURES = [
    {'common-ligatures': {'liga': 1, 'clig': 1},
     'no-common-ligatures': {'liga': 0, 'clig': 0}},
    {'discretionary-ligatures': {'dlig': 1},
     'no-discretionary-ligatures': {'dlig': 0}},
    {'historical-ligatures': {'hlig': 1},
     'no-historical-ligatures': {'hlig': 0}},
    {'contextual': {'calt': 1}, 'no-contextual': {'calt': 0}}]
NUMERIC = [
    {'lining-nums': {'lnum': 1}, 'oldstyle-nums': {'onum': 1}},
    {'proportional-nums': {'pnum': 1}, 'tabular-nums': {'tnum': 1}},
    {'diagonal-fractions': {'frac': 1}, 'stacked-fractions': {'afrc': 1}},
    {'ordinal': {'ordn': 1}}, {'slashed-zero': {'zero': 1}}]
POSITION = {'sub': {'subs': 1}, 'super': {'sups': 1}}
NO_LIGATURES = {'liga': 0, 'clig': 0, 'dlig': 0, 'hlig': 0, 'calt': 0}

GROUPS = {
    'font-variant-alternates': [ALT],
    'font-variant-caps': [CAPS],
    'font-variant-east-asian': EAST_ASIAN,
    'font-variant-ligatures': LIGATURES,
    'font-variant-numeric': NUMERIC,
    'font-variant-position': [POSITION],
}
TAGS = ['liga', 'kern', 'smcp', 'c2sc', 'swsh', 'ss01', 'jp04', 'jp90', 'dlig',
        'vkrn', 'calt', 'abcd', 'Wxyz', 'hist', 'subs', 'zero', '0001']
SP = ['', ' ', '  ']


def some_of(groups):
    """Zero or one keyword of each group, in any order."""
    return st.tuples(*[st.sampled_from([None] + list(g)) for g in groups]).map(
        lambda t: [k for k in t if k]).flatmap(st.permutations).map(list)


def longhand(name):
    words = some_of(GROUPS[name]).map(lambda v: v or ['normal'])
    if name == 'font-variant-ligatures':
        words = st.one_of(words, words, st.just(['none']))
    return words.map(lambda v: [name, v])


shorthand = st.one_of(
    st.just(['normal']), st.just(['none']),
    some_of([g for name in GROUPS for g in GROUPS[name]]).map(
        lambda v: v or ['normal'])).map(lambda v: ['font-variant', v])
kerning = st.sampled_from(['auto', 'normal', 'none']).map(
    lambda v: ['font-kerning', [v]])
setting = st.tuples(
    st.sampled_from(TAGS), st.sampled_from(['"', "'"]), st.sampled_from(SP),
    st.sampled_from([None, None, 'on', 'off', 'ON', 'Off', 0, 1, 2, 3, 12, 255]),
    st.sampled_from(SP), st.sampled_from(SP)).map(list)
settings = st.one_of(
    st.just(['font-feature-settings', 'normal']),
    st.lists(setting, min_size=1, max_size=4).map(
        lambda v: ['font-feature-settings', v]),
    st.lists(setting, min_size=1, max_size=4).map(
        lambda v: ['font-feature-settings', v]))
declaration = st.one_of(
    shorthand, kerning, settings, settings,
    *[longhand(name) for name in GROUPS])
declarations = st.lists(
    st.one_of(declaration, declaration, st.tuples(
        st.sampled_from(['font-kerning', 'font-feature-settings',
                         'font-variant'] + list(GROUPS)),
        st.sampled_from(['inherit', 'initial', 'unset'])).map(list)),
    max_size=6)


def text_of(d):
    name, value = d
    if isinstance(value, str):
        return '{}: {}'.format(name, value)
    if name == 'font-feature-settings':
        items = []
        for tag, quote, s0, v, s1, s2 in value:
            items.append('{}{}{}{}{}{}'.format(
                s1, quote, tag, quote,
                '' if v is None else (s0 or ' ') + str(v), s2))
        return '{}: {}'.format(name, ','.join(items).strip())
    return '{}: {}'.format(name, ' '.join(value))


def features_of_setting(value):
    out = {}
    for tag, quote, s0, v, s1, s2 in value:
        if v is None:
            v = 1
        elif isinstance(v, str):
            v = 1 if v.lower() == 'on' else 0
        out[tag] = v
    return out


def features_of(name, words):
    if words == ['none']:
        return dict(NO_LIGATURES)
    out = {}
    for group in GROUPS[name]:
        for word in words:
            out.update(group.get(word, {}))
    return out


def specified(block):
    """The longhands of one style block."""
    style = {}
    for name, value in block:
        if isinstance(value, str) and value != 'normal':
            # a CSS-wide keyword
            for key in (GROUPS if name == 'font-variant' else [name]):
                style[key] = value
        elif name == 'font-variant':
            for key in GROUPS:
                if value == ['none']:
                    words = value if key == 'font-variant-ligatures' \
                        else ['normal']
                else:
                    words = [w for w in value
                             if any(w in g for g in GROUPS[key])] or ['normal']
                style[key] = words
        else:
            style[name] = value
    return style


def expected(blocks):
    keys = ['font-kerning', 'font-feature-settings'] + list(GROUPS)
    initial = {'font-kerning': ['auto'], 'font-feature-settings': 'normal'}
    style = {k: initial.get(k, ['normal']) for k in keys}
    for block in blocks:
        own = specified(block)
        for key in keys:
            value = own.get(key, 'inherit')
            if value == 'initial':
                style[key] = initial.get(key, ['normal'])
            elif value not in ('inherit', 'unset'):
                style[key] = value
    out = {}
    kern = style['font-kerning']
    if kern != ['auto']:
        out.update(kern=int(kern == ['normal']), vkrn=int(kern == ['normal']))
    for key in GROUPS:
        out.update(features_of(key, style[key]))
    # the low-level control wins
    if style['font-feature-settings'] != 'normal':
        out.update(features_of_setting(style['font-feature-settings']))
    return style, out


def build(blocks, how):
    window = Window(SVGDOMImplementation())
    doc = window.document
    parent = doc.document_element
    for block, way in zip(blocks, how):
        element = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
        parent.append(element)
        if way == 'attribute' and block:
            element.set('style', '; '.join(text_of(d) for d in block))
        elif way == 'sheet' and block:
            sheet = doc.create_element_ns('http://www.w3.org/2000/svg',
                                          'style')
            element.set('id', 'e{}'.format(len(doc.document_element)))
            sheet.text = '#{} {{ {} }}'.format(
                element.id, '; '.join(text_of(d) for d in block))
            doc.document_element.insert(0, sheet)
        else:
            for d in block:
                name, text = text_of(d).split(': ', 1)
                element.style.set_property(name, text)
        parent = element
    return window, parent


def parsed(features):
    out = {}
    for text in features:
        tag, eq, value = text.partition('=')
        check(tag not in out, 'a feature is given twice', features=features)
        out[tag] = int(value)
    return out


@REG.test(st.tuples(st.lists(declarations, min_size=1, max_size=3),
                    st.lists(st.sampled_from(['attribute', 'property',
                                              'sheet']),
                             min_size=3, max_size=3)),
          quick=700, thorough=12000)
def features_of_a_style(case):
    """The features are those of the cascaded values, settings last."""
    blocks, how = case
    window, element = build(blocks, how)
    style, want = expected(blocks)
    computed = element.get_computed_style()
    got = parsed(features_from_style(computed))
    check(got == want, 'the features of a style', got=got, want=want,
          style=style)
    used = sum(1 for k, v in style.items()
               if v not in ('normal', ['normal'], ['auto']))
    labels = []
    if used >= 2:
        labels.append('several properties')
    if len([b for b in blocks if b]) >= 2:
        labels.append('inherited')
    return labels


@REG.test(st.tuples(st.lists(setting, min_size=1, max_size=5),
                    st.sampled_from(['font-feature-settings'])),
          quick=500, thorough=10000)
def feature_settings_value(case):
    """Each tag has its last value; a number, on, off, or nothing for one."""
    value, name = case
    text = text_of([name, value]).split(': ', 1)[1]
    got = CSSUtils.parse_font_feature_settings(text)
    check(got == features_of_setting(value), 'feature settings', text=text,
          got=got, want=features_of_setting(value))
    for tag, number in got.items():
        feature = HBFeature.fromstring('{}={}'.format(tag, number))
        check(feature is not None and feature.value == number,
              'HarfBuzz reads the feature', tag=tag, number=number)
    return ['several'] if len(value) > 1 else []


@REG.test(st.tuples(st.sampled_from(TAGS), st.sampled_from([0, 1, 2, 7, 300]),
                    st.one_of(st.none(), st.integers(0, 50)),
                    st.one_of(st.none(), st.integers(0, 50))),
          quick=400, thorough=4000)
def feature_round_trip(case):
    """A feature survives its text form, range included."""
    tag, value, start, length = case
    feature = HBFeature.fromstring('{}={}'.format(tag, value))
    check(feature is not None, 'a feature is read', case=case)
    number = feature.tag
    check(number == int.from_bytes(tag.encode(), 'big'), 'the tag',
          got=number, tag=tag)
    check(feature.value == value and feature.start == 0
          and feature.end == 0xffffffff, 'the value and the whole range')
    if start is not None:
        feature.start = start
    if length is not None:
        feature.end = feature.start + length + 1
    if (feature.start, feature.end) == (0, 1):
        return []  # HarfBuzz writes [], which it reads as everything
    text = feature.tostring()
    again = HBFeature.fromstring(text)
    check(again is not None, 'the text of a feature is read', text=text)
    for name in ('tag', 'value', 'start', 'end'):
        check(getattr(again, name) == getattr(feature, name),
              'the feature survives its text form', text=text, name=name)
    return ['range'] if start or length is not None else []


# -- families
word = st.sampled_from(['Arial', 'sans', 'serif', 'DejaVu', 'Sans', 'Gothic',
                        'A1', 'x-y', 'monospace', 'Été'])
unquoted = st.lists(word, min_size=1, max_size=3).map(lambda v: ['u', v])
quoted = st.tuples(st.sampled_from(['"', "'"]),
                   st.text(alphabet="ab ,;1(/'\"", min_size=1, max_size=8)).map(
    lambda t: [t[0], ' '.join(t[1].replace(t[0], '').split()) or 'q'])
family = st.one_of(unquoted, quoted)


def text_of_family(f):
    if f[0] == 'u':
        return ' '.join(f[1])
    return f[0] + f[1] + f[0]


def name_of_family(f):
    return ' '.join(f[1]) if f[0] == 'u' else f[1]


@REG.test(st.tuples(st.lists(family, min_size=1, max_size=4),
                    st.sampled_from([',', ', ', ' , ', ' ,']),
                    st.sampled_from(['style', 'font', 'attribute', 'sheet',
                                     'inherited']),
                    st.sampled_from(['', 'italic ', 'bold ', 'normal ',
                                     'small-caps 700 ', 'italic condensed ']),
                    st.sampled_from(['12px', '2em', 'large', '150%']),
                    st.sampled_from(['', '/2', ' / 1.5', '/30px'])),
          quick=600, thorough=10000)
def family_names(case):
    """The families of a style are the named ones, in order."""
    families, comma, how, lead, size, height = case
    text = comma.join(text_of_family(f) for f in families)
    want = [name_of_family(f) for f in families]
    window = Window(SVGDOMImplementation())
    doc = window.document
    root = doc.document_element
    element = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
    root.append(element)
    if how == 'style':
        element.style.set_property('font-family', text)
    elif how == 'attribute':
        element.set('font-family', text)
    elif how == 'font':
        element.set('style', 'font: {}{}{} {}'.format(lead, size, height,
                                                      text))
    elif how == 'sheet':
        sheet = doc.create_element_ns('http://www.w3.org/2000/svg', 'style')
        sheet.text = 'text {{ font: {}{}{} {} }}'.format(lead, size, height,
                                                         text)
        root.insert(0, sheet)
    else:
        root.style.set_property('font-family', text)
    style = element.get_computed_style()
    got = style['font-family']
    check(got == want, 'the families of a style', text=text, got=got,
          want=want, how=how)
    return [how] if len(families) > 1 else []
