"""C02: shorthand properties expand and reassemble."""
import re

from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.css.props import css_property_descriptor_map
from svgpy.css.shorthands import shorthand_property_map

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'C02',
    'Values of the eight shorthands from their grammars (components in any '
    'allowed order, upper and lower case wide keywords, priorities), and '
    'values the grammars refuse, set on plain, rule and inline declaration '
    'blocks that may already hold other declarations. A case is non-trivial '
    'when the shorthand has two or more components, or is refused.',
    ['a longhand a shorthand does not mention reads "initial" or its initial '
     'value', 'one layer of mask images'])

SVG = 'http://www.w3.org/2000/svg'
WIDE = ['inherit', 'initial', 'unset']
FONT = ['font-style', 'font-weight', 'font-stretch', 'font-size',
        'line-height', 'font-family']
VARIANT = list(shorthand_property_map['font-variant'])
LONGHANDS = {
    'font': FONT + VARIANT,
    'font-variant': VARIANT,
}
for _name, _value in shorthand_property_map.items():
    LONGHANDS.setdefault(_name, list(_value))


def initial(name):
    return css_property_descriptor_map[name].initial_value


def pick(*args):
    return st.sampled_from(args)


def ordered(parts, least=1):
    """A selection of (longhand, value) parts in any order."""
    return st.lists(st.sampled_from(range(len(parts))), unique=True,
                    min_size=least).flatmap(
        lambda which: st.tuples(*[
            st.tuples(st.just(parts[i][0]), parts[i][1]) for i in which]).map(
                lambda items: [list(x) for x in items]))


def plain(items):
    return {'text': ' '.join(v for _, v in items), 'map': dict(items),
            'parts': len(items)}


def subset(*groups):
    """One or more of the groups' values, in any order, as one value."""
    return ordered([(str(i), pick(*g)) for i, g in enumerate(groups)]).map(
        lambda items: ' '.join(v for _, v in items))


length = pick('0', '1px', '10px', '1.5em', '2mm', '-1px', '50%')
size = pick('12px', '1.5em', '120%', 'small', 'xx-large', 'larger', 'medium',
            '0')
family = st.lists(pick('serif', 'sans-serif', 'monospace', '"Foo Bar"',
                       "'A'", 'system-ui'), min_size=1, max_size=3).map(
    ', '.join)
number = pick('0', '1', '30', '2.5')
color = pick('red', '#123456', '#abc', 'rgb(1, 2, 3)', 'currentcolor',
             'transparent', 'rgba(0, 0, 0, 0.5)')
image = pick('url("a.svg#m")', 'url(b.png)', 'linear-gradient(red, blue)')

variant_ligatures = subset(['common-ligatures', 'no-common-ligatures'],
                           ['discretionary-ligatures',
                            'no-discretionary-ligatures'],
                           ['historical-ligatures',
                            'no-historical-ligatures'],
                           ['contextual', 'no-contextual'])
variant_caps = pick('small-caps', 'all-small-caps', 'petite-caps',
                    'all-petite-caps', 'unicase', 'titling-caps')
variant_numeric = subset(['lining-nums', 'oldstyle-nums'],
                         ['proportional-nums', 'tabular-nums'],
                         ['diagonal-fractions', 'stacked-fractions'],
                         ['ordinal'], ['slashed-zero'])
variant_east = subset(['jis78', 'jis83', 'jis04', 'simplified',
                       'traditional'], ['full-width', 'proportional-width'],
                      ['ruby'])
variant_alt = pick('historical-forms', 'stylistic(a)', 'styleset(a, b)',
                   'swash(x)')


def font_text(case):
    items, size_, line, family_ = case
    text = ' '.join([v for _, v in items] + [
        size_ + ('' if line is None else line[1] + line[0]), family_])
    m = dict(items)
    if 'variant' in m:
        m['font-variant-caps'] = m.pop('variant')
    m['font-size'] = size_
    m['font-family'] = family_
    if line is not None:
        m['line-height'] = line[0]
    return {'text': text, 'map': m, 'parts': 2 + len(items)}


font = st.tuples(
    st.one_of(st.just([]), ordered([
        ('font-style', pick('italic', 'oblique')),
        ('variant', pick('small-caps')),
        ('font-weight', pick('bold', 'bolder', 'lighter', '100', '650')),
        ('font-stretch', pick('condensed', 'ultra-expanded',
                              'semi-condensed'))])),
    size,
    st.one_of(st.none(), st.tuples(
        pick('1.5', '20px', '120%', '2'), pick('/', ' / ')).map(list)),
    family).map(font_text)


def mask_text(items):
    parts, m = [], {}
    for name, value in items:
        if name == 'position':
            text, m['mask-position'] = value[0], value[0]
            if value[1] is not None:
                text += value[2] + value[1]
                m['mask-size'] = value[1]
            parts.append(text)
        elif name == 'boxes':
            parts.append(' '.join(value))
            m['mask-origin'] = value[0]
            m['mask-clip'] = value[-1]
        else:
            parts.append(value)
            m[name] = value
    return {'text': ' '.join(parts), 'map': m, 'parts': len(parts)}


box = pick('border-box', 'padding-box', 'content-box', 'margin-box',
           'fill-box', 'stroke-box', 'view-box')
mask = ordered([
    ('mask-image', image),
    ('position', st.tuples(
        pick('left', 'center', '10px', '10px 20%', 'right top', '50% 50%'),
        st.one_of(st.none(), pick('auto', '10px', 'cover', 'contain',
                                  '10px 20%', 'auto 5px')),
        pick('/', ' / '))),
    ('mask-repeat', pick('repeat-x', 'repeat-y', 'no-repeat', 'round',
                         'space', 'repeat space', 'round no-repeat')),
    ('boxes', st.lists(box, min_size=1, max_size=2)),
    ('mask-composite', pick('subtract', 'intersect', 'exclude')),
    ('mask-mode', pick('alpha', 'luminance', 'match-source'))]).map(mask_text)


def border_text(items):
    parts, m = [], {}
    for name, value in items:
        if name == 'slices':
            slice_, width, outset = value
            text = m['mask-border-slice'] = slice_
            if width is not None:
                text += ' / ' + width
                m['mask-border-width'] = width
                if outset is not None:
                    text += ' / ' + outset
                    m['mask-border-outset'] = outset
            parts.append(text)
        else:
            parts.append(value)
            m[name] = value
    return {'text': ' '.join(parts), 'map': m, 'parts': len(parts)}


mask_border = ordered([
    ('mask-border-source', image),
    ('slices', st.tuples(
        pick('1', '10%', '1 2', '1 2 3 4', '30 fill', '1 2 fill'),
        st.one_of(st.none(), pick('2', '1px 2px', 'auto', '10% 5px')),
        st.one_of(st.none(), pick('3', '4px', '1px 2')))),
    ('mask-border-repeat', pick('repeat', 'round', 'space',
                                'round stretch')),
    ('mask-border-mode', pick('luminance', 'alpha'))]).map(border_text)

WHITE = {'normal': ('collapse', 'wrap', 'none'),
         'pre': ('preserve', 'nowrap', 'none'),
         'nowrap': ('collapse', 'nowrap', 'none'),
         'pre-wrap': ('preserve', 'wrap', 'none'),
         'pre-line': ('preserve-breaks', 'wrap', 'none')}
SYNTH = {'none': ('none', 'none'), 'weight': ('auto', 'none'),
         'style': ('none', 'auto'), 'weight style': ('auto', 'auto'),
         'style weight': ('auto', 'auto')}


def table(name, rows):
    return st.sampled_from(sorted(rows)).map(lambda k: {
        'text': k, 'map': dict(zip(LONGHANDS[name], rows[k])),
        'parts': len(k.split())})


def everything(name, values):
    return {'text': values, 'parts': 1,
            'map': {x: values.lower() for x in LONGHANDS[name]}}


overflow = st.lists(pick('visible', 'hidden', 'clip', 'scroll', 'auto'),
                    min_size=1, max_size=2).map(lambda v: {
                        'text': ' '.join(v), 'parts': len(v),
                        'map': {'overflow-x': v[0], 'overflow-y': v[-1]}})
VALUES = {
    'font': font,
    'font-variant': st.one_of(
        ordered([('font-variant-ligatures', variant_ligatures),
                 ('font-variant-caps', variant_caps),
                 ('font-variant-alternates', variant_alt),
                 ('font-variant-numeric', variant_numeric),
                 ('font-variant-east-asian', variant_east),
                 ('font-variant-position', pick('sub', 'super'))]).map(plain),
        st.just({'text': 'normal', 'map': {}, 'parts': 1}),
        st.just({'text': 'none', 'parts': 1,
                 'map': {'font-variant-ligatures': 'none'}})),
    'font-synthesis': table('font-synthesis', SYNTH),
    'mask': mask,
    'mask-border': mask_border,
    'overflow': overflow,
    'text-decoration': ordered([
        ('text-decoration-line', st.one_of(pick('none'), subset(
            ['underline'], ['overline'], ['line-through'], ['blink']))),
        ('text-decoration-style', pick('solid', 'double', 'dotted',
                                       'dashed', 'wavy')),
        ('text-decoration-color', color)]).map(plain),
    'white-space': table('white-space', WHITE),
}
REFUSED = {
    'font': ['12px', 'serif', 'bold serif', 'foo 12px serif',
             'italic italic 12px serif', '12px/ serif', '/2 serif', 'bold',
             '12px serif 3px', 'bold bold 12px serif'],
    'font-variant': ['foo', 'small-caps foo', 'small-caps unicase',
                     'normal small-caps', 'none sub', '3px'],
    'font-synthesis': ['foo', 'weight weight', 'none weight',
                       'weight style none', '1px'],
    'mask': ['foo', 'url(a) url(b)', 'alpha luminance', '1px / foo', '3deg',
             'add subtract'],
    'mask-border': ['foo', 'url(a) url(b)', 'alpha luminance', '/ 1px',
                    '1 2 3 4 5', '1 / 2px / 3px / 4px'],
    'overflow': ['foo', 'hidden foo', 'hidden visible scroll', '1px',
                 'hidden, visible', 'inherit hidden'],
    'text-decoration': ['foo', 'red blue', 'dotted dashed', 'red foo',
                        'underline underline', '1px', 'none underline'],
    'white-space': ['foo', 'pre nowrap', '1px', 'pre pre'],
}
for _name in REFUSED:
    REFUSED[_name] += ['inherit unset', 'initial initial']
NAMES = sorted(VALUES)
good = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(
    st.just(n), st.one_of(
        VALUES[n], VALUES[n], VALUES[n], VALUES[n], VALUES[n], VALUES[n],
        st.sampled_from(WIDE + ['INHERIT', 'Unset']).map(
            lambda k: everything(n, k)))).map(list))
bad = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(
    st.just(n), st.sampled_from(REFUSED[n])).map(list))
prior = st.one_of(st.just(''), st.just(''), st.just('important'))
start = st.lists(st.one_of(
    good.map(lambda x: [x[0], x[1]['text']]),
    st.tuples(pick('fill', 'stroke'), pick('red', 'none')).map(list)),
    max_size=2)
where = st.sampled_from(['plain', 'rule', 'inline'])


def block(kind, declarations):
    """A declaration block of a kind; the first declarations are text."""
    text = '; '.join('%s: %s' % (n, v) for n, v in declarations)
    if kind == 'rule':
        return CSSParser.fromstring('a { %s }' % text)[0].style, None
    if kind == 'inline':
        element = SVGParser().create_element_ns(SVG, 'g')
        if declarations:
            element.set('style', text)
        return element.style, element
    style = CSSStyleDeclaration()
    for n, v in declarations:
        style.set_property(n, v)
    return style, None


def read(style, names):
    return {n: (style.get_property_value(n), style.get_property_priority(n))
            for n in names}


def same(name, got, want):
    if want is None:
        return got in ('initial', initial(name))
    return canon(got) == canon(want)


def canon(text):
    text = re.sub(r'url\(([^"\')]*)\)', r'url("\1")', text)
    return text.replace(' ', '').replace("'", '"').lower()


def settle(name, value):
    return initial(name) if value == 'initial' else value


def described(element, style):
    """Does the style attribute describe the element's declarations?

    "mask" resets "mask-border", whose declarations the block keeps.
    """
    copy = SVGParser().create_element_ns(SVG, 'g')
    copy.set('style', element.get('style') or '')
    drop = ()
    if style.get_property_value('mask') or copy.style['mask']:
        drop = LONGHANDS['mask-border']
    one, two = ({n: settle(n, v) for n, (v, _) in x.items() if n not in drop}
                for x in (copy.style, style))
    check(one == two, 'the style attribute describes other declarations',
          attribute=element.get('style'), got=one, expected=two)


@REG.test(st.tuples(good, prior, where, start), quick=4000)
def expands(case):
    """Set, read the longhands, read the shorthand, set that, remove."""
    (name, value), priority, kind, first = case
    style, element = block(kind, first)
    if kind == 'inline':
        priority = ''
    others = [n for n in style if n not in LONGHANDS[name]]
    if name == 'font':
        others = []
    kept = read(style, others)
    style.set_property(name, value['text'], priority)
    for n in LONGHANDS[name]:
        got = style.get_property_value(n)
        want = value['map'].get(n)
        check(same(n, got, want), 'a longhand has the wrong value',
              shorthand=name, value=value['text'], longhand=n, got=got,
              expected=want)
        check(style.get_property_priority(n) == priority,
              'a longhand has the wrong priority', longhand=n)
    check(style.get_property_priority(name) == priority,
          'the shorthand has the wrong priority')
    check(read(style, others) == kept, 'other declarations changed',
          shorthand=name, value=value['text'], got=read(style, others),
          expected=kept)
    text = style.get_property_value(name)
    check(text != '', 'the shorthand does not read back', shorthand=name,
          value=value['text'], longhands=read(style, LONGHANDS[name]))
    new = CSSStyleDeclaration()
    new.set_property(name, text, priority)
    for n in LONGHANDS[name]:
        got, want = (settle(n, x.get_property_value(n)) for x in (new, style))
        check(got.replace(' ', '') == want.replace(' ', ''),
              'the shorthand reads back as something else', shorthand=name,
              value=value['text'], text=text, longhand=n, got=got,
              expected=want)
    check(new.get_property_value(name) == text,
          'reading the shorthand is not stable', shorthand=name, text=text,
          got=new.get_property_value(name))
    if element is not None:
        described(element, style)
    old = style.remove_property(name)
    check(old == text, 'removal returns another value', got=old, text=text)
    left = [n for n in LONGHANDS[name] if n in style]
    check(not left and style.get_property_value(name) == '',
          'longhands remain', shorthand=name, left=left)
    check(read(style, others) == kept, 'removal changed other declarations',
          shorthand=name)
    if element is not None and not first:
        check(not element.get('style'), 'the style attribute remains',
              attribute=element.get('style'))
    out = set()
    if value['parts'] > 1:
        out.add(name)
    return out


@REG.test(st.tuples(good, prior), quick=1500)
def longhands_make_it(case):
    """Setting the longhands one by one reads back through the shorthand."""
    (name, value), priority = case
    style = CSSStyleDeclaration()
    style.set_property(name, value['text'], priority)
    text = style.get_property_value(name)
    other = CSSStyleDeclaration()
    for n in LONGHANDS[name]:
        other.set_property(n, style.get_property_value(n), priority)
    check(other.get_property_value(name) == text,
          'the same longhands give another shorthand', shorthand=name,
          got=other.get_property_value(name), expected=text)
    victim = LONGHANDS[name][len(value['text']) % len(LONGHANDS[name])]
    other.remove_property(victim)
    check(other.get_property_value(name) == '',
          'an incomplete shorthand reads back', shorthand=name,
          missing=victim)
    other = CSSStyleDeclaration()
    for i, n in enumerate(LONGHANDS[name]):
        other.set_property(n, style.get_property_value(n),
                           'important' if n == victim else '')
    check(other.get_property_value(name) == ''
          and other.get_property_priority(name) == '',
          'mixed priorities read back', shorthand=name)
    return {name} if value['parts'] > 1 else set()


@REG.test(st.tuples(bad, prior, where, start), quick=1200)
def survives(case):
    """A value the grammar does not have leaves a block of valid values."""
    (name, text), priority, kind, first = case
    style, element = block(kind, first)
    if kind == 'inline':
        priority = ''
    others = [n for n in style if n not in LONGHANDS[name]]
    before, kept = read(style, LONGHANDS[name]), read(style, others)
    style.set_property(name, text, priority)
    after = read(style, LONGHANDS[name])
    check(read(style, others) == kept, 'other declarations changed',
          shorthand=name, value=text)
    if after != before:
        for n, (value, prio) in after.items():
            check(value.lower() in WIDE
                  or css_property_descriptor_map[n].supports(value),
                  'a longhand has a value it does not support',
                  shorthand=name, value=text, longhand=n, got=value)
            check(prio == priority, 'a longhand has the wrong priority',
                  longhand=n, got=prio)
    if element is not None:
        described(element, style)
    style.remove_property(name)
    check(not [n for n in LONGHANDS[name] if n in style], 'longhands remain')
    return {'refused ' + name}


def overrides(name):
    others = {n: [] for n in LONGHANDS[name]}
    if name == 'white-space':
        others['text-space-trim'] = ['trim-inner', 'discard-before']
        others['text-wrap'] = ['balance', 'wrap', 'nowrap']
        others['text-space-collapse'] = ['discard', 'preserve-spaces',
                                         'collapse', 'preserve']
    return st.lists(st.tuples(
        st.sampled_from(LONGHANDS[name]),
        VALUES[name] | st.sampled_from(WIDE).map(
            lambda k: everything(name, k)),
        st.integers(0, 9)).map(lambda x: [
            x[0], others[x[0]][x[2] % len(others[x[0]])]
            if others[x[0]] and x[2] < 6
            else x[1]['map'].get(x[0]) or 'initial']), max_size=4)


@REG.test(st.sampled_from(NAMES).flatmap(lambda n: st.tuples(
    st.just(n), VALUES[n], overrides(n))), quick=2000)
def no_lies(case):
    """A shorthand that reads back stands for the longhands as they are."""
    name, value, edits = case
    style = CSSStyleDeclaration()
    style.set_property(name, value['text'])
    for longhand, v in edits:
        style.set_property(longhand, v)
    text = style.get_property_value(name)
    if text == '':
        return set()
    new = CSSStyleDeclaration()
    new.set_property(name, text)
    for n in LONGHANDS[name]:
        got, want = (canon(settle(n, x.get_property_value(n)))
                     for x in (new, style))
        check(got == want, 'the shorthand stands for other longhands',
              shorthand=name, text=text, longhand=n, got=got, expected=want)
    return {'edited ' + name} if edits else set()
