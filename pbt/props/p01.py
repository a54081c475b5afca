"""P01: path data text vs the SVG grammar."""
from svgpy import PathParser, SVGParser, SVGPathSegment

from ..gens import decimals, st
from ..harness import Registry, check, fail
from ..pathmodel import bearing, paths, segment

REG = Registry(
    'P01',
    'Segment lists of 1..10 commands (all 22 command letters) written in '
    'generated spellings: repeated arguments without a letter, implicit '
    'linetos, missing separators, compact arc flags, exponents, leading dots; '
    'a case is non-trivial with at least two drawing commands.',
    ['an implicit lineto is represented as a repeated moveto segment (the '
     'library\'s representation), so two adjacent explicit movetos are '
     'excluded (known finding)'])

style = st.lists(st.integers(0, 15), min_size=1, max_size=24)


def spell_number(v, s):
    v = float(v)
    text = repr(v)
    if 'e' in text:
        text = '{:.7f}'.format(v).rstrip('0')
    if text.endswith('.0') and s % 2 == 0:
        text = text[:-2]
    if text in ('-0', '-0.0') or v == 0:
        return ['0', '0', '0.0', '.0', '0e5', '00', '-0', '+0'][s % 8]
    if s in (1, 9):
        if text.startswith('0.'):
            return text[1:]
        if text.startswith('-0.'):
            return '-' + text[2:]
    if s == 3 and v > 0:
        return '+' + text
    if s == 5:
        return text + 'e0'
    if s == 7 and v == int(v):
        return '{}E-1'.format(int(v) * 10)
    if s == 11 and v == int(v) and int(v) % 10 == 0:
        return '{}e+1'.format(int(v) // 10)
    if s == 13 and v > 0 and text[0].isdigit():
        return '0' + text
    return text


class Writer(object):
    def __init__(self, styles):
        self.styles = styles
        self.k = 0
        self.text = ''
        self.last = None  # last number token since the command letter

    def nxt(self):
        self.k += 1
        return self.styles[self.k % len(self.styles)]

    def letter(self, c):
        s = self.nxt()
        self.text += ['', '', '', '', ' ', '\n', '', ' ', '', '\t', '', '',
                      '', ' ', '', ''][s] + c + [
                          '', '', '', ' ', '', '', '\n', '', '', '', '  ',
                          '', '', '', '', ''][s]
        self.last = None

    def number(self, token, flag_before=False):
        if self.last is not None:
            s = self.nxt()
            glue = (token[0] in '+-'
                    or (token[0] == '.' and ('.' in self.last
                                             or 'e' in self.last.lower()))
                    or flag_before)
            if glue and s % 3 != 0:
                sep = ''
            else:
                sep = [',', ' ', ', ', ' , ', ' ', ',', '\n', ' ,', '\t',
                       ' ', ',', '  ', ' ', ',', ' ', '\r\n'][s]
            self.text += sep
        self.text += token
        self.last = token


def spell(path, styles):
    """Returns (text, the segments the grammar gives)."""
    w = Writer(styles)
    model = []
    prev = None  # letter in force
    for cmd, *args in path:
        s = w.nxt()
        if cmd in 'Zz':
            w.letter(cmd)
            model.append([cmd])
            prev = None
            continue
        out = cmd
        if prev == cmd and cmd not in 'Mm' and s % 2:
            pass  # repeated arguments
        elif prev is not None and s % 2 and (prev, cmd) in (
                ('M', 'L'), ('m', 'l')):
            out = prev  # implicit lineto
        else:
            w.letter(cmd)
            prev = cmd
        if cmd in 'Aa':
            for j, v in enumerate(args):
                if j in (3, 4):
                    w.number(str(int(v)), flag_before=(j == 4))
                else:
                    w.number(spell_number(v, w.nxt()), flag_before=(j == 5))
        else:
            for v in args:
                w.number(spell_number(v, w.nxt()))
        model.append([out] + list(args))
    s = w.nxt()
    text = ['', '', ' ', '\n', '', '', '', '', '  ', '', '', '', '', '', '',
            ''][s] + w.text + ['', ' ', '', '', '', '\n', '', '', '', '', '',
                               '', '', '', '', ''][s]
    return text, model


def no_adjacent_moveto(path):
    out = []
    for seg in path:
        if seg[0] in 'Mm' and out and out[-1][0] in 'Mm':
            seg = ['L' if seg[0] == 'M' else 'l'] + seg[1:]
        out.append(seg)
    return out


def compare(path_data, model, where, tol=1e-9):
    got = [[s.type] + list(s.values) for s in path_data]
    same = len(got) == len(model) and all(
        g[0] == m[0] and len(g) == len(m) and all(
            abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(g[1:], m[1:]))
        for g, m in zip(got, model))
    if not same:
        fail('segments ' + where, got=got, expected=model)


many = paths(min_size=0, max_size=9,
             element=st.one_of(segment, segment, segment, segment, bearing))


@REG.test(st.fixed_dictionaries({'path': many, 'style': style}),
          quick=6000, thorough=250000)
def grammar(case):
    text, model = spell(no_adjacent_moveto(case['path']), case['style'])
    got = PathParser.parse(text)
    compare(got, model, 'of ' + repr(text))
    for seg in got:
        check(seg.isvalid(), 'valid segment')
        check(bool(seg.isabsolute()) == seg.type.isupper()
              and bool(seg.isrelative()) == seg.type.islower(),
              'absolute/relative')
    element = SVGParser().create_element_ns('http://www.w3.org/2000/svg',
                                            'path')
    element.set_attribute('d', text)
    compare(element.get_path_data(), model, 'of the d attribute')
    labels = set()
    if sum(1 for s in model if s[0] not in 'MmZzBb') >= 2:
        labels.add('drawing')
        for s in model:
            labels.add(s[0])
    return labels


value = st.one_of(st.integers(-1000, 1000), decimals(-1000, 1000, 6),
                  st.sampled_from([0.000001, -0.000001, 0.5, 100000,
                                   123456.123456]))


@REG.test(st.fixed_dictionaries({
    'path': many, 'noise': st.lists(value, min_size=1, max_size=12)}),
    quick=5000, thorough=200000)
def roundtrip(case):
    path = no_adjacent_moveto(case['path'])
    noise = case['noise']
    k = 0
    model = []
    for i, seg in enumerate(path):
        seg = list(seg)
        for j in range(1, len(seg)):
            if seg[0] in 'Aa' and j in (1, 2, 4, 5):
                continue
            k += 1
            if k % 3 == 0:
                seg[j] = noise[k // 3 % len(noise)]
        model.append(seg)
    segments = [SVGPathSegment(s[0], *s[1:]) for s in model]
    text = PathParser.tostring(segments)
    again = PathParser.parse(text)
    compare(again, model, 'after writing ' + repr(text))
    check(PathParser.tostring(again) == text, 'text form is stable')
    compare(segments, model, 'left alone by tostring()', 0)
    element = SVGParser().create_element_ns('http://www.w3.org/2000/svg',
                                            'path')
    element.set_path_data(segments)
    check(element.get_attribute('d') == text, 'd attribute')
    compare(element.get_path_data(), model, 'of the element')
    # each segment alone
    for seg, m in zip(segments, model):
        one = PathParser.parse(seg.tostring())
        compare(one, [m], 'of one segment')
        check(one[0] == SVGPathSegment(m[0], *[float(v) for v in m[1:]]),
              'equality')
    return ['written'] if len(model) > 2 else []


SETTERS = {
    'A': 'elliptical_arc', 'B': 'bearing', 'C': 'curveto',
    'H': 'horizontal_lineto', 'L': 'lineto', 'M': 'moveto',
    'Q': 'quadratic_curveto', 'S': 'smooth_curveto',
    'T': 'smooth_quadratic_curveto', 'V': 'vertical_lineto'}


@REG.test(many, quick=1000, thorough=20000)
def setters(case):
    """Segments built through their setters."""
    seg = SVGPathSegment()
    check(not seg.isvalid(), 'an empty segment is not valid')
    used = False
    for cmd, *args in case:
        if cmd in 'Zz':
            continue
        name = 'set_{}_{}'.format(SETTERS[cmd.upper()],
                                  'abs' if cmd.isupper() else 'rel')
        getattr(seg, name)(*args)
        compare([seg], [[cmd] + args], 'set by ' + name)
        check(seg == SVGPathSegment(cmd, *args), 'equality')
        n = len(args)
        end = {'H': (args[0], None), 'V': (None, args[0]),
               'B': (None, None)}.get(cmd.upper())
        if cmd == 'h':
            end = (args[0], 0)
        elif cmd == 'v':
            end = (0, args[0])
        elif end is None:
            end = tuple(args[n - 2:])
        check(tuple(seg.end) == end, 'end point', got=seg.end, expected=end)
        used = True
    return ['set'] if used else []


@REG.probe('P01-adjacent-moveto')
def _adjacent():
    return (PathParser.tostring(PathParser.parse('M1,1 M2,2'))
            != 'M1,1 M2,2')
