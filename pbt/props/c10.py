"""C10: CSS.escape makes one identifier."""
import tinycss2

from svgpy import SVGParser
from svgpy.css import CSS, CSSParser

from ..gens import st
from ..harness import Registry, check

REG = Registry(
    'C10',
    'Unicode strings weighted to digits, hyphens, underscores, backslashes, '
    'controls, NUL, quotes, spaces, hexadecimal letters and astral '
    'characters, on their own, next to each other and inside selectors. A '
    'case is non-trivial when the string needs an escape.',
    ['surrogates are not characters', 'the tokenizer is written here from CSS '
     'Syntax 3; tinycss2 0.6 (which reads no "--" names) is a second opinion'])

HEX = '0123456789abcdefABCDEF'
char = st.one_of(
    st.sampled_from('0123456789abcdefAFzZ-_\\ "\'#.:!,()[]{}\0\n\t\r\f\x01'
                    '\x1f\x7f\x80\xa0é図😀'),
    st.sampled_from('-0a\\ \x01'),
    st.characters(exclude_categories=['Cs']))
text = st.text(char, min_size=1, max_size=12)


def start(c):
    return c.isascii() and c.isalpha() or c == '_' or ord(c) >= 0x80


def valid_escape(s, i):
    return s[i:i + 1] == '\\' and s[i + 1:i + 2] not in ('\n', '\r', '\f')


def identifier(s):
    """Consumes an identifier sequence; (value, rest) or None."""
    if s[:1] == '-':
        if not (s[1:2] == '-' or s[1:2] and start(s[1])
                or valid_escape(s, 1) and len(s) > 2):
            return None
    elif not (s[:1] and start(s[0]) or valid_escape(s, 0) and len(s) > 1):
        return None
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if start(c) or c == '-' or c in '0123456789':
            out += c
            i += 1
        elif valid_escape(s, i) and i + 1 < len(s):
            i += 1
            j = i
            while j < len(s) and j < i + 6 and s[j] in HEX:
                j += 1
            if j > i:
                n = int(s[i:j], 16)
                out += '\ufffd' if n == 0 or n > 0x10ffff or (
                    0xd800 <= n < 0xe000) else chr(n)
                if s[j:j + 2] == '\r\n':
                    j += 2
                elif s[j:j + 1] in tuple(' \t\n\r\f'):
                    j += 1
                i = j
            else:
                out += s[i]
                i += 1
        else:
            break
    return out, s[i:]


@REG.test(st.tuples(text, st.sampled_from(
    ['', '(', ' a', ':', '.b', '{', ',', '#c', '>', '"x"'])),
    quick=20000, thorough=400000)
def one_identifier(case):
    """The escaped text is one identifier with the same value."""
    string, tail = case
    escaped = CSS.escape(string)
    want = string.replace('\0', '\ufffd')
    check(not any(c in escaped for c in '\n\r\f\0'),
          'an unescaped line break or NUL', string=string, escaped=escaped)
    got = identifier(escaped + tail)
    check(got == (want, tail), 'not one identifier of this value',
          string=string, escaped=escaped, got=got)
    tokens = tinycss2.parse_component_value_list(escaped)
    if not want.startswith('--'):
        check(len(tokens) == 1 and tokens[0].type == 'ident'
              and tokens[0].value == want, 'tinycss2 reads something else',
              string=string, escaped=escaped, got=repr(tokens))
    hashes = tinycss2.parse_component_value_list('#' + escaped)
    check(len(hashes) == 1 and hashes[0].type == 'hash'
          and hashes[0].value == want, 'not one hash of this value',
          string=string, escaped=escaped, got=repr(hashes))
    return {'escaped'} if escaped != string else set()


safe = st.text(st.one_of(
    st.sampled_from('0123456789abcdefAFzZ-_."\'#:!,()[]{}\x01\x7fé図😀'),
    st.characters(min_codepoint=0x21, max_codepoint=0x2fff,
                  exclude_characters='\\', exclude_categories=[
                      'Cs', 'Zs', 'Zl', 'Zp', 'Cc', 'Cn'])),
    min_size=1, max_size=8)


@REG.test(st.tuples(safe, safe), quick=1500, thorough=30000)
def selectors(case):
    """Escaped identifiers find the elements they were made from."""
    one, two = case
    xml = set(one + two) & {chr(c) for c in range(0x20)}
    doc = SVGParser().create_svg_document()
    root = doc.document_element
    items = []
    for name in (one, two):
        if xml:
            return set()
        child = doc.create_element_ns('http://www.w3.org/2000/svg', 'g')
        child.set('id', name)
        child.set('class', 'x ' + name)
        root.append(child)
        items.append(child)
    for prefix in '#.':
        got = root.query_selector_all(prefix + CSS.escape(one))
        want = [x for x in items if x.get('id') == one]
        check(list(got) == want, 'the selector finds other elements',
              name=one, selector=prefix + CSS.escape(one), got=len(got))
    rule = CSSParser.fromstring('#%s { fill: red }' % CSS.escape(one))
    check(len(rule) == 1 and rule[0].style['fill'] == 'red',
          'a rule with the escaped name is not read', name=one)
    again = CSSParser.fromstring(rule[0].css_text)
    check(len(again) == 1, 'the rule text is not one rule')
    token = tinycss2.parse_component_value_list(again[0].selector_text)
    check(len(token) == 1 and token[0].type == 'hash'
          and token[0].value == one, 'the selector changed', name=one,
          selector=again[0].selector_text)
    return {'selector'} if CSS.escape(one) != one else set()
