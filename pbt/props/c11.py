"""C11: the style sheets of a document are the ones it links, in order."""
import base64
import os
import shutil
import tempfile
from pathlib import Path
from urllib.parse import quote

from hypothesis import strategies as st

from svgpy import SVGDOMImplementation, SVGParser, Window
from svgpy.css import CSSImportRule, CSSParser, CSSRule, CSSStyleSheet

from ..harness import Registry
from ..harness import check as _check

REG = Registry(
    'C11',
    'Documents with up to four xml-stylesheet instructions, link and style '
    'elements that reach nested sheets by relative and absolute file URLs and '
    'data URLs, or by missing, circular and invalid ones; non-trivial when a '
    'sheet applies or a medium, URL or cycle keeps one from applying.')

def check(condition, *parts):
    if not condition:
        _check(False, ' '.join(map(str, parts)))


SVG = 'http://www.w3.org/2000/svg'
XHTML = 'http://www.w3.org/1999/xhtml'
PROPERTIES = ['fill-opacity', 'stroke-opacity', 'stop-opacity',
              'flood-opacity', 'opacity', 'stroke-miterlimit']
# media query -> does it match a window of 1280x720 pixels on a screen
MEDIA = {'': True, 'all': True, 'screen': True, 'print': False,
         'print, screen': True, '(min-width: 600px)': True,
         'screen and (max-width: 600px)': False,
         'not print': True, '(orientation: portrait)': False,
         '(min-width: 1280px) and (max-height: 720px)': True,
         'speech, (min-height: 721px)': False}
SPELL = ['text/css', 'TEXT/CSS', 'Text/Css']

media = st.one_of(st.just(''), st.just(''), st.sampled_from(sorted(MEDIA)))
declaration = st.tuples(st.sampled_from(PROPERTIES), st.booleans())
rule = st.tuples(st.sampled_from(['rect', 'rect', 'rect', '.no', 'rect rect']),
                 st.lists(declaration, min_size=1, max_size=4))
body = st.lists(st.one_of(
    rule.map(lambda x: ['rule', list(x)]),
    st.tuples(media, st.lists(rule, max_size=2)).map(
        lambda x: ['media', list(x)])), max_size=3)
# how the sheet is reached: a file in one of three directories, a data URL,
# a file that does not exist, the sheet that imports it, or no URL at all
HOW = ['file', 'file', 'file', 'data', 'base64', 'missing', 'self', 'bad']
BAD = ['http://[', 'foo:bar', 'data:text/css']


def sheets(children):
    imports = st.lists(st.tuples(
        st.sampled_from(HOW), st.sampled_from(['"', "'", 'url', 'url"']),
        media, children, st.integers(0, 2)), max_size=2)
    return st.fixed_dictionaries({
        'imports': imports, 'body': body,
        'bom': st.booleans(), 'charset': st.booleans()})


sheet = st.recursive(
    st.fixed_dictionaries({'imports': st.just([]), 'body': body,
                           'bom': st.booleans(), 'charset': st.booleans()}),
    sheets, max_leaves=4)
source = st.one_of(
    st.fixed_dictionaries({
        'kind': st.just('pi'), 'how': st.sampled_from(HOW + [None, 'frag']),
        'quote': st.sampled_from(['"', "'"]), 'media': media,
        'alternate': st.sampled_from([None, None, 'no', 'yes']),
        'target': st.sampled_from(['xml-stylesheet'] * 4 + ['xml-style']),
        'type': st.sampled_from([None, 'text/css']),
        'sheet': sheet, 'dir': st.integers(0, 2)}),
    st.fixed_dictionaries({
        'kind': st.just('link'), 'how': st.sampled_from(HOW + [None, 'frag']),
        'rel': st.sampled_from([
            'stylesheet', 'stylesheet', 'StyleSheet', 'stylesheet next',
            ' prev  stylesheet ', 'alternate stylesheet', 'icon', '',
            'preload', 'preload stylesheet', None]),
        'as': st.sampled_from([None, None, 'style', 'script']),
        'media': media, 'ns': st.sampled_from([SVG, XHTML]),
        'sheet': sheet, 'dir': st.integers(0, 2),
        'where': st.integers(0, 2)}),
    st.fixed_dictionaries({
        'kind': st.just('style'),
        'type': st.sampled_from([None, None, '', 'text/plain'] + SPELL),
        'media': media, 'cut': st.lists(st.tuples(
            st.integers(0, 3), st.sampled_from(
                ['cdata', 'comment', 'pi', 'space'])), max_size=2),
        'sheet': sheet, 'dir': st.just(0),
        'where': st.integers(0, 2)}))


class Builder(object):
    """Writes the files of a case and lists the rules that apply."""

    def __init__(self, root):
        self.root = root
        self.count = 0
        self.value = 0
        self.labels = set()
        self.queries = set()
        self.dirs = [os.path.join(root, x) for x in
                     ('', 'a', 'b c')]
        for x in self.dirs[1:]:
            os.mkdir(x)

    def body(self, items):
        """The text of rules, and those that apply."""
        text, applied = [], []

        def rules(items, live):
            out = []
            for selector, declarations in items:
                inner = []
                for name, important in declarations:
                    self.value += 1
                    number = '0.{:04d}'.format(self.value).rstrip('0')
                    inner.append('{}: {}{}'.format(
                        name, number, '!important' if important else ''))
                    if live and selector == 'rect':
                        applied.append((name, number, important))
                out.append('{} {{ {} }}'.format(selector, '; '.join(inner)))
            return out

        for kind, item in items:
            if kind == 'rule':
                text += rules([item], True)
            else:
                query, inner = item
                self.queries.add(query)
                text.append('@media {} {{ {} }}'.format(
                    query or 'all', '\n'.join(rules(inner, MEDIA[query]))))
                if inner:
                    self.labels.add('media rule')
        return text, applied

    def reference(self, how, sheet, folder, base, chain):
        """A URL of the sheet from a base directory (None: no directory), and
        the rules behind it: None if there is no sheet."""
        if how == 'self' and chain:
            self.labels.add('circular import')
            return (Path(chain[-1]).as_uri() if base is None else
                    quote(os.path.relpath(chain[-1], base))), [], 0
        if how in ('missing', 'self'):
            self.labels.add('missing sheet')
            return 'none.css', [], 0
        if how == 'bad':
            self.labels.add('bad URL')
            return BAD[folder], [], 0
        self.count += 1
        if how == 'file':
            path = os.path.join(self.dirs[folder],
                                's{}.css'.format(self.count))
            text, applied, count = self.sheet(sheet, self.dirs[folder],
                                              chain + [path])
            data = text.encode()
            if sheet['bom']:
                data = b'\xef\xbb\xbf' + data
            with open(path, 'wb') as fp:
                fp.write(data)
            self.labels.add('file in a directory' if folder else 'file')
            if base is None:
                return Path(path).as_uri(), applied, count
            return quote(os.path.relpath(path, base)), applied, count
        text, applied, count = self.sheet(sheet, None, chain)
        self.labels.add('data URL')
        if how == 'base64':
            import base64
            return ('data:text/css;base64,' + base64.b64encode(
                text.encode()).decode()), applied, count
        return 'data:text/css,' + quote(text), applied, count

    def sheet(self, sheet, base, chain):
        """The text of a sheet, the rules that apply, the number of rules."""
        text, applied = [], []
        for how, form, query, child, folder in sheet['imports']:
            url, rules, _ = self.reference(how, child, folder, base, chain)
            form = form if form != 'url' else 'url('
            if form == 'url"':
                spelt = 'url("{}")'.format(url)
            elif form == 'url(':
                # an unquoted URL has no such characters
                spelt = ('url({})'.format(url) if not set(url) & set(' "\'()')
                         else 'url("{}")'.format(url))
            else:
                spelt = form + url.replace("'", '%27') + form
            self.queries.add(query)
            text.append('@import {}{};'.format(
                spelt, ' ' + query if query else ''))
            if MEDIA[query]:
                applied += rules
                if rules:
                    self.labels.add('import at depth {}'.format(
                        min(2, len(chain))))
            elif rules:
                self.labels.add('import for other media')
        own, rules = self.body(sheet['body'])
        # kept apart to see what order they come in
        text += own
        head = '@charset "utf-8";' if sheet['charset'] and chain else ''
        return head + '\n'.join(text), applied + rules, len(text)


def attributes(pairs):
    return ''.join(' {}="{}"'.format(
        k, v.replace('&', '&amp;').replace('"', '&quot;').replace('<', '&lt;'))
        for k, v in pairs if v is not None)


def style_content(text, cuts):
    """XML of the text of a style, cut by other nodes between its lines."""
    lines = text.split('\n')
    out, plain = [], []
    for i, line in enumerate(lines):
        xml = (line.replace('&', '&amp;').replace('<', '&lt;'))
        for at, what in cuts:
            if at != i:
                continue
            if what == 'cdata' and ']]>' not in line:
                xml = '<![CDATA[' + line + ']]>'
            elif what == 'comment':
                xml += '<!-- rect { opacity: 0 } -->'
            elif what == 'pi':
                xml = '<?x rect { opacity: 0 } ?>' + xml
            else:
                xml = '\n ' + xml
        out.append(xml)
    return '\n'.join(out)


cases = st.tuples(st.lists(source, max_size=4),
                  st.sampled_from(['navigate', 'navigate', 'memory', 'window',
                                   'alone']))


@REG.test(cases, quick=700, thorough=25000)
def collects(case):
    sources, mode = case
    root = tempfile.mkdtemp(prefix='c11-')
    try:
        return run(sources, mode, root)
    finally:
        shutil.rmtree(root)


def run(sources, mode, root):
    b = Builder(root)
    base = root if mode in ('navigate', 'window') else None
    expected = []        # (source index, rules that apply, number of rules)
    slots = [[], [], []]
    prolog = []
    ordered = sorted(range(len(sources)), key=lambda i: (
        sources[i]['kind'] != 'pi', sources[i].get('where', 0)))
    nodes = []
    for i in ordered:
        s = sources[i]
        if s['kind'] == 'style':
            text, rules, count = b.sheet(s['sheet'], base, [])
            live = (s['type'] in [None, '', *SPELL] and text != '')
        else:
            how = s['how']
            if how is None or how == 'frag':
                url, rules, count = (None if how is None else '#x'), [], 0
            else:
                url, rules, count = b.reference(
                    how, s['sheet'], s['dir'], base, [])
            live = url is not None and url not in ('#x', BAD[0])
        query = s['media']
        shown = query if query else None
        if s['kind'] == 'pi':
            q = s['quote']
            pseudo = [('type', s['type']), ('href', url), ('media', shown),
                      ('alternate', s['alternate'])]
            prolog.append('<?{}{}?>'.format(s['target'], ''.join(
                ' {}={}{}{}'.format(k, q, v.replace(q, '%27'), q)
                for k, v in pseudo if v is not None)))
            live = (live and s['alternate'] != 'yes'
                    and s['target'] == 'xml-stylesheet')
        elif s['kind'] == 'link':
            rel = (s['rel'] or '').lower().split()
            live = (live and 'alternate' not in rel and (
                ('preload' not in rel and 'stylesheet' in rel)
                or ('preload' in rel and s['as'] == 'style')))
            prefix = '' if s['ns'] == SVG else 'h:'
            slots[s['where']].append('<{}link{}/>'.format(prefix, attributes(
                [('rel', s['rel']), ('as', s['as']), ('href', url),
                 ('media', shown)])))
        else:
            slots[s['where']].append('<style{}>{}</style>'.format(
                attributes([('type', s['type']), ('media', shown)]),
                style_content(text, s['cut'] if text else [])))
            if any(x in ('comment', 'pi') for _, x in s['cut']):
                b.labels.add('style cut by other nodes')
        b.queries.add(query)
        matches = live and MEDIA[query]
        if live and not matches:
            b.labels.add(s['kind'] + ' for other media')
        nodes.append((s['kind'], bool(matches)))
        if matches:
            b.labels.add(s['kind'])
            expected.append((s['kind'], rules, count))
    document = (
        '{}<svg xmlns="{}" xmlns:h="{}">{}<g>{}<rect id="t"/></g>{}</svg>'
        .format('\n'.join(prolog), SVG, XHTML, *[
            ''.join(x) for x in slots]))
    if mode == 'alone':
        if b.queries - {'', 'all'}:
            return ['media without a window']
        element = SVGParser().fromstring(document)
        doc = None
    else:
        path = os.path.join(root, 'doc.svg')
        with open(path, 'w', encoding='utf-8') as fp:
            fp.write(document)
        window = Window(SVGDOMImplementation())
        doc = window.document
        if mode == 'navigate':
            doc.location.href = Path(path).as_uri()
        elif mode == 'window':
            window.location = Path(path).as_uri()
        else:
            doc.remove(doc.document_element)
            doc.append(SVGParser().fromstring(document))
        element = doc.document_element
    rect = element.get_elements_by_tag_name('rect')[0]
    style = rect.get_computed_style()
    winner = {}
    for important in (False, True):
        for _, rules, _ in expected:
            for name, value, imp in rules:
                if imp == important:
                    winner[name] = value
    for name in PROPERTIES:
        value = str(style[name])
        if name in winner:
            check(float(value) == float(winner[name]), 'computed', name,
                  'is', value, 'not', winner[name])
            b.labels.add('computed')
        else:
            check(float(value) in (0, 1, 4), 'unset', name, 'is', value)
    if doc is not None:
        # the first one is the user agent's
        listed = doc.style_sheets[1:]
        check(len(listed) == len(expected), 'sheets', len(listed), 'not',
              len(expected))
        for css, (kind, _, count) in zip(listed, expected):
            check(isinstance(css, CSSStyleSheet), css)
            check(css.parent_style_sheet is None, 'has a parent')
            check(css.owner_node is not None and css.owner_rule is None,
                  'owners of', kind, css.owner_node, css.owner_rule)
            check(len(css.css_rules) == count, kind, 'rules',
                  len(css.css_rules), 'not', count)
            check_rules(css, kind)
    others = [x for x in nodes if x[0] != 'pi']
    found = [x for x in element.iter() if isinstance(x.tag, str)
             and x.local_name in ('link', 'style')]
    check(len(found) == len(others), 'elements', len(found))
    for node, (kind, live) in zip(found, others):
        if not hasattr(node, 'sheet'):
            check(False, "no sheet of", node)
        got = node.sheet
        check((got is not None) == live, 'sheet of', kind, got, 'live', live)
        if got is not None:
            check(got.owner_node is node, 'owner of the sheet')
    return sorted(b.labels)


def check_rules(css, kind):
    for r in css.css_rules:
        check(r.parent_style_sheet is css, kind, 'parent of', r)
        if isinstance(r, CSSImportRule):
            check(r.style_sheet is not None, 'no sheet of an import')
            check(r.style_sheet.owner_rule is r, 'owner rule')
            for x in r.style_sheet.css_rules:
                check(x.parent_style_sheet is r.style_sheet,
                      'parent of imported')
        elif r.type == CSSRule.MEDIA_RULE:
            for x in r.css_rules:
                check(x.parent_rule is r, 'parent rule')



CHARSETS = {'utf-8': 'aé日😀', 'iso-8859-1': 'aéÿ', 'shift_jis': 'a日本ア',
            'koi8-r': 'aЖя', 'windows-1252': 'é€', 'us-ascii': 'abc'}


@REG.test(st.fixed_dictionaries({
    'charset': st.sampled_from(sorted(CHARSETS)),
    'text': st.lists(st.integers(0, 20), min_size=1, max_size=6),
    'header': st.sampled_from(['none', 'plain', 'same', 'upper', 'quoted',
                               'params', 'unknown']),
    'rule': st.sampled_from(['none', 'same', 'same', 'other', 'unknown']),
    'advice': st.sampled_from(['none', 'none', 'same', 'other', 'unknown']),
    'bom': st.booleans(), 'how': st.sampled_from(['file', 'data', 'base64'])}),
    quick=500, thorough=10000)
def encodings(case):
    """A sheet is decoded by its byte order mark, or else its content type,
    its @charset, the advice, or UTF-8."""
    charset = case['charset']
    chars = CHARSETS[charset]
    text = ''.join(chars[i % len(chars)] for i in case['text'])
    where = case['how']
    header = case['header'] if where != 'file' else 'none'
    others = {'same': charset, 'other': 'iso-8859-5', 'unknown': 'x-none'}
    rule = case['rule']
    # the first that tells the encoding tells the right one
    bom = case['bom'] and charset == 'utf-8'
    told = bom or header in ('same', 'upper', 'quoted', 'params')
    if not told and rule == 'other':
        rule = 'same'
    told = told or rule == 'same'
    advice = case['advice']
    if not told and advice != 'same' and (
            charset not in ('utf-8', 'us-ascii') or advice == 'other'):
        advice = 'same'
    data = '@charset "{}";'.format(others[rule]) if rule != 'none' else ''
    data += 'a {{ --x: "{0}"; font-family: "{0}" }}'.format(text)
    data = data.encode(charset)
    if bom:
        data = b'\xef\xbb\xbf' + data
    value = {
        'none': 'text/css', 'plain': 'text/css',
        'same': 'text/css;charset=' + charset,
        'upper': 'text/css;CHARSET=' + charset.upper(),
        'quoted': 'text/css;charset="{}"'.format(charset),
        'params': 'text/css;v=1;charset={};w=2'.format(charset),
        'unknown': 'text/css;charset=x-none'}[header]
    folder = tempfile.mkdtemp(prefix='c11-')
    try:
        if where == 'file':
            path = os.path.join(folder, 'a.css')
            with open(path, 'wb') as fp:
                fp.write(data)
            url = Path(path).as_uri()
        elif where == 'data':
            url = 'data:{},{}'.format(value, quote(data))
        else:
            url = 'data:{};base64,{}'.format(
                value, quote(base64.b64encode(data).decode()))
        sheet = CSSParser.parse(
            url, encoding=others[advice] if advice != 'none' else None)
    finally:
        shutil.rmtree(folder)
    styles = [x for x in sheet.css_rules
              if x.type == CSSRule.STYLE_RULE]
    check(len(styles) == 1, 'the rule of the sheet is lost', data)
    got = styles[0].style.get_property_value('font-family').strip('"')
    check(got == text, 'the sheet is decoded wrongly', repr(got), repr(text),
          case)
    return [charset] if charset not in ('us-ascii', 'utf-8') else []
