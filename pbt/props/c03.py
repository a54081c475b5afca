"""C03: style sheets and their rules."""
import os
import shutil
import tempfile
from urllib.parse import quote

from svgpy import SVGParser
from svgpy.css import CSSFontFaceRule, CSSFontFeatureValuesRule, \
    CSSImportRule, CSSMediaRule, CSSNamespaceRule, CSSParser, CSSRule, \
    CSSStyleRule, CSSStyleSheet

from ..gens import st
from ..harness import Registry, check, fail
from . import c01, c04

REG = Registry(
    'C03',
    'Style sheets of style, @font-face, @font-feature-values, @import (data: '
    'URLs and files), @media (nested twice) and @namespace rules, with '
    'comments, odd spacing, and rules that are unknown or malformed in '
    'between; histories of insertions and deletions on the sheet and on its '
    '@media rules; trees of files importing one another. A case is '
    'non-trivial when it has a nested, imported or malformed rule, or edits '
    'in the middle of a list.',
    ['insert_rule() takes any number of rules at once, in order (the library '
     'inserts its own style sheet this way)',
     'feature value names compare case-insensitively (documented)'])

SVG = 'http://www.w3.org/2000/svg'
SELECTORS = ['a', '*', 'svg|rect', '#x', '.a.b', 'a b', 'a > b', 'a ~ b + c',
             'a, b', '[x="two  spaces"]', "[x='y']", ':not(a, b)',
             'g:first-child', '.--name', 'a::before', '#\\31 x', '[a|="b"]',
             'a  b', 'a /* x */ b', '*|*', ':nth-child(2n + 1)']
name = st.sampled_from(c01.NAMES)
value = st.sampled_from(c01.VALUES)
declarations = st.lists(st.tuples(
    name, value, st.sampled_from(['', '', ' !important', '!important'])).map(
        list), max_size=4)
FEATURES = ['annotation', 'character-variant', 'ornaments', 'styleset',
            'stylistic', 'swash']
LINKS = ['http://www.w3.org/2000/svg', 'urn:x', '', 'a b', 'q"uote',
         'back\\slash', "it's", 'x(y)', 'line\nbreak']
family = st.sampled_from(['Font One', '"Foo  Bar"', 'A, B'])
style = st.tuples(st.just('style'), st.sampled_from(SELECTORS),
                  declarations).map(list)
face = st.tuples(st.just('face'), declarations).map(list)
features = st.tuples(
    st.just('features'), family, st.lists(st.tuples(
        st.sampled_from(FEATURES), st.lists(st.tuples(
            st.sampled_from(['nice', 'double-w', 'x1', '--y', 'Nice']),
            st.lists(st.integers(0, 99), min_size=1, max_size=3)).map(list),
            max_size=3), st.booleans()).map(list), max_size=3)).map(list)
namespace = st.tuples(st.just('namespace'), st.sampled_from(
    ['', '', 'svg', 'x-y', 'é', '--p']), st.sampled_from(LINKS),
    st.sampled_from(['url', 'string'])).map(list)
queries = st.lists(st.sampled_from(c04.QUERIES), max_size=3)
leaf = st.one_of(style, style, style, face, features, namespace)
imported = st.tuples(st.just('import'), st.lists(leaf, max_size=3), queries,
                     st.sampled_from(['url', 'string'])).map(list)
inner = st.tuples(st.just('media'), queries, st.lists(
    st.one_of(style, face), max_size=3)).map(list)
media = st.tuples(st.just('media'), queries, st.lists(
    st.one_of(style, style, face, inner), max_size=4)).map(list)
JUNK = ['@unknown x;', '@unknown { a { b: c } }', '@supports (a: b) { c { } }',
        '@font-face;', '@media print;', '@import { }',
        '@namespace { }', '@font-feature-values X;', '/* a { b: c } */',
        '@page { margin: 0 }', '@keyframes x { from { a: b } }', '<!-- -->',
        '@charset "utf-8";']
junk = st.tuples(st.just('junk'), st.sampled_from(JUNK)).map(list)
rule = st.one_of(style, style, style, face, features, media, media, namespace,
                 imported, junk)
gap = st.sampled_from(['\n', ' ', '', '/* { */', '\n\n  '])


def string(text):
    out = ''
    for c in text:
        out += '\\a ' if c == '\n' else '\\' + c if c in '"\\' else c
    return '"' + out + '"'


def body(items, space):
    return ('{' + space + (';' + space).join(
        n + ':' + space + v + p for n, v, p in items) + space + '}')


def write(node, space):
    kind = node[0]
    if kind == 'junk':
        return node[1]
    if kind == 'style':
        return node[1] + space + body(node[2], space)
    if kind == 'face':
        return '@FONT-face' + space + body(node[1], space)
    if kind == 'features':
        out = '@font-feature-values ' + node[1] + space + '{'
        for name_, values, end in node[2]:
            out += space + '@' + name_ + space + '{' + space + (
                ';' + space).join(n + ':' + space + ' '.join(map(str, v))
                                  for n, v in values)
            out += (';' if end else '') + space + '}'
        return out + '}'
    if kind == 'namespace':
        text = string(node[2])
        if node[3] == 'url':
            text = 'url(' + text + ')'
        return '@namespace ' + node[1] + ' ' + text + ';'
    if kind == 'import':
        text = string(address(node))
        if node[3] == 'url':
            text = 'url(' + text + ')'
        return '@import ' + text + ' ' + ', '.join(node[2]) + ';'
    return ('@media ' + (',' + space).join(node[1]) + space + '{'
            + space.join(write(x, space) for x in node[2]) + '}')


def address(node):
    return 'data:text/css,' + quote('\n'.join(write(x, ' ') for x in node[1]))


def declared(items):
    model = c01.Model()
    model.read([(n, v, 'important' if p else '') for n, v, p in items])
    return model.map


def compare(rules, nodes, where, sheet=None, parent=None):
    """The rules are those described."""
    nodes = [n for n in nodes if n[0] != 'junk']
    check(len(rules) == len(nodes), 'another number of rules', where=where,
          got=[type(x).__name__ for x in rules],
          expected=[x[0] for x in nodes])
    for r, node in zip(rules, nodes):
        kind = node[0]
        check(r.parent_style_sheet is sheet, 'another parent sheet',
              where=where, rule=node)
        if parent is not False:
            check(r.parent_rule is parent, 'another parent rule',
                  where=where, rule=node)
        if kind == 'style':
            check(isinstance(r, CSSStyleRule) and r.type == CSSRule.STYLE_RULE,
                  'not a style rule', where=where, got=r)
            check(c01.canon(r.selector_text) == c01.canon(node[1]),
                  'another selector', where=where, got=r.selector_text,
                  expected=node[1])
            got, want = c01.state(r.style), declared(node[2])
            check(got == want, 'other declarations', where=where, got=got,
                  expected=want)
            check(r.style.parent_rule is r, 'the block has another rule')
        elif kind == 'face':
            check(isinstance(r, CSSFontFaceRule)
                  and r.type == CSSRule.FONT_FACE_RULE, 'not @font-face',
                  where=where, got=r)
            got, want = c01.state(r.style), declared(node[1])
            check(got == want, 'other declarations', where=where, got=got,
                  expected=want)
        elif kind == 'features':
            check(isinstance(r, CSSFontFeatureValuesRule)
                  and r.type == CSSRule.FONT_FEATURE_VALUES_RULE,
                  'not @font-feature-values', where=where, got=r)
            check(r.font_family == node[1], 'another font family',
                  got=r.font_family, expected=node[1])
            want = {f: {} for f in FEATURES}
            for f, values, _ in node[2]:
                for n, v in values:
                    want[f][n.lower()] = v
            got = {f: {k.lower(): v for k, v in
                       getattr(r, f.replace('-', '_')).items()}
                   for f in FEATURES}
            check(got == want, 'other feature values', where=where, got=got,
                  expected=want)
        elif kind == 'namespace':
            check(isinstance(r, CSSNamespaceRule)
                  and r.type == CSSRule.NAMESPACE_RULE, 'not @namespace',
                  where=where, got=r)
            check((r.prefix, r.namespace_uri) == (node[1], node[2]),
                  'another namespace', where=where,
                  got=(r.prefix, r.namespace_uri), expected=node[1:3])
        elif kind == 'import':
            check(isinstance(r, CSSImportRule)
                  and r.type == CSSRule.IMPORT_RULE, 'not @import',
                  where=where, got=r)
            check(c04.view(r.media) == node[2], 'other media', where=where,
                  got=list(r.media), expected=node[2])
            inside = r.style_sheet
            check(inside.owner_rule is r, 'another owner rule')
            check(inside.href == r.href, 'another address',
                  got=(inside.href, r.href))
            check(c04.view(inside.media) == node[2],
                  'the sheet has other media', got=list(inside.media))
            compare(inside.css_rules, node[1], where + ' > import', inside,
                    False)
        else:
            check(isinstance(r, CSSMediaRule)
                  and r.type == CSSRule.MEDIA_RULE, 'not @media',
                  where=where, got=r)
            check(c04.view(r.media) == node[1], 'other media', where=where,
                  got=list(r.media), expected=node[1])
            check(r.condition_text == r.media.media_text,
                  'another condition')
            compare(r.css_rules, node[2], where + ' > media', sheet, r)


def texts(rules, nodes):
    """Every rule's text is one rule that says the same."""
    nodes = [n for n in nodes if n[0] != 'junk']
    for r, node in zip(rules, nodes):
        again = CSSParser.fromstring(r.css_text)
        try:
            compare(again, [node], 'text')
        except AssertionError as exc:
            fail('the text describes another rule', text=r.css_text,
                 why=str(exc))
        check(again[0].css_text == r.css_text, 'the text is not stable',
              text=r.css_text, got=again[0].css_text)


def labels(nodes):
    return {n[0] for n in nodes if n[0] in ('media', 'import', 'junk',
                                            'features')}


@REG.test(st.tuples(st.lists(rule, max_size=6), gap, st.sampled_from(
    [' ', '  ', '\n', '/**/ '])), quick=2500, thorough=40000)
def reads(case):
    """A sheet read from text, and the text of its rules."""
    nodes, between, space = case
    text = between.join(write(n, space) for n in nodes)
    rules = CSSParser.fromstring(text)
    compare(rules, nodes, 'read')
    texts(rules, nodes)
    sheet = CSSStyleSheet()
    rules = CSSParser.fromstring(text, parent_style_sheet=sheet)
    compare(rules, nodes, 'with a sheet', sheet)
    loaded = CSSParser.parse('data:text/css,' + quote(text))
    compare(loaded.css_rules, nodes, 'loaded', loaded)
    return labels(nodes) if len(nodes) > 1 else set()


EDITS = st.lists(st.one_of(
    st.tuples(st.just('insert'), st.integers(-1, 8), st.lists(
        rule, min_size=1, max_size=2)),
    st.tuples(st.just('insert'), st.integers(0, 3), st.lists(
        rule, min_size=1, max_size=1)),
    st.tuples(st.just('delete'), st.integers(-1, 8)),
    st.tuples(st.just('delete'), st.integers(0, 3)),
    st.tuples(st.just('style'), st.integers(0, 8), name, value),
    st.tuples(st.just('condition'), st.integers(0, 8), queries)).map(list),
    min_size=1, max_size=8)


@REG.test(st.tuples(st.lists(rule, max_size=4), EDITS, st.booleans()),
          quick=2000, thorough=40000)
def edits(case):
    """Insertions and deletions are those of a list."""
    first, ops, nested = case
    sheet = CSSStyleSheet()
    if nested:
        sheet.insert_rule('@media print { %s }' % ' '.join(
            write(n, ' ') for n in first
            if n[0] != 'import' and n[1] != '<!-- -->'))  # at top level only
        owner, parent = sheet.css_rules[0], sheet.css_rules[0]
        model = [n for n in first if n[0] not in ('junk', 'import')]
    else:
        owner, parent = sheet, None
        if first:
            sheet.insert_rule(' '.join(write(n, ' ') for n in first))
        model = [n for n in first if n[0] != 'junk']
    out = set()
    compare(owner.css_rules, model, 'start', sheet, parent)
    for op in ops:
        i = op[1]
        if op[0] == 'insert':
            text = ' '.join(write(n, ' ') for n in op[2])
            if 0 <= i <= len(model):
                got = owner.insert_rule(text, i)
                check(got == i, 'another index is returned', got=got, index=i)
                model[i:i] = [n for n in op[2] if n[0] != 'junk']
                if 0 < i < len(model) - 1:
                    out.add('inside')
            else:
                refused(lambda: owner.insert_rule(text, i), op)
                out.add('refused')
        elif op[0] == 'delete':
            if 0 <= i < len(model):
                owner.delete_rule(i)
                del model[i]
                if 0 < i < len(model):
                    out.add('inside')
            else:
                refused(lambda: owner.delete_rule(i), op)
                out.add('refused')
        elif i < len(model):
            node = model[i]
            if op[0] == 'style' and node[0] == 'style':
                owner.css_rules[i].style.set_property(op[2], op[3], '')
                model[i] = ['style', node[1],
                            [[n, v, p] for n, v, p in node[2]
                             if c01.fold(n) != c01.fold(op[2])]
                            + [[op[2], op[3], '']]]
            elif op[0] == 'condition' and node[0] == 'media':
                owner.css_rules[i].condition_text = ', '.join(op[2])
                model[i] = ['media', op[2], node[2]]
        compare(owner.css_rules, model, 'after %r' % op, sheet, parent)
    texts(owner.css_rules, model)
    if nested:
        check(len(sheet.css_rules) == 1, 'the sheet changed')
        texts(sheet.css_rules, [['media', ['print'], model]])
    return out


def refused(call, op):
    try:
        call()
    except (IndexError, ValueError):
        return
    fail('an index out of range is accepted', op=op)


PLACES = ['a.css', 'b.css', 'sub/c.css', 'sub/deep/d.css']


@REG.test(st.tuples(
    st.lists(st.tuples(st.lists(st.integers(0, 3), max_size=2),
                       st.sampled_from(['relative', 'absolute', 'dot']))
             .map(list), min_size=4, max_size=4),
    st.sampled_from(['parse', 'style', 'link'])), quick=250, thorough=5000)
def imports(case):
    """Files importing one another resolve and end."""
    graph, entry = case
    base = tempfile.mkdtemp(prefix='c03-')
    try:
        os.makedirs(os.path.join(base, 'sub/deep'))
        for i, (targets, form) in enumerate(graph):
            here = os.path.dirname(os.path.join(base, PLACES[i]))
            lines = []
            for t in targets:
                target = os.path.join(base, PLACES[t])
                if form == 'absolute':
                    ref = 'file://' + target
                else:
                    ref = os.path.relpath(target, here)
                    if form == 'dot' and not ref.startswith('.'):
                        ref = './' + ref
                lines.append('@import "%s";' % ref)
            lines.append('r%d { fill: red }' % i)
            with open(os.path.join(base, PLACES[i]), 'w') as f:
                f.write('\n'.join(lines))
        url = 'file://' + os.path.join(base, PLACES[0])
        if entry == 'parse':
            sheet = CSSParser.parse(url)
        else:
            if entry == 'style':
                sheet = CSSStyleSheet()
                sheet.css_rules.extend(CSSParser.fromstring(
                    '@import url(%s);' % url, parent_style_sheet=sheet))
                check(len(sheet.css_rules) == 1, 'no @import rule')
            else:
                root = SVGParser().create_svg_document().document_element
                link = root.create_sub_element_ns(SVG, 'link')
                link.set('rel', 'stylesheet')
                link.set('href', url)
                sheet = CSSParser.parse(url, owner_node=link)
            if entry == 'style':
                sheet = sheet.css_rules[0].style_sheet
        walk(sheet, graph, 0, [])
    finally:
        shutil.rmtree(base)
    out = set()
    if any(t for t, _ in graph):
        out.add('imports')
    return out


def walk(sheet, graph, i, above):
    targets = graph[i][0]
    got = [x.selector_text if isinstance(x, CSSStyleRule) else 'import'
           for x in sheet.css_rules]
    if i in above:
        check(got == [], 'a circular import is followed', above=above)
        return
    want = ['import'] * len(targets) + ['r%d' % i]
    check(got == want, 'an imported sheet has other rules', place=PLACES[i],
          got=got, expected=want, above=[PLACES[x] for x in above])
    for r, t in zip(sheet.css_rules, targets):
        check(r.href.endswith('/' + PLACES[t]),
              'an import resolves elsewhere', href=r.href, want=PLACES[t])
        walk(r.style_sheet, graph, t, above + [i])
