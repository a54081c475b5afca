#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json.

Run `python3 props_src.py` after editing.  A property whose module exists in
pbt/props/ is claimed; the others are listed as not applicable yet.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NOT_APPLICABLE = {}


def prop(id_, title, statement, over, text, why, files, mechanism,
         technique, note):
    assert len(title) <= 80, (id_, len(title))
    PROPS.append({
        'id': id_, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': ['svgpy/' + f for f in files.split()],
            'mechanism': [{'name': n, 'where': 'svgpy/' + w}
                          for n, w in mechanism],
        },
        '_technique': technique, '_note': ' '.join(note.split()),
    })


# --------------------------------------------------------------- geometry
prop('G01', 'Matrix operation histories equal 4x4 matrix algebra',
     '''After any sequence of translate, scale, rotate, skew, flip, multiply
     and component-assignment operations, in place or copying, a matrix equals
     the product of the corresponding 4x4 matrices in the same order, its 2D
     flag says whether all of them were 2D, and copying operations leave their
     operands unchanged. Transforming a point by a product equals applying the
     factors in turn, and translation, scale and angle can be read back from
     their composition.''',
     'histories inputs',
     'every start matrix (2D or 3D) and every sequence of operations',
     '''tests apply single operations to a handful of matrices; ordering, 2D
     flag propagation and aliasing only show in mixed histories''',
     'geometry/matrix.py',
     [('DOMMatrixReadOnly / DOMMatrix', 'geometry/matrix.py')],
     'stateful PBT against a numpy 4x4 model',
     'agreement to 1e-9 of accumulated magnitude on generated histories')
prop('G02', 'Matrix inverse and every serialised form round-trip',
     '''The inverse of an invertible matrix multiplied by it, on either side,
     is the identity; inverting never changes the operand unless it is done in
     place. A matrix rebuilt from its sequence, array, dictionary or text form
     equals the original and keeps its 2D flag.''',
     'inputs',
     'every finite 2D or 3D matrix with a bounded condition number',
     'tests invert and serialise a few fixed matrices',
     'geometry/matrix.py',
     [('inverse / inverse_self', 'geometry/matrix.py'),
      ('from_matrix, from_float_array, tojson, tostring, set_matrix_value',
       'geometry/matrix.py')],
     'property-based round-trip and algebraic-law checks',
     'inverse tolerance scales with the condition number')
prop('G03', 'Rectangle operations agree with point-set algebra',
     '''Union is the smallest rectangle containing both operands, the
     intersection of overlapping rectangles contains exactly the points in
     both (without a common area the first one is kept; an invalid rectangle
     is neutral), containment and emptiness agree with corner comparisons, and
     a transformed rectangle is the exact bounding box of its transformed
     corners. Copying forms never modify the operands and agree with in-place
     forms.''',
     'inputs histories',
     'every pair of rectangles, including negative sizes, and every operation sequence',
     'tests use a few axis-aligned examples, none with negative scale/rotation combinations',
     'geometry/rect.py',
     [('DOMRectReadOnly / DOMRect', 'geometry/rect.py')],
     'stateful PBT against a corner-interval model',
     'finite doubles; tolerance 1e-9 relative for transforms')
prop('T01', 'SVG transform lists parse, serialise and compose faithfully',
     '''A transform list read from text has the listed functions with the
     listed arguments, its text form reads back as the same list, and its
     matrix, also after consolidation, is the product of the functions'
     matrices in list order. Under any history of insertions, replacements,
     removals and slices the list behaves like a plain sequence.''',
     'inputs histories',
     'every sequence of transform functions, argument separators and list edits',
     'tests cover each function once and a few fixed lists',
     'transform.py formatter.py',
     [('SVGTransform', 'transform.py'),
      ('SVGTransformList.parse / matrix / consolidate', 'transform.py')],
     'PBT: grammar-based generation, model-based list histories',
     'arguments are decimals the number grammar admits')

# ------------------------------------------------------------------- paths
prop('P01', 'Path data parses per the SVG grammar and its text form round-trips',
     '''Path data text in any legal spelling (optional separators, repeated
     arguments, implicit commands, compact arc flags, exponents) is read as
     the segments the SVG grammar gives it. Writing the segments and reading
     them again gives the same segments.''',
     'inputs', 'every path data string of the SVG 2 grammar',
     'tests use a few dozen path strings, mostly one spelling each',
     'path.py formatter.py',
     [('PathParser.parse / tostring', 'path.py'),
      ('SVGPathSegment setters', 'path.py')],
     'PBT: generated spellings of generated segments vs the segment model',
     'numbers that survive the library\'s output precision')
prop('P02', 'Path normalisation draws the same curve',
     '''Normalising path data yields only absolute moveto, lineto, cubic and
     closepath segments that trace the same points, segment by segment, as
     the original relative, smooth, quadratic and arc commands.''',
     'inputs', 'every well-formed path, including smooth commands after any '
     'other command, degenerate arcs and several subpaths',
     'tests normalise a few fixed paths; command adjacency is combinatorial',
     'path.py',
     [('PathParser.normalize, PathSegment.normalize / toabsolute', 'path.py'),
      ('PathSegment.get_center_of_arc / get_next_control_point', 'path.py')],
     'PBT: differential against an independent path evaluator',
     'arcs are compared within the cubic approximation error')
prop('P03', 'Path length and bounding box agree with dense sampling',
     '''The total length of a path equals the length of the curve it draws,
     adds up over its segments and does not change under translation and
     rotation; its bounding box contains the curve and touches it on all four
     sides.''',
     'inputs', 'every well-formed path',
     'tests compare a few fixed paths with constants',
     'path.py',
     [('PathParser.get_total_length / get_bbox', 'path.py'),
      ('CubicBezierCurve, Ellipse', 'path.py')],
     'PBT: numeric quadrature / sampling oracle and metamorphic relations',
     'tolerances follow the sampling step')
prop('P04', 'Transforming a path transforms every point it draws',
     '''Transforming path data by a matrix gives path data that draws the image
     of the original curve under that matrix; by a product of matrices, the
     same as transforming twice; and the input is not modified.''',
     'inputs', 'every well-formed path and every 2D matrix',
     'tests transform a handful of paths by simple matrices',
     'path.py',
     [('PathParser.transform, PathSegment.transform', 'path.py')],
     'PBT: differential against pointwise transformation',
     'matrices with moderate coefficients')
prop('S01', 'Basic shapes equal their equivalent paths',
     '''For rect, circle, ellipse, line, polyline and polygon elements the
     computed geometry follows the SVG rules for missing, percentage and auto
     values, and path data, length and bounding box agree with the closed
     forms of the shape; with a transform attribute the box and length are
     those of the transformed outline. Groups, links and re-used content
     draw their descendants through the product of the transforms, and a
     reference that leads back to itself draws nothing.''',
     'inputs', 'every attribute combination and unit, including omitted radii '
     'and radii larger than half the side',
     'tests use one or two instances per shape',
     'element.py base.py path.py',
     [('SVGRectElement, SVGCircleElement, SVGEllipseElement, SVGLineElement, '
       'SVGPolylineElement, SVGPolygonElement, SVGUseElement', 'element.py')],
     'PBT against closed-form geometry',
     'lengths to 1e-3 relative where the library integrates numerically')
prop('V01', 'Viewport mapping follows viewBox and preserveAspectRatio',
     '''The transformation from an element to its viewport and to the screen is
     the product, outermost first, of every ancestor's viewBox mapping and
     transform; the viewBox mapping scales and aligns exactly as
     preserveAspectRatio prescribes. Preserve-aspect-ratio values read from
     text are written back equivalently.''',
     'inputs', 'every nesting of svg and group elements, viewport size, '
     'viewBox and preserveAspectRatio value',
     'tests cover a few alignment values and nesting of depth two',
     'base.py element.py',
     [('get_ctm / get_screen_ctm / get_viewport_transformation_matrix',
       'base.py'), ('SVGPreserveAspectRatio', 'base.py')],
     'PBT: differential against an independent mapping model',
     'explicit viewport sizes')

# ----------------------------------------------------------------- lengths
prop('L01', 'Length arithmetic, conversion and ordering respect units',
     '''Converting a length between absolute length units, or between
     resolution units, preserves the quantity and converting back restores it;
     sums, differences, products and comparisons of lengths in different units
     agree with the same operation on their common unit, lengths and
     resolutions refuse to mix; and the text form reads back as the same
     length.''',
     'inputs', 'every pair of numbers and compatible units',
     'tests enumerate some unit pairs with fixed numbers',
     'core.py',
     [('SVGLength', 'core.py')],
     'PBT: unit-table model, algebraic laws and round-trips',
     'double precision; ties within rounding are skipped')
prop('L02', 'Relative lengths resolve against the right context',
     '''Font-relative, root-relative, viewport-relative and percentage lengths
     of an element resolve to the product of the number and the reference
     quantity of that element: its own or inherited font size, the root font
     size, the nearest viewport's width, height, minimum, maximum or
     normalised diagonal.''',
     'inputs', 'every unit, number, font-size chain and viewport nesting',
     'tests use one document and a few values',
     'core.py base.py',
     [('SVGLength.value / convert', 'core.py'),
      ('CSSUtils.compute_font_size', 'core.py'),
      ('SVGElement.get_viewport_size', 'base.py')],
     'PBT: differential against a reference resolver',
     'font sizes in absolute, em, rem and percentage units')
prop('N01', 'Number and coordinate formatting round-trips',
     '''Formatting a sequence of numbers or coordinate pairs gives the shortest
     text that the SVG number grammar reads back as the same numbers, and
     splitting coordinates into pairs loses nothing.''',
     'inputs', 'every finite number sequence',
     'formatting is tested only through other features',
     'formatter.py',
     [('format_number_sequence / format_coordinate_pair_sequence / '
       'to_coordinate_pair_sequence', 'formatter.py')],
     'PBT round-trip', 'precision stated by the formatter')

# --------------------------------------------------------------------- DOM
prop('D01', 'Tree mutation histories match the DOM tree model',
     '''After any sequence of insertions, moves, replacements and removals of
     elements, comments and processing instructions, single or several at
     once with strings, parents, children, siblings, element-only views, root
     nodes, character data and text content agree with the DOM tree model, in
     elements and at document level. Text following a node travels with the
     node, nodes beside a document element belong to it, and a document never
     shows an element that lives elsewhere. Operations the DOM forbids
     (cycles, foreign reference nodes, a second document element, children of
     leaf nodes) raise and leave the tree unchanged.''',
     'histories', 'every sequence of mutation operations on a small forest',
     'tests perform single mutations on fixed documents',
     'dom.py window.py',
     [('Element.append_child / insert_before / replace_child / remove_child',
       'dom.py'), ('Document node operations', 'window.py'),
      ('ensure_pre_insertion_validity', 'dom.py')],
     'model-based stateful PBT', 'histories of up to 25 operations')
prop('D02', 'Attribute views stay consistent under any edit history',
     '''An element's attributes seen through direct access, namespaced access,
     the named node map and attribute nodes are always the same set with the
     same values, whichever view the edits were made through. A detached
     attribute node keeps its value, and an attribute in use by one element
     cannot be attached to another.''',
     'histories', 'every interleaving of attribute edits through all views',
     'tests exercise each method alone',
     'dom.py',
     [('Element.set_attribute… / NamedNodeMap / Attr', 'dom.py')],
     'model-based stateful PBT', 'names from a small pool with namespaces')
prop('D03', 'Token lists behave as ordered sets synchronised with the attribute',
     '''A token list always equals the ordered set of whitespace-separated
     tokens of its attribute, and after adding, removing, toggling and
     replacing tokens the attribute serialises exactly that set. Empty or
     whitespace-containing tokens are refused without changing anything.''',
     'histories', 'every sequence of token operations and direct attribute writes',
     'tests do a few operations on duplicate-free lists',
     'dom.py',
     [('DOMTokenList', 'dom.py')],
     'model-based stateful PBT', 'DOM standard ordered-set semantics')
prop('D04', 'The dataset map is the set of data-* attributes',
     '''Every valid camel-case dataset name reads and writes exactly one
     data-* attribute, the name conversion is inverse in both directions,
     iteration yields exactly the data-* attributes, and invalid names are
     refused without effect.''',
     'histories inputs', 'every name and edit sequence',
     'tests use two or three names',
     'dom.py base.py',
     [('DOMStringMap', 'dom.py')],
     'model-based stateful PBT', 'names over letters, digits, hyphens and dots')
prop('D05', 'Documents survive serialisation and parsing',
     '''Parsing the text form of a document or element gives a tree with the
     same elements, namespaces, attributes, comments, processing instructions
     and character data, and serialising that tree again gives the same
     text.''',
     'inputs', 'every generated tree with arbitrary XML text and attribute values',
     'tests compare a few fixed documents',
     'window.py dom.py',
     [('tostring', 'dom.py'), ('SVGDOMImplementation', 'window.py')],
     'PBT round-trip', 'XML 1.0 characters')
prop('D06', 'Element queries return exactly the matching elements in order',
     '''Queries by id, class names, tag name, namespaced tag name and selector,
     from a document or any element, return exactly the elements a scan of the
     tree finds, in document order, and have no side effects.''',
     'inputs', 'every tree and every query, including names with special characters',
     'tests query one or two fixed documents',
     'utils.py window.py dom.py element.py',
     [('get_elements_by_class_name / _tag_name / _tag_name_ns / '
       'get_element_by_id', 'utils.py')],
     'PBT: differential against brute-force scan', 'trees up to ~40 nodes')

prop('R01', 'Reflecting properties and node names follow the node at any time',
     '''A property that reflects an attribute (id, class, link and style
     attributes, points, transform, path data, zoomAndPan) and that attribute
     agree whichever of them was written last; a missing attribute gives the
     documented default. Every kind of node, including every SVG element,
     can be created and says its name, type, value and text, and writing its
     value through any of its views shows in all others.''',
     'histories', 'writes through either side in any order, every element '
     'name, every kind of node',
     'tests write one attribute once and read it back',
     'base.py element.py dom.py window.py',
     [('HTMLLinkElement, SVGStyleElement', 'element.py'),
      ('SVGAnimatedPoints, SVGZoomAndPan, SVGPathData', 'base.py'),
      ('Attr, Comment, ProcessingInstruction, Element', 'dom.py')],
     'PBT: stateful, dictionary of attributes', 'up to 12 writes')

# --------------------------------------------------------------------- CSS
prop('C01', 'Inline declarations and the style attribute stay in step',
     '''After any history of setting, replacing and removing properties
     through a style declaration block or the style attribute itself, the
     block, its serialisation and the attribute describe the same
     declarations with the same values and priorities. Invalid values and
     read-only blocks change nothing.''',
     'histories', 'every interleaving of declaration edits and attribute writes',
     'tests set a few properties each',
     'css/__init__.py utils.py',
     [('CSSStyleDeclaration', 'css/__init__.py'),
      ('_StyleAttribute', 'css/__init__.py')],
     'model-based stateful PBT', 'property/value pools covering each syntax')
prop('C02', 'Shorthand properties expand and reassemble without loss',
     '''Setting a shorthand sets each of its longhands to the given or initial
     value, in any order of components, reading the shorthand back gives a
     text that expands to the same longhands, and removing it removes them
     all.''',
     'inputs', 'every combination and order of component values',
     'tests enumerate selected combinations',
     'css/shorthands.py css/__init__.py',
     [('ShorthandProperty subclasses', 'css/shorthands.py')],
     'PBT: metamorphic (permutation, re-parse) and model checks',
     'component values from the property tables')
prop('C03', 'Style sheets keep their rules under edits and serialisation',
     '''A style sheet parsed from text has one rule object per valid rule, in
     order, with the selector, declarations, condition or prelude given, its
     serialised rules parse to the same rules, and inserting and deleting
     rules at any position behaves like list insertion and deletion; indices
     out of range are refused without effect.''',
     'inputs histories', 'every style sheet of the supported rules and edit history',
     'tests parse fixed style sheets',
     'css/__init__.py',
     [('CSSParser, CSSStyleSheet, CSSGroupingRule and rule classes',
       'css/__init__.py')],
     'PBT round-trip and model-based histories', 'rule kinds the library supports')
prop('C04', 'Media lists behave as lists of media queries',
     '''A media list read from text holds its comma-separated queries;
     appending, deleting and replacing entries behave like the same edits on a
     list without duplicates, and its text form reads back as the same
     list.''',
     'histories', 'every sequence of media list edits',
     'tests do single edits', 'css/__init__.py',
     [('MediaList', 'css/__init__.py')],
     'model-based stateful PBT', 'generated media queries')
prop('C05', 'Media queries evaluate to their logical value',
     '''A media query list matches exactly when some query in it has a true
     value for the current screen and window, with not, and, or, parentheses,
     boolean features, min-/max- prefixes and range comparisons meaning what
     they say.''',
     'inputs configurations', 'every query of the grammar and every screen configuration',
     'tests check selected queries for one or two configurations',
     'css/mediaquery.py css/screen.py window.py',
     [('parse / match', 'css/mediaquery.py'),
      ('MediaQueryList.matches', 'window.py')],
     'PBT: grammar-based generation against a reference evaluator',
     'features the library supports')
prop('C06', 'Computed style follows the cascade',
     '''The style computed for an element takes each property from the
     declaration that wins by importance, then origin (inline over sheet), then
     specificity, then order, falls back to the presentation attribute,
     inherits inherited properties from the parent and uses the initial value
     otherwise.''',
     'inputs', 'every small document with style sheets, inline styles and attributes',
     'tests check a few fixed documents',
     'style.py window.py dom.py',
     [('flatten_css_rules / get_css_style', 'style.py'),
      ('get_computed_style', 'dom.py')],
     'PBT: differential against a reference cascade', 'simple selectors')
prop('C07', 'CSS unit values convert, compare and type consistently',
     '''Converting a CSS unit value to any compatible unit and back restores
     it, ordering and equality agree with the canonical quantity, incompatible
     units are refused, and types of sums and products follow the type
     algebra, independent of operand order.''',
     'inputs', 'every number and pair of units',
     'tests convert a few pairs', 'css/types.py',
     [('CSSUnitValue, UnitType, CSSNumericType', 'css/types.py')],
     'PBT: unit-table model and algebraic laws', 'double precision')
prop('C08', 'Math expressions keep their value through parse, algebra and text',
     '''A calc(), min(), max() or clamp() expression is read with the usual
     precedence and associativity, and invalid ones are refused; adding CSS
     numeric values gives the sum of their values; and writing an expression and reading it again gives an
     expression of the same value and type.''',
     'inputs', 'every expression of the grammar',
     'tests cover a few dozen expressions', 'css/types.py',
     [('CSSNumericValue._parse_math_expression / CSSMath*', 'css/types.py')],
     'PBT: differential against an independent expression evaluator',
     'absolute units so that values can be reduced to a number')
prop('C09', 'Typed style maps read back what was written',
     '''Parsing a property value to a typed value and writing it gives text
     with the same meaning, values a property does not take are refused,
     references keep their place and fallback, and a style map after any
     history of set, delete and clear agrees with a map from property to value list and with
     the style declaration behind it.''',
     'inputs histories', 'every supported property/value and edit history',
     'tests parse selected values', 'css/types.py css/props.py',
     [('CSSStyleValue.parse / StylePropertyMap', 'css/types.py'),
      ('PropertyDescriptor.supports', 'css/props.py')],
     'PBT round-trip and model-based histories', 'value pools per property')
prop('C10', 'Escaped CSS identifiers tokenise back to the original',
     '''Escaping any string gives CSS text that a tokenizer reads as exactly one
     identifier whose value is the original string with NUL replaced.''',
     'inputs', 'every Unicode string',
     'tests check a list of fixed strings', 'css/__init__.py',
     [('CSS.escape', 'css/__init__.py')],
     'PBT round-trip through tinycss2', 'tinycss2 tokenizer trusted')

prop('C11', 'A document collects the style sheets it links, in order',
     '''The style sheets of a document are those of its xml-stylesheet
     instructions followed by those of its link and style elements in document
     order, each with the sheets it imports before its own rules. Relative
     URLs resolve against the referring document or sheet. Sheets of another
     type, alternate sheets, and sheets, imports and rules for media that do
     not match have no effect; an unreachable, circular or invalid reference
     leaves the rest in place.''',
     'inputs', 'every arrangement of linked, embedded and imported style sheets',
     'tests load a few fixed documents, each with one kind of link',
     'style.py css/__init__.py element.py',
     [('get_css_style_sheets, flatten_css_rules', 'style.py'),
      ('CSSImportRule, CSSParser.parse', 'css/__init__.py'),
      ('HTMLLinkElement, SVGStyleElement', 'element.py')],
     'PBT: generated document and sheet trees in scratch directories vs an '
     'ordered model', 'file and data URLs')

prop('W01', 'A document and its location change together or not at all',
     '''Navigating (through location, href, assign, a part of the location or
     reload, of a document or of its window) resolves the reference against
     the current location, loads that page and makes it the document; when
     the page is refused, missing or malformed, the call fails and both the
     location and the document stay as they were. Changing only the fragment
     never replaces the document. The text of a page is decoded by the
     charset of its header, or else as the document declares.''',
     'histories', 'every order of navigations, failures, edits of the '
     'document and changes of the pages, over files and HTTP',
     'tests navigate once, to pages that exist',
     'window.py url.py utils.py',
     [('Location._navigate and its setters', 'url.py'),
      ('Document.navigate, SVGDOMImplementation.parse', 'window.py'),
      ('load / normalize_url / get_content_type', 'utils.py')],
     'PBT: stateful, urllib and a record of the pages, fault injection',
     'up to ten steps; loopback servers and a scratch directory')

prop('F02', 'Shaping keeps the characters of the text, and objects keep what '
     'they need',
     '''Text shaped through HarfBuzz gives the same glyphs whatever encoding
     it was added in; clusters are the positions of its characters in order
     of the direction; letters without features are the glyphs and advances
     of the font, and positions scale with the font. A buffer is the list of
     its characters under reversals and resets. Blobs, faces, fonts and
     buffers may be dropped in any order without changing what those made
     from them do.''',
     'histories', 'every text, direction, feature and font, and every order '
     'of making, sharing and dropping objects',
     'tests only ask directions for their names',
     'harfbuzz.py freetype.py',
     [('HBBuffer, hb_shape', 'harfbuzz.py'),
      ('HBBlob, HBFace, HBFont', 'harfbuzz.py'),
      ('HBFTFont.create / get_face', 'harfbuzz.py')],
     'PBT: differential between encodings, list model, kept against dropped',
     'texts up to eight characters, histories up to twelve steps')

prop('C12', 'Registered custom properties accept exactly their syntax',
     '''A custom property is untyped until it is registered with a document;
     from then on, in that document only, it accepts exactly the values of
     its syntax and gives them as typed values, and var() stays unparsed.
     Registering needs a custom name and happens once. CSS.supports agrees
     with what typed parsing accepts, in any case of the property name.''',
     'inputs', 'every syntax of component types and keywords and every value '
     'for it',
     'no test registers a property',
     'css/__init__.py css/props.py css/types.py',
     [('CSS.register_property / CSS.supports', 'css/__init__.py'),
      ('PropertyDescriptor.support', 'css/props.py'),
      ('CSSStyleValue.parse_all', 'css/types.py')],
     'PBT against an independent table of component types',
     'up to three alternatives, optional list')

prop('F01', 'Glyph outlines and their matrices behave as geometry',
     '''A 2x2 glyph matrix equals the product of the operations applied to
     it, copying forms leave their operands alone, and it keeps its value
     through its array and fixed-point forms. The outline of a glyph is drawn
     as its points, tags and contours say; translating, transforming and
     reversing it move exactly its points, its boxes enclose its curve and
     its control points, and scaling the font scales outline and metrics.''',
     'inputs histories', 'every glyph, font size, matrix and sequence of operations',
     'tests read one glyph of one font and no changed outline',
     'freetype.py',
     [('FTMatrix', 'freetype.py'), ('FTOutline', 'freetype.py'),
      ('FTFace', 'freetype.py')],
     'PBT: numpy model of matrices, own decoder of outlines', 'installed TrueType fonts')

# --------------------------------------------------------------------- URL
prop('U01', 'URLs parse, resolve and serialise stably',
     '''The components of a URL recompose to its text, serialising and parsing
     again is a fixed point, relative references resolve as RFC 3986
     prescribes, and the origin depends only on scheme, host and port.''',
     'inputs', 'every URL over the supported schemes and reference form',
     'tests parse a few dozen URLs', 'url.py utils.py',
     [('URL._parse_url / tostring', 'url.py'),
      ('normalize_url', 'utils.py')],
     'PBT: component model, round-trip, RFC 3986 reference resolver',
     'generated components')
prop('U02', 'URL setters and search parameters change only their component',
     '''Assigning a component of a URL or location changes that component to
     the given value and no other, and the search parameters, whether edited
     as a map or through the search text, always agree with the query of the
     URL.''',
     'histories', 'every sequence of component assignments and parameter edits',
     'tests set each component once', 'url.py',
     [('URL setters', 'url.py'), ('URLSearchParams', 'url.py'),
      ('Location', 'url.py')],
     'model-based stateful PBT', 'generated component values')

# -------------------------------------------------------------------- text
prop('X01', 'Text content is collected with the right white-space handling',
     '''The characters of a text element or span are those of its displayed
     descendants in document order, around comments and other children, after
     white-space processing for their white-space setting; the number of
     characters is the length of that text; text content is the character
     data of the text and its spans, and can be set.''',
     'inputs', 'every nesting of text spans, other children, white space and white-space settings',
     'tests use a few fixed snippets', 'text.py core.py',
     [('get_chars / get_number_of_chars', 'text.py'),
      ('CSSUtils.normalize_text_content', 'core.py'), ('text_content', 'dom.py')],
     'PBT: differential against a reference normaliser', 'css-text-3')
prop('X02', 'Text measurement is additive and text is laid out character by character',
     '''The computed length of a text is the sum of the lengths of its
     characters (also with ligatures, kerning and right-to-left runs), it is
     independent of the position and in proportion to the font size; moving
     the text moves its box and outline; each character stands where the
     lists of x, y, dx, dy and rotate or the advance of the one before place
     it, however the text is cut into spans, and runs of both directions
     stand in visual order.''',
     'inputs', 'every short text, position, font size and list of positions',
     'tests measure a few strings', 'text.py core.py harfbuzz.py freetype.py',
     [('_get_text_path_data', 'text.py'), ('get_sub_string_length', 'text.py')],
     'metamorphic PBT and differential against characters set one by one',
     'one installed font family; tolerances of 1/64 pixel')
prop('X03', 'Unicode segmentation and bidi results index the given string',
     '''Break positions of a text are strictly increasing UTF-16 indices from
     0 to its length, forwards and backwards alike; the segments are the
     text; grapheme, word and line boundaries are those of the Unicode rules;
     bidi levels, runs, index maps and reordered texts partition and permute
     the whole text as UAX 9 says.''',
     'inputs', 'every Unicode string incl. supplementary characters',
     'tests use a few BMP strings', 'icu.py',
     [('UBreakIterator', 'icu.py'), ('UBiDi', 'icu.py'), ('ULocale', 'icu.py')],
     'PBT: differential against UAX 9, 14 and 29 implemented here',
     'installed ICU library')
prop('X04', 'Font features and families follow the style that asks for them',
     '''The font features chosen for a style are those of its font-variant,
     font-kerning and font-feature-settings values, in any spelling and
     order, the settings overriding the others; the families are the ones
     named in font-family or font, quoted or not; a feature description
     survives its text form.''',
     'inputs', 'every combination of font-variant values, feature settings and families',
     'tests check single values', 'opentype.py core.py harfbuzz.py css/shorthands.py',
     [('features_from_style', 'opentype.py'),
      ('CSSUtils.parse_font_feature_settings', 'core.py'),
      ('CSSUtils.parse_font_family', 'core.py'), ('HBFeature', 'harfbuzz.py')],
     'PBT: differential against a feature table', 'CSS Fonts table')
prop('F03', 'Text is set in the font that CSS font matching picks',
     '''For any font-family list (installed families in any case, generic
     names, aliases, names of fonts that are not installed), font-stretch,
     font-style, font-weight and font-size, given or inherited in any way,
     the face used is the one that CSS font matching picks among the
     installed ones: the first family that has all characters of the text,
     then the nearest width, slant and weight in the order CSS prescribes.
     Font metrics, font-relative lengths, text lengths and glyph outlines
     are those of that face at that size; glyphs are emboldened or slanted
     only where the style asks for it, font-synthesis allows it and the face
     is not bold enough or slanted itself; two fonts are equal exactly when
     their font properties are.''',
     'inputs', 'every style and every set of installed fonts',
     'tests use the fonts and the weights that happen to be installed',
     'core.py text.py fontconfig.py freetype.py',
     [('FontManager', 'core.py'), ('Font', 'core.py'),
      ('SVGTextContentElement._get_text_path_data', 'text.py'),
      ('FontConfig', 'fontconfig.py')],
     'PBT: differential against CSS font matching over generated fonts',
     'horizontal text; one set of generated fonts')
prop('K01', 'Case-insensitive maps behave as dictionaries on folded keys',
     '''A case-insensitive map after any history of edits equals a dictionary
     over lower-cased keys, for lookup, membership, length, iteration and
     deletion.''',
     'histories', 'every edit history', 'not tested with mixed histories',
     'utils.py', [('CaseInsensitiveMapping', 'utils.py')],
     'model-based stateful PBT', 'string keys')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            p = {k: v for k, v in p.items() if not k.startswith('_')}
            fp.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    missing = []
    for p in PROPS:
        id_ = p['id']
        if id_ in NOT_APPLICABLE:
            missing.append({'property': id_, 'reason': NOT_APPLICABLE[id_]})
        elif os.path.exists(os.path.join(HERE, 'pbt', 'props',
                                         id_.lower() + '.py')):
            checks.append({
                'property': id_,
                'quick_cmd': './check {} --tier quick'.format(id_),
                'thorough_cmd': './check {} --tier thorough'.format(id_),
                'technique': p['_technique'],
                'level': 'exploration',
                'level_note': 'Random search over generated inputs with '
                              'shrinking; no proof. ' + p['_note'] + '.',
            })
        else:
            missing.append({'property': id_,
                            'reason': 'check not built yet'})
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'Generated by props_src.py.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'claimed;', len(missing), 'not')


if __name__ == '__main__':
    main()
