"""The properties: one prop(...) call each."""


def fill(prop, NA, c):
    EXACT, TRIG, ASCII, CTYPE = c['EXACT'], c['TRIG'], c['ASCII'], c['CTYPE']
    LXML = ('lxml is executed as the Python model symx/models/lxml, which '
            'tools/lxml_diff.py compares with the real lxml on random '
            'histories; every violation is replayed on the real lxml')

    # ------------------------------------------------------------ geometry
    prop('C01', 'Matrix operations post-multiply and map points accordingly',
         'Every DOMMatrix operation (multiply, translate, scale with and '
         'without origin, scale3d, rotate, rotate from vector, rotate about '
         'an axis, skew, flip), copying or in place, yields the receiver '
         'post-multiplied by the standard matrix of that operation, and '
         'transform_point maps a point through the whole 4x4 matrix.',
         ['inputs'], 'every matrix (2d and 3d) and every argument',
         'Tests pin a few concrete matrices; agreement with the '
         'post-multiplication law is a statement about all 16 components and '
         'all arguments at once.',
         ['svgpy/geometry/matrix.py'],
         [('DOMMatrix.*_self and DOMMatrixReadOnly.* operations',
           'svgpy/geometry/matrix.py')],
         'all components and arguments are unbounded reals; angles are '
         'arbitrary for z rotation and skew, axis rotations use arbitrary '
         'angles about each coordinate axis.', [EXACT, TRIG])
    prop('C02', 'Inverting a matrix yields its two-sided inverse',
         'inverse() and invert_self() of a non-singular matrix give a matrix '
         'whose product with the original, on either side, is the identity, '
         'and which maps transformed points back; a singular matrix is '
         'rejected with an error and left unchanged.',
         ['inputs'], 'every matrix',
         'Holds or fails for all matrices; tests invert a handful.',
         ['svgpy/geometry/matrix.py'],
         [('inverse/invert_self', 'svgpy/geometry/matrix.py')],
         'all 2d matrices; 4x4 matrices with three patterns of zeros (quick) '
         'or all 16 components (thorough).',
         [EXACT, 'numpy.linalg.inv is the adjugate over the determinant'])
    prop('C03', 'The 2D flag is sound and serialisation round-trips',
         'Whatever sequence of operations produced a matrix, is2d is true '
         'only if its 3d components are those of the identity, and '
         'serialising it (string, list, JSON, float array) and reading it '
         'back gives the same components and the same flag.',
         ['inputs', 'histories'], 'every matrix, operation and argument',
         'The flag is carried along histories of operations; tests look at '
         'short concrete ones.',
         ['svgpy/geometry/matrix.py'],
         [('is2d bookkeeping, tostring/fromstring/tolist/tojson',
           'svgpy/geometry/matrix.py')],
         'one inductive step from an arbitrary sound matrix; string forms '
         'with components of up to one integer and one fraction digit.',
         [EXACT, TRIG])
    prop('C04', 'Copying matrix operations leave receiver and argument alone',
         'Copying operations and queries of a matrix never change the '
         'receiver or an argument, later changes to the result do not reach '
         'the receiver, and the components of a read-only matrix cannot be '
         'assigned.',
         ['inputs', 'histories'], 'every matrix and argument',
         'Aliasing shows only for particular call sequences.',
         ['svgpy/geometry/matrix.py'],
         [('DOMMatrixReadOnly operations', 'svgpy/geometry/matrix.py')],
         'unbounded real components; one operation followed by a change.',
         [EXACT, TRIG])
    prop('C05', 'Rectangle edges, setters and normalisation are consistent',
         'For every DOMRect, left and top are x and y, right and bottom '
         'lie width and height further, also for negative sizes; setting a '
         'member or moving, inflating or transposing changes exactly what '
         'it says, normalising keeps the covered area with non-negative '
         'sizes, and construction and serialisation round-trip.',
         ['inputs'], 'every rectangle, negative sizes included',
         'Sign combinations of width and height; tests sample few.',
         ['svgpy/geometry/rect.py'], [('DOMRect', 'svgpy/geometry/rect.py')],
         'unbounded real coordinates.', [EXACT])
    prop('C06', 'The union of rectangles is their smallest enclosing one',
         'Uniting rectangles, by method or operator, gives the smallest '
         'rectangle enclosing both, including rectangles of zero width or '
         'height; it is commutative, an invalid rectangle is neutral, and '
         'only the in-place forms change the receiver.',
         ['inputs'], 'every pair of rectangles',
         'Degenerate and disjoint pairs; tests sample few.',
         ['svgpy/geometry/rect.py'],
         [('unite/unite_self/|', 'svgpy/geometry/rect.py')],
         'unbounded real coordinates.', [EXACT])
    prop('C07', 'Rectangle containment and intersection agree with geometry',
         'contains() answers exactly whether the point or rectangle lies '
         'inside, intersects() is symmetric and agrees with the '
         'intersection, and intersecting overlapping rectangles gives the '
         'common area, without changing the receiver unless done in place.',
         ['inputs'], 'every pair of rectangles and every point',
         'Edge contact and negative sizes; tests sample few.',
         ['svgpy/geometry/rect.py'],
         [('contains/intersects/intersect', 'svgpy/geometry/rect.py')],
         'unbounded real coordinates.', [EXACT])
    prop('C08', 'Transforming a rectangle bounds its four mapped corners',
         'Transforming a rectangle by a matrix, or translating it, gives the '
         'smallest upright rectangle containing the four mapped corners, '
         'whatever the rotation, skew or reflection.',
         ['inputs'], 'every rectangle and 2d matrix',
         'Rotations by arbitrary angles; tests use few matrices.',
         ['svgpy/geometry/rect.py'],
         [('transform/transform_self/translate', 'svgpy/geometry/rect.py')],
         'unbounded real coordinates and 2d matrices.', [EXACT])
    prop('C09', 'A transform list denotes the product of its transforms',
         'Each kind of SVG transform has the matrix SVG defines for it, '
         'whether set by value, by matrix or by text, and the matrix of a '
         'transform list, and consolidating it, is the product of its '
         'members in order.',
         ['inputs', 'histories'], 'every kind, every argument, lists of two',
         'Order and argument defaults interact; tests pin examples.',
         ['svgpy/transform.py'],
         [('SVGTransform, SVGTransformList', 'svgpy/transform.py')],
         'unbounded real arguments; lists of up to two or three members of '
         'every kind.', [EXACT, TRIG])
    prop('C10', 'Transform text parses to its members and serialises back',
         'Parsing transform text yields its functions in order with their '
         'numbers, whatever separators are used, and parsing the serialised '
         'list yields the same list again.',
         ['inputs'], 'every function, number spelling and separator',
         'Grammar-wide statement; tests parse fixed strings.',
         ['svgpy/transform.py'],
         [('SVGTransform/SVGTransformList text', 'svgpy/transform.py')],
         'decimal numbers of up to two integer and two fraction digits, '
         'signs, one or two functions, several separator styles.',
         [EXACT, ASCII])

    # ---------------------------------------------------------------- path
    prop('C11', 'Path text parses to its segments and serialises back',
         'Parsing path data yields one segment per command repetition with '
         'exactly the numbers written (signs, fractions, omitted separators, '
         'repeated arguments, a repeated moveto continuing as lineto), and '
         'parsing the serialised segments yields the same segments.',
         ['inputs'], 'every command, number spelling and separator',
         'Grammar-wide statement; tests parse fixed strings.',
         ['svgpy/path.py', 'svgpy/formatter.py'],
         [('PathParser.parse/tostring', 'svgpy/path.py'),
          ('format_number_sequence', 'svgpy/formatter.py')],
         'pairs of commands, decimal numbers of up to two integer and two '
         'fraction digits, free texts of numbers up to 4 characters.',
         [EXACT, ASCII])
    prop('C12', 'Absolute and normalised paths draw the same figure',
         'Making a path absolute or normalising it keeps every point it '
         'visits: relative, horizontal, vertical, smooth and quadratic '
         'segments become absolute lines and cubics with the end and control '
         'points SVG defines, whatever segment came before.',
         ['inputs', 'histories'], 'every sequence of commands and arguments',
         'The current point, subpath start and last control point are '
         'carried along; tests follow a few sequences.',
         ['svgpy/path.py'],
         [('PathParser.normalize, PathSegment.normalize/toabsolute',
           'svgpy/path.py')],
         'sequences of two commands after a move (all pairs), unbounded real '
         'arguments.', [EXACT, TRIG])
    prop('C13', 'Transforming a path maps every point it visits',
         'Transforming path data by a matrix yields a path whose end points '
         'and control points are the images of the original ones, for '
         'absolute and relative commands alike, also after closed subpaths.',
         ['inputs', 'histories'], 'every sequence, argument and 2d matrix',
         'Combination of relative commands, history and matrix.',
         ['svgpy/path.py'],
         [('PathParser.transform, PathSegment.transform', 'svgpy/path.py')],
         'sequences of two commands after a move, unbounded real arguments '
         'and 2d matrices; arcs: see the known finding KF01.', [EXACT])
    prop('C14', 'The bounding box of a path encloses it tightly',
         'The bounding box of a path contains every point drawn and each '
         'side is touched by one; for cubics this includes the interior '
         'extrema, for closed subpaths the start point.',
         ['inputs'], 'every path of lines and every cubic',
         'Extrema inside curves depend on root positions.',
         ['svgpy/path.py', 'svgpy/geometry/rect.py'],
         [('PathParser.get_bbox, CubicBezierCurve.get_bbox/get_roots',
           'svgpy/path.py')],
         'paths of up to three lines; cubics given by the roots of their '
         'derivative, coordinates within +-100, roots within +-10.', [EXACT])
    prop('C15', 'The length of a path of lines sums the lines it draws',
         'The total length of a path of straight segments is the sum of the '
         'lengths of the lines drawn, closing lines included and moves '
         'excluded, for absolute and relative commands.',
         ['inputs', 'histories'], 'every sequence of straight commands',
         'Subpath bookkeeping; tests measure a few paths.',
         ['svgpy/path.py'],
         [('PathParser.get_total_length, PathSegment.get_length',
           'svgpy/path.py')],
         'twelve command sequences of up to five commands, unbounded real '
         'arguments.', [EXACT, TRIG])
    prop('C46', 'The length of a path of curves is the length of the curves',
         'The length of a cubic is the integral of its speed over its '
         'parameter; the length of an elliptical arc is that of the ellipse '
         'between its two directions the way round it is drawn; the total '
         'length of a path with cubics, quadratics, smooth curves and arcs '
         'is the sum of the lengths of the curves and lines it draws, radii '
         'that are too small grown and zero radii drawn as lines.',
         ['inputs', 'histories'], 'every control point, direction and extent',
         'Control points of smooth curves and quadrants of arcs multiply; '
         'tests measure a few curves.',
         ['svgpy/path.py'],
         [('CubicBezierCurve.get_length, Ellipse.get_length, '
           'PathSegment.get_length, PathParser.get_total_length',
           'svgpy/path.py')],
         'command sequences of up to four curves with control points within '
         '+-100; ellipses of five shapes with every start within -360..720 '
         'and extent within +-359 degrees; arc commands between axis points '
         'of ellipses without rotation.',
         [EXACT, TRIG, 'scipy.integrate.quad is an unknown value whose '
          'integrand and limits are checked; ellipeinc, tan and atan are '
          'uninterpreted functions'])
    prop('C16', 'Shapes, uses and groups draw the path the standard defines',
         'The path data of rect, circle, ellipse, line, polyline and polygon '
         'are those SVG defines for the used values of their attributes '
         '(units, percentages, auto and clamped radii, shapes that are not '
         'drawn); a use element draws its target with the transforms of the '
         'target and its parts, moved by x and y; the box of a shape or group '
         'is the box around what is drawn, transforms included.',
         ['inputs'], 'every attribute value and transform',
         'Geometry over all attribute values; tests pin a few documents.',
         ['svgpy/element.py', 'svgpy/base.py'],
         [('SVG*Element.get_path_data, get_computed_geometry',
           'svgpy/element.py'),
          ('SVGGraphicsElement.get_bbox/get_transformed_path_data',
           'svgpy/base.py')],
         'attribute values are symbolic texts -digits.digits of any length '
         '(|value| <= 1000) with one of seven units; polygons of up to two '
         'points (quick) or four (thorough); transform lists of up to two '
         'transforms; boxes of ellipses have chosen radii; use of svg and '
         'symbol targets is left out (their size attributes are a TODO in '
         'the code).', [EXACT, TRIG, LXML])
    prop('C17', 'Arc segments keep end points, radii and direction',
         'The centre and radii reported for an arc put both of its end '
         'points on the ellipse, radii only grow when too small, arcs '
         'between the axis points of an ellipse are normalised to the '
         'standard quarter curves on the requested side, and degenerate arcs '
         'become lines or vanish.',
         ['inputs'], 'every arc: flags, radii, end points',
         'Combination of flags, radii and positions; tests pin a few arcs.',
         ['svgpy/path.py'],
         [('PathSegment.get_center_of_arc/normalize', 'svgpy/path.py')],
         'chords along chosen directions of symbolic length with chosen '
         'radii, quarter arcs with symbolic centre and radius in a chosen '
         'ratio; no rotation of the ellipse.', [EXACT, TRIG])
    prop('C18', 'Length conversion, arithmetic and order agree with pixels',
         'A length converted to another unit has the value given by the CSS '
         'ratios of the units and by the font size, root font size and '
         'viewport of its element; converting in place keeps the quantity; '
         'lengths and resolutions do not mix. Sums, differences, products '
         'with numbers, quotients, signs and comparisons of lengths agree '
         'with the same operation on their pixel values, keep the unit of '
         'the left operand (a unitless left operand of + and - takes the '
         'unit of the right one) and, unless in place, leave the operands '
         'unchanged.',
         ['inputs'], 'every value, pair of units and context',
         'Pairs of units times contexts times values; tests sample some.',
         ['svgpy/core.py'],
         [('SVGLength.value/convert/operators', 'svgpy/core.py')],
         'all pairs of supported units for conversion, nine representative '
         'units pairwise for arithmetic, unbounded real values, with and '
         'without an element (a stub with symbolic font sizes and '
         'viewport); font metric units only without an element.',
         [EXACT, CTYPE])
    prop('C19', 'Length texts are read and written without loss',
         'Reading a length text gives its number, in any spelling float '
         'accepts, and its unit in lower case; writing a length and reading '
         'it back gives the same number and unit; unknown units and texts '
         'without a number are rejected with ValueError.',
         ['inputs'], 'every length text',
         'All spellings of numbers times all units; tests list some.',
         ['svgpy/core.py', 'svgpy/formatter.py'],
         [('SVGLength.parse/tostring', 'svgpy/core.py')],
         'numbers with up to two integer and two fraction digits and all '
         'number spellings of up to four characters, all units, unknown '
         'units of up to three characters.', [EXACT, ASCII])
    prop('C37', 'Font size and weight cascade as computed values',
         'The computed font size or weight of an element is its own value, '
         'whether an attribute or the style attribute gives it, relative ones '
         '(larger, smaller, %, em, bolder, lighter) applied to '
         'the computed value of the parent; unspecified and inherit take '
         'the parent\'s computed value; sizes never go below the minimum; '
         'line height is a multiple of the font size, a length, or a part of '
         'the font size of the element that specifies it; property lookup '
         'yields the nearest specified value.',
         ['inputs', 'histories'], 'every chain of ancestors',
         'Compositions along ancestor chains; tests use one or two.',
         ['svgpy/core.py'],
         [('CSSUtils.compute_font_size/compute_font_weight/'
           'compute_line_height/get_value', 'svgpy/core.py')],
         'chains of four elements, each with any of ten kinds of size or '
         'seven kinds of weight, symbolic numbers; elements are those of the '
         'code in the lxml model.',
         [EXACT, CTYPE, LXML])
    prop('C50', 'Typed style values and style maps say what is declared',
         'Reading the value of a property gives a unit value of that amount '
         'and unit, the keyword, the address, the items of a list, or, with '
         'var(), the texts and references with their fallbacks; values of '
         'another type, unknown keywords and empty items are rejected. A '
         'value is written as it was read or as it was changed. Unparsed '
         'values are lists for every history. A style property map shows '
         'the declared properties and no others; values of another property '
         'or of no type are refused and change nothing.',
         ['inputs', 'histories'], 'every value and history within the bounds',
         'Texts and histories; tests read samples.',
         ['svgpy/css/types.py', 'svgpy/css/props.py'],
         [('CSSStyleValue.parse/parse_all', 'svgpy/css/types.py'),
          ('CSSUnparsedValue/CSSVariableReferenceValue',
           'svgpy/css/types.py'),
          ('StylePropertyMap', 'svgpy/css/types.py'),
          ('PropertyDescriptor.support', 'svgpy/css/props.py')],
         'ten numeric properties, numbers of two digits; keywords of up to '
         'four letters; names of two letters, fallbacks nested once; lists of '
         'two (thorough: three); histories of two operations. A value inside '
         'a calculation that is changed later leaves the text of the whole '
         'calculation as it was read (not specified).',
         [EXACT, ASCII, CTYPE])
    prop('C49', 'Font values are read into their parts',
         'A font value gives its style, caps, weight and stretch in any '
         'order, its size, line height and families, and the initial values '
         'of the rest; without a size or a family it is no font and changes '
         'nothing. Family lists keep what strings contain; feature settings '
         'give the number of each tag of four characters; font-variant '
         'keywords and functions go to their sub-properties in order.',
         ['inputs'], 'every value within the bounds',
         'Order, spacing, quoting and omission of the parts multiply; tests '
         'read a few well-spaced values.',
         ['svgpy/core.py', 'svgpy/dom.py'],
         [('CSSUtils.parse_font/parse_font_family/parse_font_feature_settings'
           '/parse_font_variant', 'svgpy/core.py')],
         'two prefixes of nine kinds (three in the thorough tier), eight '
         'sizes, six line heights, two families of words or strings with '
         'symbolic characters, two feature tags of symbolic characters, two '
         'font-variant values of seventeen kinds with symbolic arguments; '
         'identifiers with escapes are outside.', [ASCII])
    prop('C41', 'White space of text collapses across elements as CSS says',
         'The characters of a text element are those of its texts in document '
         'order: with white-space normal or nowrap, white space between two '
         'words, whichever elements they are in, is one space, none at the '
         'ends, and a line break next to a zero-width space or between '
         'ideographs is none; pre-line keeps line breaks; pre and pre-wrap '
         'keep all white space, with line feeds for line breaks. No-break '
         'spaces stay. The characters of a tspan are those inside of it; '
         'comments, processing instructions, titles and what is not '
         'displayed have none.',
         ['inputs'], 'every text and tree within the bounds',
         'White space, line break kinds, scripts and element boundaries '
         'multiply; tests read a dozen texts.',
         ['svgpy/core.py', 'svgpy/text.py'],
         [('CSSUtils.normalize_text_content', 'svgpy/core.py'),
          ('SVGTextContentElement.get_chars/get_number_of_chars/'
           '_get_descendant_chars', 'svgpy/text.py')],
         'texts of five characters (six in the thorough tier) over seven '
         'alphabets of words, ideographs, hangul, full-width letters, '
         'no-break and zero-width spaces and white space; up to four pieces '
         'of text in trees with one or two tspans, comments, instructions, '
         'titles. Character references in texts (&...;) are outside.',
         [LXML])
    prop('C43', 'Font variants select the OpenType features CSS names',
         'Each keyword of font-kerning and font-variant-* turns the OpenType '
         'features on or off that CSS Fonts names for it and no others, in '
         'whatever order and combination the keywords stand; '
         'font-feature-settings keeps its values and overrides the others.',
         ['inputs'], 'every combination of keywords within the bounds',
         'Keywords of eight properties multiply; no test reads the features.',
         ['svgpy/opentype.py'],
         [('features_from_style', 'svgpy/opentype.py')],
         'every keyword and every combination of keywords of one list '
         'property, in two orders; every combination of caps, position and '
         'kerning with keywords of another list; one feature setting with a '
         'symbolic value. Functions of font-variant-alternates other than '
         'historical-forms (not implemented) are outside.', [EXACT])
    prop('C51', 'Glyphs of text stand where the attributes put them',
         'Each character stands at its own x and y, or where the one before '
         'ended, moved by its dx and dy and turned by its rotation (the last '
         'one goes on for the rest); values of a tspan are for its '
         'characters, others go on in the list of the text by the number of '
         'the character; a ligature takes the values of its first character '
         'and those of the others are for no glyph; the lists are read whatever '
         'separates and surrounds their numbers; lengths are sums of '
         'advances and boxes hold the cells of the characters.',
         ['inputs'], 'every list of values and every advance',
         'Lists, tspans and ligatures interact; tests have a few texts with '
         'the fonts at hand.',
         ['svgpy/text.py', 'svgpy/path.py'],
         [('SVGTextContentElement._get_text_path_data, '
           'get_computed_text_length, get_sub_string_length, get_bbox',
           'svgpy/text.py'),
          ('PathParser.from_glyph', 'svgpy/path.py')],
         'texts of up to eight characters with one tspan; lists of one to '
         'five symbolic whole numbers; advances and offsets of the glyphs '
         'symbolic; rotations are multiples of 90 degrees. What the shaper, '
         'the bidi and line breaking algorithms and the font say is an input '
         '(stand-ins); vertical and right-to-left text and emboldening are '
         'outside.', [EXACT, TRIG, LXML])
    prop('C20', 'Viewports, viewBoxes and CTMs follow the SVG coordinate rules',
         'The viewBox is fitted to the viewport as preserveAspectRatio says; '
         'sizes, percentages and viewport units of a viewport refer to the '
         'viewport around it; the CTM of an element is the product of the '
         'viewport mapping and all transforms up to its nearest viewport, '
         'the screen CTM goes to the outermost svg with its zoom and pan; '
         'preserveAspectRatio and viewBox attributes are read whatever their '
         'separators and default when invalid.',
         ['inputs', 'histories'],
         'every viewBox, viewport, alignment, transform and nesting',
         'Products of mappings over all numbers and nestings; tests pin some.',
         ['svgpy/base.py', 'svgpy/element.py'],
         [('get_viewport_size, get_viewport_transformation_matrix, _get_ctm, '
           'SVGFitToViewBox, SVGPreserveAspectRatio', 'svgpy/base.py')],
         'viewport and viewBox sizes from 1 to 1000, positions to 100 as '
         'symbolic texts; all alignments; scales that differ by less than '
         '1e-6 are equal or excluded (the code compares lengths with a '
         'tolerance); nestings of up to two svg elements; viewBoxes with '
         'zero size are left out.', [EXACT, TRIG, LXML])
    prop('C21', 'URLs read back as the parts they are written from',
         'The parts (protocol, user name, password, host, port, path, query, '
         'fragment, origin) of a URL are those it was written from, with '
         'host and scheme in lower case and default ports dropped; writing '
         'a URL and reading the text again gives the same parts and text.',
         ['inputs'], 'every URL text',
         'Escapes and delimiters in every part; tests list examples.',
         ['svgpy/url.py'],
         [('URL._parse_url, getters, tostring', 'svgpy/url.py')],
         'URLs of up to two or three arbitrary characters (from the '
         'delimiters, escapes and ordinary ones) in each part; no '
         'non-ASCII.', [ASCII, 'urllib.parse and posixpath run as '
                        'instrumented copies of their sources'])
    prop('C22', 'Setting a part of a URL changes that part only',
         'Setting a valid protocol, user name, password, host, hostname, '
         'port, path, query or fragment of a URL makes it read back so '
         '(normalised), leaves the other parts as they are, and appears in '
         'the serialisation, which reads back the same; invalid values and '
         'an invalid href are rejected with ValueError and change nothing.',
         ['inputs'], 'every part and value',
         'Cross effects between parts; tests set single values.',
         ['svgpy/url.py'], [('URL setters, _parse_host', 'svgpy/url.py')],
         'three starting URLs, values of up to two arbitrary characters '
         'plus boundary values for ports.', [ASCII])
    prop('C23', 'Query parameters mirror the query of their URL',
         'URLSearchParams acts as a mapping, changes are visible in the '
         'query and href of its URL at once, sorted by key, reading the '
         'query gives the same parameters, and a query is split into pairs '
         'at & with all text after the first = as value and + as space.',
         ['inputs', 'histories'], 'every sequence of changes and every query',
         'Escaping of delimiters and histories of changes.',
         ['svgpy/url.py'],
         [('URLSearchParams, URL.search', 'svgpy/url.py')],
         'up to three parameters, keys and values of one or two '
         'characters, queries of four characters, three changes.', [ASCII])
    prop('C42', 'Relative URLs resolve against their base',
         'A relative URL with any combination of authority, path (dot '
         'segments included), query and fragment resolves against the base '
         'as RFC 3986 says; absolute URLs ignore the base; the base object '
         'is not modified; without a usable base a relative URL is rejected '
         'with ValueError.',
         ['inputs'], 'every base and relative reference',
         'Combinations of reference kinds and bases.',
         ['svgpy/url.py'], [('URL.__init__', 'svgpy/url.py')],
         'nineteen kinds of reference with symbolic names against bases '
         'made of scheme, credentials, three directories, query and '
         'fragment; file: bases are left out as they depend on the file '
         'system.', [ASCII])

    # ------------------------------------------------- maps, lists, nodes
    prop('C52', 'A document shows the page its location names',
         'Assigning to the location of a document or window, or to a part of '
         'it, loads the page of the new address once and shows it: its root '
         'is that of the document, its nodes (also those beside the root) '
         'belong to the document, and location, url, document URI and origin '
         'say the address; about: shows nothing; relative addresses resolve '
         'against the address of the document. An address that is invalid, '
         'names no page or cannot be loaded leaves page and location as they '
         'are.',
         ['inputs', 'histories', 'fault_sequences'],
         'every address, part and failure of a load',
         'State after a failure and every part of the address; tests load '
         'one file and about:blank.',
         ['svgpy/url.py', 'svgpy/window.py'],
         [('Location', 'svgpy/url.py'),
          ('Document.navigate/append/location, Window.location',
           'svgpy/window.py')],
         'parts of two or three symbolic characters (delimiters, escapes and '
         'ordinary ones) at three addresses; addresses of seven kinds with '
         'two symbolic characters; two navigations in a row; loads that '
         'succeed or fail. The loaded page is a stand-in: a tree with a '
         'comment and an instruction beside the root; the address a part is '
         'set to is the one URL gives (C22).', [ASCII, LXML])
    prop('C24', 'Case-insensitive maps ignore the case of their keys',
         'CaseInsensitiveMapping is a mapping whose keys are equal when they '
         'differ in case only: every sequence of changes gives the same '
         'entries, lookups and length as an association list over '
         'lower-cased keys, and keys that are not text are rejected.',
         ['inputs', 'histories'], 'every sequence of changes and every keys',
         'Keys which differ in case are stored, found and removed in '
         'histories of operations.',
         ['svgpy/utils.py'], [('CaseInsensitiveMapping', 'svgpy/utils.py')],
         'two (thorough: three) operations with keys of two characters.',
         [ASCII])
    prop('C26', 'Class lists are ordered sets of the words of the class',
         'DOMTokenList shows the words of the attribute without duplicates '
         'in their order; add, remove, toggle, replace, insert, append and '
         'item assignment change it as an ordered set, the attribute and '
         'the list always agree, and empty tokens or tokens with white '
         'space are rejected without a change.',
         ['inputs', 'histories'], 'every attribute text, token and operation',
         'Duplicates, white space and the interaction of operations.',
         ['svgpy/dom.py'], [('DOMTokenList', 'svgpy/dom.py')],
         'attribute texts of five characters, tokens of one or two '
         'characters, one (thorough: two) operations.', [ASCII])
    prop('C27', 'dataset mirrors the data-* attributes',
         'element.dataset is a mapping over exactly the data-* attributes: '
         'camel-case keys and hyphenated attribute names correspond one to '
         'one as HTML says, changes on either side show on the other, and '
         'keys without an attribute name are rejected.',
         ['inputs', 'histories'], 'every key and attribute name',
         'Names with hyphens, digits and upper-case letters in all '
         'positions.',
         ['svgpy/dom.py'], [('DOMStringMap', 'svgpy/dom.py')],
         'keys of up to two (thorough: three) and attribute names of up to '
         'three (thorough: four) characters, histories of two changes.',
         [ASCII])
    prop('C28', 'Attribute setters, readers and nodes agree',
         'However an attribute of an element is set (by name, with '
         'namespace, as an attribute node, through the attribute map), '
         'every reader shows it, every way of removing it makes it vanish '
         'for every reader, other attributes stay; an Attr belongs to one '
         'element, keeps its value when detached, and a second owner or an '
         'invalid name is rejected.',
         ['inputs', 'histories'], 'every pair of setter and remover, value',
         'The many ways to address an attribute are combined.',
         ['svgpy/dom.py'],
         [('Element attribute methods, NamedNodeMap, Attr', 'svgpy/dom.py')],
         'seven setters by seven removers over four names (two with a '
         'namespace), symbolic values, histories of two changes.',
         [ASCII, LXML])
    prop('C29', 'Tree operations keep the document a tree',
         'append_child, insert_before, replace_child, remove_child, append, '
         'prepend, extend, insert, attach, detach, clear and the others '
         'give exactly the tree DOM says; each navigation member (parent, '
         'children, siblings, first and last child, text content, owner '
         'document, root) reflects it; an operation that would make a '
         'cycle, a second document element or use a node that is no child '
         'is rejected and leaves the tree unchanged.',
         ['inputs', 'histories'], 'every operation on any nodes of a tree',
         'Every combination of operation, node, parent and reference node, '
         'and sequences of them.',
         ['svgpy/dom.py'],
         [('Node, Element, Document tree methods', 'svgpy/dom.py')],
         'any choice among the nine nodes of a tree with comments and '
         'processing instructions, with and without a document, histories '
         'of two operations, texts of two characters.', [ASCII, LXML])

    # ------------------------------------------------------- CSS typed OM
    prop('C30', 'CSS numeric types follow the type algebra',
         'The type of a CSS numeric value is that of its unit; a sum, '
         'minimum, maximum or clamp has the common type of its terms and is '
         'rejected with an error if they have none; a product adds the '
         'powers, inversion negates them and leaves its argument alone.',
         ['inputs'], 'every combination of units and powers',
         'An algebra over all combinations of base types; tests pin a few.',
         ['svgpy/css/types.py'],
         [('CSSNumericValue.type, add_types, multiply_types, CSSMath*',
           'svgpy/css/types.py')],
         'types with symbolic integer powers of every base type; one level '
         'of each kind of expression over every unit.', [EXACT])
    prop('C31', 'CSS numeric arithmetic computes and converts exactly',
         'add() and converting sums, products, minima, maxima, negations and '
         'inversions (CSSMathSum and so on) of CSS numeric values give the '
         'value of the mathematical expression and leave the terms alone; '
         'values compare as the quantities they stand for; to() and '
         'to_sum() convert between compatible absolute units without '
         'changing the quantity, keep relative units apart and reject '
         'incompatible ones; equals() holds exactly for equal structure.',
         ['inputs'], 'every value, unit and operation',
         'Quantities under all unit pairs and nestings; tests list examples.',
         ['svgpy/css/types.py'],
         [('CSSNumericValue arithmetic, to, to_sum, equals',
           'svgpy/css/types.py')],
         'unbounded real values, every pair of units, nesting depth two.',
         [EXACT])
    prop('C32', 'CSS calculations read and write their meaning',
         'Reading calc(), min(), max() and clamp() text with nesting, '
         'brackets, precedence and left associativity gives an expression '
         'of the value that CSS defines, and writing an expression gives '
         'text which reads back as the same value and type.',
         ['inputs'], 'every calculation',
         'Precedence and nesting interact; tests try single shapes.',
         ['svgpy/css/types.py'],
         [('CSSNumericValue.parse, tostring of CSSMath*',
           'svgpy/css/types.py')],
         'some thirty shapes up to three operators and two levels of '
         'nesting, one-digit symbolic numbers, symbolic operators; unit '
         'values of up to two integer and one fraction digits (one and '
         'three in the thorough tier).', [EXACT, ASCII])
    prop('C44', 'Element lookup finds exactly the matching elements',
         'Lookup by id, class names, tag name, namespace, local name and '
         'selector, from a document or an element, gives exactly the '
         'elements below that match, in document order; class names and '
         'ids are compared as whole literal words and the combinators of a '
         'selector look at the whole document.',
         ['inputs'], 'every tree, id, class and name',
         'Which elements match depends on all of the tree and the texts.',
         ['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/element.py',
          'svgpy/window.py'],
         [('get_element_by_id, get_elements_by_*', 'svgpy/utils.py'),
          ('query_selector(_all)', 'svgpy/dom.py')],
         'trees of five elements of three shapes, ids and classes of up to '
         'two symbolic characters, twelve simple selectors with five '
         'combinators.', [LXML])
    prop('C45', 'Properties reflect their attributes; every element exists',
         'Every reflecting property of HTML and SVG elements reads and '
         'writes exactly its own attribute with the default of the '
         'standard, token lists show the words of theirs, href falls back to '
         'xlink:href, zoomAndPan maps its keywords, and every element of '
         'the vocabulary can be created and takes part in a tree.',
         ['inputs', 'histories'], 'every attribute value',
         'Tests set a few properties; crossed or missing attributes show '
         'only in combination.',
         ['svgpy/element.py', 'svgpy/base.py', 'svgpy/dom.py'],
         [('HTMLLinkElement, SVGStyleElement, SVGURIReference, '
           'SVGZoomAndPan', 'svgpy/element.py')],
         'values of two symbolic characters, every pair of properties.',
         [LXML])
    prop('C33', 'Media queries evaluate to the truth of their conditions',
         'A media query list matches exactly when one of its queries is '
         'true of the medium, viewport and screen: types with only and not, '
         'conditions joined by and or by or, features in plain, min/max, '
         'boolean and range form with lengths, integers, ratios and '
         'keywords, whatever the case and the spaces.',
         ['inputs'], 'every threshold',
         'Boundaries (equal values, strict comparisons, ratios) and '
         'combinations are endless; tests sample a few.',
         ['svgpy/css/mediaquery.py', 'svgpy/window.py'],
         [('parse, match', 'svgpy/css/mediaquery.py'),
          ('MediaQueryList.matches', 'svgpy/window.py')],
         'two devices; thresholds as unbounded real texts (lengths at least '
         '0.001 away from the tolerance of the code), one-digit integers, '
         'ratios of two-digit integers; up to two conditions and lists of '
         'two queries (three in the thorough tier). Nested parentheses and '
         'invalid queries are outside.', [EXACT, ASCII])
    prop('C38', 'CSS.escape gives an identifier of the same text',
         'For every text the escaped text is one CSS identifier whose value '
         'is the text (with U+FFFD for U+0000), and it ends where the '
         'identifier ends whatever follows.',
         ['inputs'], 'every text within the bounds',
         'Whether a character needs escaping depends on its place; tests '
         'have a few texts.',
         ['svgpy/css/__init__.py'], [('CSS.escape', 'svgpy/css/__init__.py')],
         'one and two arbitrary ASCII characters, three of ten '
         'representatives (three arbitrary and four of seven in the '
         'thorough tier); read back by a reference scanner and by tinycss2.',
         [ASCII])
    prop('C39', 'Media lists are lists of distinct queries',
         'mediaText splits at commas, collapses white space and joins with '
         'a comma and space; append ignores known queries and lists of '
         'several, delete removes one or raises ValueError; the text always '
         'shows the items in order.',
         ['histories'], 'every history within the bounds',
         'Only histories expose stale or duplicate items.',
         ['svgpy/css/__init__.py'], [('MediaList', 'svgpy/css/__init__.py')],
         'three operations (four in the thorough tier), queries of two '
         'symbolic characters.', [ASCII])
    prop('C40', 'Screens keep their settings; orientation follows them',
         'Every screen and window setting reads back what was set; the '
         'orientation angle is the multiple of 90 below the angle set, '
         'modulo 360, and the type follows from the angle and the sides '
         'as the standard tells.',
         ['inputs'], 'every size and angle',
         'Type depends on size and angle together; tests use a few.',
         ['svgpy/css/screen.py', 'svgpy/window.py'],
         [('Screen, ScreenOrientation', 'svgpy/css/screen.py')],
         'sizes up to 10000, angles from -1080 to 1440.', [EXACT])
    # ------------------------------------------------------------- cascade
    prop('C25', 'Style texts are read into their declarations and back',
         'Reading a style attribute gives the names and values of its '
         'declarations in order; of those of one property the last counts, '
         'or the last important one; comments and texts without a value are '
         'no declarations; '
         'semicolons and colons inside strings and parentheses belong to '
         'the value; writing a dictionary gives a text that reads back as '
         'it.',
         ['inputs'], 'every text within the bounds',
         'Only particular combinations of quotes, colons and semicolons '
         'are cut wrongly; tests have simple ones.',
         ['svgpy/utils.py'],
         [('style_to_dict, dict_to_style', 'svgpy/utils.py')],
         'arbitrary texts of six characters over a, colon, semicolon, quote '
         'and space (eight in the thorough tier), four-character values; '
         'texts with unclosed strings are outside.', [ASCII])
    prop('C47', 'Style sheets hold the rules of their text and imports',
         'The rules of a style sheet are those its text gives, in order, each '
         'with its selector, declarations, condition, prefix or feature '
         'values and its parents; unknown at-rules and at-rules without their '
         'block are none. Inserting and deleting rules edits that list and '
         'nothing else. An import is loaded from its address relative to the '
         'sheet it stands in, nested ones likewise, imports that lead back '
         'to a sheet being imported end, and imports and blocks count when '
         'their media match.',
         ['inputs', 'histories'],
         'every sequence of rules, edits, import addresses and import graphs',
         'Rules, edits and imports combine without limit; tests load a few '
         'fixed sheets.',
         ['svgpy/css/__init__.py', 'svgpy/style.py'],
         [('CSSParser.fromstring, parse, parse_rules', 'svgpy/css/__init__.py'),
          ('CSSStyleSheet, CSSGroupingRule: insert_rule, delete_rule',
           'svgpy/css/__init__.py'),
          ('CSSImportRule, CSSMediaRule, CSSNamespaceRule, CSSFontFaceRule, '
           'CSSFontFeatureValuesRule, CSSStyleRule',
           'svgpy/css/__init__.py'),
          ('flatten_css_rules', 'svgpy/style.py')],
         'two (thorough: three) of seventeen kinds of pieces with free names; '
         'three (four) edits at every place; two (three) feature values with '
         'free names and digits; five forms of addresses, two deep, with free '
         'file names; every import graph of two (three) sheets, one of them '
         'missing; nine kinds of media queries with three free digits.',
         [EXACT, 'svgpy.css.load is replaced by a table of sheets'])
    prop('C48', 'Loaded data and content types are what the address says',
         'Loading a data: URL gives the bytes that its text encodes, by '
         'percent escapes or base64, with the type it names or the default; '
         'a content type is read into its type and its parameters whatever '
         'their case, quotes and space; a style sheet is decoded as asked, '
         'else by its content type, else by its @charset, else as UTF-8; '
         'relative addresses are resolved against the base or the working '
         'directory.',
         ['inputs'], 'every text, parameter list and source of encoding',
         'Texts, parameters and precedence of encodings combine; tests load '
         'three data: URLs.',
         ['svgpy/utils.py', 'svgpy/css/__init__.py'],
         [('load, get_content_type, normalize_url', 'svgpy/utils.py'),
          ('CSSParser.parse', 'svgpy/css/__init__.py')],
         'three (thorough: five) free characters of data with six escapes and '
         'six types; two (three) parameters with free names and values; five '
         'base64 payloads (decoding itself is the standard library\'s); four '
         'encodings from four sources. Data with a "?" is left out: the URL '
         'class re-encodes it as a query.', [EXACT])
    prop('C53', 'A property supports the values of its syntax only',
         'CSS.supports is true of a component value exactly when a type or '
         'keyword of the syntax of the property has it, in whatever case and '
         'white space; quoted words are no keywords, blocks and unknown units '
         'are nothing; CSS-wide keywords stand alone, commas are for lists; '
         'unknown properties support nothing. A registered custom property '
         'is parsed by the syntax it was registered with, others take any '
         'value; names register once and begin with two hyphens.',
         ['inputs'], 'every component value within the bounds',
         'Types times kinds of values; tests ask for six values of width.',
         ['svgpy/css/props.py', 'svgpy/css/__init__.py',
          'svgpy/css/types.py'],
         [('PropertyDescriptor.support/supports', 'svgpy/css/props.py'),
          ('CSS.supports, CSS.register_property', 'svgpy/css/__init__.py'),
          ('CSSStyleValue._parse_css_style_value', 'svgpy/css/types.py')],
         'all 16 types against dimensions of all units, numbers, '
         'percentages, hashes of one to nine characters, words of one to '
         'three, strings, addresses, functions, blocks; two components of '
         'three kinds; twelve properties of CSS. How many components a '
         'syntax takes, the content of functions, math functions for other '
         'types than lengths and unit cap are outside.', [ASCII])
    prop('C34', 'Shorthand properties stand for their longhands',
         'Setting a shorthand sets each of its longhands to its part of the '
         'value, in any order of the parts, or to what stands for a part '
         'left out, with its priority and touching nothing else; the '
         'shorthand reads back as a value of the same meaning, is empty '
         'while a longhand is missing or differs in priority, and removing '
         'it removes its longhands only; the style attribute agrees.',
         ['inputs', 'histories'], 'every combination of the parts',
         'font, font-variant, mask and mask-border have thousands of '
         'orders and subsets of parts; tests pin a few dozen.',
         ['svgpy/css/shorthands.py', 'svgpy/css/longhands.py',
          'svgpy/css/__init__.py'],
         [('Shorthand and its properties', 'svgpy/css/shorthands.py'),
          ('CSSStyleDeclaration', 'svgpy/css/__init__.py')],
         'all eight shorthands; one or two values for each part, any order, '
         'one symbolic digit in sizes; then one change of a longhand. The '
         'mutual reset of mask and mask-border and mask positions are '
         'outside.', [LXML])
    prop('C35', 'Declarations are a map kept in step with the attribute',
         'A CSSStyleDeclaration shows, for every history of setting and '
         'removing properties and of writing the style attribute, the value '
         'and priority of each property last declared; the attribute says '
         'the same; read-only declarations refuse every change.',
         ['histories'], 'every history within the bounds',
         'The object caches what the attribute says; only histories that '
         'change both show stale declarations.',
         ['svgpy/css/__init__.py'],
         [('CSSStyleDeclaration', 'svgpy/css/__init__.py')],
         'three operations on plain properties and custom properties '
         '(four in the thorough tier), values with a symbolic character in '
         'words, functions and strings.', [LXML, ASCII])
    prop('C36', 'The style of an element follows the cascade',
         'get_inherited_style gives for each property the declaration of '
         'most weight among presentation attributes, matching rules of '
         'style sheets whose media match, the style attribute and important '
         'ones, the later of equals; a shorthand (font, font-variant, marker) '
         'sets all of its longhands; inherited properties fall back to the '
         'parent, the others and the root to the initial value, and inherit, '
         'initial and unset ask for either; display is '
         'none below an element that is not displayed.',
         ['inputs'], 'every combination of the declarations',
         'Origins, importance, order, selectors, media and inheritance '
         'multiply; tests check a few documents.',
         ['svgpy/style.py', 'svgpy/dom.py', 'svgpy/css/__init__.py'],
         [('Element.get_inherited_style', 'svgpy/dom.py'),
          ('get_css_style, flatten_css_rules', 'svgpy/style.py')],
         'documents svg > g > rect, two rules, twelve selectors with '
         'symbolic classes and ids, media with a symbolic threshold; up to '
         'two declarations (three in the thorough tier) among font, '
         'font-variant and their longhands, marker and its; revert and '
         'linked sheets are outside.',
         [LXML, ASCII])
