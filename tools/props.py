"""The properties, and what each check claims; tools/mk.py writes
properties.jsonl and MANIFEST.json from here."""

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['gopher_render/' + f for f in files], mechanism=mech)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]['_check'] = dict(note=note, technique=technique or 'whole-program abstract interpretation of the source')


prop('C01', 'Contradictory gophermap configuration is refused at construction',
     'Constructing a parser for gophermap output with inline link placement, or without a gopher host, raises ValueError. Every other combination of output format (text or gophermap), link placement, image placement (footer, inline, after_block), host and port is accepted.',
     ['configurations'], 'every combination of output format, placements, host (empty, default or any non-empty string) and port',
     'No test constructs a gophermap parser at all.',
     ['_parser.py'], 'GopherHTMLParser.__init__ validates its arguments before anything is rendered',
     'All combinations are enumerated, host and port symbolic: exhaustive over the documented configuration space.')

prop('C02', 'Page width and box margins govern the layout',
     'The width given to the parser (or, if a box is given, the width of the box, which takes precedence; 67 if neither is given) minus the box\'s left and right margins is the width that paragraphs are wrapped to. Every non-blank line of the page is indented by the box\'s left margin, and the page as a whole starts and ends with as many blank lines as the box\'s top and bottom margins say. Apart from that a page with margins is the page rendered at the remaining width without margins.',
     ['configurations', 'inputs'], 'every page width and left/right margin that leave at least 40 columns, sampled top/bottom margins, documents of every block kind with any words',
     'The tests never pass a width or box; they only see the default page.',
     ['_parser.py', 'rendering.py', '_textwrap.py'], 'Box computes widths from the page box; the parser indents the body and adds the vertical margins',
     'Width, margins and words are symbolic (linear arithmetic over visible lengths), so it holds for all of them; documents are one per block kind. Assumes no word is broken.')

prop('C03', 'A reset parser behaves exactly like a new one',
     'After reset(), whatever was fed before and whether or not the parser was closed, the parser exposes no output and an empty tree, and input that was buffered is discarded. Feeding and closing it again with any document renders exactly what a new parser with the same arguments renders, including link numbers, list ordinals and the link list.',
     ['histories', 'inputs', 'configurations'], 'every use of a parser before the reset (fed, closed, reset again, unclosed tags, pending links), then any document',
     'No test calls reset().',
     ['_parser.py'], 'GopherHTMLParser.reset restores every attribute that feeding and closing change',
     'Histories with every element kind, open and closed, in nine configurations, followed by a probe document that uses every renderer; text is symbolic. Histories are a finite catalogue.')

prop('C04', 'Rendering leaves shared and caller-owned configuration untouched',
     'Rendering any document changes neither the objects the caller passed in (renderer mappings, settings, setting values such as margin lists and templates, the page box) nor the shared state of the package (class settings, default arguments). Parsers do not influence each other, used one after another or in turn. Closing a parser twice leaves the same output as closing it once.',
     ['histories', 'inputs', 'configurations'], 'every configuration touching each renderer and setting kind, every document, any later or interleaved parser',
     'The tests build one parser per document with default settings and never compare the configuration afterwards.',
     ['_parser.py', 'rendering.py', '_namedict.py'], 'settings are copied per renderer instance and per merge; boxes copy their margin lists',
     'Effect analysis: every heap object existing before the rendering is compared structurally with its abstract state afterwards, for ten custom configurations; plus re-rendering by another parser.',
     technique='effect analysis by abstract interpretation (heap comparison)')

prop('C05', 'Renderer settings come from the nearest source that gives them',
     'The value of a setting that a renderer uses is the one from the selectors\' settings if they give one, else from the nearest class in the renderer\'s method resolution order that gives one, whatever the values are (also falsy ones or values equal to a base class\'s). Giving a setting in a subclass, in a selector or in a more specific selector renders the same. Renderer instances have independent settings, readable as attributes and as items.',
     ['programs', 'configurations'], 'every class hierarchy shape and source of settings considered, every documented setting of every renderer, any values',
     'One test creates one renderer; inheritance and selector settings are not combined.',
     ['rendering.py', '_namedict.py', '_parser.py'], '_RendererMeta and Renderer.__new__ aggregate class settings over the MRO; _adjust_settings applies the selector\'s',
     'Hierarchies (single, multiple, diamond, equal settings, non-settings bases) with symbolic values, and an equivalence check for every setting of every built-in renderer.')

prop('C06', 'The most specific matching selector decides; ties go to the later one',
     'An element gets its renderer from the most specific matching selector that names one (of equally specific ones, the later in the mapping), a selector mapped to (None, settings) never changing the renderer. The settings of all matching selectors are merged in the same order, so that the most specific one wins for each setting. An element no selector names a renderer for is rendered by the default renderer (mapped from the empty selector).',
     ['inputs', 'configurations'], 'every ordered pair (and many triples) of 32 selector forms, for renderers and for settings',
     'The tests match single selectors; none has two selectors competing for one element.',
     ['_parser.py', '_selectors.py'], 'RendererMap.get_for_tag sorts the matches by specificity (stable) and merges them',
     'Exhaustive over ordered pairs of the selector catalogue (the thorough tier adds triples); the winning renderer is read off the abstract rendering.')

prop('C07', 'Specificities are totally ordered, most significant part first',
     'Comparing two selector specificities (ids; classes, attributes and pseudo-classes; elements) with <, <=, >, >=, == and != gives the lexicographic order of the three numbers, for all numbers. Sorting by specificity follows it.',
     ['inputs'], 'all triples of non-negative numbers, all six comparisons',
     'No test compares specificities.',
     ['_selectors.py'], 'Specificity implements the rich comparisons',
     'All 27 sign patterns with symbolic numbers: complete for the comparison operators; sorting is checked for permutations of 4 to 6 keys.')

prop('C08', 'Combinators, structural pseudo-classes and negation match as in CSS',
     'The descendant, child, adjacent-sibling and general-sibling combinators, the pseudo-classes first-child, last-child, nth-child(n) and nth-last-child(n) (n an integer), :not(...), element names and * match exactly the elements that CSS says, in any combination and nesting. Text and blank text between elements never counts as an element; void elements, links and images do count.',
     ['inputs', 'programs'], 'selectors built from the supported forms; documents of any shape (a catalogue of trees up to depth 5)',
     'The tests use one fixed tree and one selector per form, mostly without text between the elements.',
     ['_selectors.py', '_parser.py'], 'tag_matches walks parents and siblings (tag_children) per combinator',
     'Every selector of a generated catalogue (all pairs of simple selectors around each combinator, triples, pseudo-classes, negations) is evaluated abstractly at every element of every catalogue tree and compared with an independent CSS matcher.')

prop('C09', 'Attribute, class and id selectors compare values as in CSS',
     'The selectors [a], [a=v], [a~=v], [a|=v], [a^=v], [a$=v], [a*=v], .class and #id match exactly the elements CSS says, for every attribute value: case-sensitively, class being a whitespace separated list, ^= $= *= never matching for an empty operand. A missing attribute, or one without a value, never raises.',
     ['inputs'], 'all attribute values of the given shapes (known fragments around arbitrary text), every operator',
     'The tests have no attribute selectors and only single classes.',
     ['_selectors.py', '_parser.py'], 'tag_matches compares the parsed attributes of the element',
     'Values are symbolic strings around known fragments, so each verdict holds for all of them; about 130 rows cover each operator\'s match and mismatch shapes.')

prop('C10', 'All document text is rendered exactly once and in document order',
     'With the default renderers and any of their settings, every word of the document\'s text (and the descriptions of images that have one) appears in the output exactly once, complete and in document order, whatever the nesting of elements, also for text outside any element or in unclosed elements. Link lists come after the text they belong to and may repeat shortened descriptions; that is the only text shown twice.',
     ['inputs', 'configurations'], 'all text at every position of every pair of nested elements (and deeper chains), in seven configurations and with each setting',
     'The tests have a fixed text in at most two levels of nesting with default settings.',
     ['_parser.py', 'rendering.py'], 'tags render their children in order and renderers wrap, template and join that content',
     'The symbolic text runs of the output are compared with the input\'s; holds for all words, over all pairs of 24 element kinds and a set of deep chains. Relies on the standard library wrapper keeping the words.',
     technique='abstract interpretation with string provenance')

prop('C11', 'Document text is never interpreted as a template or code',
     'Text, attribute values, titles and URLs from the document are only ever data: braces, percent signs and backslashes in them appear literally in the output, and they never act as a format template, a regular expression or anything else that is interpreted. This holds for every renderer, setting and placement.',
     ['inputs', 'configurations'], 'all text and attribute values, every renderer and setting, every placement',
     'No test document contains a brace, percent sign or backslash.',
     ['rendering.py', '_parser.py', '_textwrap.py'], 'renderers pass document text as arguments of str.format and as subjects of re, never as template or pattern',
     'Taint analysis over all abstract paths for every element kind, setting and configuration in the catalogue: no tainted value reaches a template/pattern/eval position.',
     technique='taint analysis by abstract interpretation')

prop('C12', 'Every placed link and image has one reference and one matching list entry',
     'With link_placement/image_placement other than "inline", every link (image) is numbered in document order and shows exactly one reference with its number in the text, and exactly one entry of the same number, description and href (src) is listed: at the end of the page for "footer", at the end of the element that directly contains it for "after_block" (at the end of the page when there is none). Inline ones show their URL in the text instead and get neither number nor entry. By default the list follows a blank line, one entry per line: [n] description: href "title". This holds for links and images at any place, in any combination and nesting.',
     ['inputs', 'configurations'], 'all documents of a catalogue of element kinds, pairs and chains holding links and images; every combination of the two placements',
     'The tests have at most two links, in paragraphs, with one placement each.',
     ['_parser.py', 'rendering.py'], 'handle_starttag numbers and registers links; TagParser.render and GopherHTMLParser.close render the registered ones',
     'References and entries are read off the abstract output, with symbolic texts, URLs and titles.')

prop('C13', 'Gophermap links are single, well-formed lines',
     'In gophermap output every listed link or image item is exactly one line that starts in the first column with its item type, and has four fields (description, selector, host, port) separated by exactly three tabs; no field contains a tab or a line break, whatever characters the text, title, alt text and URL contain, wherever the link is and whatever margins, padding and borders the link renderer or page has. The text of the document never gives another line a tab. The description is the title if there is one, else the text, cut to max_link_description characters (default 10) and "..." if longer; for images the alt text, cut likewise, or "Image".',
     ['inputs', 'configurations'], 'all texts, titles and URLs (arbitrary characters); link renderer settings and page margins of a catalogue',
     'The tests use plain words and two URLs.',
     ['rendering.py', '_parser.py'], '_gophermap_field, ExtractedLinkRenderer, ExtractedImageLinkRenderer',
     'A character-class argument on the provenance of every part of every item: lines are split abstractly, and a part that may contain a tab or line break is a violation. Items placed after wrapped, quoted or indented blocks are known findings.')

prop('C14', 'Gophermap items carry the right type, selector, host and port',
     'A relative link gives the configured host and port and its path as selector; a gopher: URL its own host (configured host if absent), its own port (70 if absent) and its path; http, https, any other scheme and malformed URLs give type h, the selector "URL:" + href and the configured host and port. The type of relative and gopher: links follows the extension of the file name: none 1; html, htm h; gif g; jpg, jpeg, png, bmp, tiff I; txt, csv, tsv, md 0; anything else 9. Extensions are lower case; dots in directory names and leading dots of the file name do not count. The same holds for images.',
     ['inputs'], 'all paths, hosts and ports of these shapes (symbolic file names, directories, hosts)',
     'The tests check two URLs.',
     ['_parser.py'], 'LinkParser._parse_href and _guess_type',
     'Every shape is rendered abstractly with symbolic components and the fields of the item compared with an independent table.')

prop('C15', 'No document makes rendering fail',
     'Rendering never raises, whatever the document: any sequence of start tags, end tags, text and character references (unclosed, unopened and misnested ones included), any attributes with any or no values, any URLs, any text, with the default renderers in any valid configuration (placements, gophermap, optimise, any page width including zero, negative and very narrow ones, any margins) and with any valid settings and selectors. Input that html.parser itself rejects, nesting beyond the recursion limit and settings of the wrong type are out of scope.',
     ['inputs', 'configurations'], 'element kinds × attributes (with arbitrary values) × configurations × page widths; token sequences with missing and surplus tags; settings and selectors',
     'The tests render well-formed documents of a few elements.',
     ['_parser.py', 'rendering.py', '_textwrap.py', '_selectors.py', 'ansi.py'], 'handle_starttag/handle_endtag/handle_data/close, LinkParser._parse_href, the renderers\' render and render_tag_settings',
     'Every abstract path of each case ends normally. Standard functions are modelled with the exceptions they can raise (urlsplit, int, TextWrapper, index errors and so on).')

prop('C16', 'ANSI styles apply to exactly the styled element',
     'With ANSI settings on inline elements, a terminal that interprets the output shows the text of the element with exactly the requested effects, font, foreground and background colours, and the text before and after it with none of them; likewise for a styled element in another with a style of a different kind, and when several styles are combined. Colours may be named, bright, palette numbers, (r, g, b) tuples or HTML codes. Nested styles of the same kind and nesting within "normalise" are out of scope.',
     ['inputs', 'configurations'], 'all effects, fonts and colour forms; singly, combined and nested; every block element around them, with its settings',
     'The tests compare the escape codes of a few single styles.',
     ['ansi.py', 'rendering.py'], 'ANSI effect/font/colour classes give opening and closing codes; InlineRenderer applies them around the rendered text',
     'The abstract output (with symbolic words) is run through a model of a terminal written from ECMA-48.',
     technique='abstract interpretation; the output\'s escape codes are decided by a terminal model')

prop('C20', 'Text fills the available width',
     'The text of paragraphs, list items and definitions (left justified, as by default), also quoted or nested in each other, is broken into lines greedily: no line is wider than the room the page width leaves after the margins, padding, borders and line templates of the page, the enclosing elements and the element itself and its initial_indent (first line) or subsequent_indent (others); a line ends only where the next word does not fit on it or at a br; a word is split only if it is longer than a whole line, and then where the line is full (with break_long_words=False it gets a line of its own instead). Every line carries the indentation and prefixes of all enclosing elements, and inline markers count as part of the words. Holds for words and page widths of any length; text with hyphens, sentence ends or further blanks is out of scope.',
     ['inputs', 'configurations'], 'words of any length up to twice the line, every page width; elements, nestings and settings of a catalogue',
     'The tests have one fixed text per element, at the default width.',
     ['rendering.py', '_textwrap.py'], 'Box computes the inner width from all enclosing boxes; renderers wrap to it with AnsiAwareTextWrapper._wrap_chunks',
     'The wrapper is interpreted itself, with linear facts about the lengths on each path; every line break of every path is justified from these facts.',
     technique='abstract interpretation with linear length facts (polyhedral entailment)')

prop('C17', 'ANSI styles do not change the layout',
     'Without its escape codes, the output of a document with ANSI-styled inline elements is the output of the same document without the styles: same lines, line breaks, justification, indents, borders, header underlines and centering, and link lists, whatever the styles, whatever part of the text they apply to (several words, part of a word, nested styles, blanks at the ends of a text, nothing) and whatever the page width and the lengths of the words. Two blanks in a row with the edge of a styled element between them, and lists of links placed within a styled element, are out of scope.',
     ['inputs', 'configurations'], 'styles × positions × elements × settings of a catalogue; words of any length, any page width',
     'The tests have one paragraph with styles, at one width.',
     ['_textwrap.py', 'rendering.py'], 'visible_len, AnsiAwareTextWrapper, justifications, _border_render, HeaderRenderer',
     'Both renderings follow in one abstract state, so that each path decides every length comparison the same way for both; the outputs are compared term by term.',
     technique='relational abstract interpretation (two renderings in one state)')

prop('C21', 'Borders enclose blocks in rectangles',
     'A block with a border is a rectangle: below its top margin come one line per character of its top border, its lines of padding and content between the left and right border, and its bottom border; after the left margin every line starts with the left border, followed by at least the left padding, and ends with the right border, which is in the same column on every line, namely the last one the page width leaves after the right margins, padding and borders of the page, the enclosing elements and itself; the horizontal borders have that same width. This holds for paragraphs, list items, definitions, quotations, lists, headers, preformatted text and plain blocks, also nested in each other with boxes of their own, with any margins and padding, and with indents, justification, line templates, styles and line breaks, if the content fits the width (wrapped text always does, unless splitting long words is turned off). Where a block is nested in another, the blank lines of its vertical margins may be dropped.',
     ['inputs', 'configurations'], 'boxes × elements × nestings × settings of a catalogue; words of any length, any page width',
     'The tests have no borders at all.',
     ['rendering.py'], 'BlockRenderer._border_render, _outer_render and the widths of Box',
     'The lines of the abstract output are peeled level by level and every column is decided from linear facts about the lengths on the path.',
     technique='abstract interpretation with linear length facts (polyhedral entailment)')

prop('C26', 'Justified text is aligned with the edges of its room',
     'With justification "right" every line of a paragraph, list item or definition ends at the right edge of the room the page, the enclosing elements, its borders, padding and line template leave; with "center" the blanks before and after differ by at most one; with "full" every line of several words starts at the left edge (after its indent) and ends at the right edge, and its gaps differ by at most one column, except the last line of the text (and the line before a line break), which is not stretched; with "left" lines start at the left edge. Apart from the added blanks the lines are those of greedily filled text. Styles do not count as width.',
     ['inputs', 'configurations'], 'justifications × elements × boxes of a catalogue; words of any length up to twice the line, any page width',
     'The tests never set a justification.',
     ['rendering.py', '_textwrap.py'], 'full_justify, right_justify, center_justify and what they wrap to',
     'Wrapping and justification are interpreted; quotients and remainders are bounded by linear facts, and each line\'s first and last column and gaps are decided by entailment on every path.',
     technique='abstract interpretation with linear length facts (polyhedral entailment)')

prop('C33', 'Headers show their text as their settings say',
     'A header with the default renderers is one line of its text between as many # on either side as its level (h1 to h6). A header (or definition term) with HeaderRenderer settings shows its text in upper case if capitalized, with spread copies of spread_char between every two characters (none before the first or after the last), within its template; if underlined, the line below repeats underline_char for as many columns as the text so shown takes, or as the room is wide with underline_full; if centered, the text and the underline each stand in the middle of the room (blanks before and after differ by at most one), otherwise at its left edge. The room is what the page, enclosing elements with their line templates, and the header\'s own margins, padding and borders leave. Escape codes of styles in the text do not count. This holds for headers that fit the room, also in list items, definitions, quotations and boxed elements.',
     ['inputs', 'configurations'], 'combinations of all header settings × places × boxes; texts of any length that fit, any page width',
     'The tests have headers with default settings only.',
     ['rendering.py'], 'HeaderRenderer._inner_render, MarkdownHeaderRenderer, center, spread, capitalize',
     'The text, its column and the underline are read off the abstract output; lengths are compared by entailment from the linear facts on each path.',
     technique='abstract interpretation with linear length facts (polyhedral entailment)')

prop('C22', 'The command line tool renders the source file to the destination file',
     'The command reads the source file once and never writes to it. If the source\'s suffix is .md, and only then, its contents are converted from Markdown; otherwise they are taken as HTML as they are. Whatever the destination is called, the rendered text, all of it and nothing else, is written to it, in one file opened for writing, and the same text is printed. With -d or --dump (and only then) the HTML that is rendered is printed as well. No other file is opened.',
     ['inputs', 'configurations'], 'source suffixes (any string), destination suffixes, the dump option; contents as token lists',
     'No test runs the command.',
     ['cli.py'], 'main(): suffix test, markdown conversion, dump, writing and printing',
     'main() is interpreted with stand-ins, themselves interpreted, for argparse, pathlib, open, print and markdown that record every action.',
     technique='effect analysis by abstract interpretation with recording stand-ins')

prop('C24', 'Blanks collapse outside preformatted text and stay within it',
     'Outside pre elements every run of blanks, tabs and line breaks (LF or CRLF) between words, in a text or between the texts of adjacent inline elements, shows as a single blank would. Within a pre element, at any depth, until its end tag or the end of the document, the lines of the text appear with all their blanks, tabs (in text output) and line breaks. Which of the two applies to a text depends on nothing but whether a pre element is open there.',
     ['inputs', 'histories'], 'kinds of whitespace × places × shapes of a catalogue, every sequence of up to three tags (four in the thorough tier) of nine before a text; any words',
     'The tests have one pre element and little whitespace.',
     ['_parser.py'], 'handle_data and DataParser with the stack of open elements',
     'Two renderings are compared term by term; the open elements are counted by the check.',
     technique='relational abstract interpretation and exhaustive enumeration of short tag histories')

prop('C25', 'Ordered list items are numbered in order',
     'The item number of an ordered list item is start_index + step × (number of items of the same tag before it in its list): text, blanks, line breaks and other elements between the items do not count, and every list, also within an item of another, is numbered on its own. The first line of an item starts with its line_template filled with that number (default "1. "); its further lines are indented by the width of that, whatever the width of the number.',
     ['inputs', 'configurations'], 'sequences of up to four children (items, blanks, paragraphs, line breaks), long lists, nestings × start indexes and steps (any integer in unnested lists) × templates',
     'The tests have lists of a few items with default settings.',
     ['rendering.py', '_parser.py'], 'OrderedListItemRenderer and the ordinal of a tag',
     'The expected start and indent of each line are computed by the check from a count of the items before it and compared with the abstract output.')

prop('C18', 'Every code theme styles the tokens it lists',
     'Each module of code_themes defines renderers whose every rule names classes that pygments gives to tokens (or highlight, codehilite), has settings that AnsiEscapeCodeRenderer knows, with valid values, and at least one that has an effect. In code highlighted with the theme (block code in pre elements and code in text) a terminal shows each token with exactly the colours and effects of the most specific rule for its class, the last of these if several are equally specific, those of enclosing elements where it sets none; what follows the code is shown as if it were not there. A theme with a base background_colour defines its foreground_colour too (github, which has none, aside), both valid.',
     ['inputs', 'configurations'], 'every theme in the package × every class its rules name, alone and nested in others, in preformatted and inline code; any token text',
     'The tests use no theme.',
     ['code_themes/*.py', 'rendering.py'], 'the renderers dictionaries of the themes, AnsiEscapeCodeRenderer',
     'The rules are read off the abstract value of each module and compared with the styles on an abstract terminal.',
     technique='abstract interpretation with a model of a terminal')

prop('C31', 'Every line of a block carries its decorations',
     'Before and after the text of a line stand, from the outermost block to the innermost, the left margin and padding of each block and its line_template: that of paragraphs, block quotations and preformatted text (after the indent of the latter) on every line; that of list items, ordered ones included, and definitions on the first line that shows text of theirs, its width in blanks on every other. Paragraphs, list items and definitions put initial_indent blanks after this on their first line (paragraphs also on each line after a line break) and subsequent_indent blanks on the others. Lines are the same whether broken by br, by line breaks in pre, or by wrapping. A line without text between two lines of a quotation or within preformatted text carries its template too. Blanks at the end of the text, before what follows it, and at the end of the line do not count.',
     ['inputs', 'configurations'], 'nestings of blocks × line templates × indents × line breaks; wrapped at any page width, words of any length that fits',
     'The tests have the default templates, on a handful of nestings.',
     ['rendering.py', '_textwrap.py'], 'the _inner_render methods of block renderers, line templates, TextWrapper indents',
     'The check composes each expected line from the templates and indents of the enclosing blocks and compares it with the abstract output term by term.',
     technique='abstract interpretation with linear length facts (polyhedral entailment)')

prop('C34', 'Inline elements show their content within their templates',
     'The text of an inline element stands within the template of its renderer, nested elements within those of the outer ones: by default _ _ for em, i, u and ins, ** ** for strong and b, ~~ ~~ for s and del, ` ` for code without line breaks, outside pre (inline_template of CodeRenderer), nothing for span, abbr and unknown elements; the template setting of a matching rule instead, if given. With capitalized the whole content is in upper case, that of nested elements included, the template not. A link shows as [text](href), with the title in quotes after the href if it has one, when placed inline, else as [text][n]; an image as ![alt](src) inline, else [alt][n], alt being Image if missing or empty. Text next to an element stands next to it as in the document; br breaks the line. Lists of links within inline elements or laid out within paragraphs are out of scope.',
     ['inputs', 'configurations'], 'nestings of up to three inline elements × blocks around them × templates, capitalized, placements; any text',
     'The tests show each inline element once, in a paragraph.',
     ['rendering.py'], 'InlineRenderer and its subclasses, LinkRenderer, ImageRenderer, CodeRenderer',
     'The expected line is composed from the templates by the check and compared with the abstract output term by term.')

prop('C27', 'Optimised output lacks only the blanks at the ends of lines',
     'With optimise on, as by default, the output has the same lines (separated by LF) as with optimise off, each without the whitespace characters at its end (of which str.rstrip decides), and is otherwise the same: no line is added, removed, joined or split, blank lines at the start and end included, and whitespace elsewhere in a line stays. Any true value switches it on.',
     ['inputs', 'configurations'], 'a catalogue of documents × configurations (formats, placements, borders, templates, justifications, styles) × kinds of whitespace and line boundaries at the ends of lines; any words',
     'Most tests render with the default and short documents without trailing blanks.',
     ['_parser.py'], 'GopherHTMLParser._optimise_parsed, close',
     'Two renderings, with and without optimise, are compared line by line and term by term.',
     technique='relational abstract interpretation (two renderings compared)')

prop('C30', 'Stray end tags, void elements and unclosed elements do no harm',
     'An end tag that does not belong to the innermost open element changes nothing: the document renders as without it, with the element still open. Elements still open at the end render as if closed there, innermost first. The void elements of HTML (area, base, br, col, embed, hr, img, input, link, meta, param, source, track, wbr) need no end tag: what follows them is not within them, and they render alike with and without one; all but br and img show nothing and, within or between other elements, change nothing else. Blocks within unclosed links are out of scope.',
     ['inputs', 'histories'], 'every sequence of up to three tags of five kinds (nine in the thorough tier) with a word after each; stray end tags, unclosed elements and void elements in a catalogue of documents and settings; any words',
     'The tests are well-formed, with br and img as the only void elements.',
     ['_parser.py'], 'handle_starttag, handle_endtag, close',
     'Two renderings, of the document as it is and as well-formed as the rule makes it, are compared term by term.',
     technique='relational abstract interpretation (two renderings compared)')

prop('C35', 'Pretty-printing does not change the output',
     'A document of block elements (paragraphs, headers, preformatted text, quotations, lists, list items, definitions, and single div elements around such) renders to the same lines whether its tags follow each other directly or with line breaks, tabs, blanks or blank lines between them, and also if such whitespace stands before and after the text of an element other than pre. Blanks at the ends of lines, blank lines at the start and end of the document and blank quoted lines at the end of a quotation aside. Elements without vertical margins (or, for list items and definitions after the first, without a top margin of one or more) next to each other at the same level are out of scope.',
     ['inputs', 'configurations'], 'nestings of block elements × kinds of whitespace × settings of a catalogue; any words',
     'The test documents are written one way.',
     ['_parser.py', 'rendering.py'], 'handle_data, DataParser, the renderers of block elements',
     'The document is rendered with and without the whitespace and the lines are compared term by term.',
     technique='relational abstract interpretation (two renderings compared)')

prop('C36', 'Vertical margins and padding separate blocks',
     'In front of the first text, between the texts of successive blocks and after the last stand as many line breaks as the top margins and padding of the blocks that begin there and the bottom margins and padding of those that end there add up to (nothing collapses; empty blocks count too). By default paragraphs, headers, preformatted text, quotations and lists have 1 above and below, list items and definitions 1 above, terms 2 above (the first item or term of a list none, the first item of a list within a list item 1; the first paragraph of a quotation none above, the last none below), plain blocks (div) none; the margin and padding of a matching rule replace these. A br is one line break. List items and definitions show no blank lines: whatever their content has between two texts is a single line break (blank lines of quotations within them, which carry their mark, stay), and none before the first and after the last. Quotations drop one of the line breaks at the end of their content. Blocks without a line break between them in the same list item, blocks within paragraphs, headers and preformatted text, blocks with borders, and lists of links are out of scope.',
     ['inputs', 'configurations'], 'sequences of two and nestings of up to three blocks × vertical margins and padding; any text that fits a line',
     'The tests have the default margins, on a handful of sequences.',
     ['rendering.py', '_parser.py'], 'BlockRenderer._outer_render and _border_render, default margins of renderers and rules of the parser',
     'The number of line breaks between the texts of the abstract output is compared with the sum made by the check.')

prop('C40', 'Feeding a document in pieces gives the same output',
     'Feeding the source of a document in several pieces, split anywhere, gives the same output as feeding it at once, apart from how a run of blanks split between pieces is collapsed.',
     ['inputs', 'schedules'], 'every document and every split',
     'No test feeds more than once.',
     ['_parser.py'], 'html.parser.HTMLParser.feed',
     '', na='How pieces are cut into tokens is decided by the buffering of the standard library\'s html.parser, not by this code base; the analysis starts at its callbacks, where pieces no longer exist. What the callbacks do with adjacent texts is covered by C10 and C24.')

prop('C41', 'Rendering ends, for documents of any depth',
     'Rendering every finite document ends, without exceeding the recursion limit whatever the depth of its elements.',
     ['inputs'], 'every document, every depth',
     'Test documents are shallow.',
     ['_parser.py', 'rendering.py'], 'recursive rendering of the tree',
     '', na='The renderer recurses once per level, so the second half is false for documents deeper than Python\'s recursion limit, which no design of this code intends to support; a static bound on the depth that works would depend on the interpreter\'s stack use and its configured limit, a runtime quantity.')

prop('C42', 'Output survives another round through Markdown',
     'The text output of a document, taken as Markdown, converts to the same document again.',
     ['inputs'], 'documents without boxes, links and styles',
     'No test converts output back.',
     ['rendering.py'], 'markdown-like defaults of the renderers',
     '', na='Would need a model of the markdown package (a third-party parser driven by dozens of regular expressions over the whole text), whose result on symbolic text no sound abstraction in reach can decide; and the output is meant to be read, not parsed: it has no escaping at all.')
