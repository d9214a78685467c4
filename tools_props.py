"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


B = 'pdfmajor/'
PS = B + 'parser/PSStackParser/'
CM = B + 'interpreter/commands/'
p('C01', 'Tokens follow the lexical grammar, wherever read-buffer boundaries fall',
  'For every byte stream of PDF syntax, the tokenizer delivers exactly the tokens of the PDF lexical grammar (numbers, names with #xx escapes, literal strings with nesting and escapes, hex strings, keywords, array/dictionary/procedure delimiters, comments skipped), each with the byte offset at which it starts. The tokens do not depend on where the blocks fall in which the stream is read, nor on how it is split between white space and delimiters, and the last token of a stream is delivered even when nothing follows it. Reading lines forwards (or backwards from the end) likewise yields the lines of the stream whatever the block boundaries.',
  ['inputs'], 'all byte strings of PDF syntax; every alignment of a token to a block boundary',
  'the two tokenizer tests use one short input each, far smaller than one block, so no token ever straddles a boundary',
  [PS + 'PSBaseParser.py', PS + '__init__.py', PS + 'types.py'],
  [('token state machine', PS + 'PSBaseParser.py: _parse_* and nexttoken'), ('block refill', PS + 'PSBaseParser.py: fillbuf'),
   ('line readers', PS + 'PSBaseParser.py: nextline, revreadlines')], ['the (position, token) sequence', 'the line sequence'])
p('C02', 'Nested objects are assembled exactly as written',
  'Arrays, dictionaries, procedures and indirect references of any nesting depth come out with exactly the structure and leaf values that were written, in order; a key whose value is null is absent from its dictionary, and "n g R" becomes one reference to object n. A closing delimiter without its opener, or a dictionary with an odd number of entries, never corrupts the objects before or after it.',
  ['inputs'], 'all token sequences, of any nesting depth and mix of containers, including malformed nesting',
  'the tests assemble one fixed snippet with depth at most two', [PS + '__init__.py', B + 'parser/PDFParser.py'],
  [('context stack', PS + '__init__.py: start_type/end_type/nextobject'), ('references and null', B + 'parser/PDFParser.py: do_keyword')],
  ['the sequence of top-level objects'])
p('C03', 'Split content streams read as one; inline images end where their data ends',
  'A page whose content is an array of streams is interpreted exactly as if the streams, separated by white space, were one stream, wherever the cuts between tokens fall. An inline image yields its dictionary and exactly the bytes between ID and EI, whatever those bytes are as long as they do not themselves form an EI delimited by white space, and interpretation continues after EI with the same state.',
  ['inputs', 'configurations'], 'all ways of cutting a program between tokens into streams (also empty ones); all inline image data without a delimited EI',
  'the sample files have single content streams and almost no inline images', [B + 'parser/PDFContentParser.py', CM + '__init__.py'],
  [('stream concatenation', B + 'parser/PDFContentParser.py: fillfp/fillbuf'), ('inline data', B + 'parser/PDFContentParser.py: get_inline_data, do_keyword')],
  ['items yielded for the page'])
p('C04', 'Cross-reference lookup: the newest revision of every object wins',
  'For every history of incremental updates (classical tables, cross-reference streams, hybrid files, object streams, mixed in any order), looking up an object number yields the object of the newest revision that mentions it, and a number that no revision defines, or that its newest revision frees, is reported as not found. If the cross-reference data is missing or unusable, the same objects are recovered by scanning the file, the later definition winning.',
  ['histories', 'inputs'], 'all sequences of revisions over a set of object numbers and of the ways to record them',
  'the sample documents have one or two revisions made by a few producers', [B + 'parser/PDFDocument/PDFXRef.py', B + 'parser/PDFDocument/__init__.py'],
  [('xref chain', B + 'parser/PDFDocument/__init__.py: read_xref_from, find_xref'), ('lookup', B + 'parser/PDFDocument/__init__.py: getobj'),
   ('tables', B + 'parser/PDFDocument/PDFXRef.py')], ['the object returned for each number', 'the error for an absent one'])
p('C05', 'Object lookup does not depend on order, repetition or caching',
  'Whatever sequence of lookups is made on an open document, with caching on or off, each object number always yields the same value, equal to the one a fresh document gives, also when objects live in object streams, and one failed lookup does not affect any other. Following references resolves a chain of references to its final value.',
  ['histories', 'configurations'], 'all sequences of lookups over all objects of a document, in both caching modes',
  'tests read each document once, in one order, with caching on', [B + 'parser/PDFDocument/__init__.py', B + 'parser/PDFStream/util.py'],
  [('object cache', B + 'parser/PDFDocument/__init__.py: getobj'), ('object streams', B + 'parser/PDFDocument/__init__.py: _getobj_objstm'),
   ('resolution', B + 'parser/PDFStream/util.py: resolve1, resolve_all')], ['values of getobj / resolve1'])
p('C06', 'Pages come in tree order, inherit attributes, and are selected exactly',
  'For every page tree, the pages delivered are its leaves from left to right, each exactly once, with media box, crop box, rotation (modulo 360) and resources taken from the nearest ancestor that sets them; boxes are given by any two opposite corners, and without a usable media box the page is of Letter size. With a page selection only the selected 0-based pages are delivered, a page limit N ends the delivery with the first delivered page that is the N-th of the document or a later one, and the delivered pages are numbered consecutively from 0. A document without a page in its tree delivers its page objects, each once, and one without any page is reported as empty.',
  ['inputs', 'configurations'], 'all page trees (shape, placement of inherited attributes) and all selections and limits',
  'sample files have flat trees; selection and limit are not tested', [B + 'parser/PDFPage.py', B + 'interpreter/__init__.py', B + 'interpreter/PageInterpreter.py'],
  [('tree walk', B + 'parser/PDFPage.py: create_pages'), ('selection', B + 'parser/PDFPage.py: get_pages')], ['pages yielded by the interpreter: number, size, content'])
p('C07', 'q/Q, cm, colours and line width act on exactly the state they should',
  'For every content program, each painted item carries the stroke and fill colour (space and components), the line width and the matrix in force when it was painted: cm premultiplies the current matrix, colour operators set only their own side, sc/SC take as many operands as the current colour space has components, and unknown operators change nothing. q and Q nest: Q brings back the state (matrix, colours, line width, font, size, spacings, leading, rise) of the matching q, and a Q without a q changes nothing.',
  ['programs'], 'all content programs over the graphics-state, colour, painting and text operators',
  'three sample files check colours; nesting, unmatched Q and the interplay with cm, text and forms are not exercised',
  [CM + 'commands.py', CM + '__init__.py', CM + 'state/__init__.py', CM + 'state/PDFGraphicState/__init__.py', CM + 'utils.py'],
  [('save/restore', CM + 'commands.py: save_state, restore_state'), ('colours', CM + 'commands.py: set_*'), ('resources', CM + 'utils.py: init_resources')],
  ['items yielded by a page'])
p('C08', 'Every glyph is placed where the text operators put it',
  'For every sequence of text operators inside text objects, the text object yielded contains one block per showing operator that showed something and one character per code shown, in order, and every character box starts at the pen position given by the text matrix, line moves, leading, rise and current matrix, and is as wide as the glyph width times size and horizontal scaling. The pen moves by (glyph width times size + character spacing + word spacing for code 32) times the horizontal scaling, and by the adjustments in a TJ array; the boxes of blocks and objects are the hulls of their characters, and the font name and size are those selected.',
  ['programs'], 'all sequences of text operators, fonts with arbitrary widths and descriptors, any page rotation and origin',
  'tests only check that items have the expected Python type', [CM + 'commands.py', CM + 'state/layout/utils/textdecoder.py', CM + 'state/layout/LTTextBlock.py', CM + 'state/layout/LTCharBlock.py', CM + 'state/layout/LTChar.py', CM + 'state/PDFTextState/__init__.py'],
  [('pen movement', CM + 'state/layout/utils/textdecoder.py'), ('text operators', CM + 'commands.py')], ['text blocks, blocks and characters yielded'])
p('C09', 'Each path painting operator yields one item of the right kind, box and points',
  'For every path built from m, l, c, v, y, h and re, each of S s f F f* B B* b b* yields exactly one item and n yields none, and the next path starts empty. The item lists the segments in order with their points in page space, closed by the closing painting operators; it is a horizontal, vertical or general line for a single segment, a rectangle for an axis-parallel closed four-corner path and a curve otherwise, its box is the hull of the segment end points, and the even-odd flag is set exactly by the starred operators.',
  ['programs'], 'all sequences of path construction and painting operators under all matrices',
  'the colour tests count curves in three files; kinds, boxes and points are not checked', [CM + 'commands.py', CM + 'state/layout/__init__.py', CM + 'state/Curves.py'],
  [('construction', CM + 'commands.py: curve_*'), ('classification', CM + 'state/layout/__init__.py: make_curve')], ['curve items yielded'])
p('C10', 'Form XObjects nest, are placed by their matrix, and do not leak state',
  'Invoking a form yields one container item, boxed by the form box under form matrix and current matrix, holding exactly the items of the form program interpreted under that combined matrix, to any nesting depth. The form starts with the colours and line width of its caller, uses its own resources (or those of its caller if it has none), and nothing it does - also unbalanced q, matrices, colours, fonts - changes the state of the caller. An image object yields one image item with the size of the image, boxed by the unit square under the current matrix.',
  ['programs'], 'all programs with nested forms and images, any matrices, own or inherited resources',
  'one colour test sees a form; placement, nesting and isolation are not checked', [CM + '__init__.py', CM + 'commands.py', CM + 'state/layout/__init__.py', CM + 'state/layout/LTXObject.py'],
  [('form execution', CM + '__init__.py: process_command_stream'), ('placement', CM + 'state/layout/__init__.py: make_xobject, make_image')], ['container items and their children'])
p('C11', 'Every iteration over a document or page, interleaved or repeated, is the same',
  'Whatever mix of iterations is made over an opened document and its pages - completing or abandoning iterations, iterating several times, several iterators at once, pages collected first and read later, preloading on or off - each complete iteration over the document yields every selected page once and in order, and each complete iteration over a page yields the same items. No iteration changes what another one sees.',
  ['histories', 'schedules'], 'all interleavings of starting, advancing, abandoning and finishing iterations over a document and its pages',
  'every test iterates once, front to back', [B + 'interpreter/__init__.py', B + 'interpreter/PageInterpreter.py', CM + '__init__.py', B + 'parser/PDFPage.py'],
  [('page list', B + 'interpreter/__init__.py: __iter__, __load_pages'), ('page state', B + 'interpreter/PageInterpreter.py')], ['pages and items per iteration'])
p('C12', 'Stream filters and predictors decode exactly, alone and chained',
  'For every byte string, decoding what the encoder of a filter produced (ASCIIHex, ASCII85, RunLength, LZW with either EarlyChange, Flate, with or without PNG predictor) gives back the byte string, whatever legal choices the encoder made (white space, run splitting, code-width changes, clear codes, partial groups, PNG row types, sample depths). A chain of filters, given singly or as an array with their parameters, in full or abbreviated names, is undone in order, and the decoded data does not depend on how often or through which object it is read.',
  ['inputs', 'configurations'], 'all byte strings, all legal encodings of them, all filter chains and parameters',
  'one vector per filter', [B + 'utils/lzw.py', B + 'utils/ascii85.py', B + 'utils/generic.py', B + 'parser/PDFStream/__init__.py', B + 'parser/PDFStream/util.py'],
  [('LZW', B + 'utils/lzw.py'), ('ASCII filters', B + 'utils/ascii85.py'), ('run length', B + 'parser/PDFStream/util.py: rldecode'),
   ('predictor', B + 'utils/generic.py: apply_png_predictor'), ('filter chain', B + 'parser/PDFStream/__init__.py: decode')], ['decoded bytes'])
p('C13', 'Group 4 fax decoding reproduces every bitmap',
  'For every bitmap and width, decoding its CCITT Group 4 encoding gives back the bitmap, row for row, with the row padding of the byte-aligned form and the polarity chosen by BlackIs1, whatever legal mode (pass, vertical, horizontal with make-up codes) the encoder chose for each change. Decoding ends at the end-of-block code.',
  ['inputs'], 'all bitmaps up to a width and height, and all legal mode choices; random larger ones',
  'the tests feed single mode codes to the row state machine and never decode a whole image', [B + 'parser/PDFStream/ccitt.py'],
  [('mode and run tables', B + 'parser/PDFStream/ccitt.py: BitParser tables'), ('row state', B + 'parser/PDFStream/ccitt.py: _do_*')], ['decoded bytes'])
p('C14', 'Encrypted documents open with the right passwords only and read like plain ones',
  'For every document encrypted with RC4 (40 to 128 bits), or with one crypt filter for everything (RC4, AES-128, AES-256 or none), opening with the user or the owner password succeeds and any other password is refused with the documented error, and an empty user password opens without one. Every string and stream of every object then reads exactly as in the unencrypted document, objects inside object streams included, and extraction is refused exactly when the permission bits deny it and the caller asked for the check.',
  ['inputs', 'configurations'], 'all documents, key lengths, revisions, passwords (also empty, over-long and unrepresentable), permission words and orders of reading',
  'no test opens an encrypted document', [B + 'parser/PDFDocument/PDFSecurityHandler.py', B + 'parser/PDFDocument/__init__.py', B + 'parser/PDFStream/__init__.py', B + 'parser/PDFStream/util.py'],
  [('key derivation', B + 'parser/PDFDocument/PDFSecurityHandler.py'), ('decryption walk', B + 'parser/PDFStream/util.py: decipher_all'), ('permission check', B + 'parser/PDFPage.py: get_pages')],
  ['objects read', 'errors raised'])
p('C15', 'JSON output is well-formed and says what was written',
  'For every sequence of nested objects, arrays, strings and numbers given to the JSON writer, the text written parses as JSON and gives back exactly that structure, with every string intact (quotes, backslashes, control characters, any Unicode) and a repeated key of an object written once. Converting any document to JSON gives a valid file whose pages, items, texts, fonts, boxes and colours are those the interpreter yields.',
  ['inputs', 'programs'], 'all sequences of writer calls; all documents',
  'one call sequence with plain strings', [B + 'converters/writers/json.py', B + 'converters/json.py'],
  [('writer stack', B + 'converters/writers/json.py'), ('conversion', B + 'converters/json.py')], ['the file written'])
p('C16', 'XML and HTML output is well-formed and says what was written',
  "For every sequence of nested elements, attributes and texts (as escaped by the library's helpers) given to the XML or HTML writer, the text written is well-formed (elements properly nested and closed) and parses back to that tree with every attribute value and text intact, apart from characters XML cannot hold, which become U+FFFD. Converting any document to XML gives a well-formed file whose pages, items, texts and boxes are those the interpreter yields, and converting it to HTML keeps every text readable.",
  ['inputs', 'programs'], 'all sequences of writer calls; all documents',
  'four call sequences with plain strings', [B + 'converters/writers/xml.py', B + 'converters/writers/html.py', B + 'converters/xml.py', B + 'converters/html.py'],
  [('writer stack', B + 'converters/writers/xml.py, html.py'), ('conversion', B + 'converters/xml.py, html.py')], ['the file written'])
p('C17', 'YAML output is well-formed and says what was written',
  'For every sequence of nested objects, arrays, strings and numbers given to the YAML writer, the text written parses as YAML and gives back that structure with every string intact (a string of decimal digits may read back as that number) and a repeated key of an object written once. Converting any document to YAML gives a valid file whose pages, items and texts are those the interpreter yields.',
  ['inputs', 'programs'], 'all sequences of writer calls; all documents',
  'one call sequence with plain strings; the conversion is never parsed', [B + 'converters/writers/yaml.py', B + 'converters/yaml.py'],
  [('writer stack', B + 'converters/writers/yaml.py'), ('conversion', B + 'converters/yaml.py')], ['the file written'])
p('C18', 'Codes map to Unicode by ToUnicode, then Differences, then the base encoding',
  'For every simple font, a code shown in text becomes the Unicode text its ToUnicode map gives, otherwise that of its glyph name in the Differences array, otherwise that of the base encoding; a code none of them defines is an error, or nothing when bad characters are to be ignored. Differences number glyph names consecutively from each integer, glyph names of the Adobe list and of the forms uniXXXX and uXXXX (with parts joined by _ and a suffix after a dot) are understood and other names passed over, and ToUnicode maps with bfchar, bfrange (to a string or an array) give exactly their mapping, also beyond one UTF-16 unit.',
  ['inputs'], 'all encodings, Differences arrays and ToUnicode maps, all codes',
  'one file with one bad character', [B + 'parser/EncodingDB.py', B + 'parser/cmapdb/__init__.py', CM + 'state/PDFTextState/PDFFont/PDFFont.py', CM + 'state/PDFTextState/__init__.py', B + 'utils/encoding/latin_enc.py'],
  [('lookup order', CM + 'state/PDFTextState/PDFFont/PDFFont.py: to_unichr'), ('encodings', B + 'parser/EncodingDB.py'), ('CMap parser', B + 'parser/cmapdb/__init__.py: CMapParser')],
  ['text of the characters yielded'])
p('C19', 'All output formats and the interpreter agree on pages, order and text',
  'For every document and every choice of page selection, page limit, password and handling of bad characters, the text, JSON, XML, HTML and YAML conversions contain the same pages in the same order with the same texts in the same order as iterating the interpreter with those options (the text format in UTF-8), and fail when it fails. The output depends only on the document and the options, not on other conversions made before in the same process.',
  ['inputs', 'configurations'], 'all documents and option combinations, in all formats',
  'the conversion test only checks that JSON and XML of the samples parse', [B + 'converters/__init__.py', B + 'converters/text.py', B + 'converters/json.py', B + 'converters/xml.py', B + 'converters/html.py', B + 'converters/yaml.py'],
  [('option passing', B + 'converters/__init__.py: convert_file'), ('renderers', B + 'converters/*.py')], ['files written by convert_file'])
p('C20', 'Glyph widths come from the width tables with their defaults',
  'For every simple font the width of a code is its entry of Widths counted from FirstChar, otherwise the missing width (a standard font without Widths has its own metrics); for every composite font it is its entry of W (in either of the two forms, mixed in any order, later entries winning), otherwise DW; for vertical writing it is that of W2 and DW2. Widths determine both the character box and the pen movement.',
  ['inputs'], 'all width arrays in both forms, all defaults, all codes',
  'four module-level assertions on tiny arrays', [CM + 'state/PDFTextState/PDFFont/util.py', CM + 'state/PDFTextState/PDFFont/fonts.py', CM + 'state/PDFTextState/PDFFont/PDFFont.py'],
  [('W and W2', CM + 'state/PDFTextState/PDFFont/util.py'), ('lookup', CM + 'state/PDFTextState/PDFFont/PDFFont.py: char_width')], ['character boxes', 'width tables'])
p('C21', 'Outlines and named destinations are found exactly',
  'For every outline, listing it yields each entry that has a title and a destination or action once, parents before children and siblings in order, with its level, title, destination and action. For every name tree, looking up a name yields its value exactly if it is in the tree (a destination otherwise that of the old dictionary of destinations), and otherwise reports that it is not found.',
  ['inputs'], 'all outline trees and all sorted name trees of any shape and limits, all names looked up',
  'no test touches outlines or names', [B + 'parser/PDFDocument/__init__.py'],
  [('outlines', B + 'parser/PDFDocument/__init__.py: get_outlines'), ('names', B + 'parser/PDFDocument/__init__.py: lookup_name, get_dest')], ['outline entries', 'destinations'])
p('C22', 'Exported images keep their size and samples',
  'For every image of one component of 1 bit, and every 8-bit DeviceGray or DeviceRGB image, exporting writes a bitmap whose width, height, depth and every sample are those of the image, rows padded and ordered as the format requires; a JPEG image is written byte for byte (one in CMYK converted to RGB), and any other image as its decoded samples. The name says what the file holds, and exporting one image does not disturb another, wherever on the page they are, however they are compressed or encrypted and whatever was read before.',
  ['inputs'], 'all widths, heights, depths, colour spaces and filter chains, all sample values',
  'one document is exported and only checked not to fail', [B + 'interpreter/commands/state/layout/LTImage.py', B + 'BMPWriter/__init__.py'],
  [('format choice', CM + 'state/layout/LTImage.py: save_image'), ('bitmap', B + 'BMPWriter/__init__.py')], ['files written'])
p('C23', 'Damage stays local, is reported by documented errors, and reading ends',
  'For every document in which objects are lost (missing, malformed, not where the cross-reference table says, of another type, in a lost object stream) or references lead astray, what is lost reads as null and everything else as if nothing was: lost contents draw nothing, a lost form is not drawn, a lost font is replaced, lost pages are left out, and all other pages and items are delivered. An operator with missing or wrongly typed operands, a font or object name that is not defined, text outside a text object or without a font, a nested text object, a form that invokes itself and an ill-formed dictionary end their page with a documented error after the items before it (a form is delivered as a whole), a page tree node that is its own descendant ends the document so, and pages that follow a failed one are still delivered. However a file is damaged, reading it neither hangs nor exhausts the memory, and reading it again gives the same.',
  ['inputs', 'fault_sequences'], 'all documents with any set of lost objects and redirected references; all ill-formed programs; all mutations of bytes',
  'the tests only read intact documents', [B + 'execptions.py', B + 'parser/PDFDocument/__init__.py', B + 'parser/PDFPage.py', CM + '__init__.py', B + 'parser/PDFStream/util.py'],
  [('error classes', B + 'execptions.py'), ('operand check', CM + '__init__.py: process_command_stream'), ('recovery', B + 'parser/PDFDocument/PDFXRef.py: PDFXRefFallback')], ['pages, items and errors delivered', 'termination'])
p('C24', 'Composite fonts decode strings by their CMap and map CIDs to Unicode',
  'For every composite font, a string shown is cut into codes exactly as its CMap prescribes (two bytes per code for the identity maps, and the code lengths of a predefined map), an incomplete last code is dropped, and each code becomes the text its ToUnicode map gives, or otherwise that of its CID in its character collection or embedded TrueType font. CMaps may be identity, predefined or embedded, and may use each other. Writing mode is vertical exactly for the vertical maps, and then characters are laid out downwards by their vertical metrics.',
  ['inputs'], 'all strings over all codes, all ToUnicode maps, both writing modes',
  'sample files use a few codes of a few fonts', [B + 'parser/cmapdb/__init__.py', CM + 'state/PDFTextState/PDFFont/fonts.py', CM + 'state/layout/utils/textdecoder.py'],
  [('code cutting', B + 'parser/cmapdb/__init__.py: CMap.decode, IdentityCMap'), ('CID to Unicode', CM + 'state/PDFTextState/PDFFont/fonts.py: PDFCIDFont')], ['characters and boxes yielded'])

p('C25', 'The command line and convert_file do what their options say',
  'For every combination of options, the command-line converter writes the selected pages of its input in the selected format to standard output or to the given file: without a type, text, or the format that the extension of the output file names. convert_file writes to the given output file, or else beside the input with the extension of the format; a format that does not exist, an output name that does not fit the format (convert_file), more than one input, a wrong password or a document that does not allow extraction is refused with an exception or a non-zero exit status. Debug messages and caching change nothing, and no file but the output is changed or left.',
  ['configurations', 'inputs'], 'all combinations of type, output, pages, limit, password, debug, caching and codec, over documents that are plain, encrypted or closed to extraction',
  'no test runs the command line, and convert_file is called with one set of options per format', ['tools/pdfconvert.py', B + 'converters/__init__.py'],
  [('options', 'tools/pdfconvert.py: main'), ('dispatch and names', B + 'converters/__init__.py: convert_file')], ['exit status, exceptions, files and standard output'])

with open('/verif/properties.jsonl', 'w') as fp:
    for x in P:
        fp.write(json.dumps(x) + '\n')
print(len(P))
