T = 'TLA+ spec checked with TLC; '
TECH.update({
 'C07': T + 'trace validation and replay of generated behaviours on the real interpreter',
 'C08': T + 'trace validation and replay of generated behaviours on the real interpreter',
 'C09': T + 'trace validation and replay of generated behaviours on the real interpreter',
 'C10': T + 'trace validation and replay of generated behaviours on the real interpreter',
})
TECH['C01'] = T + 'enumeration of short inputs replayed, trace validation of tokenizer runs at many block sizes and alignments'
TECH['C02'] = T + 'enumeration of token sequences replayed, trace validation of parser runs'
TECH['C03'] = T + 'trace validation of split content streams; enumeration of inline data replayed'
NOTE['C01'] = 'Lexer.tla is the lexical grammar as a byte-wise machine; exhaustive for all strings up to length 5 (quick) over six alphabets, random beyond; inputs on which the grammar is silent are not judged.'
NOTE['C02'] = 'Objects.tla is the object grammar as a stack machine over tokens; exhaustive for short token sequences over three alphabets, random nesting beyond.'
NOTE['C03'] = 'Interp.tla for the interpretation of the joined program, InlineData.tla for the end of inline data (exhaustive for short data), random programs and cuts beyond.'
_i = 'Interp.tla states the content-stream machine; TLC enumerates programs over a small alphabet (replayed into the code) and validates traces of random long programs. Exhaustive only within the alphabet and length; numbers are dyadic rationals with tolerance 1e-6.'
NOTE.update({'C07': _i, 'C08': _i, 'C09': _i, 'C10': _i})
NA = {f'C{i:02d}': 'check not built yet' for i in range(1, 25)}
TECH['C04'] = T + 'enumeration of update histories written out as files and looked up, trace validation of random files'
TECH['C05'] = T + 'small-step reader checked against the meaning of objects; lookups replayed and validated on the real document class'
NOTE['C04'] = 'Xref.tla: histories of revisions (tables, streams, hybrid, object streams, frees, reuse); TLC enumerates short ones, each is written as several files and looked up; damaged cross-reference data for the recovery part.'
NOTE['C05'] = 'Lookup.tla: the reader with nested lookups (object streams, Lengths), cache and recursion guard; exhaustive for 3 objects, random graphs up to 12.'
TECH['C06'] = T + 'enumeration of page trees written out and read, trace validation of random trees'
NOTE['C06'] = 'PageTree.tla: the walk over the tree with inheritance, selection and limit, checked against the recursive definition; all trees of 4 nodes (quick) with attribute placements, random trees up to 30 nodes.'
TECH['C11'] = T + 'enumeration of iteration histories replayed, trace validation of random histories'
NOTE['C11'] = 'IterHist.tla: shared lazily loaded pages and independent iterators; every history up to length 9 on two pages, random histories up to 80 steps over up to three opened documents.'
TECH['C12'] = T + 'enumeration of encoded data decoded by the specification and the code, trace validation of random chains'
NOTE['C12'] = 'Filters.tla decodes ASCIIHex, ASCII85, RunLength, LZW and PNG predictors step by step and is itself checked against independent encoders; inflating is left to zlib and taken as given.'
TECH['C13'] = T + 'enumeration of bitmaps and coding choices replayed, trace validation of random bitmaps'
NOTE['C13'] = 'Fax.tla decodes Group 4 code by code and is cross-checked with an independent encoder (libtiff); uncompressed mode and one-dimensional coding (K >= 0) are not claimed, the fill bits at the end of a row are not judged.'
TECH['C14'] = T + 'enumeration of attempts and read histories replayed on encrypted files, trace validation of random ones'
NOTE['C14'] = 'Crypt.tla: symbolic cryptography (keys as the passwords they come from, pieces as stacks of layers), the steps of authentication and of reading with and without cache; files are written by an independent implementation of the standard security handler.'
TECH['C15'] = T + 'enumeration of writer call sequences replayed, trace validation of random call sequences and of conversions'
NOTE['C15'] = 'Calls.tla gives the meaning of calls, JsonText.tla reads JSON character by character; both are compared on what the real writer wrote. Convert.tla says what a conversion must contain for the items the interpreter yields; random documents.'
TECH['C16'] = T + 'enumeration of writer call sequences replayed, trace validation of random call sequences and of conversions'
NOTE['C16'] = 'XmlText.tla reads XML character by character (elements, attributes, references, comments); HTML conversions are read by the same machine with the void elements of HTML; random documents for the conversions.'
TECH['C17'] = T + 'enumeration of writer call sequences replayed, trace validation of random call sequences and of conversions'
NOTE['C17'] = 'YamlText.tla reads the block and flow YAML that both versions of the language agree on, character by character (cross-checked with PyYAML); keys up to 200 characters.'
TECH['C19'] = T + 'enumeration of conversions under option combinations replayed, trace validation of random ones in all formats'
NOTE['C19'] = 'Convert.tla: pages selected by the options, and what each format must contain of each item; documents written with random text, paths, images and forms, converted twice and in sequence in one process.'
TECH['C18'] = T + 'enumeration of encodings, Differences and ToUnicode entries rendered as documents, trace validation of random simple fonts'
NOTE['C18'] = 'ToUnicode.tla, Encodings.tla and SimpleFont.tla give the text of a code; tables of the Latin encodings and the Adobe glyph list are data. Not judged: codes WinAnsi leaves undefined, destinations of odd length, built-in encodings of Symbol, ZapfDingbats and embedded Type 1 fonts.'
TECH['C20'] = T + 'enumeration of width arrays rendered as documents, trace validation of random simple and composite fonts'
NOTE['C20'] = 'SimpleFont.tla and CidFont.tla: Widths/FirstChar/MissingWidth and the standard metrics; W and W2 read item by item with DW and DW2. Observed by the boxes and pen positions of the characters yielded.'
TECH['C25'] = T + 'enumeration of requests option by option with liveness, trace validation of random requests to the command line and convert_file'
NOTE['C25'] = 'Cli.tla: what a request asks for, page delivery, refusals. Every output is recognised by a reader of its format. Not judged: an explicit type on the command line that contradicts the output name, files left by failed conversions.'
TECH['C24'] = T + 'enumeration of CMaps with the strings they cut, trace validation of random composite fonts'
NOTE['C24'] = 'CidFont.tla: strings cut byte by byte by identity, predefined (installed in a scratch CMAP_PATH) or embedded CMaps, text by ToUnicode, character collection or TrueType cmap table, vertical layout. After bytes that no code of the CMap starts with nothing is judged.'
TECH['C21'] = T + 'enumeration of outline graphs and name trees written out and looked up, trace validation of random ones'
NOTE['C21'] = 'Outline.tla: the walk over any graph of entries (shared ones and cycles included) against the recursive order for trees, and text strings; NameTree.tla: the search with limits against the set of pairs below the root.'
TECH['C22'] = T + 'enumeration of images and of the bitmaps the format allows, trace validation of the files exported from random documents'
NOTE['C22'] = 'ImageFile.tla: the form and name of the file and a reader of bitmaps (rows in either order, padding, palettes), checked against a writer with all its choices; the files the real code writes are read by it row by row.'
TECH['C23'] = T + 'enumeration of damaged documents written out and read, trace validation of random damage, liveness of the walk, trace validation of reading sessions'
NOTE['C23'] = 'Damage.tla: what is read of a document of pages, resources, forms, fonts and object streams with lost objects, redirected references and ill-formed programs; all single and sampled pairs of damages to three documents, random damage to random documents. Session.tla: reading ends and is repeatable, for files of all kinds with damaged bytes and for files that ask for too much. Nesting of forms beyond the stack of Python and quadratic effort are not judged.'
