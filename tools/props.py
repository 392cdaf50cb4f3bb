NOT_APPLICABLE = []

# known findings: recorded, not repaired (property, pinned family, what fails, where)
FINDINGS = []

# repaired defects: commit subject in /repo -> property
FIXED = {
 "fix: use the length of a stream that is stored in another object": "P01",
 "fix: look for a missing object stream once": "P24",
 "fix: read both cross-reference sections of linearized files byte-preservingly": "P01",
 "fix: read trailer and stream dictionary entries by key, not by text search": "P01",
 "fix: do not search comments and data for objects the cross-references do not have": "P02",
 "fix: leave the contents of signatures out of encryption": "P08",
 "fix: do not take the text /Encrypt for an encrypted file in the command": "P23",
 "fix: set the outline entry of the catalog by key": "P15",
 "fix: honour crypt filters named by a stream or for embedded files": "P08",
 "fix: determine indirect object extent lexically": "P01",
 "fix: use the last startxref, not the first one in the search window": "P02",
 "fix: read cross-reference sections of any size and form": "P01",
 "fix: write Root, Info, Encrypt and ID into the cross-reference stream itself": "P05",
 "fix: newest cross-reference entry wins, including free and in-stream entries": "P02",
 "fix: find the end of the trailer dictionary lexically": "P02",
 "fix: raw documents honour deletions made by later revisions": "P03",
 "fix: find /Prev inside the section's own dictionary": "P02",
 "fix: only count end-of-file markers that close a cross-reference section": "P02",
 "fix: recognise cross-reference streams by their object header": "P01",
 "fix: reject ASCII85 groups that exceed 32 bits, skip NUL white space": "P04",
 "fix: write object streams with offsets relative to /First, repeatably": "P05",
 "fix: write stream dictionaries without duplicate keys, nulls and reference-like strings correctly": "P05",
 "fix: keep bytes that are not UTF-8 when writing strings": "P15",
 "fix: reuse the resource of a standard font already on the page": "P10",
 "fix: page builder keeps fractional page sizes, a fixed resource order and a single catalog": "P10",
 "fix: report a JPEG frame header cut before its component count": "P13",
 "fix: embed translucent images with unassociated color and every alpha format": "P13",
 "fix: sign of time zones less than an hour behind UTC": "P15",
 "fix: bookmarks keep the catalog, their parents, plain titles and real destinations": "P15",
 "fix: metadata values and keys survive whatever characters they contain": "P15",
 "fix: watermarks draw named images, apply defaults and leave the page alone on error": "P10",
 "fix: write the ToUnicode CMap's CIDSystemInfo as a dictionary": "P14",
 "fix: decrypt documents as the standard security handler specifies": "P08",
 "fix: write encrypted documents conforming to the standard security handler": "P07",
 "fix: an empty owner password does not leave the file open to everybody": "P07",
 "fix: images and embedded fonts of a page never share a resource name": "P10",
 "fix: skip the fill bytes before a JPEG marker one at a time": "P13",
 "fix: page operations follow the page tree and copy everything a page needs": "P16",
 "fix: report page rotation as an angle between 0 and 270": "P11",
 "fix: code 0xDB of MacRomanEncoding is the currency sign": "P12",
 "fix: write metadata and bookmark titles as text strings": "P15",
 "fix: metadata keys may contain a number sign": "P15",
 "fix: bound predictor rows by the data available": "P24",
 "fix: count characters, not bytes, in the export summary": "P28",
 "fix: bookmarks are compared by target page, not by its object number or spelling": "P18",
 "fix: text reports list every metadata and bookmark difference": "P18",
 "fix: report form differences in a stable order": "P18",
 "fix: compare the images of a page by their own data, place and size": "P18",
 "fix: text comparison honours its case, whitespace, tolerance and threshold options": "P18",
 "fix: compare repeated graphics and annotations one by one": "P18",
 "fix: content extraction reads objects by token and interprets content streams as specified": "P11",
 "fix: read font names as UTF-16": "P14",
 "fix: read cmap subtables within their bounds, first segment first": "P14",
 "fix: describe embedded fonts by character code, in glyph space units": "P14",
 "fix: read x height and cap height from their OS/2 fields": "P14",
 "fix: embed OpenType fonts with CFF outlines as such": "P14",
 "fix: describe embedded fonts with their own bounding box": "P14",
 "fix: report the values of XFA fields in groups": "P23",
 "fix: tell form values apart that print alike": "P18",
 "fix: read cross-reference tables with bare carriage returns": "P01",
 "fix: decode all filters of object and cross-reference streams": "P01",
 "fix: AcroForm fields are read as the document defines them": "P20",
 "fix: filling and flattening a form leaves the rest of the document intact": "P21",
 "fix: a built form is part of the document, with its fields on their pages": "P19",
 "fix: form validation follows the field types, options and required flags": "P26",
 "fix: actions and appearances are added to fields as valid PDF": "P19",
 "fix: filling a single field asks viewers to draw it anew": "P21",
 "fix: read and replace XFA streams through the document structure": "P23",
 "fix: give PDFs built from XFA streams a page tree and escape stream names": "P23",
 "fix: keep signature and sourceSet streams when building a PDF from XFA streams": "P23",
 "fix: update XFA field values in the XML structure, with escaping": "P23",
 "fix: read nested groups and plain data elements of XFA datasets": "P22",
 "fix: keep the text of XFA field values that only resemble numbers": "P22",
 "fix: read nested subforms, options, scripts and patterns of XFA templates": "P22",
 "fix: write pages, option values, rules and numbers of XFA templates": "P22",
 "fix: open encrypted XFA forms with the password": "P23",
 "fix: read and write every setting of XFA configurations": "P29",
 "fix: keep locale holidays whose name contains the word holiday and negative precisions": "P29",
 "fix: keep the properties of XFA data descriptions apart and write properties in a fixed order": "P29",
 "fix: keep negative lengths and the text of XFA style properties": "P29",
 "fix: extract the schema of an XFA form from its template": "P23",
 "fix: compress XFA streams in the zlib format that FlateDecode means": "P23",
 "fix: read the fields of XFA datasets from the data element, not from data descriptions": "P23",
 "fix: keep the keys of stream dictionaries when rebuilding a PDF with XFA": "P23",
 "fix: refuse cross-reference offsets outside the file": "P24",
 "fix: refuse to write object numbers above the PDF limit instead of gigabytes of free entries": "P24",
 "fix: let the error helpers see through wrapped errors": "P30",
 "fix: list object numbers in ascending order": "P06",
 "fix: report unsupported encryption as such, not as a wrong password": "P30",
 "fix: mark missing objects as not found in parse.GetObject": "P30",
 "fix: report why a PDF could not be opened when looking for its form": "P30",
 "fix: mark the absence of an XFA form as no forms": "P30",
 "fix: keep warning lists already handed out when a collector is cleared": "P30",
}

MON = "runtime monitoring: "

def define(prop):
    prop("P01", "Every in-use object of a well-formed file is returned intact",
      """Opening a well-formed unencrypted PDF succeeds and exposes exactly its in-use objects; each one read back, by number or through the package-level lookups, has the value the file defines, and stream data is byte-identical.
      This holds whether cross-references are a table or a stream, whether objects are stored directly or in object streams, for any legal spacing, comments, string and name spelling, nesting, object size, generation number and object count.
      The reported version, root, revision count and object locations agree with the file, and asking for a number outside the file is an error.""",
      ["inputs", "configurations"],
      "all well-formed single-revision files without hybrid cross-reference sections; generated with random objects, layouts, line endings (CR, LF, CR LF), xref forms, filter arrays and predictors on object and cross-reference streams, /W widths, /Index splits, object stream sizes, linearized layout, sparse object numbers up to 8 million, generations up to 65534, private dictionary entries that resemble structural ones, and 3 to 3000 objects",
      "Tests sample a few fixed files with conventional spacing; the guarantee ranges over every legal byte layout of a file.",
      ["core/parse/api.go", "core/parse/parser.go", "core/parse/incremental.go", "core/parse/object_stream.go", "core/parse/get_object.go", "core/parse/lexer.go", "core/parse/document_parser.go"],
      [("cross-reference parsing", "core/parse/incremental.go, parser.go"), ("object extent and lookup", "core/parse/get_object.go, lexer.go"), ("object streams", "core/parse/object_stream.go")],
      MON + "independent reference reader as online oracle over generated files",
      "Every object of each generated file is compared value by value with the generator's ground truth, itself validated by an independent strict reader. Says nothing about files outside the generated families.",
      observe=["core/parse: Open, OpenWithOptions, PDF.GetObject, PDF.Objects, GetObject, FindObjectByNumber, GetObjectFromStream, ParseCrossReferenceTable"])
    prop("P02", "After incremental updates a reader sees exactly the newest revision",
      """For any history of incremental updates that add, replace, delete and re-create objects, each update using either cross-reference form, opening the file exposes exactly the objects of the final state with their newest values, deleted objects stay gone, and the newest trailer's root and info apply.
      Opening any complete earlier revision shows exactly that revision's state, and the number of revisions and their boundaries reported match the history.
      Bytes after the last end-of-file marker or marker-like text inside streams and strings do not change the answer.""",
      ["histories", "inputs"],
      "all update histories of 1 to 12 revisions (table, stream or alternating sections) over object sets that grow, shrink and move between direct and compressed storage, on linearized and plain originals, with sparse numbers and updates that change nothing",
      "Tests use one or two hand-made updates; the result depends on the whole history of additions, replacements and deletions.",
      ["core/parse/incremental.go", "core/parse/api.go", "core/parse/document_parser.go", "core/parse/parser.go"],
      [("/Prev chain walk and merge order", "core/parse/incremental.go"), ("free entries", "core/parse/incremental.go, api.go"), ("revision extraction", "core/parse/incremental.go")],
      MON + "history model (map of object number to value per revision) checked against every observed state",
      "A sequential model of each history predicts every revision's object set and values; both parse modes and the revision extractors are compared with it.",
      observe=["parse.Open, OpenWithOptions, ExtractRevision, GetRevisionBoundaries, CountRevisions, ParseAllRevisions"])
    prop("P03", "Byte-preserving parse reproduces the input and never writes to it",
      """For any well-formed input, including multi-revision files, trailing bytes, binary headers and any line-ending style, the byte-preserving document serialises back to exactly the input bytes, and its per-object and per-revision byte ranges are the file's own bytes at the reported offsets.
      No reading operation changes the caller's buffer or writes past its end.""",
      ["inputs", "histories"],
      "generated single- and multi-revision files in every layout (linearized ones too), with trailing garbage and odd line endings",
      "Tests compare a handful of fixed files; byte identity must hold for every byte sequence a file can contain.",
      ["core/parse/document.go", "core/parse/document_parser.go", "core/parse/api.go"],
      [("raw document model", "core/parse/document.go"), ("byte-perfect parser", "core/parse/document_parser.go")],
      MON + "byte-identity and buffer-aliasing monitors over generated files",
      "Serialised bytes, segment bytes and the caller's buffer are compared byte for byte after every operation.")
    prop("P04", "Stream filters invert their encoders and refuse malformed data",
      """For every byte string, decoding what the library itself encoded (hex, base-85, run-length) gives back the original, and decoding what any conforming encoder produced (these and deflate), with any legal white space, missing or early end marker and odd digit count, gives exactly the data that was encoded.
      Malformed data (truncated or damaged deflate, foreign characters, impossible base-85 groups, runs cut short) and unsupported filter names are errors, never some other byte string presented as success.
      Neither direction changes its input.""",
      ["inputs", "configurations"],
      "byte strings of 0 to 80000 bytes with run structure around every encoder limit, all five filters, every class of damage",
      "Tests decode a few constants; correctness is over all byte strings and all encodings of them.",
      ["core/parse/filters.go"],
      [("filter decoders and encoders", "core/parse/filters.go")],
      MON + "differential monitor against independent filter implementations",
      "Every decode and encode is compared with an independent implementation written for the harness.")
    prop("P05", "Written files are valid and hold exactly what was added",
      """For any sequence of adding and replacing objects and streams through the low-level writer, in each output mode (cross-reference table, cross-reference stream, object streams) and for each version header, the file written is valid: every offset, length, count and cross-reference entry is right.
      It holds exactly the objects added, with their latest values, stream dictionaries and data, and the library reads every one of them back; the trailer names the root and info object that were set.
      Object numbers are handed out without gaps or reuse, the caller's dictionaries and data are never changed, writing again after no change gives the same file, more objects may be added between writes, and an error of the destination is returned.""",
      ["histories", "inputs", "configurations"],
      "sequences of 1 to 700 add/replace calls with random values and stream dictionaries, object numbers up to the limit of readers, white space and comments around values, 1 to 3 writes interleaved, failing destinations, all modes",
      "Tests write small fixed documents once; validity depends on every value, size and order of calls.",
      ["core/write/writer.go", "core/write/object_stream.go", "core/write/xref_stream.go"],
      [("object table and serialisation", "core/write/writer.go"), ("object streams", "core/write/object_stream.go"), ("cross-reference stream", "core/write/xref_stream.go")],
      MON + "sequential model of the writer; strict independent reader and the library's own reader as oracles over each file written",
      "The model knows what every object must be; each file written is opened by a strict reader that rejects any wrong offset, length or entry.",
      observe=["write.PDFWriter: AddObject, SetObject, AddStreamObject, SetStreamObject, Write, Bytes"])
    prop("P06", "The outcome of a call depends on its arguments alone",
      """A call repeated with the same or with equal arguments gives the same outcome: the same values in the same order, the same bytes and the same error, whatever was called before or in between.
      This covers opening, listing, extracting, exporting to a directory, filling, flattening, editing, merging, splitting, comparing, building and translating.
      The random material of encryption is the only exception.""",
      ["histories", "inputs"],
      "about 50 calls on documents of every kind, each made 5 to 7 times in random order on the same document and on an equal one; outcomes compared in full, including unexported state reachable from results; random numbers fixed. Results with the current time in them (a modification date left out) are not claimed",
      "Tests call once and compare with what they expect; dependence on map order or on earlier calls shows only when outcomes are compared with each other.",
      ["core/parse/api.go", "core/write/writer.go", "core/manipulate/manipulator.go", "forms/acroform/fill_streams.go", "forms/xfa/xfa.go", "content/extract/extract.go", "core/compare/compare.go"],
      [("object lists", "core/parse/api.go"), ("serialisation", "core/write"), ("forms", "forms/acroform, forms/xfa"), ("reports", "core/compare")],
      MON + "every repeated outcome of a random history of calls compared with the first one",
      "Says nothing about whether the outcome is right; the other checks do.",
      observe=["about 50 public functions of core/parse, core/encrypt, core/manipulate, core/compare, core/write, content/extract, forms, forms/acroform, forms/xfa, resources/font"])
    prop("P07", "Encrypted output opens with its passwords only and leaks nothing",
      """A document written after setting up encryption with any user and owner password, permissions and metadata choice, in every output mode and with encryption set up before, between or after adding objects, is a valid encrypted file of the standard (AES-256).
      Both passwords open it, for any conforming reader and for the library, and give back every object, string and stream exactly as added; without an owner password the user password takes its place, and no other password opens it.
      No string or stream content is readable in the file, except metadata streams exactly when they were to stay unencrypted, the stated permissions are the ones protected by the file, and no two strings or streams share an initialization vector.""",
      ["inputs", "configurations", "histories"],
      "passwords of 0 to 140 arbitrary bytes, all permission values tried, sequences of 1 to 300 objects with strings at any nesting depth, 1 to 2 writes",
      "Tests check one document with one password pair and never decrypt with an independent implementation.",
      ["core/write/encryption_v5.go", "core/write/encryption_helper.go", "core/write/writer.go", "core/encrypt/decrypt.go", "core/encrypt/aes256.go"],
      [("key setup and encryption dictionary", "core/write/encryption_v5.go"), ("encryption of strings and streams", "core/write/writer.go, core/encrypt/decrypt.go")],
      MON + "independent security handler decrypts each file and compares with the writer's model; plaintext search over the output",
      "An independent implementation of the standard authenticates and decrypts everything written; marker secrets are searched in the raw bytes.",
      observe=["write.PDFWriter.SetupEncryptionWithPasswords, Write; parse.OpenWithOptions"])
    prop("P08", "Either password of an encrypted file returns every value in clear",
      """For a well-formed file encrypted by the standard security handler (RC4 with 40 to 128 bits, AES-128, AES-256 in both revisions; identity crypt filters, crypt filters named by a stream or for embedded files, different methods for strings and streams, unencrypted metadata, unencrypted signature contents, a direct or indirect encryption dictionary), opening with the user password or with the owner password succeeds.
      Every object, direct, with a generation number, in an object stream or replaced by an update, is returned with its strings and stream data exactly as before encryption, and nothing is decrypted twice or left encrypted; the handler's version, revision and permissions are reported as stored.""",
      ["inputs", "configurations"],
      "11 schemes x random objects, layouts, updates, passwords of 0 to 140 bytes; owner passwords of revision 3 with keys under 128 bits are left out because implementations differ on them",
      "Tests use one or two fixed encrypted files; the guarantee covers every combination of scheme, storage and password.",
      ["core/encrypt/decrypt.go", "core/encrypt/key_derivation.go", "core/encrypt/aes256.go", "core/encrypt/parser.go", "core/parse/get_object.go", "core/parse/api.go"],
      [("key derivation", "core/encrypt/key_derivation.go, aes256.go"), ("encryption dictionary", "core/encrypt/parser.go"), ("decryption of objects", "core/encrypt/decrypt.go, core/parse/get_object.go")],
      MON + "independent encrypting file generator; plaintext ground truth compared value by value",
      "Files are encrypted by an independent implementation (cross-checked with qpdf during development), so every value has a known plaintext.",
      observe=["parse.OpenWithOptions with Password, PDF.GetObject, GetObject with encryption, encrypt.DecryptPDF"])
    prop("P09", "Only authenticating passwords open an encrypted file",
      """For any encrypted file and any password, opening succeeds exactly when the standard's algorithms authenticate that password against the values stored in the file as user or owner password, and then the file key derived is the right one.
      A password that differs in any significant byte, is shortened, extended, re-cased, empty or equal to stored hash values is refused as a wrong password, without returning a document, including when the stored values themselves are damaged or exchanged.""",
      ["inputs", "configurations"],
      "all schemes of P08; about 35 near-miss passwords per file; files with altered O, U and P values",
      "Tests try one wrong password; refusal must hold for every byte string.",
      ["core/encrypt/decrypt.go", "core/encrypt/key_derivation.go", "core/encrypt/aes256.go", "core/parse/api.go"],
      [("password verification", "core/encrypt/decrypt.go, aes256.go")],
      MON + "independent authentication oracle compared with each open attempt",
      "Every decision (accept as user or owner, refuse) is compared with an independent implementation of the standard.",
      observe=["parse.OpenWithOptions, encrypt.DecryptPDF"])
    prop("P10", "Built pages hold exactly what was drawn on them",
      """A document assembled from any number of pages through the page builder opens as a valid file with exactly those pages, in order and with the sizes given, each page's content stream holding exactly the operations requested, in order and with their values, and text strings byte-identical whatever bytes they contain.
      Every font and image a page uses is a resource of that page under the name the content uses, distinct resources never share a name, the same standard font is not added twice, and what is drawn on one page appears on no other.
      A watermark drawn on a page lands at the requested place with the requested look and leaves the graphics state of whatever follows unchanged; a failing watermark leaves the page as it was.""",
      ["histories", "inputs"],
      "documents of 1 to 12 pages with up to 60 drawing calls each (text, lines, rectangles, colours, state, images, watermarks, annotations placed before and after finalizing and between writes), random numbers and text bytes, every output mode",
      "Tests draw a few fixed strings and look for substrings; the guarantee covers every sequence of calls and every text byte.",
      ["core/write/page.go", "core/write/content.go", "core/write/watermark.go", "core/write/writer.go"],
      [("page and catalog assembly", "core/write/page.go"), ("content operators", "core/write/content.go"), ("watermarks", "core/write/watermark.go")],
      MON + "model of the drawing calls compared, operator by operator, with an independent parse of each page written",
      "Every written file is opened by the strict reader, its page tree walked and its content re-tokenised; operators, operands and resources must equal the model's.",
      observe=["write.SimplePDFBuilder, write.PageBuilder, write.ContentStream, watermark functions"])
    prop("P13", "Embedded images keep their pixels",
      """A PNG image added by the writer, whatever its size, colour model, bit depth or transparency, becomes an image object whose dimensions, colour space, bits and data, decoded by any conforming reader, give exactly the source's colours at 8 bits per component, with the alpha channel, when not fully opaque, preserved in a soft mask of the same size.
      JPEG data is embedded byte for byte under the dimensions and number of components its frame header states, whatever marker segments precede it; data without a usable frame header is refused with an error, and nothing is added to the document.
      The file holding them is valid and the source buffer is left unchanged.""",
      ["inputs", "configurations"],
      "PNG images of 1x1 to 220x220 pixels in every colour type and depth, random and structured pixels and alpha; JPEG streams with random marker layouts, all frame types, truncations",
      "Tests embed one small image per format and check for key names, never the pixels.",
      ["core/write/image.go", "core/write/writer.go"],
      [("pixel conversion, soft masks, JPEG header", "core/write/image.go")],
      MON + "independent decode of each embedded image compared pixel by pixel with the source",
      "The strict reader finds the image object, undoes its filters with the harness's own filters and compares each sample with the value computed from the pixels the generator drew.",
      observe=["write.PDFWriter.AddImage, AddJPEGImage"])
    prop("P14", "Embedded fonts show, measure and give back the text",
      """Embedding a TrueType or OpenType font in a page makes text shown with it render and extract as the characters it was written for: for every character of the chosen subset that WinAnsi can encode, the font dictionary's encoding assigns the code to it, the width of the code is that of the glyph the font's character map selects in thousandths of an em, and the ToUnicode map leads back to the character.
      The embedded font program is the given font byte for byte with its true length, in the entry for its kind of outlines, and the descriptor's name, flags, box, italic angle, ascent, descent and cap height are the font's.
      The parsed metrics and names, the glyphs of the subset and their advance widths are those the font's tables define, whichever Unicode character map format, segmentation, name platform and number of metrics the font uses.
      Several fonts, on one page or many, never share a resource name or get mixed up.""",
      ["inputs", "configurations"],
      "generated fonts of 2 to 20000 glyphs with TrueType or (declared) CFF outlines, with all versions of the OS/2 table, with format 4 and 12 character maps, names on both Unicode platforms, shared trailing metrics, any units per em; documents of 1 to 2 pages with 1 to 3 fonts each; data of other kinds and cut-off fonts must be refused; characters outside WinAnsi, and the cap height of fonts that do not state one, are left out",
      "Tests parse one tiny font and check that calls return no error; nothing compares widths, codes or maps with a font's tables.",
      ["resources/font/font.go", "resources/font/pdf.go", "core/write/page.go"],
      [("font tables", "resources/font/font.go"), ("font dictionary, widths, ToUnicode", "resources/font/pdf.go"), ("resource names", "core/write/page.go AddEmbeddedFont")],
      MON + "embedded font dictionaries read back by a strict reader, compared code by code with generated fonts",
      "Fonts are generated with known tables. The document written is read by the harness's strict reader; encoding, widths, ToUnicode, program and descriptor are compared with the tables, and the library's own extraction must return the strings shown.",
      observe=["font.ParseTTF, NewFont, AddRune, AddString, GetSubsetGlyphs, GetWidths", "write.PageBuilder.AddEmbeddedFont, ContentStream.ShowText", "extract.ExtractContent"])
    prop("P11", "Extraction reports every page's text, lines and images where they are",
      """Extracting the content of any well-formed document, encrypted or not, reports its pages in page-tree order with their effective (possibly inherited) media box, crop box, size and rotation in degrees 0 to 270.
      Each page's text elements come in drawing order, one per text-showing operation, with the decoded text, the font and size in force, character and word spacing, rise, text matrix and the position that the text and transformation matrices give when the string starts a line.
      Each rectangle and line segment painted is reported with its bounding box after transformation and the line width and gray, RGB or CMYK colours in force, and each image drawn with its placement; paths that are not painted are not reported.
      Saving and restoring the graphics state, several content streams, inline images, comments, marked content and any legal spacing do not disturb the result, and the JSON form carries the same content.""",
      ["inputs", "configurations"],
      "documents of 1 to 80 pages with nested page trees, 1 to 5 content streams per page (some shared between pages or listed repeatedly) and up to 1500 operations; drawings inside form XObjects, curves, text advance after a shown string and pattern or named colour spaces are left out",
      "Tests extract a few tiny pages; an interpreter's answer depends on every sequence of state changes before each operation.",
      ["content/extract/pages.go", "content/extract/content_stream.go", "content/extract/extract.go", "content/extract/object.go"],
      [("page tree and inheritance", "content/extract/pages.go"), ("content interpreter", "content/extract/content_stream.go")],
      MON + "content interpreter run in step with the generator; every reported element compared with it",
      "The generator draws random scenes and computes from the standard what each operation shows and where; the extracted pages must equal that list.",
      observe=["extract.ExtractContent, ExtractContentToJSON"])
    prop("P12", "Text is decoded to the characters its font says",
      """Every character code shown in a page's text is extracted as the characters its font assigns to it: the ToUnicode map first, else the Differences entry, else the named or built-in base encoding (WinAnsi, MacRoman, Standard).
      This holds for one-byte simple fonts and two-byte composite fonts, single, range and array mappings, several characters per code, characters beyond the basic plane, literal and hexadecimal strings, and every text-showing operator.
      The stand-alone decoder gives the same answers for the same encodings, differences and maps.""",
      ["inputs", "configurations"],
      "every code of every generated font; all defined codes of the three base encodings and the glyph names of the standard Latin set plus uniXXXX and uXXXXX; predefined multi-byte CMaps and expert or symbol encodings are left out",
      "Tests decode a few ASCII strings; the mapping must be right for every code of every font.",
      ["content/extract/encoding.go", "content/extract/resources.go", "content/extract/content_stream.go"],
      [("font decoder and CMap parser", "content/extract/encoding.go"), ("decoder selection", "content/extract/resources.go")],
      MON + "independent encoding tables and font models as oracle over every code shown",
      "Each font's model says what each code means; the generator writes the encoding, differences and CMap in random legal forms.",
      observe=["extract.ExtractContent, extract.FontDecoder"])
    prop("P15", "Metadata and bookmarks survive writing and reading",
      """Metadata set on a document, whatever characters its values and custom keys contain, is stored so that any conforming reader and the library's extraction give back exactly the same text; dates given in ISO form denote the same instant and time zone, and dates in PDF form are kept.
      A bookmark tree set on a document, of any depth and with any titles, becomes a consistent outline: parent, sibling and child links, counts, titles, page or explicit destinations and URI actions are exactly those given, and extraction returns the same tree.
      Extraction reads the same from any well-formed file, whichever of the text string encodings it uses and however values are nested, direct or indirect, in updates, object streams or encryption.""",
      ["inputs", "configurations"],
      "valid UTF-8 texts with control characters, delimiters, every plane; 1 to 100 bookmarks nested up to 5 deep; all output modes and encryption; explicit destinations, URI and go-to actions (named destinations are reported by name, not resolved)",
      "Tests set a few ASCII values and look for substrings; encodings and links fail only for particular characters and tree shapes.",
      ["core/write/metadata.go", "core/write/bookmarks.go", "core/write/writer.go", "core/write/page.go", "content/extract/metadata.go", "content/extract/bookmarks.go", "content/extract/object.go"],
      [("info dictionary", "core/write/metadata.go"), ("outline", "core/write/bookmarks.go"), ("extraction", "content/extract/metadata.go, bookmarks.go")],
      MON + "strict reader and independent text-string, date and outline decoding over each file written; model comparison of extraction",
      "Both directions are observed: files written by the library are judged by the strict reader, files written by the harness are read by the library.",
      observe=["write.PDFWriter.SetMetadata, SetMetadataFields, SetBookmarks; extract.ExtractContent, ExtractMetadata, ExtractBookmarks"])
    prop("P16", "Page edits change exactly the pages asked for",
      """Rotating, deleting and inserting pages, any number of times and in any order on any well-formed document, leave every page not named with the same content, resources, annotations, sizes and inherited attributes, the remaining pages in order with a right page count, and every object that is not part of the page tree unchanged.
      A rotation adds to the page's effective rotation and an inserted page is the object given, at the place given.
      Requests that are out of range or would empty the document are errors and leave the document as it was; the rebuilt file is valid, and an encrypted document stays encrypted with the same passwords.""",
      ["histories", "inputs", "configurations"],
      "documents of 1 to 40 pages with nested page trees, attributes inherited at any level, object streams, updates and every encryption scheme; sequences of 1 to 12 edits and rebuilds",
      "Tests rotate or delete one page of a flat three-page file and count pages; damage shows in the pages and objects not named.",
      ["core/manipulate/manipulate.go", "core/manipulate/pagetree.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go", "internal/syntax/edit.go"],
      [("page tree walk and edits", "core/manipulate/pagetree.go, rotation.go, deletion.go, insertion.go"), ("rebuild", "core/manipulate/manipulate.go")],
      MON + "page-list model of the edits; graph comparison of every object of each rebuilt file with the source",
      "The rebuilt file is opened by the strict reader and compared object by object with the model of the source document after the same edits.",
      observe=["manipulate.PDFManipulator: RotatePage, RotateAllPages, DeletePage(s), InsertPage, Rebuild"])
    prop("P17", "Extracting, splitting and merging copy pages completely",
      """The file made by extracting pages, splitting by ranges or page counts, or merging documents holds exactly the requested pages in the requested order, repeats included, each with the content, resources, annotations, boxes and rotation (inherited ones too) it had in its source.
      Objects of one source never take the place of another's, shared objects and reference cycles are kept as such, references to pages left out become null, and nothing the pages do not need is copied.
      The result is a valid unencrypted file with a version header no lower than its sources'; invalid ranges, page numbers or sources are errors without a result.""",
      ["inputs", "configurations", "histories"],
      "1 to 6 source documents of 1 to 40 pages with colliding object numbers, cyclic annotations, inherited attributes and encryption; random page lists and ranges; chains of operations. Outlines, forms and names of the document are not carried over",
      "Tests merge tiny files and count pages; what is lost or mixed up is in the resources behind the pages.",
      ["core/manipulate/merging.go", "core/manipulate/splitting.go", "core/manipulate/extraction.go", "core/manipulate/pagetree.go"],
      [("copying of pages", "core/manipulate/pagetree.go"), ("merge and split", "core/manipulate/merging.go, splitting.go, extraction.go")],
      MON + "graph isomorphism monitor between source pages and result pages",
      "Each result page's complete object graph is compared with the source page's, read by the strict reader, with a one-to-one map between object numbers.",
      observe=["manipulate.MergePDFs, SplitPDF, SplitPDFByPageCount, ExtractPages"])
    prop("P18", "Comparison reports exactly the differences between two documents",
      """Comparing a document with itself, or with the same document laid out differently (object numbers, streams, encryption, drawing order within a kind kept), reports no difference under any options, however often its texts, shapes, images and annotations repeat.
      Comparing with an edited document reports every change of text, shapes, images, annotations, page size, rotation and count, metadata, bookmarks and form values, each once, on its page and in its category, and nothing that did not change; tolerances, case, white space and ignore options exclude exactly what they name.
      Swapping the documents swaps added and removed; repeating gives the same report; totals, flags and the identical verdict agree with the details; text and JSON reports hold them all.""",
      ["inputs", "configurations"],
      "documents of 1 to 5 pages with up to 12 texts, 6 shapes, 4 images and 4 annotations each; random edits of all of them; all option fields. Shape colours, annotation contents and renamed font resources are not compared by the library and not claimed; forms of 1 to 9 fields, AcroForm (any hierarchy, text, name and list values) or XFA, added, dropped, changed in kind or in any field",
      "Tests compare pairs that differ in one thing; false and missing differences depend on repeats, order and layout.",
      ["core/compare/compare.go", "core/compare/text_diff.go", "core/compare/myers_diff.go", "core/compare/report.go", "content/extract/images.go", "forms/forms.go"],
      [("comparison", "core/compare/compare.go"), ("text matching", "core/compare/text_diff.go, myers_diff.go"), ("reports", "core/compare/report.go")],
      MON + "the generator's list of edits as the exact set of differences to report",
      "Both documents are laid out independently from a model and an edited copy of it; the report is matched one to one with the edits.",
      observe=["compare.ComparePDFs, ComparePDFsWithOptions, GenerateReport, GenerateJSONReport"])
    prop("P19", "Built forms are complete: every field, on its page, reachable and readable",
      """A document built with the form builder, in whatever order pages are finalized and the form is built, with or without encryption, object streams, metadata and bookmarks, is a valid PDF whose catalog refers to a form listing exactly the fields added, in order, each with the name, type, flags, rectangle, value, default, maximum length and options given, whatever characters they contain; each field is a widget annotation of its own page and of no other, and page contents are unaffected.
      A catalog the caller set on the writer is used and keeps its entries. Writing again gives the same form.
      Actions and appearances added to a field afterwards are set in its dictionary, those for other events are kept, and nothing else about the field changes; appearance streams are valid form XObjects that show the given text or mark inside the field's box, with the font resource they use.
      The built form is read back by extraction as it was defined.""",
      ["inputs", "histories", "configurations"],
      "1 to 8 fields of all kinds on 1 to 5 pages; texts with any characters; all writer modes and AES encryption; up to 2 actions per field; appearances in WinAnsi. GoTo actions by page number, submit targets and a second form in one document are not claimed",
      "Tests build one form in one order; whether the pieces join depends on the order of calls and on the characters used.",
      ["forms/acroform/writer.go", "forms/acroform/integration.go", "forms/acroform/actions.go", "forms/acroform/appearance.go", "core/write/page.go"],
      [("fields", "forms/acroform/writer.go"), ("form and document", "forms/acroform/integration.go, core/write/page.go"), ("actions", "forms/acroform/actions.go"), ("appearances", "forms/acroform/appearance.go")],
      MON + "random builder call sequences, the file read by an independent strict reader and compared with a model of the calls",
      "Every field dictionary, page annotation list, action and appearance is compared with what the calls asked for.",
      observe=["acroform.FormBuilder, FieldBuilder, AddActionToField, AddMouseAction, AppearanceBuilder, AddAppearanceToField; write.SimplePDFBuilder.Bytes"])
    prop("P20", "AcroForm fields are reported as the document defines them",
      """For every well-formed document with an AcroForm, extraction reports exactly its field tree: names and full names, type, flags, values, defaults, appearance string, quadding, maximum length, options, selection, alternate and mapping names, rectangle and page, with attributes inherited from ancestors and from the form, whatever the layout of the objects, the string forms used and the encryption, and however entries are ordered, nested or made to look like others inside strings and nested dictionaries.
      The form schema has one question per terminal field with the matching type, options, selection, limits, position and flags; values are listed under the full names; a field is found by its full name and by a partial name only it has; the appearance reported for a field is the one its widget uses.
      The unified interface detects and reports the same form. A document without a form is reported as having none.""",
      ["inputs", "configurations"],
      "field trees up to 4 levels deep of all types; values direct, indirect, inherited; texts in PDFDocEncoding, UTF-16 and UTF-8; merged and separate widgets; encryption and object streams. Names with periods, stream values, actions and the value of non-terminal fields are not claimed",
      "Tests parse a few fixed dictionaries; what is reported depends on nesting, inheritance, encoding and layout.",
      ["forms/acroform/parser.go", "forms/acroform/extract.go", "forms/acroform/flatten.go", "forms/forms.go", "internal/document/document.go"],
      [("parsing", "forms/acroform/parser.go"), ("lookup and values", "forms/acroform/extract.go"), ("appearance", "forms/acroform/flatten.go"), ("unified interface", "forms/forms.go")],
      MON + "generator's model of the field tree compared with everything extraction reports",
      "Forms are generated from a model inside otherwise random documents; every attribute of every field is compared.",
      observe=["acroform.ExtractAcroForm, ParseAcroForm, ExtractFormSchema, GetFieldAppearance; forms.Detect, Extract"])
    prop("P21", "Filling a form sets the given fields and changes nothing else",
      """Filling a form through any entry point gives a well-formed document, encrypted as the source was, in which exactly the named fields have the given values (texts of any characters, numbers, lists of options, button states), the widgets of a filled button show that state if they have it and Off otherwise, stale selections and rich texts are gone and viewers are asked to draw the fields anew; every other object, the catalog, the document information and the version are as before.
      Extraction reads the new values back; filling the same data again changes nothing more; fields that take no value and names that do not exist change nothing.
      Flattening removes the form from the catalog and nothing else. Replacing single objects or objects of an object stream replaces exactly those.
      Neither the caller's document nor the data passed are modified.""",
      ["inputs", "histories", "configurations"],
      "the documents of P20; data for about half of the fields, by full or unique partial name; six filling entry points; encryption and object streams. Filling non-terminal fields, radio buttons through /Opt and states no widget has by index are not claimed",
      "Tests look for the new text in the output; damage shows in the other objects and in unusual names, values and layouts.",
      ["forms/acroform/replace.go", "forms/acroform/fill.go", "forms/acroform/fill_streams.go", "forms/acroform/stream_rebuild.go", "forms/acroform/flatten.go", "core/manipulate/manipulate.go"],
      [("values", "forms/acroform/replace.go"), ("filling", "forms/acroform/fill.go, fill_streams.go"), ("object streams", "forms/acroform/stream_rebuild.go"), ("flattening", "forms/acroform/flatten.go")],
      MON + "source and result compared object by object by an independent strict reader, up to the modelled edits",
      "The expected result is the source document with the model's edits applied; any other difference is a violation.",
      observe=["acroform.FillForm, FillFormFields, FillFormFieldsWithStreams, FillFormFromSchema, ExtractAndFill, FillFieldValue, FlattenForm, ReplaceFieldObject, RebuildObjectStream; forms.Form.Fill"])
    prop("P22", "XFA templates, form schemas and data translate into each other",
      """Reading an XFA template gives one question per field, at any depth of subforms, in document order, with its name, caption, kind, default, options (display texts and saved values), required, read-only and hidden state, position, pattern, script and message, on the page it is laid out on, and one rule per calculation, validation and assignment script.
      Writing any form schema gives a well-formed template that reads back as the same questions and rules, the same text every time.
      Reading and writing data does the same for every field and nested group of a data packet: a value is taken for a number or truth value only when it is written back as the same text.
      This holds for every legal XML layout: attribute order, quoting, entities, CDATA, comments, prefixes, white space.""",
      ["inputs"],
      "templates with up to 4 levels of subforms, schemas of up to 6 questions and 4 rules, data with nested groups; texts of any XML characters, leading and trailing white space aside. Length and range limits, conditions, visibility and navigation rules, several actions per rule and repeated question names are not claimed, as the format written has no place for them",
      "Tests translate small fixed templates; loss shows in nesting, special characters, number-like texts and uncommon field kinds.",
      ["forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_datasets_translator.go", "forms/xfa/xfa_utils.go"],
      [("templates", "forms/xfa/xfa_form_translator.go"), ("data", "forms/xfa/xfa_datasets_translator.go")],
      MON + "generated models rendered as XML by an independent writer, what is read compared with the model, what is written read by an independent strict XML reader and by the library",
      "Every question, rule, group and value is compared with the model it was made from.",
      observe=["xfa.ParseXFAForm, FormToXFA, ParseXFADatasets, DatasetsToXFA"])
    prop("P23", "XFA forms are read, filled and rebuilt without touching anything else",
      """From a well-formed document whose form has XFA packets, encrypted or not, extraction returns exactly those packets with their data, wherever and however their streams are stored, and the form and values in them.
      Filling sets exactly the named values in the data packet, escaped as XML, and leaves every other character of its content, every other packet and every other object, the encryption and the document's entries as before; the new values read back.
      Rebuilding with changed packets replaces exactly those, and a document built from packets alone is a valid file with a page that holds them all.
      The command line program fills and extracts the same way. The unified interface reports XFA exactly for forms without fields of their own. The caller's document and data are not modified.""",
      ["inputs", "configurations", "histories"],
      "random documents in every layout with 1 to 8 packets of the known names, listed as an array; nested data, data descriptions, comments that look like fields; values of any XML characters; encryption with either password. A single-stream packet, repeated field names, packets the source lacks and encodings other than UTF-8 are not claimed",
      "Tests fill a hand-made file; damage shows in unusual names, texts, filters, packet order and in the other objects.",
      ["forms/xfa/xfa.go", "forms/xfa/stream.go", "core/write/xfa_builder.go", "internal/document/document.go", "forms/forms.go", "cmd/pdfer/main.go"],
      [("packets and values", "forms/xfa/xfa.go, stream.go"), ("rebuilding", "core/write/xfa_builder.go"), ("unified interface", "forms/forms.go"), ("command line", "cmd/pdfer/main.go")],
      MON + "source and result compared object by object by an independent strict reader, the data packet element by element by an independent XML reader; the real program run as a process",
      "The expected result is the source with the model's edits applied; any other difference is a violation.",
      observe=["xfa.ExtractAllXFAStreams, FindXFADatasetsStream, UpdateXFAValues, UpdateXFAInPDF, RebuildPDFFromXFAStreams, BuildPDFFromXFAStreams, ReplaceStreamInPDF; write.XFABuilder; forms.Detect, Extract, ExtractXFA, Form.Fill; the pdfer program"])
    prop("P24", "Damaged or hostile input gives an error or a result, never a crash",
      """Whatever bytes they are given, the functions that read, fill, edit, compare, merge, split, decrypt or validate documents, and those that take fonts, images, maps, XML or object parts, return: they never panic, overflow the stack, run forever or exhaust memory.
      A call that reports no error gives a result, and no call changes the bytes it was given.
      This includes damaged cross-references, dictionaries, streams and encryption settings, absurd numbers, truncation, structures nested far deeper than any document, and structures that refer to themselves or to the same part again and again.""",
      ["inputs"],
      "documents of every kind the other checks generate (content, forms, XFA, outlines, encryption) with bytes, tokens, numbers or objects damaged; up to a million nesting levels; reference chains, circles and doubling graphs of up to 60 levels in 14 places; files up to 5 MB. Streams that decompress to gigabytes are not claimed",
      "Tests damage a few files in a few places; crashes hide behind particular combinations of damage and entry point.",
      ["core/parse/parser.go", "core/parse/incremental.go", "core/parse/object_stream.go", "core/parse/document_parser.go", "internal/syntax/syntax.go", "internal/document/document.go", "content/extract/extract.go", "forms/acroform/parser.go", "forms/xfa/xfa.go", "resources/font/font.go", "core/write/writer.go"],
      [("cross-references", "core/parse"), ("tokens and values", "internal/syntax"), ("document structure", "internal/document"), ("content", "content/extract")],
      MON + "panic, CPU-time, allocation, address-space and input-mutation monitors around every public reading call on damaged files",
      "Panics are caught per call; stack overflow, hangs and memory blow-ups end a worker and are attributed to the case. CPU time is counted, not wall time.",
      observe=["about 120 public functions of core/parse, core/encrypt, core/manipulate, core/compare, core/write, content/extract, forms, forms/acroform, forms/xfa, resources/font"])
    prop("P25", "Documents can be used from several goroutines at once",
      """Any number of goroutines may read one opened document, one extracted form and the bytes they came from at the same time, and fill, edit, compare, merge, build or translate other documents meanwhile, without data races and each with the outcome the call has on its own.
      This holds from the first call in a process on, when everything still has to be set up.
      The shared bytes are not modified.""",
      ["schedules", "inputs"],
      "2 to 8 goroutines on 1 to 8 processors, 3 to 7 calls each out of about 50 (all reading, filling, editing, comparing, building, XFA, font and settings operations), on one document or on documents of their own, in used and in new processes. Objects documented as being built up (writers, builders, manipulators, forms while their fields are set) are used by one goroutine each",
      "Tests never call anything concurrently, and races need particular interleavings of particular pairs of calls.",
      ["core/parse/api.go", "core/parse/object_stream.go", "core/encrypt/decrypt.go", "content/extract/extract.go", "content/extract/encoding.go", "forms/forms.go", "resources/font/font.go", "core/write/writer.go"],
      [("opened documents", "core/parse/api.go"), ("tables and decoders", "content/extract, resources/font"), ("forms", "forms/forms.go")],
      MON + "race detector over concurrent calls, and every outcome compared with the same call alone",
      "The goroutines share nothing of the harness while they run, so that it does not order their accesses; starts and ends are logged by each and merged afterwards.",
      observe=["the calls of P06, each from several goroutines"])
    prop("P26", "Form validation rejects exactly what the field definitions forbid",
      """Validating a value against a field fails exactly when the field is required and the value empty, a text is longer than the maximum length in characters, a radio button with options is given something else than one of them or Off, or a choice is given a value that is no export value of its options (unless its text is editable) or several values where one is allowed.
      Validating form data reports exactly the fields with such values, the required terminal fields left out, at any depth, and the names that do not exist, each error naming its field, in the same order every time.
      Validating against a schema enforces minimum and maximum lengths, patterns, numeric ranges of numbers and required questions in the same way. The data is not modified.""",
      ["inputs", "configurations"],
      "forms of the P20 generator with constraints on most fields; values around the limits, with characters of one to four bytes, numbers, lists; schemas of up to 8 questions. Empty values of optional questions with length rules, lists for fields that take one text and booleans for radio buttons are not claimed",
      "Tests validate a handful of values; limits, lists, labels versus export values and nested required fields decide.",
      ["forms/acroform/validation.go", "forms/forms.go"],
      [("field rules", "forms/acroform/validation.go"), ("unified interface", "forms/forms.go")],
      MON + "independent model of the validation rules compared with every verdict",
      "Every verdict and every reported field name is compared with the model; repeated runs must agree in order.",
      observe=["acroform.ValidateField, ValidateFormData, ValidateFieldValue, ValidateFormSchema; forms.Form.Validate"])
    prop("P27", "Annotations, fonts and images are reported as the file defines them",
      """For every page of a well-formed document, extraction lists its annotations in order, each with the type, rectangle, texts, colour, border, link target, icon, open state and quadrilaterals its dictionary defines; its fonts with name, family, kind, encoding and whether they are embedded and carry a ToUnicode map; and its images and forms.
      The document's lists contain each shared annotation, font and image object exactly once, in page order.
      Extracting all images returns each image object once with the dimensions, bits, colour space and filter stored, and its data with all filters and predictors undone, while JPEG, JPEG 2000 and fax data are kept byte for byte.""",
      ["inputs", "configurations"],
      "documents of 1 to 60 pages with 19 annotation types, values direct or indirect, shared images, five stream filters and PNG predictors, encryption; TIFF predictors are left out",
      "Tests look at one link and one image; what is reported depends on every entry and on sharing between pages.",
      ["content/extract/annotations.go", "content/extract/resources.go", "content/extract/images.go", "content/extract/extract.go", "content/extract/object.go"],
      [("annotations", "content/extract/annotations.go"), ("fonts and XObjects", "content/extract/resources.go"), ("image data", "content/extract/images.go, object.go")],
      MON + "generator's model of each annotation, font and image compared with what is reported",
      "Every generated item carries the value that must be reported; images are generated from known pixels through the harness's own encoders.",
      observe=["extract.ExtractContent, ExtractAllImages"])
    prop("P28", "Export to a directory writes everything extracted and nothing else",
      """Exporting a document writes into the given directory one structure file, which parses and holds the document's pages, text, graphics, image placements, annotations and bookmarks as extracted, and one file per image object holding exactly its extracted data under a distinct name with a matching reference.
      The counts and flags of the summary (pages, characters, images, has text, has images, has bookmarks, scanned) are those of the content, and no file appears anywhere else.
      When the document cannot be opened or the directory cannot be used the export is an error, no structure file is left and existing files are untouched.""",
      ["inputs", "configurations"],
      "documents of 1 to 5 pages with text, drawings, shared and encoded images, annotations, outlines and encryption; wrong passwords, damaged input and unusable destinations",
      "Tests export two fixed files and check that output exists.",
      ["content/extract/directory.go", "content/extract/images.go", "content/extract/extract.go"],
      [("export", "content/extract/directory.go")],
      MON + "file-system monitor over a scratch directory; written files read back and compared with the model",
      "Every file under the scratch directory is listed, read back and accounted for.",
      observe=["extract.ExtractToDirectory, ExtractToDirectoryFromFile"])
    prop("P29", "XFA settings packets survive translation both ways",
      """Every setting that the types for configurations, locale sets, connection sets and stylesheets can hold is written to well-formed XML and reads back unchanged, in the same order, the same text every time.
      The same settings laid out by another writer (other prefixes, quoting, white space, comments, entities, character data sections and unknown elements in between) read as the same values, and each setting appears once at its place in the XML.
      Nothing is invented for settings that are absent, and special characters never change the structure.""",
      ["inputs", "configurations"],
      "random values for every field of the four types, including zero, negative and extreme numbers, repeated and nested entries; property names that are XML names other than those of sections",
      "Tests translate a few settings each; the types have hundreds of combinations of optional parts.",
      ["forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa_stylesheet_translator.go"],
      [("configuration", "forms/xfa/xfa_config_translator.go"), ("locales", "forms/xfa/xfa_locale_translator.go"), ("connections", "forms/xfa/xfa_connection_translator.go"), ("styles", "forms/xfa/xfa_stylesheet_translator.go")],
      MON + "values drawn by reflection over the types, the expected XML derived from them independently, round trips compared field by field",
      "The XML written is compared with the expected tree, and what is read with the values, for each of the four packet kinds.",
      observe=["xfa.ParseXFAConfig, ConfigToXFA, ParseXFALocaleSet, LocaleSetToXFA, ParseXFAConnectionSet, ConnectionSetToXFA, ParseXFAStylesheet, StylesheetToXFA"])
    prop("P30", "Errors say what went wrong",
      """Every function that opens a document reports a wrong password as a wrong password, encryption it cannot undo as unsupported and never as a wrong password, an absent object as not found and an absent form as no form, never one for the other, and gives no result with the error.
      The helper functions agree with what an error wraps, at any depth, and error texts hold code, message and cause.
      A warning collector holds exactly the warnings added while it was enabled since it was last cleared, in order, and lists it gave out stay as they were.""",
      ["inputs", "histories"],
      "23 functions with near-miss passwords, foreign handlers, versions, revisions and crypt filters on documents of every kind; absent numbers around those present; documents without form; data that is no PDF; random error chains of up to 6 levels; up to 65 collector operations. Damaged encryption values cannot be told from a wrong password; codes for other damage are not claimed",
      "Tests check single codes of single calls; the promise ranges over every entry point and every wrapping in between.",
      ["types/errors.go", "types/warnings.go", "core/parse/api.go", "core/parse/get_object.go", "core/encrypt/decrypt.go", "forms/forms.go", "forms/acroform/parser.go"],
      [("error types", "types/errors.go"), ("opening", "core/parse/api.go, core/encrypt/decrypt.go"), ("forms", "forms/forms.go"), ("warnings", "types/warnings.go")],
      MON + "error chains and results of calls that must fail checked against the known cause",
      "What must fail is decided by the generator and by an independent password check, not by the library.",
      observe=["all functions taking a password; types: IsPDFError, GetErrorCode, IsNotFound, IsEncryptionError, IsValidationError, WrapError, NewPDFError, WarningCollector"])
