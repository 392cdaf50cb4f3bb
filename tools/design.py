"""Prose of DESIGN.md; meta.py joins it with the property list, fixes, findings and planted bugs."""

HEAD = """# Runtime monitoring of benedoc-inc/pdfer

This file is generated by `python3 tools/meta.py` from `tools/props.py` (properties, fixes, findings), `tools/design.py`
(prose) and `seeded/*/meta.json` (planted bugs). `properties.jsonl`, `MANIFEST.json` and `known_findings.json` come from
the same sources, so the four cannot drift apart.

## What is being decided, and how

pdfer is a library: parse, decrypt, edit, write, compare PDF files, and extract content and forms from them. What a user
relies on are relations between a *file* (or a sequence of API calls) and a *result*. So each property is decided by
running the real library (built from /repo's working tree, unmodified and without hooks) on generated workloads while an
oracle that shares no code with it watches every observable result:

* **read-side checks** generate a document from a model (objects, pages, text, fields, ...), serialise it with the
  harness's own writer (`harness/ref/build`) using randomly chosen legal spellings, layouts, cross-reference forms,
  encryption schemes and update histories, feed the bytes to the library and compare everything it reports with the model;
* **write-side checks** drive the library's writers and editors with random call sequences, keep a model of what the calls
  mean, and read the produced file with the harness's strict independent reader (`harness/ref/file`), which refuses
  anything the PDF specification does not allow; the parsed result is compared with the model;
* **history checks** apply random operation sequences and compare every intermediate state with a sequential model;
* **monitors around the process**: every case runs in a worker process; a panic, a fatal runtime error, an `os.Exit`, a
  runaway CPU (90 s of CPU for cases that need milliseconds) or memory growth is attributed to the case that was running. Checks listed in
  `harness/race.list` are built with the race detector, whose reports are violations.
* **caller's data**: inputs handed to the library are compared afterwards with a copy (`P03` and others): a library call must
  not modify its input.

The deciding step is always an oracle over observed executions; no static analysis, no proof, no comparison with stored
outputs of the library itself.

### The reference side (`harness/ref`)

| package | content |
|---|---|
| `obj` | PDF value model, equality |
| `lex`, `ser` | strict reader / random-spelling writer of PDF values |
| `filt` | independent Flate, LZW, ASCIIHex, ASCII85, RunLength, predictors (encoders and decoders) |
| `crypt` | standard security handler R2 to R6, written from ISO 32000-1/-2 |
| `build` | file assembly: xref tables and streams, object streams, updates, encryption |
| `file` | strict file reader with cross-reference validation: every offset, length, /Size, /Prev is checked |
| `content` | content stream tokens |

The reference side was itself checked during development against qpdf (`qpdf --check`, `--qdf`, `--show-object`,
`--password`); it is not used at run time, so the checks depend on nothing but the Go tool chain. In addition each read-side case
asserts that the strict reader reads back exactly the model from the generated bytes, so a generator error is reported as
a harness error (exit 2) instead of a violation.

### Verdicts, determinism and replay

`bash run.sh ID quick|thorough` builds the harness and runs a fixed list of cases: case *i* of family *f* under seed *s*
uses a PRNG seeded with (ID, f, i, s), so neither time nor scheduling decides which cases run or what they contain; no verdict depends on a clock
(the CPU bound above is four orders of magnitude above the cost of a case). A violating case is
written to `evidence/replay/<ID>/` with its input file, and printed as `VIOLATION property=ID replay=PATH`;
`VERIF_CASE=family/index bash run.sh ID` runs that one case again. Exit codes: 0 held on everything explored, 1 violation, 2 harness error (never folded into
either of the others). A run whose oracle compared nothing is an error, not a pass.

Evidence (`evidence/<ID>.json`) counts, for this run, the cases, the oracle comparisons by kind (`observations`), and the distinct
non-trivial cases under the rule stated there, with samples of actual cases.

### Known findings and fixes

Defects found in pdfer that are small and safe to repair were repaired in separate `fix:` commits (list below); the remaining
ones, if any, are pinned: a dedicated family reproduces exactly that input or history, prints `KNOWN-FINDING`, and everything else
still raises an alarm. Random generators stay out of the pinned domain.
"""

DETAIL = {
"P01": """*Generated:* object graphs of 3 to 3000 objects (every type, nesting to depth 6, strings with every byte, names with
escapes, streams up to 200 kB that contain `endstream`, `endobj`, `1 0 obj`, `xref`, `%%EOF`), serialised with random white space, comments,
line ends, number spellings; tables with random subsections and entry line ends; cross-reference streams with random /W
(including width 0 defaults and 3-8 byte fields), /Index, filters and every PNG predictor row type; object streams of 1 to 200 objects, with and
without filters; indirect /Length before or after the stream. *Oracle:* model equality per object by parsing the returned
bytes with the strict lexer; stream data byte for byte; error for numbers outside. *Excluded:* hybrid `/XRefStm` files (the library does
not claim them) and stream lengths that are stored in object streams.""",
"P02": """*Generated:* histories of 1-12 revisions; each adds, replaces, deletes, re-creates (with raised generation) objects, moves
them into and out of object streams, changes Root and Info; each section is a table or a stream. Text that looks like markers hides in
strings and streams; trailing bytes follow the last marker. *Oracle:* map object → value per revision. Every prefix of the file
that ends at a revision boundary is opened too.""",
"P03": """*Oracle:* the raw bytes reported for every object, section, trailer and gap must equal the file's own bytes at the reported
offsets, and concatenating what a parsed document holds must give the file back; a hash of the caller's buffer is compared after
each call. *Not claimed:* that returned buffers are independent copies of the input.""",
"P04": """*Generated:* data with runs, noise, text and images, encoded by independent encoders that use every freedom of the
format (LZW with early change 0/1 and random clear codes, Flate with stored/fixed/dynamic blocks, ASCII85 `z`, odd hex, white
space, run-length splits, all PNG predictors per row, /Colors 1-4, /BitsPerComponent 1-16), filter chains, abbreviations and
/DecodeParms forms. *Malformed family:* inputs that the specification makes invalid must be errors. Encoders of the library
are decoded by the independent decoders. `EncodeASCII85` starts its output with `<~` as documented.""",
"P05": """*Generated:* call sequences (AddObject, AddStreamObject, SetObject, SetRoot/Info, all value kinds) in the three output
modes, writing the same writer twice. *Oracle:* strict reader (every offset, /Size, subsection, /W, /First, /N, header, trailer
key) and model equality; determinism of two writes of the same writer.""",
"P06": """*Oracle:* the first outcome, rendered with everything reachable from it (maps sorted, slices in order), against every later one.
The random source is replaced by a constant one. Two worlds are built from one source, so that equality does not rest on identity.""",
"P07": """*Generated:* documents written with user/owner passwords (empty, equal, Unicode, longer than 127 bytes) and permission bits.
*Oracle:* independent R6 handler authenticates both passwords with the expected role and permissions and decrypts each
string and stream to the plaintext; nearby wrong passwords fail; no plaintext marker string occurs in the file; the key and IVs differ
between runs; object streams and the cross-reference stream are not encrypted twice.""",
"P08": """*Generated:* files encrypted by the reference handler under every scheme (RC4 40-128, AES-128, AES-256 R5/R6, crypt filters
with Identity, EncryptMetadata false, strings inside object streams, updates). *Oracle:* plaintext equality per object for both passwords.
For revision 3 with keys shorter than 128 bits the owner entry follows the specification, where qpdf differs.""",
"P09": """*Generated:* near-miss passwords (prefixes, extensions, case flips, padding bytes, normalisation) and damaged encryption
dictionaries. *Oracle:* the reference handler decides who must get in with which role; the library must agree, and must not return
a document or plaintext otherwise.""",
"P10": """*Generated:* sequences of all drawing, font, image and watermark calls on 1-20 pages. *Oracle:* the page's content parsed by the
reference tokenizer must be exactly the operator sequence the calls denote, its resources must resolve to what was added,
and unsuccessful calls must leave the page as it was.""",
"P11": """*Generated:* content streams with nested graphics states, text matrices, leading, TJ arrays, inline images, inherited
resources, content arrays split inside operators' gaps. *Oracle:* an interpreter that runs beside the generator. *Excluded:* form XObject content, text advance
after Tj, predefined multi-byte CMaps, exact widths, curves, colour spaces other than DeviceGray/RGB/CMYK operators.""",
"P12": """*Oracle:* the published encoding tables, Differences, ToUnicode CMaps (bfchar, bfrange, arrays, surrogates), composite fonts with
Identity-H, checked for all codes of each font. *Excluded:* expert and symbol encodings and uncommon AGL names.""",
"P13": """*Generated:* PNGs of every kind, JPEGs, and images of a decoder the caller registered (bounds anywhere).
*Oracle:* decoded samples of the written image XObject and soft mask compared pixel by pixel with the source image;
JPEG data byte for byte, size and components from an independent header parser; malformed JPEG headers are errors.""",
"P14": """*Generated:* synthetic TrueType fonts (head, hhea, hmtx, cmap 4/12, name, post, OS/2, glyf or CFF) with random metrics and mappings.
*Oracle:* width, character and glyph of every WinAnsi code through the PDF font dictionary and ToUnicode. *Excluded:* characters outside
WinAnsi, and the cap height of fonts without one (OS/2 before version 2).""",
"P15": """*Oracle:* each Info entry and outline item read with the strict reader against the model, and the other way round. URIs are ASCII;
custom keys must not collide with standard ones; the caller's own catalogs hold entries that look like the outline's; an absent ModDate defaults to the current time and is not compared.""",
"P16": """*Oracle:* a page-list model of the edits, and object graph equality of everything else. Inserting needs an unused object number
(the API takes the number); object numbers are kept by Rebuild.""",
"P17": """*Oracle:* graph isomorphism between each result page and its source page, with inherited attributes made explicit.""",
"P18": """*Generated:* a document model is rendered twice with independent layouts; edits are applied to the model first. *Oracle:* the
expected difference set follows from the edits. Images carry FlateDecode on both sides (Format is taken from the filter).
Forms are field trees or XFA data values laid out anew on either side. *Not claimed:* colours and line widths of graphics,
contents of annotations, renamed font resources, fields without a value.""",
"P19": """*Generated:* builder calls in random order (fields before, between and after pages; metadata, bookmarks and encryption at random
points; the caller's own catalog). *Oracle:* the strict reader's view of the form, the annotation lists and the page contents against
a model of the calls; then actions and appearances are added and the document is written again. *Not claimed:* GoTo by `PageNum`
(the library takes it as an object number), the fixed SubmitForm target, a second form for one document.""",
"P20": """*Generated:* field trees in random documents, with decoys (`/FT`, `/Kids`, `/T` inside strings, nested dictionaries, actions).
*Oracle:* the model of the tree. *Excluded:* partial names with periods, stream values, kids without a name that have kids.""",
"P21": """*Oracle:* the result equals the source with the modelled edits, object by object (strict reader on both), plus read-back through
the library. *Excluded:* data for groups, signatures and push buttons must change nothing; states no widget has.""",
"P22": """*Generated:* a template or schema model, rendered as XML by the harness's own writer (`xmlgen.go`), which picks quoting, entities,
prefixes, comments, CDATA and white space at random. *Oracle:* the model; the XML the library writes must be accepted by the harness's
strict XML reader before it is read back. *Not claimed:* what `FormToXFA` has no place for (limits, conditions, several actions per rule).""",
"P23": """*Generated:* documents of the general generator with an XFA array; packet keys as any string form, streams with any filter, encryption.
*Oracle:* strict reader on source and result, up to the edited stream; inside the data packet, tree equality with the filled model.
The `program` family runs the built `pdfer` binary in a scratch directory with the same oracle on its output file.""",
"P24": """*Generated:* sources from every other generator, damaged as bytes (flips, deletions, hostile tokens and numbers), only in the
directory part or around `/Standard`, as objects before serialisation (types swapped, references redirected, integers replaced),
or cut; hand-built deep and self-referring files; damaged parts for the functions that take parts.
*Oracle:* monitors only: recovered panics, input compared before and after each call, allocation per call (256 MB plus 400 bytes
per input byte; 2 GB for calls that write), live heap 3 GB, address space 12 GB, 40 CPU seconds per case, nil result without error.
A lost worker is attributed to the case it ran.""",
"P25": """*Built with `-race`.* *Generated:* families *mixed* (each goroutine calls something else), *together* (all call the same at the
same time) and *apart* (a new process per case; each goroutine opens its own document, so that first uses collide). Nothing of the
harness is shared while the goroutines run: an earlier version kept a shared atomic log, whose accesses ordered the calls and hid
races. *Oracle:* the race detector, recovered panics, and every outcome against the same call on an equal document alone.
*Evidence:* calls at once per case, overlapping pairs of calls and distinct logs of starts and ends.""",
"P26": """*Oracle:* an independent formulation of the rules; values are drawn around the limits. Error texts are not compared, only which
fields are reported and that the order is stable.""",
"P27": """*Oracle:* annotations (type-specific fields, URIs, destinations, quad points, appearance), font dictionaries and images compared
with the model. *Excluded:* TIFF predictor 2; image identifiers may repeat between pages.""",
"P28": """*Oracle:* the directory tree written in a scratch directory of the worker is compared file by file with what extraction returned;
nothing else may appear; write errors (read-only or missing directories, name clashes) must surface.""",
"P29": """*Generated:* every field of the exported types by reflection. *Oracle:* an expected XML tree per type, compared in canonical form,
and deep equality of what is read back from the library's text and from a foreign layout of the same tree.""",
"P30": """*Oracle:* why a call must fail follows from the generator (foreign handler, absent object, no form) or from the reference password
check; `errors.Is` is evaluated against all sentinels and compared with the error chain walked by hand. Results beside an error must
be empty and no files may be left. The collector is compared with a list after every operation.""",
}

TAIL = """## Limits of this approach

A run says what held on its cases, never that a property is proved. Blind spots that were accepted: hybrid cross-reference
files; crypt filters other than the standard ones; fonts and encodings listed as excluded above; behaviour under memory
exhaustion. The home-grown version-5 functions kept in `core/encrypt` for the existing tests (not used by the reading and
writing paths) are not covered.

## False alarms met while building, and what was done

* Shared bookkeeping in `P25` was no false alarm but a blind spot; see there.
* `P30` first objected to empty, non-nil slices and to the output directory being created before a refusal; neither is a result.
* Wall-clock in `hang` detection: replaced by CPU time of the worker.
* Owner entry for R3 with short keys: the specification and qpdf differ; the property text was made explicit.
* Text order inside a kind for `P18`: comparing reordered drawing operations is a matter of taste; the property now keeps the order.
* Page rotations: generated as multiples of 90 only, as the specification requires.
"""

RESULT = {
 "p16-negative-rotation": "first missed (generator had no negative /Rotate), now caught",
 "p01-wide-offset": "first missed (offset fields were never wider than needed), now caught",
 "p11-repeated-part": "first missed (no content stream was listed twice), now caught",
 "p13-frame-marker": "first missed (generated JPEG files had no segments of the C4 to CF range before the frame header), now caught",
 "p18-half-turn": "first missed (edits rotated by 90 only), now caught",
 "p21-float-exponent": "first missed (only floats of six digits were filled in), now caught",
 "p26-zero-range": "first missed (zero was a rare candidate), now caught",
}
