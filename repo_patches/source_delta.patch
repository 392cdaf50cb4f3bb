From 7bb24b541c36a6bd1944c659fb8a9db9093fa0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/93] fix: determine indirect object extent lexically

endobj/stream/endstream inside strings, comments or stream data ended an
object early, and stream data was cut at the first 'endstream' even when
/Length said otherwise.
---
 core/parse/document_parser.go |  78 +++-------
 core/parse/get_object.go      |  79 +++-------
 core/parse/lexer.go           | 285 ++++++++++++++++++++++++++++++++++
 3 files changed, 329 insertions(+), 113 deletions(-)
 create mode 100644 core/parse/lexer.go

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..d164468 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -435,77 +435,39 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 	expectedHeader := fmt.Sprintf("%d %d obj", objNum, objGen)
 	if !bytes.HasPrefix(section, []byte(expectedHeader)) {
 		// Try to find it nearby
-		headerPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, objGen))
+		headerPattern := regexp.MustCompile(fmt.Sprintf(`^\s*%d\s+%d\s+obj`, objNum, objGen))
 		if !headerPattern.Match(section[:min(50, len(section))]) {
 			return nil, fmt.Errorf("object header not found at offset %d", offset)
 		}
 	}
 
-	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
-	if endobjIdx == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	// Locate the object's extent; keywords inside strings, comments or stream
+	// data do not end it.
+	extent, ok := scanIndirectObject(section)
+	if !ok {
+		// Damaged object: fall back to a plain keyword search
+		endobjIdx := bytes.Index(section, []byte("endobj"))
+		if endobjIdx == -1 {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
+		}
+		extent = indirectObject{end: endobjIdx + len("endobj")}
 	}
 
 	// Include "endobj" in raw bytes
-	endOffset := endobjIdx + 6 // len("endobj")
-
-	obj.RawBytes = section[:endOffset]
-	obj.EndOffset = offset + int64(endOffset)
+	obj.RawBytes = section[:extent.end]
+	obj.EndOffset = offset + int64(extent.end)
 
 	// Check if this is a stream object
-	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	if extent.isStream {
 		obj.IsStream = true
 
-		// Find dictionary (before "stream")
-		dictStart := bytes.Index(obj.RawBytes, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < streamIdx && depth > 0 {
-				if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '<' && obj.RawBytes[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '>' && obj.RawBytes[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			obj.DictStart = dictStart
-			obj.DictEnd = dictEnd
-			obj.DictRaw = obj.RawBytes[dictStart:dictEnd]
-		}
+		obj.DictStart = extent.dictStart
+		obj.DictEnd = extent.dictEnd
+		obj.DictRaw = obj.RawBytes[extent.dictStart:extent.dictEnd]
 
-		// Find stream data boundaries
-		// Stream keyword followed by single EOL
-		streamDataStart := streamIdx + 6 // len("stream")
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Find endstream
-		endstreamIdx := bytes.Index(obj.RawBytes[streamDataStart:], []byte("endstream"))
-		if endstreamIdx != -1 {
-			streamDataEnd := streamDataStart + endstreamIdx
-			// Trim trailing EOL before endstream
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\n' {
-				streamDataEnd--
-			}
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\r' {
-				streamDataEnd--
-			}
-
-			obj.StreamStart = streamDataStart
-			obj.StreamEnd = streamDataEnd
-			obj.StreamRaw = obj.RawBytes[streamDataStart:streamDataEnd]
-		}
+		obj.StreamStart = extent.dataStart
+		obj.StreamEnd = extent.dataEnd
+		obj.StreamRaw = obj.RawBytes[extent.dataStart:extent.dataEnd]
 	}
 
 	return obj, nil
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..0ac8532 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -147,7 +147,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if headerMatch == nil {
 		// Header not exactly at offset - try to find it nearby
 		searchArea := pdfBytes[max(0, int(offset)-100):min(len(pdfBytes), int(offset)+100)]
-		pattern := regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum))
+		pattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+(\d+)\s+obj`, objNum))
 		match := pattern.FindIndex(searchArea)
 		if match == nil {
 			if verbose {
@@ -169,74 +169,43 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
 
-	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
-	if endobjPos == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	// Locate the object's value; keywords inside strings, comments or stream
+	// data do not end it.
+	extent, scanned := scanIndirectObject(objData)
+	if !scanned {
+		// Damaged object: fall back to a plain keyword search
+		endobjPos := bytes.Index(objData, []byte("endobj"))
+		if endobjPos == -1 {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
+		}
+		extent = indirectObject{contentEnd: endobjPos, end: endobjPos + len("endobj")}
+		if objPos := bytes.Index(objData[:endobjPos], []byte("obj")); objPos != -1 {
+			extent.contentStart = objPos + 3
+		}
 	}
 
-	// Extract content between header and endobj
-	// Skip past "N G obj" to get to the content
-	contentStart := bytes.Index(objData[:endobjPos], []byte("obj"))
-	if contentStart == -1 {
-		contentStart = 0
-	} else {
-		contentStart += 3 // Skip "obj"
-		// Skip whitespace
-		for contentStart < endobjPos && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
-			contentStart++
-		}
+	// Skip whitespace
+	contentStart := extent.contentStart
+	for contentStart < extent.contentEnd && isSpace(objData[contentStart]) {
+		contentStart++
 	}
 
-	content := objData[contentStart:endobjPos]
+	content := objData[contentStart:extent.contentEnd]
 
 	// Check if this is a stream object
-	streamStart := bytes.Index(content, []byte("stream"))
-	if streamStart != -1 {
-		// This is a stream object
-		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
-		}
-		content = content[:endstreamPos+len("endstream")]
+	if extent.isStream {
+		content = objData[contentStart:extent.streamEnd]
+		streamStart := extent.streamKeyword - contentStart
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
 			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
-			// Skip exactly one EOL per PDF spec
-			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
-				streamDataStart++
-			}
-			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
-				streamDataStart++
-			}
 
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
+			streamData := objData[extent.dataStart:extent.dataEnd]
 
 			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
+				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			if err == nil {
diff --git a/core/parse/lexer.go b/core/parse/lexer.go
new file mode 100644
index 0000000..8646b99
--- /dev/null
+++ b/core/parse/lexer.go
@@ -0,0 +1,285 @@
+package parse
+
+import (
+	"bytes"
+	"strconv"
+)
+
+// indirectObject describes the lexical extent of an indirect object
+// ("N G obj ... endobj"). All fields are offsets into the scanned slice.
+type indirectObject struct {
+	contentStart int // first byte of the object's value
+	contentEnd   int // offset of the "endobj" keyword
+	end          int // offset just past "endobj"
+
+	isStream      bool
+	dictStart     int // offset of the stream dictionary's "<<"
+	dictEnd       int // offset just past the stream dictionary's ">>"
+	streamKeyword int // offset of the "stream" keyword
+	dataStart     int // first byte of stream data
+	dataEnd       int // offset just past the stream data
+	streamEnd     int // offset just past "endstream"
+}
+
+func isDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+func isSpace(b byte) bool {
+	return isWhitespace(b) || b == 0
+}
+
+// skipSpace skips white space and comments.
+func skipSpace(data []byte, pos int) int {
+	for pos < len(data) {
+		if isSpace(data[pos]) {
+			pos++
+		} else if data[pos] == '%' {
+			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
+				pos++
+			}
+		} else {
+			break
+		}
+	}
+	return pos
+}
+
+// skipRegular skips a run of regular characters (number, keyword, name body).
+func skipRegular(data []byte, pos int) int {
+	for pos < len(data) && !isSpace(data[pos]) && !isDelimiter(data[pos]) {
+		pos++
+	}
+	return pos
+}
+
+// skipLiteralString returns the offset past the literal string starting at pos.
+func skipLiteralString(data []byte, pos int) int {
+	depth := 0
+	for pos < len(data) {
+		switch data[pos] {
+		case '\\':
+			pos++
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return pos + 1
+			}
+		}
+		pos++
+	}
+	return len(data)
+}
+
+// skipToken returns the offset past the token starting at pos, which must not
+// be white space.
+func skipToken(data []byte, pos int) int {
+	switch data[pos] {
+	case '(':
+		return skipLiteralString(data, pos)
+	case '<':
+		if pos+1 < len(data) && data[pos+1] == '<' {
+			return pos + 2
+		}
+		if end := bytes.IndexByte(data[pos:], '>'); end != -1 {
+			return pos + end + 1
+		}
+		return len(data)
+	case '>':
+		if pos+1 < len(data) && data[pos+1] == '>' {
+			return pos + 2
+		}
+		return pos + 1
+	case '/':
+		return skipRegular(data, pos+1)
+	case '[', ']', '{', '}', ')':
+		return pos + 1
+	}
+	return skipRegular(data, pos)
+}
+
+// dictionaryEnd returns the offset past the ">>" matching the "<<" at pos, or
+// -1 if the dictionary is not terminated. Strings and comments are skipped.
+func dictionaryEnd(data []byte, pos int) int {
+	depth := 0
+	for {
+		pos = skipSpace(data, pos)
+		if pos >= len(data) {
+			return -1
+		}
+		end := skipToken(data, pos)
+		if end-pos == 2 && data[pos] == '<' && data[pos+1] == '<' {
+			depth++
+		} else if end-pos == 2 && data[pos] == '>' && data[pos+1] == '>' {
+			depth--
+			if depth == 0 {
+				return end
+			}
+		}
+		pos = end
+	}
+}
+
+// dictionaryInt returns the direct integer stored under a top-level key of the
+// dictionary, e.g. /Length. References do not count.
+func dictionaryInt(dict []byte, key string) (int, bool) {
+	depth, expectValue := 0, false
+	pos := 0
+	for {
+		pos = skipSpace(dict, pos)
+		if pos >= len(dict) {
+			return 0, false
+		}
+		end := skipToken(dict, pos)
+		tok := string(dict[pos:end])
+		if expectValue {
+			n, err := strconv.Atoi(tok)
+			if err != nil {
+				return 0, false
+			}
+			// "N G R" is a reference, not an integer
+			next := skipSpace(dict, end)
+			if mid := skipRegular(dict, next); mid > next {
+				r := skipSpace(dict, mid)
+				if r < len(dict) && dict[r] == 'R' && skipRegular(dict, r) == r+1 {
+					return 0, false
+				}
+			}
+			return n, true
+		}
+		switch tok {
+		case "<<", "[":
+			depth++
+		case ">>", "]":
+			depth--
+		default:
+			expectValue = depth == 1 && tok == key
+		}
+		pos = end
+	}
+}
+
+// scanIndirectObject determines the extent of the indirect object whose header
+// starts at the beginning of data. Keywords inside strings, comments and
+// stream data do not terminate the object.
+func scanIndirectObject(data []byte) (indirectObject, bool) {
+	var obj indirectObject
+
+	// Header: N G obj
+	pos := 0
+	for i := 0; i < 2; i++ {
+		pos = skipSpace(data, pos)
+		start := pos
+		for pos < len(data) && data[pos] >= '0' && data[pos] <= '9' {
+			pos++
+		}
+		if pos == start {
+			return obj, false
+		}
+	}
+	pos = skipSpace(data, pos)
+	if !bytes.HasPrefix(data[pos:], []byte("obj")) {
+		return obj, false
+	}
+	pos += 3
+	for pos < len(data) && isSpace(data[pos]) {
+		pos++
+	}
+	obj.contentStart = pos
+
+	for {
+		pos = skipSpace(data, pos)
+		if pos >= len(data) {
+			return obj, false
+		}
+		if bytes.HasPrefix(data[pos:], []byte("<<")) && !obj.isStream {
+			end := dictionaryEnd(data, pos)
+			if end == -1 {
+				return obj, false
+			}
+			obj.dictStart, obj.dictEnd = pos, end
+			pos = end
+			continue
+		}
+		end := skipToken(data, pos)
+		word := data[pos:end]
+		if bytes.HasPrefix(word, []byte("endobj")) {
+			obj.contentEnd = pos
+			obj.end = pos + len("endobj")
+			return obj, true
+		}
+		if bytes.HasPrefix(word, []byte("stream")) && obj.dictEnd > 0 && !obj.isStream {
+			obj.isStream = true
+			obj.streamKeyword = pos
+			if !obj.scanStreamData(data) {
+				return obj, false
+			}
+			pos = obj.streamEnd
+			continue
+		}
+		pos = end
+	}
+}
+
+// scanStreamData locates the stream data following the "stream" keyword. A
+// direct /Length is used when "endstream" really follows that many bytes.
+func (o *indirectObject) scanStreamData(data []byte) bool {
+	o.dataStart = skipStreamEOL(data, o.streamKeyword+len("stream"))
+
+	if n, ok := dictionaryInt(data[o.dictStart:o.dictEnd], "/Length"); ok && n >= 0 && n <= len(data)-o.dataStart {
+		after := skipStreamEOL(data, o.dataStart+n)
+		if bytes.HasPrefix(data[after:], []byte("endstream")) {
+			o.dataEnd = o.dataStart + n
+			o.streamEnd = after + len("endstream")
+			return true
+		}
+	}
+
+	// No usable /Length: take the first "endstream" that closes an object, or
+	// failing that the first one.
+	first := -1
+	for from := o.dataStart; ; {
+		idx := bytes.Index(data[from:], []byte("endstream"))
+		if idx == -1 {
+			break
+		}
+		at := from + idx
+		if first == -1 {
+			first = at
+		}
+		from = at + len("endstream")
+		if bytes.HasPrefix(data[skipSpace(data, from):], []byte("endobj")) {
+			first = at
+			break
+		}
+	}
+	if first == -1 {
+		return false
+	}
+	o.streamEnd = first + len("endstream")
+	o.dataEnd = first
+	if o.dataEnd > o.dataStart && data[o.dataEnd-1] == '\n' {
+		o.dataEnd--
+	}
+	if o.dataEnd > o.dataStart && data[o.dataEnd-1] == '\r' {
+		o.dataEnd--
+	}
+	return true
+}
+
+// skipStreamEOL skips the single end-of-line marker at pos, if any.
+func skipStreamEOL(data []byte, pos int) int {
+	if pos < len(data) && data[pos] == '\r' {
+		pos++
+	}
+	if pos < len(data) && data[pos] == '\n' {
+		pos++
+	}
+	return pos
+}
-- 
2.43.0


From b2c7d67d35dc914bae172acc204f89927d5476af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/93] fix: use the last startxref, not the first one in the
 search window

The 100-byte window before %%EOF can contain the previous revision's
startxref, and ParsePDFTrailer always took the first one in the file.
---
 core/parse/document_parser.go | 6 ++++--
 core/parse/incremental.go     | 6 ++++--
 core/parse/parser.go          | 8 ++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index d164468..b445f07 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -131,10 +131,12 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 
 	searchSection := string(pdfBytes[searchStart:eofOffset])
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
+	// The window may reach into an earlier revision; the last one counts
+	match := matches[len(matches)-1]
 
 	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..c86f8d2 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -110,11 +110,13 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 
 	searchSection := pdfStr[searchStart:lastEOF]
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
 
-	if match == nil {
+	if len(matches) == 0 {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
+	// The window may reach into an earlier revision; the last one counts
+	match := matches[len(matches)-1]
 
 	offset, err := strconv.ParseInt(match[1], 10, 64)
 	if err != nil {
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..2d22419 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -86,11 +86,11 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 		trailer.EncryptRef = encryptMatch[0]
 	}
 
-	// Find startxref
+	// Find startxref (the last one describes the newest revision)
 	startXRefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startXRefMatch := startXRefPattern.FindStringSubmatch(pdfStr)
-	if startXRefMatch != nil {
-		offset, err := strconv.ParseInt(startXRefMatch[1], 10, 64)
+	startXRefMatches := startXRefPattern.FindAllStringSubmatch(pdfStr, -1)
+	if len(startXRefMatches) > 0 {
+		offset, err := strconv.ParseInt(startXRefMatches[len(startXRefMatches)-1][1], 10, 64)
 		if err == nil {
 			trailer.StartXRef = offset
 		}
-- 
2.43.0


From 6b3b741350cfb8cc42e7cd2b94c4a286182bd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 03/93] fix: read cross-reference sections of any size and form

Traditional tables were cut at 10000 bytes (about 500 entries) and xref
stream dictionaries at 500; PNG Average/Paeth rows, unfiltered streams and
a zero-width type field were misread, and bad offsets or widths panicked.
---
 core/parse/document_parser.go |  39 +++----
 core/parse/incremental.go     |  11 +-
 core/parse/object_stream.go   | 108 +++++++++++---------
 core/parse/parser.go          |   2 +-
 core/parse/xref_stream.go     | 185 +---------------------------------
 5 files changed, 90 insertions(+), 255 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index b445f07..db6755f 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -217,13 +217,7 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 	section := pdfBytes[startXRef:]
 
 	// Find end of xref table (at "trailer" keyword)
-	trailerIdx := bytes.Index(section, []byte("trailer"))
-	if trailerIdx == -1 {
-		// No trailer found - look for end of entries
-		trailerIdx = min(10000, len(section))
-	}
-
-	xref.RawBytes = section[:trailerIdx]
+	xref.RawBytes = xrefTableBytes(section)
 
 	// Parse entries
 	lines := bytes.Split(xref.RawBytes, []byte("\n"))
@@ -333,7 +327,6 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
 	section := pdfBytes[startXRef:]
-	sectionStr := string(section[:min(5000, len(section))])
 
 	trailer := &TrailerData{}
 
@@ -342,6 +335,17 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		// XRef stream - parse dictionary from stream object
 		trailer.Offset = 0 // No separate trailer
 
+		dictStart := bytes.Index(section, []byte("<<"))
+		if dictStart == -1 {
+			return nil, fmt.Errorf("xref stream dictionary not found")
+		}
+		dictEnd := dictionaryEnd(section, dictStart)
+		if dictEnd == -1 {
+			return nil, fmt.Errorf("xref stream dictionary not terminated")
+		}
+		trailer.RawBytes = section[dictStart:dictEnd]
+		sectionStr := string(trailer.RawBytes)
+
 		// Extract trailer-equivalent info from stream dictionary
 		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
 			trailer.Size, _ = strconv.Atoi(match[1])
@@ -359,25 +363,6 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
 		}
 
-		// Find dictionary boundaries for RawBytes
-		dictStart := bytes.Index(section, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(section) && depth > 0 {
-				if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-			trailer.RawBytes = section[dictStart:dictEnd]
-		}
-
 		return trailer, nil
 	}
 
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index c86f8d2..56dbf0e 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -276,6 +276,15 @@ func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, err
 	return nil, fmt.Errorf("unrecognized xref format at offset %d", startXRef)
 }
 
+// xrefTableBytes returns the part of data that holds a traditional xref table:
+// everything up to the trailer keyword (or all of it if there is none).
+func xrefTableBytes(data []byte) []byte {
+	if idx := bytes.Index(data, []byte("trailer")); idx != -1 {
+		return data[:idx]
+	}
+	return data
+}
+
 // parseTraditionalxrefSection parses a traditional xref table
 func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefSection, error) {
 	section := &xrefSection{
@@ -285,7 +294,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
+	xrefStr := string(xrefTableBytes(xrefData))
 
 	// Parse xref entries
 	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..ad699fa 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -35,42 +35,31 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		ObjectStreams: make(map[int]ObjectStreamEntry),
 	}
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d out of range", startXRef)
+	}
+
 	// The xref stream object should be at startXRef
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
+	extent, ok := scanIndirectObject(xrefSection)
+	if !ok {
+		return nil, fmt.Errorf("xref stream object not found")
 	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
+	if !extent.isStream {
+		return nil, fmt.Errorf("stream keyword not found")
 	}
+	xrefStr := string(xrefSection[extent.dictStart:extent.dictEnd])
 
 	// Find /Size entry
 	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
+	sizeMatch := sizePattern.FindStringSubmatch(xrefStr)
 	if sizeMatch == nil {
 		return nil, fmt.Errorf("/Size not found in xref stream")
 	}
 
 	// Find /W entry (field widths)
 	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
+	wMatch := wPattern.FindStringSubmatch(xrefStr)
 	if wMatch == nil {
 		return nil, fmt.Errorf("/W not found in xref stream")
 	}
@@ -81,7 +70,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// Find /Index entry
 	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
+	indexMatch := indexPattern.FindStringSubmatch(xrefStr)
 
 	var subsections []struct{ first, count int }
 	if indexMatch != nil {
@@ -96,31 +85,18 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		subsections = []struct{ first, count int }{{0, size}}
 	}
 
-	// Find and decompress stream content
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
+	// Decompress stream content
+	streamContent := xrefSection[extent.dataStart:extent.dataEnd]
 
 	// Decompress (xref streams are NOT encrypted)
 	var decompressed []byte
 	var err error
 
 	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
+	if !strings.Contains(xrefStr, "/Filter") {
+		// Uncompressed xref stream
+		decompressed = streamContent
+	} else if zlibErr == nil {
 		decompressed, err = io.ReadAll(zlibReader)
 		zlibReader.Close()
 		if err != nil {
@@ -141,7 +117,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
 	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
+	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(xrefStr)
 
 	if decodeparmsMatch != nil {
 		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
@@ -154,7 +130,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			predictor, _ := strconv.Atoi(predictorMatch[1])
 			columns, _ := strconv.Atoi(columnsMatch[1])
 
-			if predictor >= 10 && predictor <= 15 {
+			if predictor >= 10 && predictor <= 15 && columns > 0 && columns <= len(decompressed) {
 				// PNG predictor - apply filter
 				rowSize := columns + 1 // +1 for filter byte
 				numRows := len(decompressed) / rowSize
@@ -185,6 +161,23 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 						for i := 0; i < columns; i++ {
 							decoded[row*columns+i] = rowData[i] + prevRow[i]
 						}
+					case 3: // Average
+						for i := 0; i < columns; i++ {
+							left := 0
+							if i > 0 {
+								left = int(decoded[row*columns+i-1])
+							}
+							decoded[row*columns+i] = rowData[i] + byte((left+int(prevRow[i]))/2)
+						}
+					case 4: // Paeth
+						for i := 0; i < columns; i++ {
+							left, upLeft := byte(0), byte(0)
+							if i > 0 {
+								left = decoded[row*columns+i-1]
+								upLeft = prevRow[i-1]
+							}
+							decoded[row*columns+i] = rowData[i] + paethPredictor(left, prevRow[i], upLeft)
+						}
 					default:
 						copy(decoded[row*columns:], rowData)
 					}
@@ -199,7 +192,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// Parse entries
 	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
+	if entrySize == 0 || w1 > 8 || w2 > 8 || w3 > 8 {
 		return nil, fmt.Errorf("invalid entry size")
 	}
 
@@ -217,6 +210,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			for i := 0; i < w1 && i < len(entry); i++ {
 				typeVal = typeVal<<8 | int(entry[i])
 			}
+			if w1 == 0 {
+				typeVal = 1 // the type field defaults to 1 when absent
+			}
 
 			// Parse field 2 (offset for Type 1, stream object for Type 2)
 			field2 := int64(0)
@@ -260,6 +256,26 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	return result, nil
 }
 
+// paethPredictor implements the PNG Paeth predictor
+func paethPredictor(left, up, upLeft byte) byte {
+	p := int(left) + int(up) - int(upLeft)
+	pa, pb, pc := absInt(p-int(left)), absInt(p-int(up)), absInt(p-int(upLeft))
+	if pa <= pb && pa <= pc {
+		return left
+	}
+	if pb <= pc {
+		return up
+	}
+	return upLeft
+}
+
+func absInt(x int) int {
+	if x < 0 {
+		return -x
+	}
+	return x
+}
+
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 2d22419..f9561b8 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -182,7 +182,7 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 
 	// Read from startxref position
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
+	xrefStr := string(xrefTableBytes(xrefSection))
 
 	// Find xref keyword
 	xrefPos := strings.Index(xrefStr, "xref")
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..d20e482 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -1,14 +1,7 @@
 package parse
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -22,183 +15,15 @@ func ParseXRefStream(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 
 // ParseXRefStreamWithEncryption parses a PDF cross-reference stream with optional decryption
 func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo *types.PDFEncryption, verbose bool) (map[int]int64, error) {
-	objMap := make(map[int]int64)
-
-	// The xref stream object should be at startXRef
-	// Find object number - it should be at or near startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start (usually the first thing)
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		// Try searching a bit before startXRef in case of offset issues
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
-	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
-	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
-
-	// Find /Index entry if present (subsections)
-	// Format: /Index [first1 count1 first2 count2 ...]
-	// /Index defines which object numbers are in this xref stream
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		// Parse index array - this tells us which object numbers are in this stream
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		// Default: single subsection starting at 0, up to /Size
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find stream content
-	// Look for "stream" after the dictionary
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	// Find endstream
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	// Extract stream content (raw bytes, don't trim)
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
-	// The stream content should be FlateDecode compressed binary data
-	// FlateDecode can be either raw deflate or zlib-wrapped
-
-	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
-	// If that fails, try raw deflate
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			// zlib read failed, try raw deflate
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		// zlib.NewReader failed (not zlib format), try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
-	}
-
-	// Parse decompressed stream data
-	// Each entry is w1+w2+w3 bytes
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
-	}
-
-	entryIndex := 0
-
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
-			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse entry based on type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
-			}
-
-			// Calculate offset for all types (field 2)
-			offset := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				offset = offset<<8 | int64(entry[i])
-			}
-
-			if typeVal == 1 {
-				// Type 1: uncompressed, in-use object
-				if offset > 0 {
-					objMap[objNum] = offset
-				}
-			} else if typeVal == 2 {
-				// Type 2: compressed object (object stream)
-				// Field 2 is object stream number, field 3 is index within stream
-				// For compressed objects, we'd need to parse the object stream
-				// For now, skip - would need object stream parsing
-			} else if typeVal == 0 {
-				// Type 0: free object
-				// However, some PDFs incorrectly mark in-use objects as type 0
-				// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
-				if offset > 100 && offset < int64(len(pdfBytes)) {
-					objMap[objNum] = offset
-				}
-			}
-
-			entryIndex++
-		}
+		return nil, err
 	}
 
-	if len(objMap) == 0 {
+	if len(result.Objects) == 0 {
 		return nil, fmt.Errorf("no objects found in xref stream")
 	}
 
-	return objMap, nil
+	// Compressed objects (Type 2 entries) have no byte offset of their own
+	return result.Objects, nil
 }
-- 
2.43.0


From ac47b5ae899e0a024eb37a611ddfba69a24ff76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/93] fix: write Root, Info, Encrypt and ID into the
 cross-reference stream itself

---
 core/write/writer.go      | 23 -----------------------
 core/write/xref_stream.go | 16 +++++++++++++---
 2 files changed, 13 insertions(+), 26 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..45119a0 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -343,29 +343,6 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		if err != nil {
 			return fmt.Errorf("failed to write xref stream: %v", err)
 		}
-
-		// Write trailer (xref streams still need a trailer with /Root, /Info, etc.)
-		buf.WriteString("trailer\n<<\n")
-		buf.WriteString(fmt.Sprintf("/Size %d\n", w.nextObjNum))
-		if w.rootRef != "" {
-			buf.WriteString(fmt.Sprintf("/Root %s\n", w.rootRef))
-		}
-		if w.infoRef != "" {
-			buf.WriteString(fmt.Sprintf("/Info %s\n", w.infoRef))
-		}
-		if w.outlinesRef != "" {
-			// Outlines reference goes in the catalog, not trailer
-			// We'll update the catalog object if it exists
-			w.updateCatalogWithOutlines()
-		}
-		if w.encryptRef != "" {
-			buf.WriteString(fmt.Sprintf("/Encrypt %s\n", w.encryptRef))
-		}
-		if len(w.fileID) > 0 {
-			hexID := fmt.Sprintf("%X", w.fileID)
-			buf.WriteString(fmt.Sprintf("/ID [<%s><%s>]\n", hexID, hexID))
-		}
-		buf.WriteString(">>\n")
 	} else {
 		// Write traditional xref table
 		xrefPos = int64(buf.Len())
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..043e71c 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -133,7 +133,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
+	// It also takes the place of the trailer dictionary
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -142,8 +142,18 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Length": len(compressedData),
 	}
 
-	// Increment object counter
-	w.nextObjNum++
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
 
 	// Write object header
 	buf.WriteString(fmt.Sprintf("%d 0 obj\n", xrefStreamObjNum))
-- 
2.43.0


From ff5abf79320412ed797cd50fdbb023629b3c1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 05/93] fix: newest cross-reference entry wins, including free
 and in-stream entries

---
 core/parse/api.go             |  16 ++++++
 core/parse/document_parser.go |  11 +++-
 core/parse/get_object.go      |  83 ++++++++++------------------
 core/parse/incremental.go     |  68 ++++++++++++++++++++---
 core/parse/object_stream.go   | 100 +++++++++++++---------------------
 core/parse/parser.go          |  27 ++++++---
 6 files changed, 169 insertions(+), 136 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..056a5c8 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -153,6 +153,19 @@ func (p *PDF) parseBytePerfect() error {
 				InStream:   false, // Raw objects are always direct in this mode
 			}
 		}
+		for _, entry := range rev.XRef.Entries {
+			if !entry.InUse {
+				// Deleted by this revision
+				delete(p.xref.Objects, entry.ObjectNum)
+			} else if entry.InObjectStream {
+				p.xref.Objects[entry.ObjectNum] = &ObjectRef{
+					Number:       entry.ObjectNum,
+					InStream:     true,
+					StreamObjNum: entry.StreamObjNum,
+					StreamIndex:  entry.IndexInStream,
+				}
+			}
+		}
 		if rev.Trailer != nil && rev.Trailer.Size > p.xref.Size {
 			p.xref.Size = rev.Trailer.Size
 		}
@@ -288,6 +301,9 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 
 	if ref.InStream {
 		// Object is in an object stream - extract it
+		if container, ok := p.xref.Objects[ref.StreamObjNum]; ok && !container.InStream {
+			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		}
 		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
 	}
 
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index db6755f..5e6933f 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -305,9 +305,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Convert to XRefEntry format
 	for objNum, offset := range result.Objects {
 		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
+			ObjectNum:  objNum,
+			Generation: result.Generations[objNum],
+			Offset:     offset,
+			InUse:      true,
 		})
 	}
 
@@ -321,6 +322,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		})
 	}
 
+	for objNum := range result.Free {
+		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
+	}
+
 	return xref, nil
 }
 
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 0ac8532..6cfa9d8 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -24,66 +24,39 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
-	// Parse xref to find object
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-	if startxrefMatch == nil {
-		return nil, fmt.Errorf("startxref not found")
-	}
-
-	startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-	if err != nil || startXRef <= 0 {
-		return nil, fmt.Errorf("invalid startxref: %s", startxrefMatch[1])
-	}
-
-	// Bounds check
-	if startXRef >= int64(len(pdfBytes)) {
-		return nil, fmt.Errorf("startxref offset %d is beyond PDF length %d", startXRef, len(pdfBytes))
-	}
-
-	// Determine if this is a traditional xref or xref stream
-	xrefSection := pdfBytes[startXRef:]
-
-	// Check if it's an xref stream (PDF 1.5+)
-	// Xref streams start with "N 0 obj" instead of "xref"
-	if bytes.Contains(xrefSection[:min(100, len(xrefSection))], []byte("obj")) {
-		// It's an xref stream - use full parsing
-		result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
-		if err != nil {
+	// Parse the whole xref chain; the newest entry for the object counts
+	result, err := parseWithIncrementalUpdates(pdfBytes, verbose)
+	if err != nil {
+		if verbose {
+			log.Printf("Failed to parse xref: %v", err)
+		}
+		if !bytes.Contains(pdfBytes, []byte("startxref")) {
+			return nil, fmt.Errorf("startxref not found")
+		}
+	} else {
+		// Check if object is in object stream
+		if entry, ok := result.ObjectStreams[objNum]; ok {
 			if verbose {
-				log.Printf("Failed to parse xref stream: %v", err)
-			}
-		} else {
-			// Check if object is in object stream
-			if entry, ok := result.ObjectStreams[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
-				}
-				return &ObjectLocation{
-					IsDirect:      false,
-					StreamObjNum:  entry.StreamObjNum,
-					IndexInStream: entry.IndexInStream,
-				}, nil
+				log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
 			}
+			return &ObjectLocation{
+				IsDirect:      false,
+				StreamObjNum:  entry.StreamObjNum,
+				IndexInStream: entry.IndexInStream,
+			}, nil
+		}
 
-			// Check regular objects
-			if offset, ok := result.Objects[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from xref stream)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		// Check regular objects
+		if offset, ok := result.Objects[objNum]; ok {
+			if verbose {
+				log.Printf("Object %d at byte offset %d", objNum, offset)
 			}
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 		}
-	} else if bytes.HasPrefix(xrefSection, []byte("xref")) {
-		// Traditional xref table
-		objMap, err := ParseTraditionalXRefTable(pdfBytes, startXRef)
-		if err == nil {
-			if offset, ok := objMap[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from traditional xref)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
-			}
+
+		// Deleted objects must not be resurrected by the search below
+		if result.Free[objNum] {
+			return nil, fmt.Errorf("object %d not found", objNum)
 		}
 	}
 
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 56dbf0e..0f8e0f9 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 // xrefSection represents a single cross-reference section from a PDF
@@ -14,6 +15,7 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Free      map[int]bool              // Object numbers marked free in this section
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -78,9 +80,25 @@ func (p *incrementalParser) getFullXRefResult() *XRefResult {
 	return &XRefResult{
 		Objects:       p.mergedObjs,
 		ObjectStreams: p.mergedStreams,
+		Free:          p.freeObjects(),
 	}
 }
 
+// freeObjects returns the object numbers whose newest entry marks them free
+func (p *incrementalParser) freeObjects() map[int]bool {
+	free := make(map[int]bool)
+	for _, section := range p.sections {
+		for objNum := range section.Free {
+			_, direct := p.mergedObjs[objNum]
+			_, inStream := p.mergedStreams[objNum]
+			if !direct && !inStream {
+				free[objNum] = true
+			}
+		}
+	}
+	return free
+}
+
 // getSections returns all parsed xref sections (oldest first)
 func (p *incrementalParser) getSections() []*xrefSection {
 	return p.sections
@@ -92,15 +110,14 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 	pdfStr := string(p.pdfBytes)
 
 	// Find all %%EOF markers
-	eofPattern := regexp.MustCompile(`%%EOF`)
-	eofMatches := eofPattern.FindAllStringIndex(pdfStr, -1)
+	eofMatches := FindAllEOFMarkers(p.pdfBytes)
 
 	if len(eofMatches) == 0 {
 		return 0, fmt.Errorf("no %%EOF marker found")
 	}
 
 	// Take the last %%EOF
-	lastEOF := eofMatches[len(eofMatches)-1][0]
+	lastEOF := eofMatches[len(eofMatches)-1]
 
 	// Search backwards from %%EOF for startxref
 	searchStart := lastEOF - 100
@@ -291,6 +308,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
@@ -303,7 +321,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	inSubsection := false
 
 	for i, line := range lines {
-		line = regexp.MustCompile(`^\s+|\s+$`).ReplaceAllString(line, "")
+		line = strings.TrimSpace(line)
 		if line == "" {
 			continue
 		}
@@ -318,7 +336,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 			break
 		}
 
-		fields := regexp.MustCompile(`\s+`).Split(line, -1)
+		fields := strings.Fields(line)
 
 		if len(fields) == 2 {
 			// Subsection header: "first_obj_num count"
@@ -339,6 +357,8 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 
 			if err1 == nil && err2 == nil && flag == "n" {
 				section.Objects[currentObjNum] = offset
+			} else if flag == "f" {
+				section.Free[currentObjNum] = true
 			}
 			currentObjNum++
 		}
@@ -405,6 +425,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	// Use existing full xref stream parser
@@ -415,10 +436,19 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
+	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(2000, len(xrefData))])
+	dictStart := bytes.Index(xrefData, []byte("<<"))
+	if dictStart == -1 {
+		return nil, fmt.Errorf("xref stream dictionary not found")
+	}
+	dictEnd := dictionaryEnd(xrefData, dictStart)
+	if dictEnd == -1 {
+		return nil, fmt.Errorf("xref stream dictionary not terminated")
+	}
+	xrefStr := string(xrefData[dictStart:dictEnd])
 
 	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
 		section.Root = match[1]
@@ -448,13 +478,20 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Objects deleted by this section
+		for objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedStreams, objNum)
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum)
 		}
 	}
 
@@ -464,7 +501,9 @@ func (p *incrementalParser) mergeSections() {
 	}
 }
 
-// FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF
+// FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF.
+// Only markers that follow "startxref <offset>" count; the same characters may
+// also occur in strings, comments and stream data.
 func FindAllEOFMarkers(pdfBytes []byte) []int {
 	var offsets []int
 	pattern := []byte("%%EOF")
@@ -475,13 +514,26 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 		if idx == -1 {
 			break
 		}
-		offsets = append(offsets, pos+idx)
+		if followsStartXRef(pdfBytes[:pos+idx]) {
+			offsets = append(offsets, pos+idx)
+		}
 		pos = pos + idx + len(pattern)
 	}
 
 	return offsets
 }
 
+// followsStartXRef reports whether data ends with "startxref <offset>"
+func followsStartXRef(data []byte) bool {
+	trimmed := bytes.TrimRight(data, " \t\r\n")
+	number := bytes.TrimRight(trimmed, "0123456789")
+	if len(number) == len(trimmed) {
+		return false
+	}
+	keyword := bytes.TrimRight(number, " \t\r\n")
+	return len(keyword) < len(number) && bytes.HasSuffix(keyword, []byte("startxref"))
+}
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
 	return len(FindAllEOFMarkers(pdfBytes))
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index ad699fa..160aedc 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -26,6 +26,10 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Objects marked free (Type 0)
+	Free map[int]bool
+	// Generation numbers of regular objects (only entries that are not 0)
+	Generations map[int]int
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -33,6 +37,8 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
+		Free:          make(map[int]bool),
+		Generations:   make(map[int]int),
 	}
 
 	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
@@ -228,12 +234,16 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			switch typeVal {
 			case 0:
-				// Type 0: free object - skip
+				// Type 0: free object
+				result.Free[objNum] = true
 			case 1:
 				// Type 1: uncompressed, in-use object
 				// field2 = byte offset, field3 = generation
 				if field2 > 0 {
 					result.Objects[objNum] = field2
+					if field3 != 0 {
+						result.Generations[objNum] = int(field3)
+					}
 				}
 			case 2:
 				// Type 2: compressed object in object stream
@@ -279,66 +289,28 @@ func absInt(x int) int {
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
+	// Find the object stream itself through the xref
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose)
+	if err != nil {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
-
-	streamObjStart := matches[0]
-
-	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
-
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
-	}
-
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
-	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
-
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
-	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
-
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
+	if !loc.IsDirect {
+		return nil, fmt.Errorf("object stream %d is itself stored in an object stream", streamObjNum)
 	}
-	streamKeyword += dictStart
+	return getObjectFromStreamAt(pdfBytes, objNum, streamObjNum, loc.ByteOffset, indexInStream, encryptInfo, verbose)
+}
 
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+// getObjectFromStreamAt extracts an object from the object stream at streamOffset
+func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, streamOffset int64, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	streamObj, err := ParseRawObjectAt(pdfBytes, streamOffset)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read object stream %d: %v", streamObjNum, err)
 	}
-
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	if streamObj.Number != streamObjNum || !streamObj.IsStream {
+		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
-
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	dictSection := string(streamObj.DictRaw)
+	streamData := streamObj.StreamRaw
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
@@ -351,10 +323,12 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 
 	// Decompress stream data (FlateDecode)
 	var decompressed []byte
-	var err error
 
 	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if zlibErr == nil {
+	if !strings.Contains(dictSection, "/Filter") {
+		// Uncompressed object stream
+		decompressed, zlibErr = streamData, nil
+	} else if zlibErr == nil {
 		decompressed, err = io.ReadAll(zlibReader)
 		zlibReader.Close()
 	}
@@ -376,8 +350,6 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
 	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
 	nMatch := nPattern.FindStringSubmatch(dictSection)
 	if nMatch == nil {
@@ -399,6 +371,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 	var entries []objEntry
 
+	if firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d is beyond object stream length %d", firstOffset, len(decompressed))
+	}
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
@@ -409,7 +384,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -418,9 +393,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
-		for _, e := range entries {
+		for i, e := range entries {
 			if e.objNum == objNum {
 				targetEntry = e
+				indexInStream = i
 				found = true
 				break
 			}
@@ -442,7 +418,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		objDataEnd = len(decompressed)
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if targetEntry.offset < 0 || objDataStart >= len(decompressed) || objDataEnd > len(decompressed) || objDataEnd < objDataStart {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index f9561b8..b1ac70f 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -101,22 +101,33 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 
 // FindObjectByNumber finds a PDF object by its number
 func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) (int, error) {
-	// First, try direct search (works for unencrypted or if object header is visible)
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex != -1 {
+	// First, ask the xref chain (a plain byte search would match "5 0 obj"
+	// inside "15 0 obj" or an outdated revision of the object)
+	if loc, err := FindObjectLocation(pdfBytes, objNum, verbose); err == nil && loc.IsDirect {
 		if verbose {
-			log.Printf("Found object %d at byte position %d (direct search)", objNum, objIndex)
+			log.Printf("Found object %d at byte position %d", objNum, loc.ByteOffset)
+		}
+		return int(loc.ByteOffset), nil
+	}
+
+	// Without a cross-reference table only a direct search is possible
+	if !bytes.Contains(pdfBytes, []byte("startxref")) {
+		objPattern := regexp.MustCompile(fmt.Sprintf(`\b%d 0 obj`, objNum))
+		if match := objPattern.FindIndex(pdfBytes); match != nil {
+			if verbose {
+				log.Printf("Found object %d at byte position %d (direct search)", objNum, match[0])
+			}
+			return match[0], nil
 		}
-		return objIndex, nil
 	}
 
 	// If not found, try parsing cross-reference table (works for encrypted PDFs)
 	// Find startxref directly (works even without trailer keyword)
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
+	startxrefMatches := startxrefPattern.FindAllStringSubmatch(string(pdfBytes), -1)
 
-	if startxrefMatch != nil {
+	if len(startxrefMatches) > 0 {
+		startxrefMatch := startxrefMatches[len(startxrefMatches)-1]
 		startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
 		if err == nil && startXRef > 0 {
 			if verbose {
-- 
2.43.0


From 762adc7be491d41450d4498a11735660600a5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 06/93] fix: find the end of the trailer dictionary lexically

---
 core/parse/incremental.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 0f8e0f9..6e47a86 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -373,22 +373,9 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		if dictStart != -1 {
 			dictStart += trailerStart
 
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(xrefData) && depth > 0 {
-				if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '<' && xrefData[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '>' && xrefData[dictEnd+1] == '>' {
-					depth--
-					if depth == 0 {
-						dictEnd += 2
-						break
-					}
-					dictEnd++
-				}
-				dictEnd++
+			dictEnd := dictionaryEnd(xrefData, dictStart)
+			if dictEnd == -1 {
+				dictEnd = len(xrefData)
 			}
 
 			trailerDict := string(xrefData[dictStart:dictEnd])
-- 
2.43.0


From c8c6972848da52f6bc159e95d017f47df6c2a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 07/93] fix: raw documents honour deletions made by later
 revisions

---
 core/parse/api.go             |  6 ++----
 core/parse/document.go        | 24 ++++++++++++++++++++++++
 core/parse/document_parser.go |  5 +++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 056a5c8..705fddf 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -319,10 +319,8 @@ func (p *PDF) GetRawObject(objNum int) (*PDFRawObject, error) {
 	}
 
 	// Search all revisions (newest first for most recent version)
-	for i := len(p.doc.Revisions) - 1; i >= 0; i-- {
-		if obj, ok := p.doc.Revisions[i].Objects[objNum]; ok {
-			return obj, nil
-		}
+	if obj := p.doc.GetObject(objNum); obj != nil {
+		return obj, nil
 	}
 
 	return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
diff --git a/core/parse/document.go b/core/parse/document.go
index 636014b..04ff285 100644
--- a/core/parse/document.go
+++ b/core/parse/document.go
@@ -129,10 +129,27 @@ func (d *PDFDocument) GetObject(objNum int) *PDFRawObject {
 		if obj, ok := d.Revisions[i].Objects[objNum]; ok {
 			return obj
 		}
+		if d.Revisions[i].removes(objNum) {
+			return nil
+		}
 	}
 	return nil
 }
 
+// removes reports whether this revision deletes the object, or moves it into
+// an object stream, so that raw objects of older revisions no longer count.
+func (r *PDFRevision) removes(objNum int) bool {
+	if r.XRef == nil {
+		return false
+	}
+	for _, entry := range r.XRef.Entries {
+		if entry.ObjectNum == objNum && (!entry.InUse || entry.InObjectStream) {
+			return true
+		}
+	}
+	return false
+}
+
 // GetObjectInRevision returns an object from a specific revision
 func (d *PDFDocument) GetObjectInRevision(objNum int, revisionNum int) *PDFRawObject {
 	if revisionNum < 1 || revisionNum > len(d.Revisions) {
@@ -170,6 +187,13 @@ func (d *PDFDocument) AllObjects() map[int]*PDFRawObject {
 	result := make(map[int]*PDFRawObject)
 	// Process oldest to newest, so newer overwrites older
 	for _, rev := range d.Revisions {
+		if rev.XRef != nil {
+			for _, entry := range rev.XRef.Entries {
+				if !entry.InUse || entry.InObjectStream {
+					delete(result, entry.ObjectNum)
+				}
+			}
+		}
 		for objNum, obj := range rev.Objects {
 			result[objNum] = obj
 		}
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 5e6933f..5203155 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 )
 
@@ -326,6 +327,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
 	}
 
+	sort.Slice(xref.Entries, func(i, j int) bool {
+		return xref.Entries[i].ObjectNum < xref.Entries[j].ObjectNum
+	})
+
 	return xref, nil
 }
 
-- 
2.43.0


From 3c439e442c980a96adc1b77bfb0fba8a81a860b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 08/93] fix: find /Prev inside the section's own dictionary

---
 core/parse/incremental.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 6e47a86..8eb0980 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -223,22 +223,9 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 		}
 		dictStart += trailerStart
 
-		// Find matching >> for trailer dict
-		depth := 1
-		dictEnd := dictStart + 2
-		for dictEnd < len(section) && depth > 0 {
-			if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-				depth++
-				dictEnd++
-			} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd += 2
-					break
-				}
-				dictEnd++
-			}
-			dictEnd++
+		dictEnd := dictionaryEnd(section, dictStart)
+		if dictEnd == -1 {
+			dictEnd = len(section)
 		}
 
 		trailerDict := string(section[dictStart:dictEnd])
@@ -252,13 +239,16 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	// Find the dictionary end (before "stream" keyword)
-	streamIdx := bytes.Index(section, []byte("stream"))
-	if streamIdx == -1 {
-		streamIdx = min(2000, len(section))
+	dictStart := bytes.Index(section, []byte("<<"))
+	if dictStart == -1 {
+		return 0, fmt.Errorf("xref stream dictionary not found")
+	}
+	dictEnd := dictionaryEnd(section, dictStart)
+	if dictEnd == -1 {
+		dictEnd = len(section)
 	}
 
-	dictSection := string(section[:streamIdx])
+	dictSection := string(section[dictStart:dictEnd])
 	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 	match := prevPattern.FindStringSubmatch(dictSection)
 	if match == nil {
-- 
2.43.0


From 84a111137606fe5ef0ba0b85a5a87cb533a8e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 09/93] fix: only count end-of-file markers that close a
 cross-reference section

---
 core/parse/incremental.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 8eb0980..ecee9b5 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -480,9 +480,10 @@ func (p *incrementalParser) mergeSections() {
 
 // FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF.
 // Only markers that follow "startxref <offset>" count; the same characters may
-// also occur in strings, comments and stream data.
+// also occur in strings, comments and stream data. In a damaged file without
+// any such marker, all of them count.
 func FindAllEOFMarkers(pdfBytes []byte) []int {
-	var offsets []int
+	var offsets, candidates []int
 	pattern := []byte("%%EOF")
 
 	pos := 0
@@ -491,26 +492,38 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 		if idx == -1 {
 			break
 		}
-		if followsStartXRef(pdfBytes[:pos+idx]) {
+		candidates = append(candidates, pos+idx)
+		if followsStartXRef(pdfBytes, pos+idx) {
 			offsets = append(offsets, pos+idx)
 		}
 		pos = pos + idx + len(pattern)
 	}
 
+	if len(offsets) == 0 {
+		return candidates
+	}
 	return offsets
 }
 
-// followsStartXRef reports whether data ends with "startxref <offset>"
-func followsStartXRef(data []byte) bool {
-	trimmed := bytes.TrimRight(data, " \t\r\n")
+// followsStartXRef reports whether "startxref <offset>" precedes pos, with an
+// offset that lies before it and is that of a cross-reference section.
+func followsStartXRef(pdfBytes []byte, pos int) bool {
+	trimmed := bytes.TrimRight(pdfBytes[:pos], " \t\r\n")
 	number := bytes.TrimRight(trimmed, "0123456789")
-	if len(number) == len(trimmed) {
+	keyword := bytes.TrimRight(number, " \t\r\n")
+	if len(keyword) == len(number) || !bytes.HasSuffix(keyword, []byte("startxref")) {
 		return false
 	}
-	keyword := bytes.TrimRight(number, " \t\r\n")
-	return len(keyword) < len(number) && bytes.HasSuffix(keyword, []byte("startxref"))
+	offset, err := strconv.Atoi(string(trimmed[len(number):]))
+	if err != nil || offset >= len(keyword) {
+		return false
+	}
+	section := pdfBytes[offset:pos]
+	return bytes.HasPrefix(section, []byte("xref")) || xrefStreamHeader.Match(section)
 }
 
+var xrefStreamHeader = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj`)
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
 	return len(FindAllEOFMarkers(pdfBytes))
-- 
2.43.0


From e2c92ebef6deedc417f8ab3e8a47e55c1f43c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/93] fix: recognise cross-reference streams by their object
 header

---
 core/parse/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/parse/parser.go b/core/parse/parser.go
index b1ac70f..6b5da12 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -174,11 +174,10 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 
 	// Read from startxref position to determine type
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(5000, len(xrefSection))])
 
 	// Check if it's a cross-reference stream (PDF 1.5+)
-	// Cross-reference streams have /Type/XRef and /W[widths]
-	if strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
+	// Cross-reference streams are indirect objects
+	if xrefStreamHeader.Match(xrefSection) {
 		// Cross-reference stream - need to find the stream object and decompress it
 		return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
 	}
-- 
2.43.0


From 8a0ae1d03401bd3dde799602e0edac7f2f41897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 11/93] fix: reject ASCII85 groups that exceed 32 bits, skip
 NUL white space

---
 core/parse/filters.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/parse/filters.go b/core/parse/filters.go
index 46d3933..4f59258 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -48,7 +48,7 @@ func DecodeASCIIHex(data []byte) ([]byte, error) {
 
 	for _, b := range data {
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0 {
 			continue
 		}
 
@@ -108,7 +108,7 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 		b := data[i]
 
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0 {
 			continue
 		}
 
@@ -138,6 +138,9 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 
 		// Process complete tuple of 5 characters
 		if tupleIndex == 5 {
+			if ascii85Overflows(tuple) {
+				return nil, fmt.Errorf("ascii85 tuple out of range")
+			}
 			decoded := decodeASCII85Tuple(tuple[:], 5)
 			result.Write(decoded)
 			tupleIndex = 0
@@ -150,6 +153,12 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 		for i := tupleIndex; i < 5; i++ {
 			tuple[i] = 84 // 'u' - '!' = 84
 		}
+		// Only the digits present can make a tuple invalid, not the padding
+		digits := [5]byte{}
+		copy(digits[:], tuple[:tupleIndex])
+		if ascii85Overflows(digits) {
+			return nil, fmt.Errorf("ascii85 tuple out of range")
+		}
 		decoded := decodeASCII85Tuple(tuple[:], tupleIndex)
 		// Only write the actual bytes (not the padding)
 		bytesToWrite := tupleIndex - 1
@@ -161,6 +170,15 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 	return result.Bytes(), nil
 }
 
+// ascii85Overflows reports whether a tuple encodes more than 32 bits
+func ascii85Overflows(tuple [5]byte) bool {
+	var value uint64
+	for _, digit := range tuple {
+		value = value*85 + uint64(digit)
+	}
+	return value > 0xFFFFFFFF
+}
+
 // decodeASCII85Tuple decodes a 5-character ASCII85 tuple to 4 bytes
 func decodeASCII85Tuple(tuple []byte, count int) []byte {
 	// Calculate 32-bit value from base-85 digits
-- 
2.43.0


From 2e197f1039060f0a7fd29878e187e3e441d2f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 12/93] fix: write object streams with offsets relative to
 /First, repeatably

---
 core/write/object_stream.go | 37 +++++++++++++------------------------
 core/write/writer.go        | 19 ++++++++++++++++---
 core/write/xref_stream.go   |  9 +++++----
 3 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..cce552a 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -12,6 +13,7 @@ import (
 type objectStreamGroup struct {
 	objNums      []int
 	streamObjNum int
+	streamObj    *PDFObject
 }
 
 // createObjectStreams groups objects into object streams
@@ -20,7 +22,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	streamObjNum int
 	index        int
 }, []objectStreamGroup, error) {
-	if !w.useObjectStream {
+	if !w.useObjectStream || !w.useXRefStream {
 		return nil, nil, nil
 	}
 
@@ -31,11 +33,16 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		if obj.IsFree {
 			continue
 		}
+		// The encryption dictionary must stay readable without the key
+		if w.encryptRef == fmt.Sprintf("%d 0 R", objNum) {
+			continue
+		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
+	sort.Ints(eligibleObjs)
 
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
@@ -43,7 +50,6 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	// Create object stream
 	streamObjNum := w.nextObjNum
-	w.nextObjNum++
 
 	// Build header and collect object data
 	var headerBuilder strings.Builder
@@ -73,7 +79,6 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	for i := range objInfos {
 		objInfos[i].offset = currentOffset
 		// Offset is relative to start of object data (after header)
-		// We'll add header length later
 		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
 	}
 
@@ -87,25 +92,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	firstOffset := len(headerBytes) + 1 // +1 for space after header
 
 	// Build data section
 	var dataBuilder bytes.Buffer
@@ -148,8 +135,9 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		"/Length": len(compressedData),
 	}
 
-	// Create object stream object
-	w.objects[streamObjNum] = &PDFObject{
+	// Create object stream object (only part of the file being written, so that
+	// writing twice does not pile up object streams)
+	streamObj := &PDFObject{
 		Number:     streamObjNum,
 		Generation: 0,
 		Dict:       objStreamDict,
@@ -159,6 +147,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	group := objectStreamGroup{
 		objNums:      eligibleObjs,
 		streamObjNum: streamObjNum,
+		streamObj:    streamObj,
 	}
 
 	return objMap, []objectStreamGroup{group}, nil
diff --git a/core/write/writer.go b/core/write/writer.go
index 45119a0..ba3ce31 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -267,17 +267,27 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.Write([]byte{0x25, 0xE2, 0xE3, 0xCF, 0xD3, 0x0A}) // Binary marker
 
 	// Create object streams if enabled (before writing objects)
-	// This may add new object stream objects to w.objects
-	objStreamMap, _, err := w.createObjectStreams()
+	objStreamMap, objStreamGroups, err := w.createObjectStreams()
 	if err != nil {
 		return fmt.Errorf("failed to create object streams: %v", err)
 	}
+	endObjNum := w.nextObjNum // one past the highest object number written
+	objStreams := make(map[int]*PDFObject)
+	for _, group := range objStreamGroups {
+		objStreams[group.streamObjNum] = group.streamObj
+		if group.streamObjNum >= endObjNum {
+			endObjNum = group.streamObjNum + 1
+		}
+	}
 
 	// Collect and sort object numbers (after object streams are created)
 	var objNums []int
 	for num := range w.objects {
 		objNums = append(objNums, num)
 	}
+	for num := range objStreams {
+		objNums = append(objNums, num)
+	}
 	sort.Ints(objNums)
 
 	// Write objects and track positions
@@ -285,6 +295,9 @@ func (w *PDFWriter) Write(out io.Writer) error {
 
 	for _, objNum := range objNums {
 		obj := w.objects[objNum]
+		if streamObj, isObjStream := objStreams[objNum]; isObjStream {
+			obj = streamObj
+		}
 		if obj.IsFree {
 			continue
 		}
@@ -339,7 +352,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	// Write cross-reference (stream or table)
 	if w.useXRefStream {
 		// Write cross-reference stream
-		xrefPos, err = w.writeXRefStream(&buf, positions, objStreamMap)
+		xrefPos, err = w.writeXRefStream(&buf, positions, objStreamMap, endObjNum)
 		if err != nil {
 			return fmt.Errorf("failed to write xref stream: %v", err)
 		}
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index 043e71c..24ca65c 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -9,13 +9,14 @@ import (
 // writeXRefStream writes a cross-reference stream instead of a traditional xref table
 // Returns the position where the xref stream object starts
 // objStreamMap maps object numbers to (streamObjNum, index) for Type 2 entries
+// endObjNum is the first object number not used by any object written so far
 func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64, objStreamMap map[int]struct {
 	streamObjNum int
 	index        int
-}) (int64, error) {
+}, endObjNum int) (int64, error) {
 	// Reserve object number for xref stream
-	xrefStreamObjNum := w.nextObjNum
-	totalObjects := w.nextObjNum + 1 // Include the xref stream itself
+	xrefStreamObjNum := endObjNum
+	totalObjects := endObjNum + 1 // Include the xref stream itself
 
 	// Calculate field widths
 	// w1: type field (0 or 1, so 1 byte is enough)
@@ -73,7 +74,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	streamData = append(streamData, entry0...)
 
 	// Entries for each existing object
-	for i := 1; i < w.nextObjNum; i++ {
+	for i := 1; i < endObjNum; i++ {
 		entry := make([]byte, w1+w2+w3)
 
 		// Check if object is in an object stream (Type 2)
-- 
2.43.0


From 827c41db0027a4c7949c8deeb97f7e3d44d07db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 13/93] fix: write stream dictionaries without duplicate keys,
 nulls and reference-like strings correctly

---
 core/write/writer.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index ba3ce31..3431cd8 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -10,6 +10,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -96,12 +97,27 @@ func (w *PDFWriter) AddObject(content []byte) int {
 	return objNum
 }
 
+// streamDictionary copies the dictionary of a stream object, so that setting
+// /Length and /Filter neither changes the caller's dictionary nor writes a key
+// twice when the caller spelled it with a leading slash
+func streamDictionary(dict Dictionary) Dictionary {
+	result := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		result[strings.TrimPrefix(key, "/")] = value
+	}
+	return result
+}
+
 // AddStreamObject adds a stream object with dictionary and data
 func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool) int {
+	dict = streamDictionary(dict)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{}
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
@@ -137,7 +153,11 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
+	dict = streamDictionary(dict)
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{}
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
@@ -435,6 +455,9 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// referencePattern matches an indirect reference ("N G R")
+var referencePattern = regexp.MustCompile(`^\d+ \d+ R$`)
+
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
@@ -444,9 +467,13 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return strconv.FormatInt(v, 10)
 	case float64:
 		return strconv.FormatFloat(v, 'f', -1, 64)
+	case nil:
+		return "null"
+	case float32:
+		return strconv.FormatFloat(float64(v), 'f', -1, 32)
 	case string:
 		// If it looks like a name or reference, use as-is
-		if strings.HasPrefix(v, "/") || strings.HasSuffix(v, " R") {
+		if strings.HasPrefix(v, "/") || referencePattern.MatchString(v) {
 			return v
 		}
 		// If it's already escaped (contains \( or \)), use as-is
-- 
2.43.0


From 304c49b0fc1e034b2b963f9548f9253d6898bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 14/93] fix: keep bytes that are not UTF-8 when writing strings

---
 core/write/content.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..e66cee3 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,7 +324,9 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
+	// Byte by byte: strings carry character codes, not necessarily UTF-8
+	for i := 0; i < len(s); i++ {
+		c := s[i]
 		switch c {
 		case '(':
 			result.WriteString("\\(")
@@ -339,7 +341,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
-- 
2.43.0


From e6dffcbe13f97f6d6909f43fa19603f452402b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 15/93] fix: reuse the resource of a standard font already on
 the page

---
 core/write/page.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..8a99288 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -27,8 +27,9 @@ var (
 type PageBuilder struct {
 	writer      *PDFWriter
 	size        PageSize
-	fonts       map[string]int // font name -> object number
-	images      map[string]int // image name -> object number
+	fonts       map[string]int    // font name -> object number
+	standard    map[string]string // standard font -> resource name
+	images      map[string]int    // image name -> object number
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
@@ -37,11 +38,12 @@ type PageBuilder struct {
 // NewPageBuilder creates a new page builder
 func (w *PDFWriter) NewPageBuilder(size PageSize) *PageBuilder {
 	return &PageBuilder{
-		writer:  w,
-		size:    size,
-		fonts:   make(map[string]int),
-		images:  make(map[string]int),
-		content: NewContentStream(),
+		writer:   w,
+		size:     size,
+		fonts:    make(map[string]int),
+		standard: make(map[string]string),
+		images:   make(map[string]int),
+		content:  NewContentStream(),
 	}
 }
 
@@ -54,17 +56,19 @@ func (pb *PageBuilder) Content() *ContentStream {
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if name, ok := pb.standard[fontName]; ok {
+		return "/" + name
 	}
 
-	// Create font dictionary
+	// Create font dictionary under a resource name not in use yet
 	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
+	for i := len(pb.fonts) + 2; pb.fonts[resourceName] != 0; i++ {
+		resourceName = fmt.Sprintf("F%d", i)
+	}
 	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
+	pb.standard[fontName] = resourceName
 
 	return "/" + resourceName
 }
-- 
2.43.0


From 8c2b7cb66d8c5d4fe7fe186947045a6a75471ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 16/93] fix: page builder keeps fractional page sizes, a fixed
 resource order and a single catalog

---
 core/write/page.go | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 8a99288..32ddbd9 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -3,6 +3,8 @@ package write
 
 import (
 	"fmt"
+	"sort"
+	"strconv"
 
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
@@ -141,8 +143,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add fonts
 	if len(pb.fonts) > 0 {
 		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.fonts) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.fonts[name])
 		}
 		resources += ">>"
 	}
@@ -150,8 +152,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add images as XObjects
 	if len(pb.images) > 0 {
 		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.images) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.images[name])
 		}
 		resources += ">>"
 	}
@@ -159,13 +161,29 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, formatNumber(pb.size.Width), formatNumber(pb.size.Height), contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
 }
 
+// sortedNames returns the resource names in a fixed order, so that building the
+// same page twice gives the same bytes
+func sortedNames(resources map[string]int) []string {
+	names := make([]string, 0, len(resources))
+	for name := range resources {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
+// formatNumber formats a number without exponent or trailing zeros
+func formatNumber(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
+}
+
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
 	writer        *PDFWriter
@@ -213,13 +231,21 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	}
 	kids += "]"
 
+	if b.pagesObjNum == 0 {
+		// No page finalized yet: the (empty) page tree still needs a number
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
+
 	// Create/update Pages object
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
-	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-	b.writer.SetRoot(b.catalogObjNum)
+	// Create Catalog (once, however often the document is written)
+	if b.catalogObjNum == 0 {
+		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+		b.writer.SetRoot(b.catalogObjNum)
+	}
 
 	return b.writer.Bytes()
 }
-- 
2.43.0


From 7ce44ee57075d00219db66a495c8dec6ebdbe25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 17/93] fix: report a JPEG frame header cut before its
 component count

---
 core/write/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..10eefa4 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -188,7 +188,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
-- 
2.43.0


From 72b1dd0c171e138c2bd3fce54df79c77f2b83420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 18/93] fix: embed translucent images with unassociated color
 and every alpha format

---
 core/write/image.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index 10eefa4..d4c142b 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -90,6 +90,11 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	switch img.(type) {
 	case *image.NRGBA, *image.RGBA:
 		hasAlpha = true
+	default:
+		// Palettes and 16-bit images can be transparent too
+		if o, ok := img.(interface{ Opaque() bool }); ok {
+			hasAlpha = !o.Opaque()
+		}
 	}
 
 	// Convert to RGB or Gray
@@ -108,11 +113,12 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// The soft mask carries the alpha, so colors are not premultiplied
+				c := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = c.R
+				rawData[idx+1] = c.G
+				rawData[idx+2] = c.B
 			}
 		}
 	}
-- 
2.43.0


From 8f2cd5104d28eb4d65276aba3c6811726a5ba9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 19/93] fix: sign of time zones less than an hour behind UTC

---
 core/write/metadata.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..7753d4c 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -162,16 +162,15 @@ func formatPDFDate(dateStr string) string {
 
 	// Get timezone offset
 	_, offset := t.Zone()
+	sign := "+"
+	if offset < 0 {
+		sign, offset = "-", -offset
+	}
 	offsetHours := offset / 3600
 	offsetMins := (offset % 3600) / 60
 
 	// Format timezone
-	var tzStr string
-	if offsetHours >= 0 {
-		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
-	} else {
-		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
-	}
+	tzStr := fmt.Sprintf("%s%02d'%02d", sign, offsetHours, offsetMins)
 
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
-- 
2.43.0


From 8f741ef0af8cd775c4be0fb493c925b2487d76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 20/93] fix: bookmarks keep the catalog, their parents, plain
 titles and real destinations

---
 core/write/bookmarks.go | 14 ++++++---
 core/write/writer.go    | 70 ++++++++++-------------------------------
 2 files changed, 26 insertions(+), 58 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..879fbf6 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -16,8 +16,12 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		return 0, nil // No bookmarks
 	}
 
+	// Reserve the Outlines dictionary's number: top-level items name it as parent
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++
+
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +34,7 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.SetObject(outlinesObjNum, w.formatDictionary(outlinesDict))
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -69,7 +73,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.URI))),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,11 +97,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.Title))),
 		}
 
 		if dest != "" {
-			itemDict["/Dest"] = dest
+			itemDict["/Dest"] = rawValue(dest)
 		}
 		if actionRef != "" {
 			itemDict["/A"] = actionRef
diff --git a/core/write/writer.go b/core/write/writer.go
index 3431cd8..2747fe5 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -209,64 +209,23 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
+	// Point /Outlines at the outline, keeping all other catalog entries
 	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
+		catalogObj.Dict["/Outlines"] = rawValue(w.outlinesRef)
+		catalogObj.Content = w.formatDictionary(catalogObj.Dict)
+		return
+	}
+	catalogStr := string(catalogObj.Content)
+	if outlinesPattern.MatchString(catalogStr) {
+		catalogStr = outlinesPattern.ReplaceAllLiteralString(catalogStr, "/Outlines "+w.outlinesRef)
 	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
+		catalogStr = addDictEntry(catalogStr, " /Outlines", w.outlinesRef)
 	}
-
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
+	catalogObj.Content = []byte(catalogStr)
 }
 
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
-}
+// outlinesPattern matches the /Outlines entry of a catalog
+var outlinesPattern = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R`)
 
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
@@ -455,6 +414,9 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// rawValue is a value that is already in PDF syntax
+type rawValue string
+
 // referencePattern matches an indirect reference ("N G R")
 var referencePattern = regexp.MustCompile(`^\d+ \d+ R$`)
 
@@ -471,6 +433,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "null"
 	case float32:
 		return strconv.FormatFloat(float64(v), 'f', -1, 32)
+	case rawValue:
+		return string(v)
 	case string:
 		// If it looks like a name or reference, use as-is
 		if strings.HasPrefix(v, "/") || referencePattern.MatchString(v) {
-- 
2.43.0


From 1103db64a18fa5398b3a02f7249ab653eb08f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 21/93] fix: metadata values and keys survive whatever
 characters they contain

---
 core/write/metadata.go | 26 ++++++++++++++++----------
 core/write/writer.go   | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index 7753d4c..7ef732f 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -19,33 +19,33 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = metadataString(escapePDFStringForMetadata(metadata.Title))
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = metadataString(escapePDFStringForMetadata(metadata.Author))
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = metadataString(escapePDFStringForMetadata(metadata.Subject))
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = metadataString(escapePDFStringForMetadata(metadata.Keywords))
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = metadataString(escapePDFStringForMetadata(metadata.Creator))
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = metadataString(escapePDFStringForMetadata(metadata.Producer))
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = metadataString(formatPDFDate(metadata.CreationDate))
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = metadataString(formatPDFDate(metadata.ModDate))
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = metadataString(formatPDFDate(time.Now().Format(time.RFC3339)))
 	}
 
 	// Add custom fields
@@ -55,7 +55,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = escapePDFStringForMetadata(value)
+			dict[key] = metadataString(escapePDFStringForMetadata(value))
 		}
 	}
 
@@ -100,6 +100,12 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 	return w.SetMetadata(metadata)
 }
 
+// metadataString makes a string object of escaped content, whatever the content
+// looks like (a value such as "/home" or "Vitamin 1 2 R" is still a string)
+func metadataString(escaped string) rawValue {
+	return rawValue("(" + escaped + ")")
+}
+
 // escapePDFStringForMetadata escapes a string for use in PDF metadata (returns content without parentheses)
 func escapePDFStringForMetadata(s string) string {
 	// PDF strings use parentheses and need escaping
diff --git a/core/write/writer.go b/core/write/writer.go
index 2747fe5..96e7bb1 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -404,7 +404,7 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 		if !strings.HasPrefix(key, "/") {
 			key = "/" + key
 		}
-		buf.WriteString(key)
+		buf.WriteString(formatKey(key))
 		buf.WriteString(" ")
 		buf.WriteString(w.formatValue(value))
 		buf.WriteString(" ")
@@ -414,6 +414,21 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// formatKey writes a dictionary key (with its leading slash) as a name,
+// escaping characters that would end it
+func formatKey(key string) string {
+	var buf strings.Builder
+	buf.WriteByte('/')
+	for i := 1; i < len(key); i++ {
+		if c := key[i]; c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}/%", c) >= 0 {
+			fmt.Fprintf(&buf, "#%02X", c)
+		} else {
+			buf.WriteByte(c)
+		}
+	}
+	return buf.String()
+}
+
 // rawValue is a value that is already in PDF syntax
 type rawValue string
 
-- 
2.43.0


From 231c97a7a18c30a8d1951d7e4378de752752eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 22/93] fix: watermarks draw named images, apply defaults and
 leave the page alone on error

---
 core/write/watermark.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..1d2a79a 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -3,6 +3,7 @@ package write
 import (
 	"fmt"
 	"math"
+	"strings"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -41,6 +42,29 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	// Check the options before touching the page
+	imageName := strings.TrimPrefix(options.ImageName, "/")
+	if imageName != "" {
+		if _, exists := pb.images[imageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
+	}
+
+	// Unset font and color mean the defaults
+	resolved := *options
+	options = &resolved
+	if options.FontName == "" {
+		options.FontName = DefaultWatermarkOptions().FontName
+	}
+	if options.FontSize == 0 {
+		options.FontSize = DefaultWatermarkOptions().FontSize
+	}
+	if options.Color == nil {
+		options.Color = DefaultWatermarkOptions().Color
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
@@ -80,26 +104,17 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		)
 	}
 
-	if options.ImageName != "" {
+	if imageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
 		// Image will be drawn at current position (0,0 after translate/rotate)
 		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage("/" + imageName)
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
 		fontName := pb.AddStandardFont(options.FontName)
 
-- 
2.43.0


From ee6d0da6d78a6186146ae5eef509ccdb5d0b2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 23/93] fix: write the ToUnicode CMap's CIDSystemInfo as a
 dictionary

---
 core/write/writer.go  | 2 ++
 resources/font/pdf.go | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 96e7bb1..e030eb2 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -469,6 +469,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(v))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..d42f528 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -69,8 +69,8 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
 		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
+			"/Registry":   "Adobe",
+			"/Ordering":   "UCS",
 			"/Supplement": 0,
 		},
 	}
-- 
2.43.0


From 3267fec42d99f4dea713af05acbd45fc2b5b0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 24/93] fix: decrypt documents as the standard security handler
 specifies

Parse the encryption dictionary and file ID lexically, pad passwords with the
standard padding, undo all 20 rounds of the owner value, verify AES-256
passwords with the salted hashes and CBC-wrapped keys of the specification, use
the file key directly for AES-256, and decrypt only strings and streams,
honouring crypt filters and EncryptMetadata.
---
 core/encrypt/aes256.go         | 104 +++++++++
 core/encrypt/decrypt.go        | 366 +++++++++++++++++-------------
 core/encrypt/key_derivation.go | 209 +++++++----------
 core/encrypt/parser.go         | 388 +++++++++++++-------------------
 core/parse/api.go              |   8 +-
 core/parse/document_parser.go  |   4 +-
 core/parse/get_object.go       |  68 +++---
 core/parse/incremental.go      |  10 +-
 core/parse/lexer.go            | 163 +-------------
 core/parse/object_stream.go    |   2 +-
 internal/syntax/syntax.go      | 394 +++++++++++++++++++++++++++++++++
 types/types.go                 |   3 +
 12 files changed, 1003 insertions(+), 716 deletions(-)
 create mode 100644 core/encrypt/aes256.go
 create mode 100644 internal/syntax/syntax.go

diff --git a/core/encrypt/aes256.go b/core/encrypt/aes256.go
new file mode 100644
index 0000000..13ea11d
--- /dev/null
+++ b/core/encrypt/aes256.go
@@ -0,0 +1,104 @@
+package encrypt
+
+import (
+	"bytes"
+	"crypto/aes"
+	"crypto/cipher"
+	"crypto/sha256"
+	"crypto/sha512"
+
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// maxPasswordV5 is the number of password bytes used by AES-256 encryption
+const maxPasswordV5 = 127
+
+// HashV5 computes the hash of a password for AES-256 encryption: SHA-256 for
+// revision 5, Algorithm 2.B of ISO 32000-2 for revision 6. userKey is the U
+// value (48 bytes) when hashing an owner password, nil otherwise.
+func HashV5(password, salt, userKey []byte, revision int) []byte {
+	if len(password) > maxPasswordV5 {
+		password = password[:maxPasswordV5]
+	}
+
+	h := sha256.New()
+	h.Write(password)
+	h.Write(salt)
+	h.Write(userKey)
+	k := h.Sum(nil)
+	if revision < 6 {
+		return k
+	}
+
+	for round := 0; ; round++ {
+		var unit []byte
+		unit = append(unit, password...)
+		unit = append(unit, k...)
+		unit = append(unit, userKey...)
+		e := bytes.Repeat(unit, 64)
+
+		block, err := aes.NewCipher(k[:16])
+		if err != nil {
+			panic(err) // not possible with a 16 byte key
+		}
+		cipher.NewCBCEncrypter(block, k[16:32]).CryptBlocks(e, e)
+
+		// The first 16 bytes as a big-endian number modulo 3 (256 mod 3 is 1)
+		sum := 0
+		for _, b := range e[:16] {
+			sum += int(b)
+		}
+		switch sum % 3 {
+		case 0:
+			hash := sha256.Sum256(e)
+			k = hash[:]
+		case 1:
+			hash := sha512.Sum384(e)
+			k = hash[:]
+		default:
+			hash := sha512.Sum512(e)
+			k = hash[:]
+		}
+
+		if round >= 63 && int(e[len(e)-1]) <= round-32 {
+			return k[:32]
+		}
+	}
+}
+
+// authenticateV5 checks a user or owner password of an AES-256 encrypted file
+// and returns the file encryption key, or nil if the password is wrong
+// (Algorithm 2.A of ISO 32000-2)
+func authenticateV5(password []byte, encrypt *types.PDFEncryption) ([]byte, error) {
+	if len(encrypt.U) < 48 {
+		return nil, types.NewPDFErrorf(types.ErrCodeInvalidObject, "U value too short for V5: %d bytes (expected at least 48)", len(encrypt.U))
+	}
+
+	// U and O: hash (32 bytes), validation salt (8), key salt (8)
+	u := encrypt.U[:48]
+	if bytes.Equal(HashV5(password, u[32:40], nil, encrypt.R), u[:32]) {
+		return unwrapFileKeyV5(HashV5(password, u[40:48], nil, encrypt.R), encrypt.UE)
+	}
+	if len(encrypt.O) >= 48 {
+		o := encrypt.O[:48]
+		if bytes.Equal(HashV5(password, o[32:40], u, encrypt.R), o[:32]) {
+			return unwrapFileKeyV5(HashV5(password, o[40:48], u, encrypt.R), encrypt.OE)
+		}
+	}
+	return nil, nil
+}
+
+// unwrapFileKeyV5 decrypts the file encryption key stored in /UE or /OE
+// (AES-256 in CBC mode with a zero initialization vector and no padding)
+func unwrapFileKeyV5(key, wrapped []byte) ([]byte, error) {
+	if len(wrapped) < 32 {
+		return nil, types.NewPDFErrorf(types.ErrCodeInvalidObject, "encrypted file key too short: %d bytes (expected 32)", len(wrapped))
+	}
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	fileKey := make([]byte, 32)
+	cipher.NewCBCDecrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(fileKey, wrapped[:32])
+	return fileKey, nil
+}
diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..5627a5c 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -5,9 +5,11 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/md5"
+	"crypto/rand"
 	"crypto/rc4"
 	"log"
 
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -31,68 +33,20 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	// For V5/R5/R6, we need to unwrap the encryption key from /UE
 	var encryptKey []byte
 
-	if encrypt.R >= 5 {
-		// V5: Derive password key, verify U value, then unwrap actual encryption key from /UE
-		passwordKey, err := DeriveEncryptionKey(password, encrypt, fileID, verbose)
-		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
-		}
-
-		if verbose {
-			log.Printf("Derived password key (length: %d) for V5", len(passwordKey))
-		}
+	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
+		return nil, nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported security handler %s", encrypt.Filter)
+	}
 
-		// Step 1: Verify U value to confirm password is correct
-		uMatch, err := VerifyUValueV5(password, passwordKey, encrypt, fileID, verbose)
+	if encrypt.R >= 5 {
+		// V5: verify the password and unwrap the file key from /UE or /OE
+		encryptKey, err = authenticateV5(password, encrypt)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error verifying U value", err)
-		}
-
-		if !uMatch {
-			// Try owner password approach
-			if verbose {
-				log.Printf("User password U value verification failed, trying owner password...")
-			}
-			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
-			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
-				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
-				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
-					// The unwrapped owner key is the user encryption key
-					encryptKey = ownerKey
-					encrypt.EncryptKey = encryptKey
-					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
-						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
-					}
-					uMatch = true
-				}
-			}
-		}
-
-		if !uMatch {
-			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error verifying password", err)
 		}
-
-		// Step 2: Unwrap the actual encryption key from /UE (only if user password was used)
 		if encryptKey == nil {
-			unwrappedKey, err := UnwrapUserKeyV5(passwordKey, encrypt, verbose)
-			if err != nil {
-				return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /UE", err)
-			}
-
-			encryptKey = unwrappedKey
-			encrypt.EncryptKey = encryptKey
-			if verbose {
-				log.Printf("Unwrapped encryption key from /UE (length: %d)", len(encryptKey))
-			}
-		}
-
-		if verbose {
-			log.Printf("V5: Password verified and encryption key unwrapped successfully")
+			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
 		}
+		encrypt.EncryptKey = encryptKey
 	} else {
 		// V1-V4: Standard key derivation
 		encryptKey, err = DeriveEncryptionKey(password, encrypt, fileID, verbose)
@@ -113,18 +67,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		// Compare with stored U value
-		// For revision 2: compare first 16 bytes
-		// For revision 3-4: compare first 16 bytes (the encrypted hash)
-		// Note: U value is 32 bytes for revision 3-4, but only first 16 are used for verification
-		uMatch := false
-		if len(encrypt.U) >= 16 && len(uValue) >= 16 {
-			if encrypt.R == 2 {
-				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
-			} else {
-				// For revision 3-4, compare first 16 bytes
-				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
-			}
-		}
+		uMatch := uValueMatches(uValue, encrypt)
 
 		if verbose {
 			if uMatch {
@@ -148,14 +91,12 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				userKey, err := DeriveUserKeyFromOwner(ownerKey, encrypt, verbose)
 				if err == nil {
 					uValue2, err := ComputeUValue(userKey, encrypt, fileID, verbose)
-					if err == nil && len(uValue2) >= 16 && len(encrypt.U) >= 16 {
-						if bytes.Equal(uValue2[:16], encrypt.U[:16]) {
-							if verbose {
-								log.Printf("Owner password verified! Using owner-derived user key")
-							}
-							encrypt.EncryptKey = userKey
-							uMatch = true
+					if err == nil && uValueMatches(uValue2, encrypt) {
+						if verbose {
+							log.Printf("Owner password verified! Using owner-derived user key")
 						}
+						encrypt.EncryptKey = userKey
+						uMatch = true
 					}
 				}
 			}
@@ -179,6 +120,16 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	return decryptedPDF, encrypt, nil
 }
 
+// uValueMatches compares a computed U value with the stored one: all 32 bytes
+// for revision 2, the first 16 bytes (the rest is arbitrary) for revision 3-4
+func uValueMatches(uValue []byte, encrypt *types.PDFEncryption) bool {
+	n := 16
+	if encrypt.R == 2 {
+		n = 32
+	}
+	return len(uValue) >= n && len(encrypt.U) >= n && bytes.Equal(uValue[:n], encrypt.U[:n])
+}
+
 // DecryptPDFObjects decrypts all encrypted objects in the PDF
 // This is a simplified version - full implementation would parse xref table
 // and decrypt objects individually
@@ -195,110 +146,219 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 	return pdfBytes, nil
 }
 
-// DecryptObject decrypts a single PDF object or stream
+// encryptionMethod returns the algorithm used for streams or strings: "V2"
+// (RC4), "AESV2", "AESV3" or "Identity" (not encrypted)
+func encryptionMethod(encrypt *types.PDFEncryption, forString bool) string {
+	method := encrypt.StreamFilter
+	if forString {
+		method = encrypt.StringFilter
+	}
+	switch {
+	case encrypt.V < 4:
+		return "V2"
+	case method == "None":
+		return "Identity"
+	case method != "":
+		return method
+	case encrypt.V == 5:
+		return "AESV3"
+	}
+	return "AESV2"
+}
+
+// objectKey derives the key for the strings and streams of an object
+// (Algorithm 1 from ISO 32000-1:2008; Algorithm 1.A for AES-256)
+func objectKey(objNum, genNum int, encrypt *types.PDFEncryption, method string) []byte {
+	if method == "AESV3" {
+		return encrypt.EncryptKey
+	}
+
+	n := len(encrypt.EncryptKey)
+	if encrypt.V == 1 {
+		n = min(n, 5)
+	} else if encrypt.KeyLength > 0 {
+		n = min(n, encrypt.KeyLength)
+	}
+	hash := md5.New()
+	hash.Write(encrypt.EncryptKey[:n])
+	hash.Write([]byte{
+		byte(objNum), byte(objNum >> 8), byte(objNum >> 16),
+		byte(genNum), byte(genNum >> 8),
+	})
+	if method == "AESV2" {
+		hash.Write([]byte("sAlT"))
+	}
+	return hash.Sum(nil)[:min(n+5, 16)]
+}
+
+// DecryptObject decrypts the data of a stream
 // Algorithm 1 from ISO 32000-1:2008
-// Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
-		// Not encrypted
+	if encrypt == nil {
 		return objBytes, nil
 	}
+	return decryptData(objBytes, objNum, genNum, encrypt, encryptionMethod(encrypt, false))
+}
 
-	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
-	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
-	// [:3] takes first 3 bytes (low-order bytes)
-	pack1 := make([]byte, 3)
-	pack1[0] = byte(objNum & 0xff)
-	pack1[1] = byte((objNum >> 8) & 0xff)
-	pack1[2] = byte((objNum >> 16) & 0xff)
-
-	// PyPDF line 915: pack2 = struct.pack("<i", generation)[:2]
-	pack2 := make([]byte, 2)
-	pack2[0] = byte(genNum & 0xff)
-	pack2[1] = byte((genNum >> 8) & 0xff)
-
-	// PyPDF line 919: n = 5 if self.V == 1 else self.Length // 8
-	n := 5
-	if encrypt.V > 1 {
-		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
+func decryptData(data []byte, objNum, genNum int, encrypt *types.PDFEncryption, method string) ([]byte, error) {
+	if len(encrypt.EncryptKey) == 0 || method == "Identity" {
+		// Not encrypted
+		return data, nil
 	}
+	key := objectKey(objNum, genNum, encrypt, method)
 
-	// PyPDF line 918: key = self._key
-	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
-	keyData := make([]byte, n+5)
-	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	// PyPDF line 921: key_hash = hashlib.md5(key_data)
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
-		// RC4 encryption
-		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
-		rc4KeyHash := keyHash.Sum(nil)
-		rc4Key := rc4KeyHash[:min(n+5, 16)]
-
-		cipher, err := rc4.NewCipher(rc4Key)
+	switch method {
+	case "V2":
+		cipher, err := rc4.NewCipher(key)
 		if err != nil {
 			return nil, err
 		}
-		decrypted := make([]byte, len(objBytes))
-		cipher.XORKeyStream(decrypted, objBytes)
+		decrypted := make([]byte, len(data))
+		cipher.XORKeyStream(decrypted, data)
 		return decrypted, nil
-	} else if encrypt.V == 4 || encrypt.V == 5 {
-		// AES encryption (AES-128 or AES-256)
-		// PyPDF line 925: key_hash.update(b"sAlT")
-		// PyPDF line 926: aes128_key = key_hash.digest()[: min(n + 5, 16)]
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// PyPDF CryptAES.decrypt (lines 73-88):
-		// Line 74: iv = data[:16]
-		// Line 75: data = data[16:]
-		if len(objBytes) < 16 {
-			return objBytes, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(objBytes)).WithContext("length", len(objBytes))
-		}
-
-		iv := objBytes[:16]
-		data := objBytes[16:]
 
-		// Line 77-78: if not data: return data
+	case "AESV2", "AESV3":
 		if len(data) == 0 {
 			return data, nil
 		}
-
-		// Line 81-83: if len(data) % 16 != 0: pad it (robustness check)
-		if len(data)%16 != 0 {
+		// Initialization vector followed by the padded data
+		if len(data) < aes.BlockSize {
+			return data, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(data)).WithContext("length", len(data))
+		}
+		iv, data := data[:aes.BlockSize], data[aes.BlockSize:]
+		if len(data) == 0 {
+			return data, nil
+		}
+		if len(data)%aes.BlockSize != 0 {
 			return data, types.NewPDFErrorf(types.ErrCodeStreamError, "AES buffer length not multiple of 16 (%d)", len(data)).WithContext("length", len(data))
 		}
 
-		// Line 85-87: cipher = Cipher(self.alg, CBC(iv)); decryptor = cipher.decryptor(); d = decryptor.update(data) + decryptor.finalize()
-		block, err := aes.NewCipher(aesKey)
+		block, err := aes.NewCipher(key)
 		if err != nil {
 			return nil, err
 		}
-
-		mode := cipher.NewCBCDecrypter(block, iv)
 		decrypted := make([]byte, len(data))
-		mode.CryptBlocks(decrypted, data)
+		cipher.NewCBCDecrypter(block, iv).CryptBlocks(decrypted, data)
 
-		// Line 88: return d[: -d[-1]]  (remove PKCS#7 padding)
-		if len(decrypted) == 0 {
-			return decrypted, nil
+		// Remove PKCS#7 padding
+		paddingLen := int(decrypted[len(decrypted)-1])
+		if paddingLen < 1 || paddingLen > aes.BlockSize {
+			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d", paddingLen).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
 		}
+		return decrypted[:len(decrypted)-paddingLen], nil
+	}
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption method %s", method)
+}
 
-		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
+// streamMethod returns the algorithm used for the data of the stream with the
+// given dictionary
+func streamMethod(dict []byte, encrypt *types.PDFEncryption) string {
+	switch syntax.LookupName(dict, "Type") {
+	case "XRef":
+		return "Identity"
+	case "Metadata":
+		if encrypt.V >= 4 && !encrypt.EncryptMetadata {
+			return "Identity"
+		}
+	}
+	// A Crypt filter without parameters, or naming Identity, leaves the stream
+	// unencrypted
+	filter := syntax.Lookup(dict, "Filter")
+	parms := syntax.Lookup(dict, "DecodeParms")
+	if len(filter) > 0 && filter[0] == '[' {
+		filter = filter[1:]
+		filter = filter[syntax.SkipSpace(filter, 0):]
+		if len(filter) > 0 {
+			filter = filter[:syntax.SkipToken(filter, 0)]
+		}
+		if len(parms) > 0 && parms[0] == '[' {
+			parms = parms[1:]
+		}
+	}
+	if len(filter) > 0 && syntax.DecodeName(filter) == "Crypt" {
+		if name := syntax.LookupName(parms, "Name"); name == "" || name == "Identity" {
+			return "Identity"
 		}
+	}
+	return encryptionMethod(encrypt, false)
+}
 
-		return decrypted[:len(decrypted)-paddingLen], nil
+// DecryptStream decrypts the data of the stream with the given dictionary
+func DecryptStream(dict, data []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	if encrypt == nil {
+		return data, nil
+	}
+	return decryptData(data, objNum, genNum, encrypt, streamMethod(dict, encrypt))
+}
+
+// DecryptStrings returns content, the value of an object or a stream dictionary
+// in PDF syntax, with all strings decrypted. Strings that cannot be decrypted
+// are kept.
+func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryption) []byte {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 || (encrypt.ObjNum != 0 && encrypt.ObjNum == objNum) {
+		return content
+	}
+	method := encryptionMethod(encrypt, true)
+	if method == "Identity" || syntax.LookupName(content, "Type") == "XRef" {
+		return content
 	}
+	result, _ := syntax.MapStrings(content, func(value []byte) ([]byte, error) {
+		if decrypted, err := decryptData(value, objNum, genNum, encrypt, method); err == nil {
+			return decrypted, nil
+		}
+		return value, nil
+	})
+	return result
+}
+
+// EncryptStream encrypts the data of the stream with the given dictionary, the
+// inverse of DecryptStream
+func EncryptStream(dict, data []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	return encryptData(data, objNum, genNum, encrypt, streamMethod(dict, encrypt))
+}
 
-	return objBytes, nil
+// EncryptStrings returns content, the value of an object or a stream dictionary
+// in PDF syntax, with all strings encrypted, the inverse of DecryptStrings
+func EncryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	method := encryptionMethod(encrypt, true)
+	if method == "Identity" {
+		return content, nil
+	}
+	return syntax.MapStrings(content, func(value []byte) ([]byte, error) {
+		return encryptData(value, objNum, genNum, encrypt, method)
+	})
+}
+
+func encryptData(data []byte, objNum, genNum int, encrypt *types.PDFEncryption, method string) ([]byte, error) {
+	if method == "Identity" {
+		return data, nil
+	}
+	if len(encrypt.EncryptKey) == 0 {
+		return nil, types.NewPDFError(types.ErrCodeEncrypted, "no encryption key")
+	}
+	key := objectKey(objNum, genNum, encrypt, method)
+
+	switch method {
+	case "V2":
+		// RC4 is its own inverse
+		return decryptData(data, objNum, genNum, encrypt, method)
+
+	case "AESV2", "AESV3":
+		block, err := aes.NewCipher(key)
+		if err != nil {
+			return nil, err
+		}
+		// Random initialization vector, data, PKCS#7 padding
+		paddingLen := aes.BlockSize - len(data)%aes.BlockSize
+		result := make([]byte, aes.BlockSize, aes.BlockSize+len(data)+paddingLen)
+		if _, err := rand.Read(result); err != nil {
+			return nil, err
+		}
+		result = append(result, data...)
+		result = append(result, bytes.Repeat([]byte{byte(paddingLen)}, paddingLen)...)
+		iv, body := result[:aes.BlockSize], result[aes.BlockSize:]
+		cipher.NewCBCEncrypter(block, iv).CryptBlocks(body, body)
+		return result, nil
+	}
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption method %s", method)
 }
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..7d7f4ff 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -13,6 +13,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -23,35 +24,18 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
-	// - For empty password, the padding string itself is used
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
+	n, err := fileKeyLength(encrypt)
+	if err != nil {
+		return nil, err
 	}
 
+	// Pad or truncate password to 32 bytes
+	paddedPassword := padPassword(password)
+
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
 	hash.Write(paddedPassword)
-	hash.Write(encrypt.O)
+	hash.Write(encrypt.O[:min(32, len(encrypt.O))])
 
 	// P as 32-bit unsigned integer, little-endian
 	pBytes := make([]byte, 4)
@@ -71,8 +55,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF (revision 4)
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
@@ -86,17 +70,42 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(key[:encrypt.KeyLength])
+			hash.Write(key[:n])
 			key = hash.Sum(nil)
 		}
 	}
 
-	// Truncate to key length
-	if len(key) > encrypt.KeyLength {
-		key = key[:encrypt.KeyLength]
-	}
+	return key[:n], nil
+}
 
-	return key, nil
+// passwordPadding completes passwords to 32 bytes (Algorithm 2, step a)
+var passwordPadding = []byte{
+	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
+	0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
+	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
+	0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+}
+
+// padPassword pads or truncates a password to 32 bytes
+func padPassword(password []byte) []byte {
+	padded := make([]byte, 32)
+	n := copy(padded, password)
+	copy(padded[n:], passwordPadding)
+	return padded
+}
+
+// fileKeyLength returns the length in bytes of the file encryption key (V1-V4)
+func fileKeyLength(encrypt *types.PDFEncryption) (int, error) {
+	if encrypt.R == 2 {
+		return 5, nil
+	}
+	if encrypt.KeyLength == 0 && encrypt.R == 4 {
+		return 16, nil
+	}
+	if encrypt.KeyLength < 5 || encrypt.KeyLength > md5.Size {
+		return 0, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
+	return encrypt.KeyLength, nil
 }
 
 // ComputeUValue computes the U value for password verification
@@ -105,12 +114,7 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) ([]byte, error) {
 	if encrypt.R == 2 {
 		// Revision 2: RC4 encrypt padding string
-		padding := []byte{
-			0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-			0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-			0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-			0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-		}
+		padding := passwordPadding
 
 		cipher, err := rc4.NewCipher(encryptKey)
 		if err != nil {
@@ -123,12 +127,7 @@ func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byt
 	} else if encrypt.R >= 3 && encrypt.R < 5 {
 		// Revision 3-4: MD5 hash of padding + file ID, then RC4 encrypt
 		// Algorithm 5 from ISO 32000-1:2008
-		padding := []byte{
-			0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-			0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-			0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-			0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-		}
+		padding := passwordPadding
 
 		hash := md5.New()
 		hash.Write(padding)
@@ -201,66 +200,41 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
-	// Pad owner password to 32 bytes
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
+	n, err := fileKeyLength(encrypt)
+	if err != nil {
+		return nil, err
 	}
 
-	// MD5 hash of padded owner password
-	hash := md5.New()
-	hash.Write(paddedOwnerPassword)
-	ownerHash := hash.Sum(nil)
-
-	// For revision 3+, iterate 50 times
+	// MD5 hash of padded owner password, for revision 3+ hashed 50 times more
+	hash := md5.Sum(padPassword(ownerPassword))
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
-			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
-			ownerHash = hash.Sum(nil)
+			hash = md5.Sum(hash[:])
 		}
 	}
+	ownerKey := hash[:n]
 
-	// Truncate to key length
-	if len(ownerHash) > encrypt.KeyLength {
-		ownerHash = ownerHash[:encrypt.KeyLength]
+	// Decrypt O with the owner key: once for revision 2, otherwise with the 20
+	// keys obtained by XORing the owner key with 19 down to 0 (Algorithm 7)
+	decryptedO := make([]byte, min(32, len(encrypt.O)))
+	copy(decryptedO, encrypt.O)
+	rounds := 1
+	if encrypt.R >= 3 {
+		rounds = 20
 	}
-
-	// Decrypt O value using owner key
-	// O value is encrypted with RC4 using owner key
-	decryptedO := make([]byte, len(encrypt.O))
-	if encrypt.R == 2 {
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+	for i := rounds - 1; i >= 0; i-- {
+		roundKey := make([]byte, n)
+		for j := range roundKey {
+			roundKey[j] = ownerKey[j] ^ byte(i)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O)
-	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
+		cipher, err := rc4.NewCipher(roundKey)
 		if err != nil {
 			return nil, err
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
+		cipher.XORKeyStream(decryptedO, decryptedO)
 	}
 
-	// Now derive user key from decrypted O (which is the user password hash)
-	// Use decrypted O as if it were the user password
+	// The decrypted O is the padded user password
 	return DeriveEncryptionKey(decryptedO, encrypt, fileID, verbose)
 }
 
@@ -277,52 +251,20 @@ func DeriveUserKeyFromOwner(ownerKey []byte, encrypt *types.PDFEncryption, verbo
 // Returns the first element of the ID array (ID[0])
 // File ID can be in hex format: <7FB157EB...> or binary: (binary data)
 func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
-	pdfStr := string(pdfBytes)
-
-	// Find /ID in trailer - format: /ID [ <hex1> <hex2> ] or /ID [ (binary1) (binary2) ]
-	// Try hex format first: /ID[<hex><hex>] or /ID [<hex><hex>]
-	hexIDPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	hexMatch := hexIDPattern.FindStringSubmatch(pdfStr)
-	if hexMatch != nil {
-		// Decode hex string
-		hexStr := hexMatch[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
+	value := syntax.Lookup(findTrailer(pdfBytes), "ID")
+	if value == nil {
+		// No (complete) trailer: take the first /ID with an array of strings
+		if match := fileIDPattern.FindIndex(pdfBytes); match != nil {
+			value = pdfBytes[match[1]-1:]
 		}
 	}
 
-	// Try alternative pattern without space: /ID[<hex>
-	hexIDPattern2 := regexp.MustCompile(`/ID\[<([0-9A-Fa-f]+)>`)
-	hexMatch2 := hexIDPattern2.FindStringSubmatch(pdfStr)
-	if hexMatch2 != nil {
-		hexStr := hexMatch2[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex, alt pattern): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
-		}
-	}
-
-	// Try binary format: /ID [ (binary1) (binary2) ]
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*\(`)
-	match := idPattern.FindStringIndex(pdfStr)
-	if match != nil {
-		// Find the first binary string in parentheses
-		idStart := match[1] - 1 // Position of '('
-		parenStart := bytes.Index(pdfBytes[idStart:], []byte("("))
-		if parenStart != -1 {
-			parenStart += idStart + 1
-			parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-			if parenEnd != -1 {
-				fileID := pdfBytes[parenStart : parenStart+parenEnd]
+	if len(value) > 0 && value[0] == '[' {
+		if pos := syntax.SkipSpace(value, 1); pos < len(value) {
+			if tok := value[pos:syntax.SkipToken(value, pos)]; syntax.IsString(tok) {
+				fileID := syntax.DecodeString(tok)
 				if verbose {
-					log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
+					log.Printf("Extracted file ID[0]: %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 				}
 				return fileID
 			}
@@ -337,6 +279,9 @@ func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
 	return []byte{}
 }
 
+// fileIDPattern matches an /ID entry up to the bracket of its array
+var fileIDPattern = regexp.MustCompile(`/ID\s*\[`)
+
 // parseHexString parses a hex string like "0123456789ABCDEF" to bytes
 func parseHexString(hexStr string) []byte {
 	// Remove whitespace
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..981602e 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -2,134 +2,133 @@ package encrypt
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
-func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
-
-	var encryptObjNum int
-	var err error
-
-	if encryptMatch == nil {
-		return nil, fmt.Errorf("/Encrypt dictionary not found")
-	}
-
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
-	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
-	}
-
-	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
-		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
+// ErrNotEncrypted is returned by ParseEncryptionDictionary when the trailer has
+// no /Encrypt entry
+var ErrNotEncrypted = errors.New("/Encrypt dictionary not found")
+
+// startXRefPattern matches the pointer to the newest cross-reference section
+var startXRefPattern = regexp.MustCompile(`startxref\s+(\d+)`)
+
+// findTrailer returns the newest trailer dictionary of the file: the one of the
+// cross-reference section startxref points to (for a cross-reference stream the
+// stream dictionary), or failing that the last one in the file
+func findTrailer(pdfBytes []byte) []byte {
+	if matches := startXRefPattern.FindAllSubmatch(pdfBytes, -1); len(matches) > 0 {
+		offset, err := strconv.Atoi(string(matches[len(matches)-1][1]))
+		if err == nil && offset < len(pdfBytes) {
+			if dict := trailerAt(pdfBytes, offset); dict != nil {
+				return dict
+			}
+		}
 	}
-
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("Encrypt dictionary start not found")
+	if pos := bytes.LastIndex(pdfBytes, []byte("trailer")); pos != -1 {
+		return dictionaryAt(pdfBytes, pos+len("trailer"))
 	}
-	dictStart += objIndex
+	return nil
+}
 
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
+// trailerAt returns the trailer dictionary of the cross-reference section at
+// offset
+func trailerAt(pdfBytes []byte, offset int) []byte {
+	pos := syntax.SkipSpace(pdfBytes, offset)
+	if bytes.HasPrefix(pdfBytes[pos:], []byte("xref")) {
+		// The table consists of numbers and the keywords n and f
+		for pos < len(pdfBytes) {
+			end := syntax.SkipToken(pdfBytes, pos)
+			if bytes.HasPrefix(pdfBytes[pos:end], []byte("trailer")) {
+				return dictionaryAt(pdfBytes, pos+len("trailer"))
 			}
-			i++ // Skip second '>'
+			pos = syntax.SkipSpace(pdfBytes, end)
 		}
+		return nil
 	}
-
-	if dictEnd == dictStart {
-		return nil, fmt.Errorf("Encrypt dictionary end not found")
+	// Cross-reference stream: N G obj << ... >>
+	for i := 0; i < 3; i++ {
+		end := syntax.SkipRegular(pdfBytes, pos)
+		if end == pos || (i == 2 && string(pdfBytes[pos:end]) != "obj") {
+			return nil
+		}
+		pos = syntax.SkipSpace(pdfBytes, end)
 	}
+	return dictionaryAt(pdfBytes, pos)
+}
 
-	dictContent := pdfStr[dictStart:dictEnd]
+// dictionaryAt returns the dictionary at pos, which may be preceded by white
+// space, or nil
+func dictionaryAt(pdfBytes []byte, pos int) []byte {
+	pos = syntax.SkipSpace(pdfBytes, pos)
+	if pos > len(pdfBytes) || !bytes.HasPrefix(pdfBytes[pos:], []byte("<<")) {
+		return nil
+	}
+	end := syntax.DictionaryEnd(pdfBytes, pos)
+	if end == -1 {
+		return nil
+	}
+	return pdfBytes[pos:end]
+}
 
-	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
+// findEncryptObject returns the dictionary of the indirect encryption
+// dictionary object, or nil
+func findEncryptObject(pdfBytes []byte, objNum, genNum int) []byte {
+	header := regexp.MustCompile(fmt.Sprintf(`(?:^|[^0-9])%d\s+%d\s+obj`, objNum, genNum))
+	var first []byte
+	for _, match := range header.FindAllIndex(pdfBytes, -1) {
+		dict := dictionaryAt(pdfBytes, match[1])
+		if dict == nil {
+			continue
+		}
+		if syntax.Lookup(dict, "Filter") != nil && syntax.Lookup(dict, "O") != nil && syntax.Lookup(dict, "U") != nil {
+			return dict
+		}
+		if first == nil {
+			first = dict
+		}
 	}
+	return first
+}
 
+// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
+func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
 	encrypt := &types.PDFEncryption{}
 
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
+	// The dictionary is an entry of the trailer, usually a reference
+	value := syntax.Lookup(findTrailer(pdfBytes), "Encrypt")
+	if value == nil || string(value) == "null" {
+		return nil, ErrNotEncrypted
 	}
-
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
+	dict := value
+	if objNum, genNum, _, ok := syntax.ReferenceAt(value, 0); ok {
+		if verbose {
+			log.Printf("Found /Encrypt dictionary: object %d", objNum)
 		}
-	}
-
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
+		encrypt.ObjNum = objNum
+		dict = findEncryptObject(pdfBytes, objNum, genNum)
+		if dict == nil {
+			return nil, fmt.Errorf("Encrypt object %d not found", objNum)
 		}
+	} else if !bytes.HasPrefix(value, []byte("<<")) {
+		return nil, fmt.Errorf("invalid /Encrypt entry")
 	}
 
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
-			}
-		}
+	if verbose {
+		log.Printf("Encrypt dictionary content (first 200 chars): %s", dict[:min(200, len(dict))])
 	}
 
+	encrypt.Filter = syntax.LookupName(dict, "Filter")
+	encrypt.SubFilter = syntax.LookupName(dict, "SubFilter")
+	encrypt.V, _ = syntax.LookupInt(dict, "V")
+	encrypt.R, _ = syntax.LookupInt(dict, "R")
+
 	// Set defaults if not found
 	if encrypt.V == 0 {
 		encrypt.V = 4 // Default to AES encryption
@@ -137,153 +136,70 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
-	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
-			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
-		} else {
-			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
-		}
+
+	// Key length in bytes: fixed except for V2 and V3
+	keyBits, _ := syntax.LookupInt(dict, "Length")
+	switch {
+	case encrypt.R >= 5:
+		encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
+	case encrypt.V >= 4:
+		encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
+	case encrypt.V == 1 || encrypt.R == 2 || keyBits < 40 || keyBits > 128:
+		encrypt.KeyLength = 5 // 40 bits
+	default:
+		encrypt.KeyLength = keyBits / 8
 	}
 
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
-		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
-			}
-		}
+	// Crypt filters
+	if encrypt.V >= 4 {
+		encrypt.StreamFilter = cryptFilterMethod(dict, "StmF")
+		encrypt.StringFilter = cryptFilterMethod(dict, "StrF")
 	}
 
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
-		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
-			}
-		}
+	encrypt.O = lookupString(dict, "O")
+	encrypt.U = lookupString(dict, "U")
+	if encrypt.R >= 5 {
+		encrypt.UE = lookupString(dict, "UE")
+		encrypt.OE = lookupString(dict, "OE")
+	}
+	if verbose {
+		log.Printf("Extracted O value: %d bytes, U value: %d bytes, UE value: %d bytes, OE value: %d bytes",
+			len(encrypt.O), len(encrypt.U), len(encrypt.UE), len(encrypt.OE))
 	}
 
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
+	// Parse /P (permissions); some producers write it as an unsigned number
+	if p, ok := syntax.LookupInt(dict, "P"); ok {
+		encrypt.P = int32(uint32(p))
 	}
 
 	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
-	}
+	encrypt.EncryptMetadata = string(syntax.Lookup(dict, "EncryptMetadata")) != "false"
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
-	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
-				}
-			}
-		}
+	return encrypt, nil
+}
 
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+// cryptFilterMethod returns the method (/CFM) of the crypt filter named by the
+// given entry of the encryption dictionary, or "" if there are no crypt filters
+func cryptFilterMethod(dict []byte, entry string) string {
+	filters := syntax.Lookup(dict, "CF")
+	name := syntax.LookupName(dict, entry)
+	if name == "" && filters == nil {
+		return ""
+	}
+	if name == "" || name == "Identity" {
+		return "Identity"
 	}
+	filter := syntax.Lookup(filters, name)
+	if method := syntax.LookupName(filter, "CFM"); method != "" {
+		return method
+	}
+	return ""
+}
 
-	return encrypt, nil
+// lookupString returns the decoded string stored under key, or nil
+func lookupString(dict []byte, key string) []byte {
+	if value := syntax.Lookup(dict, key); syntax.IsString(value) {
+		return syntax.DecodeString(value)
+	}
+	return nil
 }
diff --git a/core/parse/api.go b/core/parse/api.go
index 705fddf..e821237 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,6 +28,8 @@
 package parse
 
 import (
+	"errors"
+
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -118,10 +120,12 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 func (p *PDF) handleEncryption() error {
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
-	if err != nil {
-		// No encryption or parse error - assume unencrypted
+	if errors.Is(err, encrypt.ErrNotEncrypted) {
 		return nil
 	}
+	if err != nil {
+		return types.WrapError(types.ErrCodeInvalidObject, "invalid encryption dictionary", err)
+	}
 
 	if enc != nil {
 		// PDF is encrypted - validate password
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 5203155..d6507a2 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // ParsePDFDocument parses a complete PDF preserving all raw bytes for reconstruction
@@ -349,7 +351,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		if dictStart == -1 {
 			return nil, fmt.Errorf("xref stream dictionary not found")
 		}
-		dictEnd := dictionaryEnd(section, dictStart)
+		dictEnd := syntax.DictionaryEnd(section, dictStart)
 		if dictEnd == -1 {
 			return nil, fmt.Errorf("xref stream dictionary not terminated")
 		}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 6cfa9d8..51ff500 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -159,7 +160,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	// Skip whitespace
 	contentStart := extent.contentStart
-	for contentStart < extent.contentEnd && isSpace(objData[contentStart]) {
+	for contentStart < extent.contentEnd && syntax.IsSpace(objData[contentStart]) {
 		contentStart++
 	}
 
@@ -168,50 +169,34 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	// Check if this is a stream object
 	if extent.isStream {
 		content = objData[contentStart:extent.streamEnd]
-		streamStart := extent.streamKeyword - contentStart
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-
+			dict := objData[extent.dictStart:extent.dictEnd]
 			streamData := objData[extent.dataStart:extent.dataEnd]
 
 			if verbose {
 				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err == nil {
-				if verbose {
-					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
-				}
-				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
-
-				// Reconstruct content with updated dictionary and decrypted stream
-				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
-				newContent = append(newContent, dictPart...)
-				newContent = append(newContent, []byte("stream\n")...)
-				newContent = append(newContent, decryptedStream...)
-				newContent = append(newContent, []byte("\nendstream")...)
-				content = newContent
-
-				if verbose {
-					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
-				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
+			decryptedStream, err := encrypt.DecryptStream(dict, streamData, objNum, genNum, encryptInfo)
+			if err != nil {
+				return nil, fmt.Errorf("failed to decrypt stream %d: %v", objNum, err)
+			}
+			if verbose {
+				log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
 			}
+
+			// Reconstruct content with decrypted strings, the decrypted size as
+			// /Length and the decrypted stream
+			dict = encrypt.DecryptStrings(dict, objNum, genNum, encryptInfo)
+			content = setStreamLength(dict, len(decryptedStream))
+			content = append(content, []byte("\nstream\n")...)
+			content = append(content, decryptedStream...)
+			content = append(content, []byte("\nendstream")...)
 		}
 	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
+		// Not a stream - decrypt string values
+		content = encrypt.DecryptStrings(content, objNum, genNum, encryptInfo)
 	}
 
 	// Reconstruct full object
@@ -224,3 +209,18 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	return []byte(result), nil
 }
+
+// setStreamLength returns a copy of a stream dictionary with a new /Length
+func setStreamLength(dict []byte, length int) []byte {
+	result := make([]byte, 0, len(dict)+length+32)
+	for _, entry := range syntax.Entries(dict, 0) {
+		if entry.Key == "Length" {
+			result = append(result, dict[:entry.Start]...)
+			result = append(result, fmt.Sprintf(" %d ", length)...)
+			return append(result, dict[entry.End:]...)
+		}
+	}
+	result = append(result, "<<"...)
+	result = append(result, fmt.Sprintf("/Length %d ", length)...)
+	return append(result, dict[2:]...)
+}
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index ecee9b5..3b4f5b6 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -8,6 +8,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // xrefSection represents a single cross-reference section from a PDF
@@ -223,7 +225,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 		}
 		dictStart += trailerStart
 
-		dictEnd := dictionaryEnd(section, dictStart)
+		dictEnd := syntax.DictionaryEnd(section, dictStart)
 		if dictEnd == -1 {
 			dictEnd = len(section)
 		}
@@ -243,7 +245,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	if dictStart == -1 {
 		return 0, fmt.Errorf("xref stream dictionary not found")
 	}
-	dictEnd := dictionaryEnd(section, dictStart)
+	dictEnd := syntax.DictionaryEnd(section, dictStart)
 	if dictEnd == -1 {
 		dictEnd = len(section)
 	}
@@ -363,7 +365,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		if dictStart != -1 {
 			dictStart += trailerStart
 
-			dictEnd := dictionaryEnd(xrefData, dictStart)
+			dictEnd := syntax.DictionaryEnd(xrefData, dictStart)
 			if dictEnd == -1 {
 				dictEnd = len(xrefData)
 			}
@@ -421,7 +423,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	if dictStart == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
-	dictEnd := dictionaryEnd(xrefData, dictStart)
+	dictEnd := syntax.DictionaryEnd(xrefData, dictStart)
 	if dictEnd == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not terminated")
 	}
diff --git a/core/parse/lexer.go b/core/parse/lexer.go
index 8646b99..dce4106 100644
--- a/core/parse/lexer.go
+++ b/core/parse/lexer.go
@@ -2,7 +2,8 @@ package parse
 
 import (
 	"bytes"
-	"strconv"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // indirectObject describes the lexical extent of an indirect object
@@ -21,150 +22,6 @@ type indirectObject struct {
 	streamEnd     int // offset just past "endstream"
 }
 
-func isDelimiter(b byte) bool {
-	switch b {
-	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
-		return true
-	}
-	return false
-}
-
-func isSpace(b byte) bool {
-	return isWhitespace(b) || b == 0
-}
-
-// skipSpace skips white space and comments.
-func skipSpace(data []byte, pos int) int {
-	for pos < len(data) {
-		if isSpace(data[pos]) {
-			pos++
-		} else if data[pos] == '%' {
-			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
-				pos++
-			}
-		} else {
-			break
-		}
-	}
-	return pos
-}
-
-// skipRegular skips a run of regular characters (number, keyword, name body).
-func skipRegular(data []byte, pos int) int {
-	for pos < len(data) && !isSpace(data[pos]) && !isDelimiter(data[pos]) {
-		pos++
-	}
-	return pos
-}
-
-// skipLiteralString returns the offset past the literal string starting at pos.
-func skipLiteralString(data []byte, pos int) int {
-	depth := 0
-	for pos < len(data) {
-		switch data[pos] {
-		case '\\':
-			pos++
-		case '(':
-			depth++
-		case ')':
-			depth--
-			if depth == 0 {
-				return pos + 1
-			}
-		}
-		pos++
-	}
-	return len(data)
-}
-
-// skipToken returns the offset past the token starting at pos, which must not
-// be white space.
-func skipToken(data []byte, pos int) int {
-	switch data[pos] {
-	case '(':
-		return skipLiteralString(data, pos)
-	case '<':
-		if pos+1 < len(data) && data[pos+1] == '<' {
-			return pos + 2
-		}
-		if end := bytes.IndexByte(data[pos:], '>'); end != -1 {
-			return pos + end + 1
-		}
-		return len(data)
-	case '>':
-		if pos+1 < len(data) && data[pos+1] == '>' {
-			return pos + 2
-		}
-		return pos + 1
-	case '/':
-		return skipRegular(data, pos+1)
-	case '[', ']', '{', '}', ')':
-		return pos + 1
-	}
-	return skipRegular(data, pos)
-}
-
-// dictionaryEnd returns the offset past the ">>" matching the "<<" at pos, or
-// -1 if the dictionary is not terminated. Strings and comments are skipped.
-func dictionaryEnd(data []byte, pos int) int {
-	depth := 0
-	for {
-		pos = skipSpace(data, pos)
-		if pos >= len(data) {
-			return -1
-		}
-		end := skipToken(data, pos)
-		if end-pos == 2 && data[pos] == '<' && data[pos+1] == '<' {
-			depth++
-		} else if end-pos == 2 && data[pos] == '>' && data[pos+1] == '>' {
-			depth--
-			if depth == 0 {
-				return end
-			}
-		}
-		pos = end
-	}
-}
-
-// dictionaryInt returns the direct integer stored under a top-level key of the
-// dictionary, e.g. /Length. References do not count.
-func dictionaryInt(dict []byte, key string) (int, bool) {
-	depth, expectValue := 0, false
-	pos := 0
-	for {
-		pos = skipSpace(dict, pos)
-		if pos >= len(dict) {
-			return 0, false
-		}
-		end := skipToken(dict, pos)
-		tok := string(dict[pos:end])
-		if expectValue {
-			n, err := strconv.Atoi(tok)
-			if err != nil {
-				return 0, false
-			}
-			// "N G R" is a reference, not an integer
-			next := skipSpace(dict, end)
-			if mid := skipRegular(dict, next); mid > next {
-				r := skipSpace(dict, mid)
-				if r < len(dict) && dict[r] == 'R' && skipRegular(dict, r) == r+1 {
-					return 0, false
-				}
-			}
-			return n, true
-		}
-		switch tok {
-		case "<<", "[":
-			depth++
-		case ">>", "]":
-			depth--
-		default:
-			expectValue = depth == 1 && tok == key
-		}
-		pos = end
-	}
-}
-
 // scanIndirectObject determines the extent of the indirect object whose header
 // starts at the beginning of data. Keywords inside strings, comments and
 // stream data do not terminate the object.
@@ -174,7 +31,7 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 	// Header: N G obj
 	pos := 0
 	for i := 0; i < 2; i++ {
-		pos = skipSpace(data, pos)
+		pos = syntax.SkipSpace(data, pos)
 		start := pos
 		for pos < len(data) && data[pos] >= '0' && data[pos] <= '9' {
 			pos++
@@ -183,23 +40,23 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 			return obj, false
 		}
 	}
-	pos = skipSpace(data, pos)
+	pos = syntax.SkipSpace(data, pos)
 	if !bytes.HasPrefix(data[pos:], []byte("obj")) {
 		return obj, false
 	}
 	pos += 3
-	for pos < len(data) && isSpace(data[pos]) {
+	for pos < len(data) && syntax.IsSpace(data[pos]) {
 		pos++
 	}
 	obj.contentStart = pos
 
 	for {
-		pos = skipSpace(data, pos)
+		pos = syntax.SkipSpace(data, pos)
 		if pos >= len(data) {
 			return obj, false
 		}
 		if bytes.HasPrefix(data[pos:], []byte("<<")) && !obj.isStream {
-			end := dictionaryEnd(data, pos)
+			end := syntax.DictionaryEnd(data, pos)
 			if end == -1 {
 				return obj, false
 			}
@@ -207,7 +64,7 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 			pos = end
 			continue
 		}
-		end := skipToken(data, pos)
+		end := syntax.SkipToken(data, pos)
 		word := data[pos:end]
 		if bytes.HasPrefix(word, []byte("endobj")) {
 			obj.contentEnd = pos
@@ -232,7 +89,7 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 func (o *indirectObject) scanStreamData(data []byte) bool {
 	o.dataStart = skipStreamEOL(data, o.streamKeyword+len("stream"))
 
-	if n, ok := dictionaryInt(data[o.dictStart:o.dictEnd], "/Length"); ok && n >= 0 && n <= len(data)-o.dataStart {
+	if n, ok := syntax.LookupInt(data[o.dictStart:o.dictEnd], "Length"); ok && n >= 0 && n <= len(data)-o.dataStart {
 		after := skipStreamEOL(data, o.dataStart+n)
 		if bytes.HasPrefix(data[after:], []byte("endstream")) {
 			o.dataEnd = o.dataStart + n
@@ -254,7 +111,7 @@ func (o *indirectObject) scanStreamData(data []byte) bool {
 			first = at
 		}
 		from = at + len("endstream")
-		if bytes.HasPrefix(data[skipSpace(data, from):], []byte("endobj")) {
+		if bytes.HasPrefix(data[syntax.SkipSpace(data, from):], []byte("endobj")) {
 			first = at
 			break
 		}
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 160aedc..1865c8b 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -314,7 +314,7 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, 0, encryptInfo)
+		decrypted, err := encrypt.DecryptStream(streamObj.DictRaw, streamData, streamObjNum, streamObj.Generation, encryptInfo)
 		if err != nil {
 			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
 		}
diff --git a/internal/syntax/syntax.go b/internal/syntax/syntax.go
new file mode 100644
index 0000000..2797d44
--- /dev/null
+++ b/internal/syntax/syntax.go
@@ -0,0 +1,394 @@
+// Package syntax provides the lexical conventions of PDF (white space,
+// delimiters, strings, names, dictionaries) shared by the other packages.
+package syntax
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+	"strings"
+)
+
+// IsDelimiter reports whether b is a delimiter character.
+func IsDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+// IsSpace reports whether b is a white-space character.
+func IsSpace(b byte) bool {
+	switch b {
+	case ' ', '\t', '\r', '\n', '\f', 0:
+		return true
+	}
+	return false
+}
+
+// SkipSpace skips white space and comments.
+func SkipSpace(data []byte, pos int) int {
+	for pos < len(data) {
+		if IsSpace(data[pos]) {
+			pos++
+		} else if data[pos] == '%' {
+			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
+				pos++
+			}
+		} else {
+			break
+		}
+	}
+	return pos
+}
+
+// SkipRegular skips a run of regular characters (number, keyword, name body).
+func SkipRegular(data []byte, pos int) int {
+	for pos < len(data) && !IsSpace(data[pos]) && !IsDelimiter(data[pos]) {
+		pos++
+	}
+	return pos
+}
+
+// skipLiteralString returns the offset past the literal string starting at pos.
+func skipLiteralString(data []byte, pos int) int {
+	depth := 0
+	for pos < len(data) {
+		switch data[pos] {
+		case '\\':
+			pos++
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return pos + 1
+			}
+		}
+		pos++
+	}
+	return len(data)
+}
+
+// SkipToken returns the offset past the token starting at pos, which must not
+// be white space.
+func SkipToken(data []byte, pos int) int {
+	switch data[pos] {
+	case '(':
+		return skipLiteralString(data, pos)
+	case '<':
+		if pos+1 < len(data) && data[pos+1] == '<' {
+			return pos + 2
+		}
+		if end := bytes.IndexByte(data[pos:], '>'); end != -1 {
+			return pos + end + 1
+		}
+		return len(data)
+	case '>':
+		if pos+1 < len(data) && data[pos+1] == '>' {
+			return pos + 2
+		}
+		return pos + 1
+	case '/':
+		return SkipRegular(data, pos+1)
+	case '[', ']', '{', '}', ')':
+		return pos + 1
+	}
+	return SkipRegular(data, pos)
+}
+
+// DictionaryEnd returns the offset past the ">>" matching the "<<" at pos, or
+// -1 if the dictionary is not terminated. Strings and comments are skipped.
+func DictionaryEnd(data []byte, pos int) int {
+	depth := 0
+	for {
+		pos = SkipSpace(data, pos)
+		if pos >= len(data) {
+			return -1
+		}
+		end := SkipToken(data, pos)
+		if end-pos == 2 && data[pos] == '<' && data[pos+1] == '<' {
+			depth++
+		} else if end-pos == 2 && data[pos] == '>' && data[pos+1] == '>' {
+			depth--
+			if depth == 0 {
+				return end
+			}
+		}
+		pos = end
+	}
+}
+
+// isInteger reports whether tok is an unsigned integer.
+func isInteger(tok []byte) bool {
+	for _, c := range tok {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return len(tok) > 0
+}
+
+// ValueEnd returns the offset past the value starting at pos: an array, a
+// dictionary, an indirect reference or a single token.
+func ValueEnd(data []byte, pos int) int {
+	depth := 0
+	start := pos
+	for {
+		pos = SkipSpace(data, pos)
+		if pos >= len(data) {
+			return len(data)
+		}
+		end := SkipToken(data, pos)
+		switch string(data[pos:end]) {
+		case "<<", "[":
+			depth++
+		case ">>", "]":
+			if depth == 0 {
+				return start
+			}
+			depth--
+		default:
+			if depth == 0 && isInteger(data[pos:end]) {
+				if _, _, refEnd, ok := ReferenceAt(data, pos); ok {
+					return refEnd
+				}
+			}
+		}
+		if depth == 0 {
+			return end
+		}
+		pos = end
+	}
+}
+
+// ReferenceAt parses an indirect reference ("N G R") at pos.
+func ReferenceAt(data []byte, pos int) (objNum, genNum, end int, ok bool) {
+	end = SkipRegular(data, pos)
+	gen := SkipSpace(data, end)
+	genEnd := SkipRegular(data, gen)
+	r := SkipSpace(data, genEnd)
+	if !isInteger(data[pos:end]) || !isInteger(data[gen:genEnd]) ||
+		r >= len(data) || data[r] != 'R' || SkipRegular(data, r) != r+1 {
+		return 0, 0, 0, false
+	}
+	objNum, err1 := strconv.Atoi(string(data[pos:end]))
+	genNum, err2 := strconv.Atoi(string(data[gen:genEnd]))
+	if err1 != nil || err2 != nil {
+		return 0, 0, 0, false
+	}
+	return objNum, genNum, r + 1, true
+}
+
+// Entry is an entry of a dictionary. The key is decoded and has no leading
+// slash; Start and End delimit the value in the scanned slice.
+type Entry struct {
+	Key        string
+	Start, End int
+}
+
+// Entries returns the entries of the dictionary whose "<<" is at pos. It stops
+// at the matching ">>" or where the dictionary is malformed.
+func Entries(data []byte, pos int) []Entry {
+	var entries []Entry
+	if !bytes.HasPrefix(data[pos:], []byte("<<")) {
+		return nil
+	}
+	pos += 2
+	for {
+		pos = SkipSpace(data, pos)
+		if pos >= len(data) || data[pos] != '/' {
+			return entries
+		}
+		keyEnd := SkipToken(data, pos)
+		start := SkipSpace(data, keyEnd)
+		end := ValueEnd(data, start)
+		if end <= start {
+			return entries
+		}
+		entries = append(entries, Entry{DecodeName(data[pos:keyEnd]), start, end})
+		pos = end
+	}
+}
+
+// Lookup returns the value stored under key (without leading slash) in the
+// dictionary at the beginning of dict, in PDF syntax, or nil.
+func Lookup(dict []byte, key string) []byte {
+	pos := SkipSpace(dict, 0)
+	for _, entry := range Entries(dict, pos) {
+		if entry.Key == key {
+			return dict[entry.Start:entry.End]
+		}
+	}
+	return nil
+}
+
+// LookupInt returns the direct integer stored under key. References do not
+// count.
+func LookupInt(dict []byte, key string) (int, bool) {
+	n, err := strconv.Atoi(string(Lookup(dict, key)))
+	return n, err == nil
+}
+
+// LookupName returns the name stored under key, without the leading slash.
+func LookupName(dict []byte, key string) string {
+	if value := Lookup(dict, key); len(value) > 0 && value[0] == '/' {
+		return DecodeName(value)
+	}
+	return ""
+}
+
+// DecodeName decodes a name token (with leading slash).
+func DecodeName(tok []byte) string {
+	tok = bytes.TrimPrefix(tok, []byte("/"))
+	if bytes.IndexByte(tok, '#') == -1 {
+		return string(tok)
+	}
+	var buf strings.Builder
+	for i := 0; i < len(tok); i++ {
+		if tok[i] == '#' && i+2 < len(tok) && hexValue(tok[i+1]) >= 0 && hexValue(tok[i+2]) >= 0 {
+			buf.WriteByte(byte(hexValue(tok[i+1])<<4 | hexValue(tok[i+2])))
+			i += 2
+		} else {
+			buf.WriteByte(tok[i])
+		}
+	}
+	return buf.String()
+}
+
+func hexValue(c byte) int {
+	switch {
+	case c >= '0' && c <= '9':
+		return int(c - '0')
+	case c >= 'a' && c <= 'f':
+		return int(c-'a') + 10
+	case c >= 'A' && c <= 'F':
+		return int(c-'A') + 10
+	}
+	return -1
+}
+
+// IsString reports whether tok is a literal or hexadecimal string token.
+func IsString(tok []byte) bool {
+	return len(tok) > 0 && (tok[0] == '(' || tok[0] == '<' && (len(tok) < 2 || tok[1] != '<'))
+}
+
+// DecodeString decodes a literal or hexadecimal string token.
+func DecodeString(tok []byte) []byte {
+	if len(tok) == 0 {
+		return nil
+	}
+	if tok[0] == '<' {
+		return decodeHexString(tok[1:])
+	}
+	return decodeLiteralString(tok)
+}
+
+func decodeHexString(tok []byte) []byte {
+	result := []byte{}
+	high := -1
+	for _, c := range tok {
+		if c == '>' {
+			break
+		}
+		v := hexValue(c)
+		if v < 0 {
+			continue
+		}
+		if high < 0 {
+			high = v
+		} else {
+			result = append(result, byte(high<<4|v))
+			high = -1
+		}
+	}
+	if high >= 0 {
+		// A missing final digit counts as 0
+		result = append(result, byte(high<<4))
+	}
+	return result
+}
+
+func decodeLiteralString(tok []byte) []byte {
+	tok = bytes.TrimPrefix(tok, []byte("("))
+	tok = bytes.TrimSuffix(tok, []byte(")"))
+	result := make([]byte, 0, len(tok))
+	for i := 0; i < len(tok); i++ {
+		c := tok[i]
+		if c == '\r' {
+			// An end-of-line marker in a string is a line feed
+			if i+1 < len(tok) && tok[i+1] == '\n' {
+				i++
+			}
+			result = append(result, '\n')
+			continue
+		}
+		if c != '\\' || i+1 >= len(tok) {
+			result = append(result, c)
+			continue
+		}
+		i++
+		switch c = tok[i]; c {
+		case 'n':
+			result = append(result, '\n')
+		case 'r':
+			result = append(result, '\r')
+		case 't':
+			result = append(result, '\t')
+		case 'b':
+			result = append(result, '\b')
+		case 'f':
+			result = append(result, '\f')
+		case '\n':
+			// Line continuation
+		case '\r':
+			if i+1 < len(tok) && tok[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			v := 0
+			n := 0
+			for n < 3 && i < len(tok) && tok[i] >= '0' && tok[i] <= '7' {
+				v = v<<3 | int(tok[i]-'0')
+				i++
+				n++
+			}
+			i--
+			result = append(result, byte(v))
+		default:
+			result = append(result, c)
+		}
+	}
+	return result
+}
+
+// EncodeHexString writes data as a hexadecimal string token.
+func EncodeHexString(data []byte) []byte {
+	return []byte(fmt.Sprintf("<%X>", data))
+}
+
+// MapStrings returns a copy of content, a sequence of tokens, in which every
+// string has been replaced by the result of f on its decoded value.
+func MapStrings(content []byte, f func([]byte) ([]byte, error)) ([]byte, error) {
+	result := make([]byte, 0, len(content))
+	pos := 0
+	for {
+		start := SkipSpace(content, pos)
+		result = append(result, content[pos:start]...)
+		if start >= len(content) {
+			return result, nil
+		}
+		end := SkipToken(content, start)
+		tok := content[start:end]
+		if IsString(tok) {
+			value, err := f(DecodeString(tok))
+			if err != nil {
+				return nil, err
+			}
+			tok = EncodeHexString(value)
+		}
+		result = append(result, tok...)
+		pos = end
+	}
+}
diff --git a/types/types.go b/types/types.go
index 433b90f..77ed7d3 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,9 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+	ObjNum          int    // Object number of the encryption dictionary (0 if direct)
+	StreamFilter    string // Crypt filter method for streams (V4+): "V2", "AESV2", "AESV3", "Identity"
+	StringFilter    string // Crypt filter method for strings (V4+)
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From cbf811bec75987a0c3b43a51f4fadd123d6d7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 25/93] fix: write encrypted documents conforming to the
 standard security handler

Encrypt strings as well as streams, write the AES-256 values, crypt filters and
/Perms of the specification, support RC4, and report failures instead of
writing plain text.
---
 core/write/encryption_v5.go | 230 +++++++++---------------------------
 core/write/writer.go        |  99 +++-------------
 2 files changed, 75 insertions(+), 254 deletions(-)

diff --git a/core/write/encryption_v5.go b/core/write/encryption_v5.go
index 3b86c18..a761131 100644
--- a/core/write/encryption_v5.go
+++ b/core/write/encryption_v5.go
@@ -3,95 +3,41 @@ package write
 import (
 	"bytes"
 	"crypto/aes"
+	"crypto/cipher"
 	"crypto/rand"
-	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// SetupAES256Encryption creates an encryption dictionary for AES-256 (V5/R5/R6)
+// SetupAES256Encryption creates an encryption dictionary for AES-256 (V5/R5)
 // Based on ISO 32000-2 section 7.6.4
 func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, permissions int32, encryptMetadata bool) (*types.PDFEncryption, error) {
-	// Prepare file ID (use first 8 bytes, pad/truncate to 8)
-	fileID8 := make([]byte, 8)
-	if len(fileID) >= 8 {
-		copy(fileID8, fileID[:8])
-	} else if len(fileID) > 0 {
-		copy(fileID8, fileID)
-	}
-
-	// Derive user password key
-	userPasswordKey, err := deriveEncryptionKeyV5(userPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive user password key: %v", err)
-	}
-
-	// Derive owner password key
-	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive owner password key: %v", err)
-	}
+	const revision = 5
 
-	// Generate random user encryption key (32 bytes for AES-256)
-	userEncryptionKey := make([]byte, 32)
-	if _, err := rand.Read(userEncryptionKey); err != nil {
+	// Generate random file encryption key (32 bytes for AES-256)
+	fileKey := make([]byte, 32)
+	if _, err := rand.Read(fileKey); err != nil {
 		return nil, fmt.Errorf("failed to generate encryption key: %v", err)
 	}
 
-	// Generate random owner encryption key (32 bytes)
-	ownerEncryptionKey := make([]byte, 32)
-	if _, err := rand.Read(ownerEncryptionKey); err != nil {
-		return nil, fmt.Errorf("failed to generate owner encryption key: %v", err)
-	}
-
-	// Generate random salts
-	validationSalt := make([]byte, 8)
-	userKeySalt := make([]byte, 8)
-	ownerValidationSalt := make([]byte, 8)
-	ownerKeySalt := make([]byte, 8)
-
-	if _, err := rand.Read(validationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate validation salt: %v", err)
-	}
-	if _, err := rand.Read(userKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate user key salt: %v", err)
-	}
-	if _, err := rand.Read(ownerValidationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner validation salt: %v", err)
-	}
-	if _, err := rand.Read(ownerKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner key salt: %v", err)
-	}
-
-	// Compute U value (user password validation)
-	uValue, err := computeUValueV5(userPassword, userPasswordKey, validationSalt, userKeySalt)
+	// U and UE (Algorithm 8)
+	uValue, ueValue, err := wrapFileKeyV5(userPassword, nil, fileKey, revision)
 	if err != nil {
 		return nil, fmt.Errorf("failed to compute U value: %v", err)
 	}
 
-	// Compute O value (owner password validation)
-	// For V5, O value uses the U value (48 bytes), not the user encryption key
-	oValue, err := computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt, uValue)
+	// O and OE (Algorithm 9), which depend on U
+	oValue, oeValue, err := wrapFileKeyV5(ownerPassword, uValue, fileKey, revision)
 	if err != nil {
 		return nil, fmt.Errorf("failed to compute O value: %v", err)
 	}
 
-	// Wrap user encryption key with user password key
-	ueValue, err := wrapKeyV5(userEncryptionKey, userPasswordKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key: %v", err)
-	}
-
-	// Wrap user encryption key with owner password key (OE contains user key wrapped with owner key)
-	oeValue, err := wrapKeyV5(userEncryptionKey, ownerPasswordKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key with owner key: %v", err)
-	}
-
-	encrypt := &types.PDFEncryption{
+	return &types.PDFEncryption{
 		V:               5,
-		R:               5,
+		R:               revision,
 		KeyLength:       32, // 256 bits
 		Filter:          "Standard",
 		P:               permissions,
@@ -100,124 +46,53 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 		U:               uValue,
 		UE:              ueValue,
 		OE:              oeValue,
-		EncryptKey:      userEncryptionKey, // Store the actual encryption key
-	}
-
-	return encrypt, nil
+		EncryptKey:      fileKey, // Store the actual encryption key
+		StreamFilter:    "AESV3",
+		StringFilter:    "AESV3",
+	}, nil
 }
 
-// deriveEncryptionKeyV5 derives a 32-byte key from password using SHA-256
-// Based on ISO 32000-2 section 7.6.4.3.3
-func deriveEncryptionKeyV5(password []byte, fileID []byte) ([]byte, error) {
-	// Concatenate password + fileID (8 bytes)
-	input := make([]byte, len(password)+8)
-	copy(input, password)
-	copy(input[len(password):], fileID)
-
-	// SHA-256 hash
-	hash := sha256.Sum256(input)
-	key := hash[:]
-
-	// Iterate 64 times
-	for i := 0; i < 64; i++ {
-		hash = sha256.Sum256(key)
-		key = hash[:]
+// wrapFileKeyV5 computes the validation value (hash, validation salt and key
+// salt, 48 bytes) and the encrypted file key for a password. uValue is nil for
+// the user password.
+func wrapFileKeyV5(password, uValue, fileKey []byte, revision int) (value, wrapped []byte, err error) {
+	salts := make([]byte, 16)
+	if _, err := rand.Read(salts); err != nil {
+		return nil, nil, err
 	}
+	validationSalt, keySalt := salts[:8], salts[8:]
 
-	return key, nil
-}
-
-// computeUValueV5 computes the U value for user password validation
-// Based on ISO 32000-2 section 7.6.4.4.9
-func computeUValueV5(password, passwordKey, validationSalt, userKeySalt []byte) ([]byte, error) {
-	// Compute SHA-256(password + validation_salt)
-	hash := sha256.New()
-	hash.Write(password)
-	hash.Write(validationSalt)
-	hashed := hash.Sum(nil)
+	value = append(value, encrypt.HashV5(password, validationSalt, uValue, revision)...)
+	value = append(value, salts...)
 
-	// Encrypt with AES-128 ECB using first 16 bytes of password-derived key
-	encryptKey := passwordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
+	block, err := aes.NewCipher(encrypt.HashV5(password, keySalt, uValue, revision))
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, nil, err
 	}
-
-	// Encrypt hash (32 bytes) in 2 blocks of 16 bytes each (ECB mode)
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// U value: validation_salt (8) + encrypted_hash (32) + user_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], validationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], userKeySalt)
-
-	return result, nil
+	wrapped = make([]byte, len(fileKey))
+	cipher.NewCBCEncrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(wrapped, fileKey)
+	return value, wrapped, nil
 }
 
-// computeOValueV5 computes the O value for owner password validation
-// Based on ISO 32000-2 section 7.6.4.4.10
-func computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt []byte, uValue []byte) ([]byte, error) {
-	// Compute SHA-256(owner_password + owner_validation_salt + U_value)
-	hash := sha256.New()
-	hash.Write(ownerPassword)
-	hash.Write(ownerValidationSalt)
-	hash.Write(uValue) // U value is 48 bytes
-	hashed := hash.Sum(nil)
-
-	// Encrypt with AES-128 ECB using first 16 bytes of owner password-derived key
-	encryptKey := ownerPasswordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
+// permsV5 computes the encrypted copy of the permissions (Algorithm 10)
+func permsV5(encrypt *types.PDFEncryption) ([]byte, error) {
+	block, err := aes.NewCipher(encrypt.EncryptKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, err
 	}
-
-	// Encrypt hash (32 bytes) in 2 blocks
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// O value: owner_validation_salt (8) + encrypted_hash (32) + owner_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], ownerValidationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], ownerKeySalt)
-
-	return result, nil
-}
-
-// wrapKeyV5 wraps an encryption key using AES-128 ECB mode
-// Based on ISO 32000-2 - used for /UE and /OE
-func wrapKeyV5(key, wrappingKey []byte) ([]byte, error) {
-	if len(wrappingKey) < 16 {
-		return nil, fmt.Errorf("wrapping key too short: %d bytes (need at least 16)", len(wrappingKey))
+	perms := make([]byte, aes.BlockSize)
+	binary.LittleEndian.PutUint32(perms, uint32(encrypt.P))
+	copy(perms[4:8], []byte{0xFF, 0xFF, 0xFF, 0xFF})
+	perms[8] = 'F'
+	if encrypt.EncryptMetadata {
+		perms[8] = 'T'
 	}
-
-	// Use first 16 bytes of wrapping key
-	wrapKey := wrappingKey[:16]
-
-	// Add PKCS#7 padding
-	paddingLen := 16 - (len(key) % 16)
-	padded := make([]byte, len(key)+paddingLen)
-	copy(padded, key)
-	for i := len(key); i < len(padded); i++ {
-		padded[i] = byte(paddingLen)
-	}
-
-	// Encrypt in ECB mode (each 16-byte block independently)
-	block, err := aes.NewCipher(wrapKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+	copy(perms[9:12], "adb")
+	if _, err := rand.Read(perms[12:]); err != nil {
+		return nil, err
 	}
-
-	wrapped := make([]byte, len(padded))
-	for i := 0; i < len(padded); i += 16 {
-		block.Encrypt(wrapped[i:], padded[i:i+16])
-	}
-
-	return wrapped, nil
+	block.Encrypt(perms, perms)
+	return perms, nil
 }
 
 // CreateEncryptionDictionary creates the encryption dictionary object content for V5
@@ -262,6 +137,15 @@ func CreateEncryptionDictionary(encrypt *types.PDFEncryption) []byte {
 		buf.WriteString(">\n")
 	}
 
+	// Crypt filter: AES-256 for strings and streams
+	if encrypt.V == 5 {
+		buf.WriteString("/CF <</StdCF <</Type /CryptFilter /CFM /AESV3 /AuthEvent /DocOpen /Length 32>>>>\n")
+		buf.WriteString("/StmF /StdCF\n/StrF /StdCF\n")
+		if perms, err := permsV5(encrypt); err == nil {
+			buf.WriteString(fmt.Sprintf("/Perms <%X>\n", perms))
+		}
+	}
+
 	if !encrypt.EncryptMetadata {
 		buf.WriteString("/EncryptMetadata false\n")
 	}
diff --git a/core/write/writer.go b/core/write/writer.go
index e030eb2..55960b0 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -4,10 +4,6 @@ package write
 import (
 	"bytes"
 	"compress/zlib"
-	"crypto/aes"
-	"crypto/cipher"
-	"crypto/md5"
-	"crypto/rand"
 	"fmt"
 	"io"
 	"regexp"
@@ -15,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -301,12 +298,16 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			// Encrypt stream if needed
 			streamData := obj.Stream
 			if w.encryptInfo != nil {
-				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				streamData, err = encrypt.EncryptStream(content, streamData, objNum, obj.Generation, w.encryptInfo)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt stream %d: %v", objNum, err)
+				}
+				// Update length in (a copy of) the dictionary
+				dict := streamDictionary(obj.Dict)
+				dict["Length"] = len(streamData)
+				content, err = encrypt.EncryptStrings(w.formatDictionary(dict), objNum, obj.Generation, w.encryptInfo)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
 				}
 			}
 
@@ -315,11 +316,14 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
 		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
+			// Encrypt strings if needed
 			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
+			if w.encryptInfo != nil && w.encryptRef != fmt.Sprintf("%d 0 R", objNum) {
+				content, err = encrypt.EncryptStrings(content, objNum, obj.Generation, w.encryptInfo)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
+				}
+			}
 			buf.Write(content)
 		}
 
@@ -476,73 +480,6 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
-// encryptStream encrypts stream data using the PDF's encryption settings
-func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-		return data, nil
-	}
-
-	// Derive object-specific key (same as decrypt)
-	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
-	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
-
-	n := w.encryptInfo.KeyLength
-	if n == 0 {
-		n = 5
-	}
-
-	keyData := make([]byte, n+5)
-	copy(keyData, w.encryptInfo.EncryptKey[:n])
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// Generate random IV
-		iv := make([]byte, 16)
-		if _, err := rand.Read(iv); err != nil {
-			return nil, err
-		}
-
-		// Pad data to multiple of 16 (PKCS#7)
-		padLen := 16 - (len(data) % 16)
-		padded := make([]byte, len(data)+padLen)
-		copy(padded, data)
-		for i := len(data); i < len(padded); i++ {
-			padded[i] = byte(padLen)
-		}
-
-		// Encrypt
-		block, err := aes.NewCipher(aesKey)
-		if err != nil {
-			return nil, err
-		}
-
-		encrypted := make([]byte, len(padded))
-		mode := cipher.NewCBCEncrypter(block, iv)
-		mode.CryptBlocks(encrypted, padded)
-
-		// Prepend IV
-		result := make([]byte, 16+len(encrypted))
-		copy(result[:16], iv)
-		copy(result[16:], encrypted)
-
-		return result, nil
-	}
-
-	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
-}
-
 // Bytes returns the complete PDF as a byte slice
 func (w *PDFWriter) Bytes() ([]byte, error) {
 	var buf bytes.Buffer
-- 
2.43.0


From c5c9a34fdf4f701f0012fcb8c3682cbf634b15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 26/93] fix: an empty owner password does not leave the file
 open to everybody

---
 core/write/encryption_v5.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/write/encryption_v5.go b/core/write/encryption_v5.go
index a761131..f306bc4 100644
--- a/core/write/encryption_v5.go
+++ b/core/write/encryption_v5.go
@@ -29,6 +29,12 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 		return nil, fmt.Errorf("failed to compute U value: %v", err)
 	}
 
+	// Without an owner password the user password takes its place; an empty one
+	// would open the file for everybody
+	if len(ownerPassword) == 0 {
+		ownerPassword = userPassword
+	}
+
 	// O and OE (Algorithm 9), which depend on U
 	oValue, oeValue, err := wrapFileKeyV5(ownerPassword, uValue, fileKey, revision)
 	if err != nil {
-- 
2.43.0


From 3e1e5117aff105ae464bb65da920647ced65db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 27/93] fix: images and embedded fonts of a page never share a
 resource name

---
 core/write/page.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 32ddbd9..4743ee3 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -63,10 +63,7 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	}
 
 	// Create font dictionary under a resource name not in use yet
-	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
-	for i := len(pb.fonts) + 2; pb.fonts[resourceName] != 0; i++ {
-		resourceName = fmt.Sprintf("F%d", i)
-	}
+	resourceName := unusedName(pb.fonts, "F")
 	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
@@ -78,13 +75,14 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 // AddImage adds an image and returns the resource name
 func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	resourceName := info.Name
-	if resourceName == "" {
-		resourceName = fmt.Sprintf("Im%d", len(pb.images)+1)
-	}
 	// Remove leading / if present
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	// Never take the name of another image on the page
+	if objNum, used := pb.images[resourceName]; resourceName == "" || used && objNum != info.ObjectNum {
+		resourceName = unusedName(pb.images, "Im")
+	}
 	pb.images[resourceName] = info.ObjectNum
 	return "/" + resourceName
 }
@@ -107,6 +105,10 @@ func (pb *PageBuilder) AddEmbeddedFont(f *font.Font) (string, error) {
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	// Never take the name of another font on the page
+	if _, used := pb.fonts[resourceName]; used {
+		resourceName = unusedName(pb.fonts, "F")
+	}
 	pb.fonts[resourceName] = fontObjs.FontDictNum
 
 	return "/" + resourceName, nil
@@ -168,6 +170,16 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	return pb.pageObjNum
 }
 
+// unusedName returns a resource name with the given prefix that is not in use
+func unusedName(resources map[string]int, prefix string) string {
+	for i := len(resources) + 1; ; i++ {
+		name := fmt.Sprintf("%s%d", prefix, i)
+		if _, used := resources[name]; !used {
+			return name
+		}
+	}
+}
+
 // sortedNames returns the resource names in a fixed order, so that building the
 // same page twice gives the same bytes
 func sortedNames(resources map[string]int) []string {
-- 
2.43.0


From ec16b8c2768e19cd43ff37d558b0a844b51589a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 28/93] fix: skip the fill bytes before a JPEG marker one at a
 time

---
 core/write/image.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index d4c142b..6625e70 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -186,8 +186,9 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		marker := data[pos+1]
 		pos += 2
 
-		// Skip padding
+		// Skip padding: any number of fill bytes may precede a marker
 		if marker == 0xFF {
+			pos--
 			continue
 		}
 
-- 
2.43.0


From f4f4ade85f798ca40f11fb83b89a1fd8dbaff8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 29/93] fix: page operations follow the page tree and copy
 everything a page needs

Rotation, deletion and insertion address the parent that holds the page,
inherited attributes and the counts of all ancestors; extraction, merging and
splitting copy the transitive dependencies of each page in page order. Object
values are rewritten by token instead of by regular expression, streams keep
their data, and a rebuilt encrypted document stays readable.
---
 core/encrypt/parser.go        |   1 +
 core/manipulate/deletion.go   | 231 +++++--------------------------
 core/manipulate/extraction.go |  53 ++------
 core/manipulate/insertion.go  | 110 ++++-----------
 core/manipulate/manipulate.go | 170 +++++------------------
 core/manipulate/merging.go    | 166 ++---------------------
 core/manipulate/pagetree.go   | 248 ++++++++++++++++++++++++++++++++++
 core/manipulate/rotation.go   | 132 +++---------------
 internal/syntax/edit.go       |  81 +++++++++++
 internal/syntax/object.go     | 101 ++++++++++++++
 types/types.go                |   1 +
 11 files changed, 570 insertions(+), 724 deletions(-)
 create mode 100644 core/manipulate/pagetree.go
 create mode 100644 internal/syntax/edit.go
 create mode 100644 internal/syntax/object.go

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 981602e..ec6e76e 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -124,6 +124,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		log.Printf("Encrypt dictionary content (first 200 chars): %s", dict[:min(200, len(dict))])
 	}
 
+	encrypt.Dict = dict
 	encrypt.Filter = syntax.LookupName(dict, "Filter")
 	encrypt.SubFilter = syntax.LookupName(dict, "SubFilter")
 	encrypt.V, _ = syntax.LookupInt(dict, "V")
diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..d05210e 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,235 +2,70 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	pages, err := m.pages()
 	if err != nil {
-		return fmt.Errorf("failed to get page object: %w", err)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
+	page, err := m.getPage(pageNumber)
 	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
-	}
-
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
-		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
-	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
+		return fmt.Errorf("failed to get page object: %w", err)
 	}
-	newKidsStr += " ]"
 
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
+	if len(pages) == 1 {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
-
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
+	if len(page.ancestors) == 0 {
+		return fmt.Errorf("failed to find parent Pages object: page %d is the root of the page tree", pageNumber)
 	}
 
+	// Remove the page from the Kids of its parent, and update /Count in the parent
+	// and all its ancestors
+	kids := m.kids(page.ancestors[0])
+	newKids := append([][]byte{}, kids[:page.index]...)
+	newKids = append(newKids, kids[page.index+1:]...)
+	m.setKids(newKids, -1, page.ancestors)
+
 	if m.verbose {
-		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
+		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, page.objNum)
 	}
 
 	return nil
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based and refers to the document before any of the pages is deleted,
+// in any order
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	pages, err := m.pages()
 	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return 0, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
+	// Validate page numbers before changing anything
+	selected := make(map[int]bool)
+	for _, pageNumber := range pageNumbers {
+		if pageNumber < 1 || pageNumber > len(pages) {
+			return fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
+		}
+		selected[pageNumber] = true
 	}
-
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
+	if len(selected) == len(pages) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
 	}
 
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
+	// Delete from end to beginning to avoid index shifts
+	for pageNumber := len(pages); pageNumber >= 1; pageNumber-- {
+		if !selected[pageNumber] {
 			continue
 		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
-		}
-
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
-		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
-		}
-	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
-}
-
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
-	}
-
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
-		if err != nil {
-			currentCount = 0
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
-
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
-	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
 	return nil
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..9083c72 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -19,64 +19,31 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	allPages, err := manipulator.pages()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page numbers
+	pages := make([]pageNode, 0, len(pageNumbers))
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(allPages) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPages))
 		}
+		pages = append(pages, allPages[pageNum-1])
 	}
 
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
+	writer.SetVersion(manipulator.version())
 	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
-	pageObjNums := make([]int, 0, len(pageNumbers))
 
 	// Copy page objects and their dependencies
-	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
-
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
-		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
-
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
-	}
-
-	// Build Kids array
-	kids := "["
-	for i, pageNum := range pageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+	copier, err := newPageCopier(manipulator, writer, pagesObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
-	kids += "]"
-
-	// Create Pages object
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
-	writer.SetRoot(catalogObjNum)
+	finishPages(writer, pagesObjNum, copier.copyPages(pages))
 
 	return writer.Bytes()
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..ea91a21 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,81 +2,55 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	pages, err := m.pages()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
+	if pageNumber < 0 || pageNumber > len(pages)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pages)+1)
 	}
 
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
+	if _, exists := m.objects[pageObjNum]; exists || pageObjNum < 1 {
+		return fmt.Errorf("object number %d is not free for the inserted page", pageObjNum)
 	}
 
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
+	// Find the parent Pages object: that of the page that will follow the new one,
+	// or the root of the page tree to insert at the end
+	var ancestors []int
+	insertIdx := 0
+	if pageNumber >= 1 && pageNumber <= len(pages) {
+		next := pages[pageNumber-1]
+		ancestors = next.ancestors
+		insertIdx = next.index
 	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	if len(ancestors) == 0 {
+		root, err := m.findParentPagesObjectForInsertion()
+		if err != nil {
+			return fmt.Errorf("failed to find parent Pages object: %w", err)
+		}
+		ancestors = []int{root}
+		insertIdx = len(m.kids(root))
 	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
+	kids := m.kids(ancestors[0])
 
 	// Insert the new page reference at the specified position
-	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
-	}
-
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
+	newKids := append([][]byte{}, kids[:insertIdx]...)
+	newKids = append(newKids, reference(pageObjNum))
+	newKids = append(newKids, kids[insertIdx:]...)
+	m.setKids(newKids, 1, ancestors)
 
 	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	m.objects[pageObjNum] = syntax.SetKey(syntax.ObjectValue(pageContent), "Parent", reference(ancestors[0]))
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -87,31 +61,5 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 // findParentPagesObjectForInsertion finds the root Pages object for insertion
 func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return pagesObjNum, nil
+	return m.pageTreeRoot()
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..9b24574 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -2,12 +2,13 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // PDFManipulator provides functions to modify existing PDFs
@@ -42,7 +43,15 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		// Keep the value only; object streams and cross-reference streams are
+		// part of how the file was stored
+		value := syntax.ObjectValue(obj)
+		if dict, _, ok := syntax.SplitStream(value, -1); ok {
+			if streamType := syntax.LookupName(dict, "Type"); streamType == "ObjStm" || streamType == "XRef" {
+				continue
+			}
+		}
+		objects[objNum] = value
 	}
 
 	return &PDFManipulator{
@@ -61,17 +70,19 @@ func (m *PDFManipulator) Rebuild() ([]byte, error) {
 
 // rebuildPDF rebuilds the PDF with modified objects
 func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
-	// Add all objects to writer
-	for objNum, content := range m.objects {
-		m.writer.SetObject(objNum, content)
-	}
-
 	// Get trailer info
 	trailer := m.pdf.Trailer()
 	if trailer == nil {
 		return nil, fmt.Errorf("no trailer found")
 	}
 
+	// Add all objects to writer
+	m.writer = write.NewPDFWriter()
+	m.writer.SetVersion(m.version())
+	for objNum, value := range m.objects {
+		writeObject(m.writer, m.objects, objNum, value, reference)
+	}
+
 	// Set root, info, encrypt references
 	if trailer.RootRef != "" {
 		rootObjNum, err := parseObjectRef(trailer.RootRef)
@@ -85,21 +96,30 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 			m.writer.SetInfo(infoObjNum)
 		}
 	}
-	if trailer.EncryptRef != "" {
-		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
-		if err == nil {
-			m.writer.SetEncryptRef(encryptObjNum)
-		}
-	}
 
-	// Set encryption if present
+	// Set encryption if present: the encryption dictionary is kept as it is
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+		encryption := m.pdf.Encryption()
+		encryptObjNum := encryption.ObjNum
+		if encryptObjNum == 0 {
+			encryptObjNum = m.writer.NextObjectNumber() // Was part of the trailer
+		}
+		m.writer.SetObject(encryptObjNum, syntax.ObjectValue(encryption.Dict))
+		m.writer.SetEncryptRef(encryptObjNum)
+		m.writer.SetEncryption(encryption, encrypt.ExtractFileID(m.pdfBytes, m.verbose))
 	}
 
 	return m.writer.Bytes()
 }
 
+// version returns the version of the PDF format the document uses
+func (m *PDFManipulator) version() string {
+	if version := m.pdf.Version(); version != "" && version != "unknown" {
+		return version
+	}
+	return "1.7"
+}
+
 // parseObjectRef parses an object reference like "5 0 R"
 func parseObjectRef(ref string) (int, error) {
 	parts := strings.Fields(ref)
@@ -113,125 +133,7 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// extractDictValue extracts a value from a PDF dictionary string
-func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
-		}
-	}
-
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	return ""
-}
-
 // setDictValue sets or updates a value in a PDF dictionary string
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
-	}
-
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
-		return dictStr
-	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return string(syntax.SetKey([]byte(dictStr), strings.TrimPrefix(key, "/"), []byte(value)))
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..f14512b 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -16,8 +14,9 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	}
 
 	writer := write.NewPDFWriter()
+	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
 	var allPageObjNums []int
-	nextObjNum := 1
+	version := ""
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,168 +25,27 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
+		version = max(version, manipulator.version())
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		pages, err := manipulator.pages()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
-		}
-	}
-
-	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
-	kids := "["
-	for i, pageNum := range allPageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
-	}
-	kids += "]"
-
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(allPageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := nextObjNum
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
-	writer.SetRoot(catalogObjNum)
-
-	return writer.Bytes()
-}
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
+		// Copy the pages of this PDF and their dependencies to the merged PDF
+		copier, err := newPageCopier(manipulator, writer, pagesObjNum)
 		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
-		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
-		pageObjNums = append(pageObjNums, childPages...)
+		allPageObjNums = append(allPageObjNums, copier.copyPages(pages)...)
 	}
 
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
+	writer.SetVersion(version)
+	finishPages(writer, pagesObjNum, allPageObjNums)
 
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
+	return writer.Bytes()
 }
diff --git a/core/manipulate/pagetree.go b/core/manipulate/pagetree.go
new file mode 100644
index 0000000..51ca322
--- /dev/null
+++ b/core/manipulate/pagetree.go
@@ -0,0 +1,248 @@
+package manipulate
+
+import (
+	"fmt"
+	"strconv"
+
+	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// pageNode is a page with the page tree nodes above it
+type pageNode struct {
+	objNum    int
+	ancestors []int // Nearest first; the last one is the root of the page tree
+	index     int   // Position in the parent's Kids
+}
+
+// inheritable lists the page attributes a page inherits from its ancestors
+var inheritable = []string{"Resources", "MediaBox", "CropBox", "Rotate"}
+
+// resolve follows references until it reaches a direct value
+func (m *PDFManipulator) resolve(value []byte) []byte {
+	for i := 0; i < 32; i++ {
+		objNum, ok := syntax.Reference(value)
+		if !ok {
+			return value
+		}
+		value = m.objects[objNum]
+	}
+	return nil
+}
+
+// lookup returns the direct value stored under key in a dictionary
+func (m *PDFManipulator) lookup(dict []byte, key string) []byte {
+	return m.resolve(syntax.Lookup(dict, key))
+}
+
+// lookupInherited returns the value of an inheritable page attribute, in PDF
+// syntax, or nil
+func (m *PDFManipulator) lookupInherited(page pageNode, key string) []byte {
+	for _, objNum := range append([]int{page.objNum}, page.ancestors...) {
+		if value := syntax.Lookup(m.objects[objNum], key); value != nil && string(m.resolve(value)) != "null" {
+			return value
+		}
+	}
+	return nil
+}
+
+// pageTreeRoot returns the object number of the root of the page tree
+func (m *PDFManipulator) pageTreeRoot() (int, error) {
+	trailer := m.pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return 0, fmt.Errorf("no root reference found")
+	}
+	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	if err != nil {
+		return 0, fmt.Errorf("failed to parse root reference: %w", err)
+	}
+	catalog, ok := m.objects[rootObjNum]
+	if !ok {
+		return 0, fmt.Errorf("failed to get catalog: object %d not found", rootObjNum)
+	}
+	pagesObjNum, ok := syntax.Reference(syntax.Lookup(catalog, "Pages"))
+	if !ok {
+		return 0, fmt.Errorf("no /Pages reference in catalog")
+	}
+	return pagesObjNum, nil
+}
+
+// pages returns the pages of the document in order
+func (m *PDFManipulator) pages() ([]pageNode, error) {
+	root, err := m.pageTreeRoot()
+	if err != nil {
+		return nil, err
+	}
+	if _, ok := m.objects[root]; !ok {
+		return nil, fmt.Errorf("Pages object %d not found", root)
+	}
+	return m.pagesBelow(pageNode{objNum: root}, make(map[int]bool)), nil
+}
+
+// pagesBelow returns the pages below a page tree node, or the node itself if it
+// is a page. Nodes visited already are left out.
+func (m *PDFManipulator) pagesBelow(node pageNode, visited map[int]bool) []pageNode {
+	dict, ok := m.objects[node.objNum]
+	if !ok || visited[node.objNum] {
+		return nil
+	}
+	visited[node.objNum] = true
+
+	kids := m.lookup(dict, "Kids")
+	pageType := string(m.lookup(dict, "Type"))
+	if pageType == "/Page" || pageType != "/Pages" && kids == nil {
+		return []pageNode{node}
+	}
+
+	var pages []pageNode
+	ancestors := append([]int{node.objNum}, node.ancestors...)
+	for i, kid := range syntax.ArrayElements(kids) {
+		if kidObjNum, ok := syntax.Reference(kid); ok {
+			pages = append(pages, m.pagesBelow(pageNode{kidObjNum, ancestors, i}, visited)...)
+		}
+	}
+	return pages
+}
+
+// kids returns the elements of a page tree node's Kids array
+func (m *PDFManipulator) kids(objNum int) [][]byte {
+	return syntax.ArrayElements(m.lookup(m.objects[objNum], "Kids"))
+}
+
+// setKids replaces the Kids array of a page tree node and adds delta to the page
+// counts of the node and its ancestors
+func (m *PDFManipulator) setKids(kids [][]byte, delta int, nodes []int) {
+	array := []byte("[")
+	for i, kid := range kids {
+		if i > 0 {
+			array = append(array, ' ')
+		}
+		array = append(array, kid...)
+	}
+	array = append(array, ']')
+	m.objects[nodes[0]] = syntax.SetKey(m.objects[nodes[0]], "Kids", array)
+
+	for _, objNum := range nodes {
+		count, _ := syntax.Number(m.lookup(m.objects[objNum], "Count"))
+		value := strconv.Itoa(max(int(count)+delta, 0))
+		m.objects[objNum] = syntax.SetKey(m.objects[objNum], "Count", []byte(value))
+	}
+}
+
+// reference returns a reference to an object. Objects are written with
+// generation 0.
+func reference(objNum int) []byte {
+	return []byte(fmt.Sprintf("%d 0 R", objNum))
+}
+
+// rawValue is a value in PDF syntax, written as it is
+type rawValue string
+
+// writeObject adds an object to a writer under a number, with its references
+// replaced by mapReference
+func writeObject(writer *write.PDFWriter, objects map[int][]byte, objNum int, value []byte, mapReference func(int) []byte) {
+	length := -1
+	lengthValue := syntax.Lookup(value, "Length")
+	if lengthObjNum, ok := syntax.Reference(lengthValue); ok {
+		lengthValue = objects[lengthObjNum]
+	}
+	if n, ok := syntax.Number(lengthValue); ok {
+		length = int(n)
+	}
+
+	dict, data, ok := syntax.SplitStream(value, length)
+	if !ok {
+		writer.SetObject(objNum, syntax.MapReferences(value, mapReference))
+		return
+	}
+	streamDict := make(write.Dictionary)
+	for _, entry := range syntax.Entries(dict, 0) {
+		entryValue := syntax.MapReferences(dict[entry.Start:entry.End], mapReference)
+		streamDict[syntax.EncodeName(entry.Key)] = rawValue(entryValue)
+	}
+	writer.SetStreamObject(objNum, streamDict, data, false)
+}
+
+// pageCopier copies pages of a document, with everything they need, to a writer
+type pageCopier struct {
+	source *PDFManipulator
+	writer *write.PDFWriter
+	parent int          // Object number of the new page tree node
+	pages  map[int]bool // Pages and page tree nodes of the source
+	copied map[int]int  // Object number in the source -> in the writer
+}
+
+// newPageCopier creates a copier that adds pages under the page tree node parent
+func newPageCopier(source *PDFManipulator, writer *write.PDFWriter, parent int) (*pageCopier, error) {
+	pages, err := source.pages()
+	if err != nil {
+		return nil, err
+	}
+	c := &pageCopier{
+		source: source,
+		writer: writer,
+		parent: parent,
+		pages:  make(map[int]bool),
+		copied: make(map[int]int),
+	}
+	for _, page := range pages {
+		c.pages[page.objNum] = true
+		for _, objNum := range page.ancestors {
+			c.pages[objNum] = true
+		}
+	}
+	return c, nil
+}
+
+// copyPages copies pages and returns their new object numbers. References to
+// pages that are not copied become null.
+func (c *pageCopier) copyPages(pages []pageNode) []int {
+	// Number the pages first, so that they can refer to each other
+	objNums := make([]int, len(pages))
+	for i, page := range pages {
+		objNums[i] = c.writer.AddObject(nil)
+		if _, ok := c.copied[page.objNum]; !ok {
+			c.copied[page.objNum] = objNums[i]
+		}
+	}
+
+	for i, page := range pages {
+		dict := c.source.objects[page.objNum]
+		for _, key := range inheritable {
+			if value := c.source.lookupInherited(page, key); value != nil {
+				dict = syntax.SetKey(dict, key, value)
+			}
+		}
+		dict = syntax.MapReferences(syntax.SetKey(dict, "Parent", nil), c.copyReference)
+		c.writer.SetObject(objNums[i], syntax.SetKey(dict, "Parent", reference(c.parent)))
+	}
+	return objNums
+}
+
+// copyReference returns a reference to the copy of an object, making it if
+// necessary
+func (c *pageCopier) copyReference(objNum int) []byte {
+	newObjNum, ok := c.copied[objNum]
+	if !ok {
+		value, exists := c.source.objects[objNum]
+		if !exists || c.pages[objNum] {
+			return []byte("null")
+		}
+		newObjNum = c.writer.AddObject(nil)
+		c.copied[objNum] = newObjNum
+		writeObject(c.writer, c.source.objects, newObjNum, value, c.copyReference)
+	}
+	return reference(newObjNum)
+}
+
+// finishPages writes the page tree node and the catalog of a document made of
+// copied pages
+func finishPages(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) {
+	kids := ""
+	for _, objNum := range pageObjNums {
+		kids += fmt.Sprintf("%d 0 R ", objNum)
+	}
+	writer.SetObject(pagesObjNum, []byte(fmt.Sprintf("<</Type/Pages/Kids[%s]/Count %d>>", kids, len(pageObjNums))))
+	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+	writer.SetRoot(catalogObjNum)
+}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..698ede8 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -2,9 +2,9 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
@@ -14,29 +14,15 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
 	}
 
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	page, err := m.getPage(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
 
-	// Get page object
-	pageObj, ok := m.objects[pageObjNum]
-	if !ok {
-		return fmt.Errorf("page object %d not found", pageObjNum)
-	}
-
-	pageStr := string(pageObj)
-
 	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
 	currentRot := 0
-	if currentRotStr != "" {
-		var parseErr error
-		currentRot, parseErr = strconv.Atoi(currentRotStr)
-		if parseErr != nil {
-			currentRot = 0
-		}
+	if rotate, ok := syntax.Number(m.resolve(m.lookupInherited(page, "Rotate"))); ok {
+		currentRot = int(rotate)
 	}
 
 	// Calculate new rotation (add to current, normalize to 0-360)
@@ -46,8 +32,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	}
 
 	// Update the /Rotate field
-	updatedPageStr := setDictValue(pageStr, "/Rotate", fmt.Sprintf("%d", newRot))
-	m.objects[pageObjNum] = []byte(updatedPageStr)
+	m.objects[page.objNum] = syntax.SetKey(m.objects[page.objNum], "Rotate", []byte(strconv.Itoa(newRot)))
 
 	if m.verbose {
 		fmt.Printf("Rotated page %d by %d degrees (old: %d, new: %d)\n", pageNumber, angle, currentRot, newRot)
@@ -74,111 +59,30 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 	return nil
 }
 
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
+// getPage gets the page with a given number (1-based)
+func (m *PDFManipulator) getPage(pageNumber int) (pageNode, error) {
+	pages, err := m.pages()
 	if err != nil {
-		return 0, err
+		return pageNode{}, err
 	}
 
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+	if pageNumber < 1 || pageNumber > len(pages) {
+		return pageNode{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
 	}
 
-	return pageObjNums[pageNumber-1], nil
+	return pages[pageNumber-1], nil
 }
 
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
+// getAllPageObjectNumbers gets all page object numbers from the pages tree, in page order
 func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return m.extractPageObjectNumbers(pagesObjNum)
-}
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	pages, err := m.pages()
 	if err != nil {
 		return nil, err
 	}
 
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
+	pageObjNums := make([]int, len(pages))
+	for i, page := range pages {
+		pageObjNums[i] = page.objNum
 	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
 	return pageObjNums, nil
 }
-
-// parseObjectRefArray parses an array of object references like "[5 0 R 6 0 R]"
-func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
-	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
-	}
-
-	return refs
-}
diff --git a/internal/syntax/edit.go b/internal/syntax/edit.go
new file mode 100644
index 0000000..11a433d
--- /dev/null
+++ b/internal/syntax/edit.go
@@ -0,0 +1,81 @@
+package syntax
+
+import (
+	"bytes"
+	"strings"
+)
+
+// SetKey returns a copy of the dictionary at the beginning of dict, and of
+// whatever follows it, in which key (without leading slash) has the given value.
+// A nil value removes the key.
+func SetKey(dict []byte, key string, value []byte) []byte {
+	pos := SkipSpace(dict, 0)
+	result := append([]byte{}, dict[:pos]...)
+	if !bytes.HasPrefix(dict[pos:], []byte("<<")) {
+		return append(result, dict[pos:]...)
+	}
+	result = append(result, "<<"...)
+	done := pos + len("<<")
+	found := value == nil
+	for _, entry := range Entries(dict, pos) {
+		if entry.Key != key {
+			result = append(result, dict[done:entry.End]...)
+		} else if !found {
+			found = true
+			result = append(result, dict[done:entry.Start]...)
+			if len(value) > 0 && !IsDelimiter(value[0]) && !IsSpace(dict[entry.Start-1]) {
+				result = append(result, ' ')
+			}
+			result = append(result, value...)
+		}
+		done = entry.End
+	}
+	if !found {
+		result = append(result, '/')
+		result = append(result, EncodeName(key)...)
+		result = append(result, ' ')
+		result = append(result, value...)
+		result = append(result, ' ')
+	}
+	return append(result, dict[done:]...)
+}
+
+// EncodeName escapes the characters of a name that cannot be written as they are.
+func EncodeName(name string) string {
+	const hexDigits = "0123456789ABCDEF"
+	var buf strings.Builder
+	for i := 0; i < len(name); i++ {
+		if c := name[i]; c <= ' ' || c > '~' || c == '#' || IsDelimiter(c) {
+			buf.WriteByte('#')
+			buf.WriteByte(hexDigits[c>>4])
+			buf.WriteByte(hexDigits[c&15])
+		} else {
+			buf.WriteByte(c)
+		}
+	}
+	return buf.String()
+}
+
+// MapReferences returns a copy of content, a sequence of tokens, in which every
+// indirect reference has been replaced by the result of f on its object number.
+func MapReferences(content []byte, f func(objNum int) []byte) []byte {
+	result := make([]byte, 0, len(content))
+	pos := 0
+	for {
+		start := SkipSpace(content, pos)
+		result = append(result, content[pos:start]...)
+		if start >= len(content) {
+			return result
+		}
+		end := SkipToken(content, start)
+		if isInteger(content[start:end]) {
+			if objNum, _, refEnd, ok := ReferenceAt(content, start); ok {
+				result = append(result, f(objNum)...)
+				pos = refEnd
+				continue
+			}
+		}
+		result = append(result, content[start:end]...)
+		pos = end
+	}
+}
diff --git a/internal/syntax/object.go b/internal/syntax/object.go
new file mode 100644
index 0000000..aaa54ef
--- /dev/null
+++ b/internal/syntax/object.go
@@ -0,0 +1,101 @@
+package syntax
+
+import (
+	"bytes"
+	"strconv"
+)
+
+// ObjectValue returns the value of an object in PDF syntax, without a possible
+// "N G obj" header. What follows the value is kept for streams only.
+func ObjectValue(obj []byte) []byte {
+	pos := SkipSpace(obj, 0)
+	header := pos
+	for i := 0; i < 2; i++ {
+		end := SkipRegular(obj, header)
+		if !isInteger(obj[header:end]) {
+			header = -1
+			break
+		}
+		header = SkipSpace(obj, end)
+	}
+	if header != -1 && bytes.HasPrefix(obj[header:], []byte("obj")) {
+		pos = SkipSpace(obj, header+len("obj"))
+	}
+
+	value := obj[pos:]
+	end := ValueEnd(value, 0)
+	if bytes.HasPrefix(value, []byte("<<")) && bytes.HasPrefix(value[SkipSpace(value, end):], []byte("stream")) {
+		return value
+	}
+	return value[:end]
+}
+
+// SplitStream splits a stream object's value into its dictionary and its data.
+// The data has the given length if "endstream" follows that many bytes, else it
+// extends to the last "endstream".
+func SplitStream(value []byte, length int) (dict, data []byte, ok bool) {
+	if !bytes.HasPrefix(value, []byte("<<")) {
+		return nil, nil, false
+	}
+	end := DictionaryEnd(value, 0)
+	if end == -1 {
+		return nil, nil, false
+	}
+	start := SkipSpace(value, end)
+	if !bytes.HasPrefix(value[start:], []byte("stream")) {
+		return value[:end], nil, false
+	}
+	start += len("stream")
+	if start < len(value) && value[start] == '\r' {
+		start++
+	}
+	if start < len(value) && value[start] == '\n' {
+		start++
+	}
+	data = value[start:]
+
+	if length >= 0 && length <= len(data) && bytes.HasPrefix(bytes.TrimLeft(data[length:], "\r\n"), []byte("endstream")) {
+		return value[:end], data[:length], true
+	}
+	if pos := bytes.LastIndex(data, []byte("endstream")); pos != -1 {
+		data = data[:pos]
+	}
+	data = bytes.TrimSuffix(data, []byte("\n"))
+	data = bytes.TrimSuffix(data, []byte("\r"))
+	return value[:end], data, true
+}
+
+// ArrayElements returns the elements of an array in PDF syntax.
+func ArrayElements(array []byte) [][]byte {
+	if len(array) == 0 || array[0] != '[' {
+		return nil
+	}
+	var elements [][]byte
+	pos := SkipSpace(array, 1)
+	for pos < len(array) && array[pos] != ']' {
+		end := ValueEnd(array, pos)
+		if end <= pos {
+			break
+		}
+		elements = append(elements, array[pos:end])
+		pos = SkipSpace(array, end)
+	}
+	return elements
+}
+
+// Reference returns the object number if value is an indirect reference.
+func Reference(value []byte) (objNum int, ok bool) {
+	objNum, _, end, ok := ReferenceAt(value, 0)
+	return objNum, ok && end == len(value)
+}
+
+// Number parses a number.
+func Number(token []byte) (float64, bool) {
+	for _, c := range token {
+		if (c < '0' || c > '9') && c != '+' && c != '-' && c != '.' {
+			return 0, false
+		}
+	}
+	number, err := strconv.ParseFloat(string(token), 64)
+	return number, err == nil
+}
diff --git a/types/types.go b/types/types.go
index 77ed7d3..bc28e0d 100644
--- a/types/types.go
+++ b/types/types.go
@@ -19,6 +19,7 @@ type PDFEncryption struct {
 	ObjNum          int    // Object number of the encryption dictionary (0 if direct)
 	StreamFilter    string // Crypt filter method for streams (V4+): "V2", "AESV2", "AESV3", "Identity"
 	StringFilter    string // Crypt filter method for strings (V4+)
+	Dict            []byte // Encryption dictionary in PDF syntax
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From e889e74a2700b92741081cf97d70d556307ca5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 30/93] fix: content extraction reads objects by token and
 interprets content streams as specified

Values are read lexically from resolved objects instead of with regular
expressions over their bytes, page attributes are inherited, cyclic trees end,
strings are decoded, stream filters and predictors are applied, text is decoded
through the font's encoding and ToUnicode map, positions go through the graphics
state, and resources, annotations, bookmarks and images are reported once, in
order.
---
 content/extract/annotations.go    | 214 ++++-----
 content/extract/bookmarks.go      | 159 +++----
 content/extract/content_stream.go | 737 +++++++++++++-----------------
 content/extract/dict_helpers.go   |  48 --
 content/extract/encoding.go       | 324 ++++++-------
 content/extract/extract.go        |  41 +-
 content/extract/images.go         | 296 ++----------
 content/extract/metadata.go       | 123 +----
 content/extract/object.go         | 302 ++++++++++++
 content/extract/pages.go          | 433 +++++-------------
 content/extract/resources.go      | 610 +++++--------------------
 11 files changed, 1211 insertions(+), 2076 deletions(-)
 delete mode 100644 content/extract/dict_helpers.go
 create mode 100644 content/extract/object.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..4f21605 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -2,64 +2,43 @@ package extract
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractAnnotations extracts annotations from a page's /Annots array
-func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
+func extractAnnotations(annots []byte, pdf *parse.PDF, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
 
-	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
-		}
-	}
-
-	for _, annotRef := range annotRefs {
-		annotObjNum, err := parseObjectRef(annotRef)
-		if err != nil {
+	for _, element := range syntax.ArrayElements(annots) {
+		annotation := extractAnnotation(asDict(resolveValue(pdf, element)), pdf)
+		if annotation == nil {
 			if verbose {
-				fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", annotRef, err)
+				fmt.Printf("Warning: failed to get annotation %s\n", element)
 			}
 			continue
 		}
-
-		annot := extractAnnotation(annotObjNum, pdf, pageNum, verbose)
-		if annot != nil {
-			annotations = append(annotations, *annot)
+		if objNum, ok := syntax.Reference(element); ok {
+			annotation.ID = strconv.Itoa(objNum)
 		}
+		annotations = append(annotations, *annotation)
 	}
 
 	return annotations
 }
 
-// extractAnnotation extracts a single annotation object
-func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
-	annotObj, err := pdf.GetObject(annotObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get annotation object %d: %v\n", annotObjNum, err)
-		}
-		return nil
-	}
-
-	annotStr := string(annotObj)
+// extractAnnotation extracts a single annotation from its dictionary
+func extractAnnotation(annot []byte, pdf *parse.PDF) *types.Annotation {
 	annotation := &types.Annotation{
-		ID:         fmt.Sprintf("%d", annotObjNum),
-		PageNumber: pageNum,
 		Properties: make(map[string]interface{}),
 	}
 
 	// Extract Subtype (annotation type)
-	subtype := extractDictValue(annotStr, "/Subtype")
+	subtype := lookupName(pdf, annot, "Subtype")
 	if subtype == "" {
 		// Not a valid annotation
 		return nil
@@ -87,7 +66,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/PolyLine", "/Polyline":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
@@ -105,114 +84,49 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
-	if len(rect) >= 4 {
-		annotation.Rect = &types.Rectangle{
-			LowerX: rect[0],
-			LowerY: rect[1],
-			UpperX: rect[2],
-			UpperY: rect[3],
-		}
-	}
+	annotation.Rect = rectangle(pdf, lookup(pdf, annot, "Rect"))
 
-	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
-	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
-	}
-
-	// Extract Title
-	title := extractDictValue(annotStr, "/T")
-	if title != "" {
-		annotation.Title = unescapePDFString(title)
-	}
-
-	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
-	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
-	}
+	// Extract Contents (annotation text/contents), Title and Subject
+	annotation.Contents = lookupText(pdf, annot, "Contents")
+	annotation.Title = lookupText(pdf, annot, "T")
+	annotation.Subject = lookupText(pdf, annot, "Subj")
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
-	if len(color) >= 3 {
-		annotation.Color = &types.Color{
-			Space: types.ColorSpaceRGB,
-			R:     color[0],
-			G:     color[1],
-			B:     color[2],
-		}
-		if len(color) >= 4 {
-			// CMYK
-			annotation.Color.Space = types.ColorSpaceCMYK
-			annotation.Color.C = color[0]
-			annotation.Color.M = color[1]
-			annotation.Color.Y = color[2]
-			annotation.Color.K = color[3]
-		}
+	switch color := lookupNumbers(pdf, annot, "C"); len(color) {
+	case 1:
+		annotation.Color = grayColor(color[0])
+	case 3:
+		annotation.Color = &types.Color{Space: types.ColorSpaceRGB, R: color[0], G: color[1], B: color[2]}
+	case 4:
+		annotation.Color = &types.Color{Space: types.ColorSpaceCMYK, C: color[0], M: color[1], Y: color[2], K: color[3]}
 	}
 
 	// Extract Border
-	borderWidthStr := extractDictValue(annotStr, "/Border")
-	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
-		if len(borderArray) > 0 {
-			annotation.Border = &types.Border{
-				Width: borderArray[0],
-			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
-			}
-		}
-	}
+	annotation.Border = extractBorder(pdf, annot)
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
-			}
+		action := asDict(lookup(pdf, annot, "A"))
+		annotation.URI = actionURI(pdf, action)
+		if annotation.URI == "" {
+			annotation.URI = actionURI(pdf, annot)
 		}
 
-		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
-		if dest != "" {
-			annotation.Destination = dest
+		// Named destination or array
+		dest := lookup(pdf, annot, "Dest")
+		if dest == nil && lookupName(pdf, action, "S") == "/GoTo" {
+			dest = lookup(pdf, action, "D")
 		}
+		annotation.Destination = destination(dest)
 	}
 
 	// Text annotation-specific
 	if annotation.Type == types.AnnotationTypeText {
 		// Extract Open (is annotation open/popup visible)
-		openStr := extractDictValue(annotStr, "/Open")
-		if openStr == "true" {
-			annotation.Open = true
-		}
+		annotation.Open = string(lookup(pdf, annot, "Open")) == "true"
 
 		// Extract Icon
-		icon := extractDictValue(annotStr, "/Name")
-		if icon != "" {
-			annotation.Icon = icon
-		}
+		annotation.Icon = lookupName(pdf, annot, "Name")
 	}
 
 	// Markup annotations: Extract QuadPoints (for highlight, underline, etc.)
@@ -220,18 +134,52 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
-		if len(quadPoints) >= 8 {
-			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
-			// For simplicity, extract first quad
-			annotation.QuadPoints = []types.Point{
-				{X: quadPoints[0], Y: quadPoints[1]},
-				{X: quadPoints[2], Y: quadPoints[3]},
-				{X: quadPoints[4], Y: quadPoints[5]},
-				{X: quadPoints[6], Y: quadPoints[7]},
+		// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
+		quadPoints := lookupNumbers(pdf, annot, "QuadPoints")
+		for i := 0; i+8 <= len(quadPoints); i += 8 {
+			for j := i; j < i+8; j += 2 {
+				annotation.QuadPoints = append(annotation.QuadPoints, types.Point{X: quadPoints[j], Y: quadPoints[j+1]})
 			}
 		}
 	}
 
 	return annotation
 }
+
+// extractBorder extracts the border of an annotation from its border style
+// dictionary or from its Border array [hRadius vRadius width [dash]]
+func extractBorder(pdf *parse.PDF, annot []byte) *types.Border {
+	if style := asDict(lookup(pdf, annot, "BS")); style != nil {
+		border := &types.Border{Width: 1, Dash: lookupNumbers(pdf, style, "D")}
+		if width, ok := syntax.Number(lookup(pdf, style, "W")); ok {
+			border.Width = width
+		}
+		switch lookupName(pdf, style, "S") {
+		case "/D":
+			border.Style = "dashed"
+		case "/B":
+			border.Style = "beveled"
+		case "/I":
+			border.Style = "inset"
+		case "/U":
+			border.Style = "underline"
+		default:
+			border.Style = "solid"
+		}
+		return border
+	}
+
+	elements := syntax.ArrayElements(lookup(pdf, annot, "Border"))
+	if len(elements) < 3 {
+		return nil
+	}
+	width, ok := syntax.Number(resolveValue(pdf, elements[2]))
+	if !ok {
+		return nil
+	}
+	border := &types.Border{Width: width}
+	if len(elements) > 3 {
+		border.Dash = numbers(pdf, resolveValue(pdf, elements[3]))
+	}
+	return border
+}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..b3a2ec7 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -2,126 +2,87 @@ package extract
 
 import (
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractBookmarks extracts bookmarks/outlines from a PDF
 func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bookmark, error) {
-	// Get catalog to find outlines
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
+	// Find outlines in catalog
+	outlines := asDict(lookup(pdf, catalog(pdf), "Outlines"))
+	if outlines == nil {
 		return []types.Bookmark{}, nil // No bookmarks
 	}
 
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
+	pageNumbers := make(map[int]int)
+	for i, objNum := range pageObjectNumbers(pdf) {
+		pageNumbers[objNum] = i + 1
 	}
 
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Find Outlines reference in catalog
-	outlinesRef := extractDictValue(string(catalogObj), "/Outlines")
-	if outlinesRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObjNum, err := parseObjectRef(outlinesRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObj, err := pdf.GetObject(outlinesObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Get First child
-	firstRef := extractDictValue(string(outlinesObj), "/First")
-	if firstRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	return bookmarks, nil
+	return extractBookmarkItems(pdf, outlines, pageNumbers, make(map[int]bool)), nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
-	var bookmarks []types.Bookmark
-
-	itemObjNum, err := parseObjectRef(itemRef)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemObj, err := pdf.GetObject(itemObjNum)
-	if err != nil {
-		return bookmarks, err
-	}
+// extractBookmarkItems extracts the items (First/Next chain) below an outline
+// item, following every item once
+func extractBookmarkItems(pdf *parse.PDF, parent []byte, pageNumbers map[int]int, visited map[int]bool) []types.Bookmark {
+	bookmarks := []types.Bookmark{}
 
-	itemStr := string(itemObj)
+	itemRef := syntax.Lookup(parent, "First")
+	for {
+		itemObjNum, ok := syntax.Reference(itemRef)
+		if !ok || visited[itemObjNum] {
+			return bookmarks
+		}
+		visited[itemObjNum] = true
+		item := getDict(pdf, itemObjNum)
+		if item == nil {
+			return bookmarks
+		}
 
-	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+		// Extract title
+		bookmark := types.Bookmark{Title: lookupText(pdf, item, "Title")}
 
-	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
-	uri := ""
-	if dest == "" {
-		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
+		// Extract destination or action
+		dest := lookup(pdf, item, "Dest")
+		if dest == nil {
+			action := asDict(lookup(pdf, item, "A"))
+			bookmark.URI = actionURI(pdf, action)
+			if lookupName(pdf, action, "S") == "/GoTo" {
+				dest = lookup(pdf, action, "D")
+			}
+		}
+		bookmark.Destination = destination(dest)
+		if elements := syntax.ArrayElements(dest); len(elements) > 0 {
+			if pageObjNum, ok := syntax.Reference(elements[0]); ok {
+				bookmark.PageNumber = pageNumbers[pageObjNum]
 			}
 		}
-	}
 
-	bookmark := types.Bookmark{
-		Title:       title,
-		Destination: dest,
-		URI:         uri,
-		Children:    []types.Bookmark{},
-	}
+		// Extract children
+		bookmark.Children = extractBookmarkItems(pdf, item, pageNumbers, visited)
+		bookmarks = append(bookmarks, bookmark)
 
-	// Extract children (First/Next chain)
-	firstRef := extractDictValue(itemStr, "/First")
-	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-		if err == nil {
-			bookmark.Children = children
-		}
+		// Get next sibling
+		itemRef = syntax.Lookup(item, "Next")
 	}
+}
 
-	bookmarks = append(bookmarks, bookmark)
-
-	// Get next sibling
-	nextRef := extractDictValue(itemStr, "/Next")
-	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
-		if err == nil {
-			bookmarks = append(bookmarks, siblings...)
-		}
+// destination returns a destination as text: the name of a named destination,
+// an explicit destination as it is written
+func destination(dest []byte) string {
+	if syntax.IsString(dest) {
+		return decodeTextString(syntax.DecodeString(dest))
 	}
+	if len(dest) > 0 && dest[0] == '/' {
+		return "/" + syntax.DecodeName(dest)
+	}
+	return string(dest)
+}
 
-	return bookmarks, nil
+// actionURI returns the URI of a URI action, or ""
+func actionURI(pdf *parse.PDF, action []byte) string {
+	if uri := lookup(pdf, action, "URI"); syntax.IsString(uri) {
+		return decodeTextString(syntax.DecodeString(uri))
+	}
+	return ""
 }
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..b3b820f 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -1,363 +1,343 @@
 package extract
 
 import (
-	"regexp"
-	"strconv"
 	"strings"
+	"unicode/utf8"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// parseContentStream parses a PDF content stream and extracts text, graphics, and images
-func parseContentStream(contentStr string, pdf *parse.PDF, pageNum int, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	// Call with nil decoders for backward compatibility
-	return parseContentStreamWithDecoders(contentStr, pdf, pageNum, nil, verbose)
-}
-
-// parseContentStreamWithDecoders parses a PDF content stream with font decoding support
-func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum int, fontDecoders map[string]*FontDecoder, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	var textElements []types.TextElement
-	var graphics []types.Graphic
-	var imageRefs []types.ImageRef
-
-	// Parse text state
-	textState := &textState{
-		fontName:    "",
-		fontSize:    0,
-		x:           0,
-		y:           0,
-		charSpacing: 0,
-		wordSpacing: 0,
-		textRise:    0,
-		textMatrix:  [6]float64{1, 0, 0, 1, 0, 0},
-		inText:      false,
+// parseContentStream parses a PDF content stream and extracts text, graphics, and images.
+// Fonts are decoded with fontDecoders; XObjects listed in resources as anything
+// but an image are not reported as images.
+func parseContentStream(content []byte, resources *types.PageResources, fontDecoders map[string]*FontDecoder) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
+	interpreter := &contentInterpreter{
+		resources:    resources,
+		fontDecoders: fontDecoders,
+		state: contentState{
+			ctm:         identityMatrix,
+			lineWidth:   1,
+			fillColor:   &types.Color{Space: types.ColorSpaceGray}, // Default black
+			strokeColor: &types.Color{Space: types.ColorSpaceGray},
+		},
+		textMatrix: identityMatrix,
+		lineMatrix: identityMatrix,
 	}
 
-	// Parse graphics state
-	graphicsState := &graphicsState{
-		lineWidth:   1,
-		fillColor:   &types.Color{R: 0, G: 0, B: 0}, // Default black
-		strokeColor: &types.Color{R: 0, G: 0, B: 0},
+	// Collect operands up to the next operator
+	var operands [][]byte
+	pos := syntax.SkipSpace(content, 0)
+	for pos < len(content) {
+		end := syntax.SkipRegular(content, pos)
+		if end == pos {
+			// String, array, dictionary or name
+			end = syntax.ValueEnd(content, pos)
+			if end <= pos {
+				end = pos + 1 // Stray delimiter
+			}
+			operands = append(operands, content[pos:end])
+		} else if token := content[pos:end]; isOperand(token) {
+			operands = append(operands, token)
+		} else {
+			interpreter.execute(string(token), operands)
+			operands = operands[:0]
+			if string(token) == "ID" {
+				end = inlineImageEnd(content, end)
+			}
+		}
+		pos = syntax.SkipSpace(content, end)
 	}
 
-	// Track current transformation matrix (for images)
-	// Default is identity matrix [1 0 0 1 0 0]
-	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
-	matrixStack := [][6]float64{} // Stack for q/Q operators
-
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
-	for _, line := range lines {
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
+	return interpreter.textElements, interpreter.graphics, interpreter.imageRefs
+}
 
-		// Parse text operators
-		if strings.HasPrefix(line, "BT") {
-			textState.inText = true
-			continue
-		}
-		if strings.HasPrefix(line, "ET") {
-			textState.inText = false
-			continue
-		}
+// isOperand reports whether a regular token is an operand rather than an operator
+func isOperand(token []byte) bool {
+	switch string(token) {
+	case "true", "false", "null":
+		return true
+	}
+	_, ok := syntax.Number(token)
+	return ok
+}
 
-		// Text positioning
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
-			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
-				}
-			}
-			continue
+// inlineImageEnd returns the position after the EI operator closing inline image
+// data whose ID operator ends at pos
+func inlineImageEnd(content []byte, pos int) int {
+	for i := pos + 1; i+2 <= len(content); i++ {
+		if content[i] == 'E' && content[i+1] == 'I' && syntax.IsSpace(content[i-1]) &&
+			(i+2 == len(content) || syntax.IsSpace(content[i+2])) {
+			return i + 2
 		}
+	}
+	return len(content)
+}
 
-		// Text matrix
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
-			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
-			continue
-		}
+// matrix is a transformation matrix [a b c d e f]
+type matrix = [6]float64
 
-		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
-			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
-				textState.fontSize = size
-			}
-			// Set font decoder if available
-			if fontDecoders != nil {
-				textState.decoder = fontDecoders[textState.fontName]
-			}
-			continue
-		}
+var identityMatrix = matrix{1, 0, 0, 1, 0, 0}
 
-		// Character spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tc`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.charSpacing = val
-			}
-			continue
-		}
+// multiply returns the matrix that applies m first and n second
+func multiply(m, n matrix) matrix {
+	return matrix{
+		m[0]*n[0] + m[1]*n[2],
+		m[0]*n[1] + m[1]*n[3],
+		m[2]*n[0] + m[3]*n[2],
+		m[2]*n[1] + m[3]*n[3],
+		m[4]*n[0] + m[5]*n[2] + n[4],
+		m[4]*n[1] + m[5]*n[3] + n[5],
+	}
+}
 
-		// Word spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tw`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.wordSpacing = val
-			}
-			continue
-		}
+// transform maps a point through a matrix
+func transform(m matrix, x, y float64) (float64, float64) {
+	return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
+}
 
-		// Text rise
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Ts`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.textRise = val
-			}
+// boundingBox returns the bounding box of two opposite corners mapped through a matrix
+func boundingBox(m matrix, x1, y1, x2, y2 float64) *types.Rectangle {
+	box := &types.Rectangle{}
+	for i, corner := range [][2]float64{{x1, y1}, {x2, y1}, {x1, y2}, {x2, y2}} {
+		x, y := transform(m, corner[0], corner[1])
+		if i == 0 {
+			box.LowerX, box.LowerY, box.UpperX, box.UpperY = x, y, x, y
 			continue
 		}
+		box.LowerX, box.UpperX = min(box.LowerX, x), max(box.UpperX, x)
+		box.LowerY, box.UpperY = min(box.LowerY, y), max(box.UpperY, y)
+	}
+	return box
+}
 
-		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Literal string
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Hex string
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
+// contentState is the part of the graphics state that q saves and Q restores
+type contentState struct {
+	ctm         matrix
+	lineWidth   float64
+	fillColor   *types.Color
+	strokeColor *types.Color
 
-		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
+	// Text state
+	fontName    string
+	fontSize    float64
+	charSpacing float64
+	wordSpacing float64
+	textRise    float64
+	leading     float64
+	decoder     *FontDecoder // Current font decoder for text extraction
+}
 
-		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
+// contentInterpreter interprets the operators of a content stream
+type contentInterpreter struct {
+	resources    *types.PageResources
+	fontDecoders map[string]*FontDecoder
 
-		// Graphics operations
-		// Rectangle (re operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+re`).FindStringSubmatch(line); match != nil {
-			if x, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if y, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if w, err := strconv.ParseFloat(match[3], 64); err == nil {
-						if h, err := strconv.ParseFloat(match[4], 64); err == nil {
-							graphic := types.Graphic{
-								Type:        types.GraphicTypeRectangle,
-								FillColor:   graphicsState.fillColor,
-								StrokeColor: graphicsState.strokeColor,
-								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
-							}
-							graphics = append(graphics, graphic)
-						}
-					}
-				}
-			}
-			continue
-		}
+	state      contentState
+	stack      []contentState
+	textMatrix matrix
+	lineMatrix matrix
 
-		// Move to (m operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+m`).FindStringSubmatch(line); match != nil {
-			// Start of a path - we'll track this for line/path extraction
-			// For now, just note it
-			continue
-		}
+	// Current path
+	pointX, pointY float64
+	path           []types.Graphic
 
-		// Line to (l operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+l`).FindStringSubmatch(line); match != nil {
-			// Simplified - would need to track path start
-			// For now, just note that a line was drawn
-			graphic := types.Graphic{
-				Type:        types.GraphicTypeLine,
-				StrokeColor: graphicsState.strokeColor,
-				LineWidth:   graphicsState.lineWidth,
-			}
-			graphics = append(graphics, graphic)
-			continue
-		}
+	textElements []types.TextElement
+	graphics     []types.Graphic
+	imageRefs    []types.ImageRef
+}
 
-		// Stroke (S operator)
-		if strings.HasPrefix(line, "S") {
-			// Stroke the current path
-			continue
+// operandNumbers returns the last n operands as numbers
+func operandNumbers(operands [][]byte, n int) ([]float64, bool) {
+	if len(operands) < n {
+		return nil, false
+	}
+	values := make([]float64, n)
+	for i, operand := range operands[len(operands)-n:] {
+		value, ok := syntax.Number(operand)
+		if !ok {
+			return nil, false
 		}
+		values[i] = value
+	}
+	return values, true
+}
 
-		// Fill (f operator)
-		if strings.HasPrefix(line, "f") {
-			// Fill the current path
-			continue
-		}
+// numericOperands is the number of numeric operands of the operators that only have such
+var numericOperands = map[string]int{
+	"cm": 6, "w": 1, "g": 1, "G": 1, "rg": 3, "RG": 3, "k": 4, "K": 4,
+	"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "re": 4,
+	"Td": 2, "TD": 2, "Tm": 6, "Tc": 1, "Tw": 1, "Ts": 1, "TL": 1,
+}
 
-		// Save graphics state (q operator) - push current matrix to stack
-		if strings.TrimSpace(line) == "q" {
-			matrixStack = append(matrixStack, currentMatrix)
-			continue
-		}
+// execute interprets one operator. Operators without their operands are ignored.
+func (ci *contentInterpreter) execute(operator string, operands [][]byte) {
+	state := &ci.state
 
-		// Restore graphics state (Q operator) - pop matrix from stack
-		if strings.TrimSpace(line) == "Q" {
-			if len(matrixStack) > 0 {
-				currentMatrix = matrixStack[len(matrixStack)-1]
-				matrixStack = matrixStack[:len(matrixStack)-1]
-			}
-			continue
+	var n []float64
+	if count := numericOperands[operator]; count > 0 {
+		var ok bool
+		if n, ok = operandNumbers(operands, count); !ok {
+			return
 		}
+	}
+	var operand []byte
+	if len(operands) > 0 {
+		operand = operands[len(operands)-1]
+	}
 
-		// Set transformation matrix (cm operator)
-		// Format: a b c d e f cm
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+cm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
-			}
-			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
-			continue
+	switch operator {
+	// Graphics state
+	case "q":
+		ci.stack = append(ci.stack, *state)
+	case "Q":
+		if len(ci.stack) > 0 {
+			*state = ci.stack[len(ci.stack)-1]
+			ci.stack = ci.stack[:len(ci.stack)-1]
 		}
-
-		// Set line width (w operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+w`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				graphicsState.lineWidth = val
-			}
-			continue
+	case "cm":
+		state.ctm = multiply(matrix(n), state.ctm)
+	case "w":
+		state.lineWidth = n[0]
+
+	// Colors
+	case "g":
+		state.fillColor = grayColor(n[0])
+	case "G":
+		state.strokeColor = grayColor(n[0])
+	case "rg":
+		state.fillColor = &types.Color{Space: types.ColorSpaceRGB, R: n[0], G: n[1], B: n[2]}
+	case "RG":
+		state.strokeColor = &types.Color{Space: types.ColorSpaceRGB, R: n[0], G: n[1], B: n[2]}
+	case "k":
+		state.fillColor = &types.Color{Space: types.ColorSpaceCMYK, C: n[0], M: n[1], Y: n[2], K: n[3]}
+	case "K":
+		state.strokeColor = &types.Color{Space: types.ColorSpaceCMYK, C: n[0], M: n[1], Y: n[2], K: n[3]}
+
+	// Path construction
+	case "m":
+		ci.pointX, ci.pointY = n[0], n[1]
+	case "c", "v", "y":
+		ci.pointX, ci.pointY = n[len(n)-2], n[len(n)-1]
+	case "l":
+		ci.path = append(ci.path, types.Graphic{
+			Type:        types.GraphicTypeLine,
+			StrokeColor: state.strokeColor,
+			LineWidth:   state.lineWidth,
+			BoundingBox: boundingBox(state.ctm, ci.pointX, ci.pointY, n[0], n[1]),
+		})
+		ci.pointX, ci.pointY = n[0], n[1]
+	case "re":
+		ci.path = append(ci.path, types.Graphic{
+			Type:        types.GraphicTypeRectangle,
+			FillColor:   state.fillColor,
+			StrokeColor: state.strokeColor,
+			LineWidth:   state.lineWidth,
+			BoundingBox: boundingBox(state.ctm, n[0], n[1], n[0]+n[2], n[1]+n[3]),
+		})
+		ci.pointX, ci.pointY = n[0], n[1]
+
+	// Path painting
+	case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*":
+		ci.graphics = append(ci.graphics, ci.path...)
+		ci.path = nil
+	case "n":
+		ci.path = nil
+
+	// Text objects, state and positioning
+	case "BT":
+		ci.textMatrix, ci.lineMatrix = identityMatrix, identityMatrix
+	case "Tf":
+		size, ok := operandNumbers(operands, 1)
+		if !ok || len(operands) < 2 || operands[len(operands)-2][0] != '/' {
+			return
 		}
-
-		// Set fill color RGB (rg operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+rg`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.fillColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
+		state.fontName = "/" + syntax.DecodeName(operands[len(operands)-2])
+		state.fontSize = size[0]
+		// Set font decoder if available
+		state.decoder = ci.fontDecoders[state.fontName]
+	case "Tc":
+		state.charSpacing = n[0]
+	case "Tw":
+		state.wordSpacing = n[0]
+	case "Ts":
+		state.textRise = n[0]
+	case "TL":
+		state.leading = n[0]
+	case "Td":
+		ci.moveText(n[0], n[1])
+	case "TD":
+		state.leading = -n[1]
+		ci.moveText(n[0], n[1])
+	case "T*":
+		ci.moveText(0, -state.leading)
+	case "Tm":
+		ci.textMatrix = matrix(n)
+		ci.lineMatrix = ci.textMatrix
+
+	// Text showing
+	case "Tj":
+		ci.showText(operand)
+	case "TJ":
+		ci.showText(syntax.ArrayElements(operand)...)
+	case "'":
+		ci.moveText(0, -state.leading)
+		ci.showText(operand)
+	case "\"":
+		if len(operands) < 3 {
+			return
 		}
-
-		// Set stroke color RGB (RG operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+RG`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.strokeColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
+		spacing, ok := operandNumbers(operands[:len(operands)-1], 2)
+		if !ok {
+			return
 		}
-
-		// Draw image (Do operator)
-		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
-			// Transformation matrix [a b c d e f] where:
-			// - a, d are scale factors (width, height)
-			// - e, f are translation (x, y position)
-			// For DrawImageAt pattern: [width 0 0 height x y]
-			x := currentMatrix[4]      // e (translation X)
-			y := currentMatrix[5]      // f (translation Y)
-			width := currentMatrix[0]  // a (scale X)
-			height := currentMatrix[3] // d (scale Y)
-
-			// Handle negative scales (flipped images)
-			if width < 0 {
-				width = -width
-			}
-			if height < 0 {
-				height = -height
-			}
-
-			imageRef := types.ImageRef{
-				ImageID:   match[1],
-				X:         x,
-				Y:         y,
-				Width:     width,
-				Height:    height,
-				Transform: currentMatrix,
-			}
-			imageRefs = append(imageRefs, imageRef)
-			continue
+		state.wordSpacing, state.charSpacing = spacing[0], spacing[1]
+		ci.moveText(0, -state.leading)
+		ci.showText(operand)
+
+	// XObjects
+	case "Do":
+		if len(operand) > 0 && operand[0] == '/' {
+			ci.drawXObject(syntax.DecodeName(operand))
 		}
 	}
-
-	return textElements, graphics, imageRefs
 }
 
-// textState tracks the current text rendering state
-type textState struct {
-	fontName    string
-	fontSize    float64
-	x           float64
-	y           float64
-	charSpacing float64
-	wordSpacing float64
-	textRise    float64
-	textMatrix  [6]float64
-	inText      bool
-	decoder     *FontDecoder // Current font decoder for text extraction
+// grayColor returns a DeviceGray color
+func grayColor(gray float64) *types.Color {
+	return &types.Color{Space: types.ColorSpaceGray, R: gray, G: gray, B: gray}
 }
 
-// graphicsState tracks the current graphics rendering state
-type graphicsState struct {
-	lineWidth   float64
-	fillColor   *types.Color
-	strokeColor *types.Color
+// moveText moves to the start of a line offset from the start of the current one
+func (ci *contentInterpreter) moveText(tx, ty float64) {
+	ci.lineMatrix = multiply(matrix{1, 0, 0, 1, tx, ty}, ci.lineMatrix)
+	ci.textMatrix = ci.lineMatrix
 }
 
-// createTextElement creates a TextElement from text and current text state
-func createTextElement(text string, state *textState) types.TextElement {
+// showText adds a text element for the strings among the elements of a TJ array
+func (ci *contentInterpreter) showText(elements ...[]byte) {
+	state := &ci.state
+	var text strings.Builder
+	shown := false
+	for _, element := range elements {
+		if !syntax.IsString(element) {
+			continue // Adjustment
+		}
+		shown = true
+		text.WriteString(decodeTextWithFont(syntax.DecodeString(element), state.decoder))
+	}
+	if !shown {
+		return
+	}
+
+	x, y := transform(state.ctm, ci.textMatrix[4], ci.textMatrix[5])
 	// Calculate approximate width (simplified - would need font metrics)
-	width := float64(len(text)) * state.fontSize * 0.6
+	width := float64(utf8.RuneCountInString(text.String())) * state.fontSize * 0.6
 
-	return types.TextElement{
-		Text:        text,
-		X:           state.x,
-		Y:           state.y,
+	ci.textElements = append(ci.textElements, types.TextElement{
+		Text:        text.String(),
+		X:           x,
+		Y:           y,
 		Width:       width,
 		Height:      state.fontSize,
 		FontName:    state.fontName,
@@ -365,121 +345,44 @@ func createTextElement(text string, state *textState) types.TextElement {
 		CharSpacing: state.charSpacing,
 		WordSpacing: state.wordSpacing,
 		TextRise:    state.textRise,
-		TextMatrix:  state.textMatrix,
-	}
+		TextMatrix:  ci.textMatrix,
+	})
 }
 
-// parseTextArray parses a TJ text array and concatenates strings
-// Format: [ (text1) -50 (text2) ] where numbers are adjustments
-func parseTextArray(arrStr string) string {
-	return parseTextArrayWithDecoder(arrStr, nil)
-}
-
-// parseTextArrayWithDecoder parses a TJ text array with font decoding
-func parseTextArrayWithDecoder(arrStr string, decoder *FontDecoder) string {
-	var result strings.Builder
-
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Parse elements - strings in parentheses, hex strings, or numbers
-	// Pattern: (text) or <hex> or number
-	// We need to handle both literal and hex strings
-	i := 0
-	for i < len(arrStr) {
-		// Skip whitespace
-		for i < len(arrStr) && (arrStr[i] == ' ' || arrStr[i] == '\t' || arrStr[i] == '\n' || arrStr[i] == '\r') {
-			i++
-		}
-		if i >= len(arrStr) {
-			break
-		}
-
-		if arrStr[i] == '(' {
-			// Literal string - find matching closing paren (handle escapes)
-			start := i + 1
-			depth := 1
-			i++
-			for i < len(arrStr) && depth > 0 {
-				if arrStr[i] == '\\' && i+1 < len(arrStr) {
-					i += 2 // Skip escaped character
-					continue
-				}
-				if arrStr[i] == '(' {
-					depth++
-				} else if arrStr[i] == ')' {
-					depth--
-				}
-				i++
-			}
-			if depth == 0 {
-				rawText := unescapePDFString(arrStr[start : i-1])
-				text := decodeTextWithFont(rawText, decoder, false)
-				result.WriteString(text)
-			}
-		} else if arrStr[i] == '<' {
-			// Hex string - find closing >
-			start := i + 1
-			i++
-			for i < len(arrStr) && arrStr[i] != '>' {
-				i++
-			}
-			if i < len(arrStr) {
-				hexStr := arrStr[start:i]
-				text := decodeTextWithFont(hexStr, decoder, true)
-				result.WriteString(text)
-				i++ // Skip >
-			}
-		} else if arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9') {
-			// Number (adjustment) - skip it
-			for i < len(arrStr) && (arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9')) {
-				i++
-			}
-		} else {
-			i++ // Skip unknown character
+// drawXObject adds an image reference for an image XObject
+func (ci *contentInterpreter) drawXObject(name string) {
+	if ci.resources != nil {
+		if xobject, ok := ci.resources.XObjects[name]; ok && xobject.Subtype != "/Image" {
+			return
 		}
 	}
 
-	return result.String()
+	// The image fills the unit square mapped through the transformation matrix;
+	// for the DrawImageAt pattern that is [width 0 0 height x y]
+	ctm := ci.state.ctm
+	box := boundingBox(ctm, 0, 0, 1, 1)
+	ci.imageRefs = append(ci.imageRefs, types.ImageRef{
+		ImageID:   "/" + name,
+		X:         ctm[4],
+		Y:         ctm[5],
+		Width:     box.UpperX - box.LowerX,
+		Height:    box.UpperY - box.LowerY,
+		Transform: ctm,
+	})
 }
 
 // decodeTextWithFont decodes raw text bytes using the font's encoding
-func decodeTextWithFont(rawText string, decoder *FontDecoder, isHex bool) string {
-	if decoder == nil {
-		// No decoder available - return as-is (original behavior)
-		if isHex {
-			// Decode hex to bytes and return as Latin-1
-			return decodeHexToLatin1(rawText)
-		}
-		return rawText
+func decodeTextWithFont(rawText []byte, decoder *FontDecoder) string {
+	if decoder != nil {
+		return decoder.Decode(rawText)
 	}
-
-	if isHex {
-		return decoder.DecodeHex(rawText)
-	}
-	return decoder.Decode([]byte(rawText))
-}
-
-// decodeHexToLatin1 decodes a hex string to Latin-1 text (fallback when no font decoder)
-func decodeHexToLatin1(hexStr string) string {
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
+	// No decoder available - return as-is, as Latin-1 if that is not text
+	if utf8.Valid(rawText) {
+		return string(rawText)
 	}
-
-	var result strings.Builder
-	for i := 0; i < len(hexStr); i += 2 {
-		if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-			result.WriteRune(rune(val))
-		}
+	runes := make([]rune, len(rawText))
+	for i, c := range rawText {
+		runes[i] = rune(c)
 	}
-	return result.String()
+	return string(runes)
 }
-
-// unescapePDFString is defined in metadata.go
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
deleted file mode 100644
index 2467c6e..0000000
--- a/content/extract/dict_helpers.go
+++ /dev/null
@@ -1,48 +0,0 @@
-package extract
-
-import "strings"
-
-// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
-// For example, from "/Resources<<...>>", extracts the "<<...>>" part
-func extractInlineDict(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Find the dictionary after the key
-	dictStart := keyIdx + len(key)
-	for dictStart < len(dictStr) && (dictStr[dictStart] == ' ' || dictStr[dictStart] == '\n' || dictStr[dictStart] == '\r') {
-		dictStart++
-	}
-
-	// Check if it's a dictionary <<...>>
-	if dictStart+1 >= len(dictStr) || dictStr[dictStart] != '<' || dictStr[dictStart+1] != '<' {
-		return ""
-	}
-
-	// Find matching >>
-	dictEnd := dictStart + 2
-	depth := 1
-	for dictEnd+1 < len(dictStr) && depth > 0 {
-		if dictStr[dictEnd] == '>' && dictStr[dictEnd+1] == '>' {
-			depth--
-			if depth == 0 {
-				// Return the dictionary content (without << >>)
-				return dictStr[dictStart+2 : dictEnd]
-			}
-			dictEnd += 2
-		} else if dictEnd+1 < len(dictStr) && dictStr[dictEnd] == '<' && dictStr[dictEnd+1] == '<' {
-			depth++
-			dictEnd += 2
-		} else {
-			dictEnd++
-		}
-	}
-
-	if depth == 0 {
-		return dictStr[dictStart+2 : dictEnd]
-	}
-
-	return ""
-}
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..9a704dc 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -1,15 +1,17 @@
 package extract
 
 import (
-	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
 type FontDecoder struct {
 	// ToUnicode mapping from character codes to Unicode (highest priority)
-	toUnicode map[int]rune
+	toUnicode map[int]string
 
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
@@ -17,6 +19,11 @@ type FontDecoder struct {
 	// Differences array overlays the base encoding
 	differences map[int]rune
 
+	// Bytes per character code: 1 (simple fonts), 2 (composite fonts) or 0 if
+	// unknown, in which case a ToUnicode mapping above 255 means 2
+	codeSize int
+	maxCode  int // Highest code with a ToUnicode mapping
+
 	// Font name for debugging
 	fontName string
 }
@@ -24,7 +31,7 @@ type FontDecoder struct {
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
+		toUnicode:    make(map[int]string),
 		baseEncoding: make(map[int]rune),
 		differences:  make(map[int]rune),
 		fontName:     fontName,
@@ -58,253 +65,188 @@ func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
 
 // SetToUnicode adds a ToUnicode mapping
 func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
-	fd.toUnicode[code] = unicode
+	fd.mapCode(code, string(unicode))
+}
+
+// mapCode adds a ToUnicode mapping to any number of characters
+func (fd *FontDecoder) mapCode(code int, text string) {
+	fd.toUnicode[code] = text
+	fd.maxCode = max(fd.maxCode, code)
 }
 
 // Decode decodes a byte slice to a Unicode string using the font's encoding
 func (fd *FontDecoder) Decode(data []byte) string {
 	var result strings.Builder
 
-	for _, b := range data {
-		code := int(b)
-		var char rune
-
-		// Priority: ToUnicode > Differences > BaseEncoding > Identity
-		if unicode, ok := fd.toUnicode[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.differences[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.baseEncoding[code]; ok {
-			char = unicode
-		} else {
-			// Default: treat as Latin-1 (ISO-8859-1)
-			char = rune(code)
+	if fd.codeSize == 1 || fd.codeSize == 0 && fd.maxCode <= 255 {
+		// 1-byte character codes
+		for _, b := range data {
+			result.WriteString(fd.lookupCode(int(b)))
 		}
-
-		result.WriteRune(char)
+		return result.String()
 	}
 
-	return result.String()
-}
-
-// DecodeHex decodes a hex string to Unicode using the font's encoding
-func (fd *FontDecoder) DecodeHex(hexStr string) string {
-	// Remove < and > if present
-	hexStr = strings.TrimPrefix(hexStr, "<")
-	hexStr = strings.TrimSuffix(hexStr, ">")
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad with 0 if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
+	// 2-byte character codes
+	for len(data) >= 2 {
+		result.WriteString(fd.lookupCode(int(data[0])<<8 | int(data[1])))
+		data = data[2:]
 	}
-
-	var result strings.Builder
-
-	// Check if this is a 2-byte encoding (common for CID fonts)
-	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
-
-	if is2Byte && len(hexStr) >= 4 {
-		// 2-byte character codes
-		for i := 0; i < len(hexStr); i += 4 {
-			if i+4 > len(hexStr) {
-				// Remaining single byte
-				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
-				}
-				break
-			}
-			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
-			}
-		}
-	} else {
-		// 1-byte character codes
-		for i := 0; i < len(hexStr); i += 2 {
-			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
-			}
-		}
+	if len(data) == 1 {
+		// Remaining single byte
+		result.WriteString(fd.lookupCode(int(data[0])))
 	}
 
 	return result.String()
 }
 
-// has2ByteMapping checks if the font has 2-byte ToUnicode mappings
-func (fd *FontDecoder) has2ByteMapping() bool {
-	for code := range fd.toUnicode {
-		if code > 255 {
-			return true
-		}
-	}
-	return false
+// DecodeHex decodes a hex string to Unicode using the font's encoding
+func (fd *FontDecoder) DecodeHex(hexStr string) string {
+	// Add < and > unless present
+	hexStr = strings.TrimSuffix(strings.TrimPrefix(hexStr, "<"), ">")
+	return fd.Decode(syntax.DecodeString([]byte("<" + hexStr + ">")))
 }
 
 // lookupCode looks up a character code in all encoding tables
-func (fd *FontDecoder) lookupCode(code int) rune {
+func (fd *FontDecoder) lookupCode(code int) string {
+	// Priority: ToUnicode > Differences > BaseEncoding > Identity
 	if unicode, ok := fd.toUnicode[code]; ok {
 		return unicode
 	}
 	if unicode, ok := fd.differences[code]; ok {
-		return unicode
+		return string(unicode)
 	}
-	if code < 256 {
-		if unicode, ok := fd.baseEncoding[code]; ok {
-			return unicode
-		}
+	if unicode, ok := fd.baseEncoding[code]; ok {
+		return string(unicode)
 	}
-	// Default: treat as Unicode code point (for Identity-H)
-	if code < 0x10000 {
-		return rune(code)
-	}
-	return '?'
+	// Default: treat as Latin-1 (ISO-8859-1) or Unicode code point (for Identity-H)
+	return string(rune(code))
 }
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
 func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
-	// Parse beginbfchar...endbfchar sections (single character mappings)
-	// Format: <srcCode> <dstUnicode>
-	bfcharPattern := regexp.MustCompile(`beginbfchar\s*([\s\S]*?)\s*endbfchar`)
-	bfcharMatches := bfcharPattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfcharMatches {
-		fd.parseBfcharBlock(match[1])
-	}
-
-	// Parse beginbfrange...endbfrange sections (range mappings)
-	// Format: <srcCodeLo> <srcCodeHi> <dstUnicode> or <srcCodeLo> <srcCodeHi> [<dst1> <dst2> ...]
-	bfrangePattern := regexp.MustCompile(`beginbfrange\s*([\s\S]*?)\s*endbfrange`)
-	bfrangeMatches := bfrangePattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfrangeMatches {
-		fd.parseBfrangeBlock(match[1])
+	data := []byte(cmapData)
+
+	// Collect operands up to the next operator
+	var operands [][]byte
+	for pos := syntax.SkipSpace(data, 0); pos < len(data); {
+		end := syntax.SkipRegular(data, pos)
+		if end == pos {
+			// String, array, dictionary or name
+			end = syntax.ValueEnd(data, pos)
+			if end <= pos {
+				end = pos + 1 // Stray delimiter
+			}
+			operands = append(operands, data[pos:end])
+		} else {
+			switch string(data[pos:end]) {
+			case "endbfchar":
+				fd.parseBfchars(operands)
+			case "endbfrange":
+				fd.parseBfranges(operands)
+			}
+			operands = operands[:0]
+		}
+		pos = syntax.SkipSpace(data, end)
 	}
 }
 
-// parseBfcharBlock parses a bfchar block
-func (fd *FontDecoder) parseBfcharBlock(block string) {
-	// Match pairs of hex values: <srcCode> <dstUnicode>
-	linePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	matches := linePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range matches {
-		srcCode, err := strconv.ParseInt(match[1], 16, 32)
-		if err != nil {
-			continue
-		}
-		// Destination can be multi-byte Unicode
-		dstHex := match[2]
-		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
+// parseBfchars parses single character mappings: <srcCode> <dstUnicode> ...
+func (fd *FontDecoder) parseBfchars(operands [][]byte) {
+	for ; len(operands) >= 2; operands = operands[2:] {
+		if code, ok := characterCode(operands[0]); ok && syntax.IsString(operands[1]) {
+			// Destination can be several UTF-16 characters
+			fd.mapCode(code, decodeUTF16(destinationUnits(operands[1])))
 		}
 	}
 }
 
-// parseBfrangeBlock parses a bfrange block
-func (fd *FontDecoder) parseBfrangeBlock(block string) {
-	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
-	// Simple range: <0020> <007E> <0020>
-	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range simpleMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
+// parseBfranges parses range mappings: <srcCodeLo> <srcCodeHi> <dstUnicode> or
+// <srcCodeLo> <srcCodeHi> [<dst1> <dst2> ...]
+func (fd *FontDecoder) parseBfranges(operands [][]byte) {
+	for ; len(operands) >= 3; operands = operands[3:] {
+		lo, ok1 := characterCode(operands[0])
+		hi, ok2 := characterCode(operands[1])
+		if !ok1 || !ok2 {
 			continue
 		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
+
+		// Array range
+		if operands[2][0] == '[' {
+			for i, element := range syntax.ArrayElements(operands[2]) {
+				if lo+i <= hi && syntax.IsString(element) {
+					fd.mapCode(lo+i, decodeUTF16(destinationUnits(element)))
+				}
+			}
+			continue
 		}
-	}
 
-	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
-	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range arrayMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		if err1 != nil || err2 != nil {
+		// Simple range: the last unit counts up
+		if !syntax.IsString(operands[2]) {
 			continue
 		}
-		// Parse array elements
-		arrayHexPattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>`)
-		arrayElements := arrayHexPattern.FindAllStringSubmatch(match[3], -1)
-		for i, elem := range arrayElements {
-			code := int(srcLo) + i
-			if code > int(srcHi) {
-				break
-			}
-			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
-			}
+		units := destinationUnits(operands[2])
+		if len(units) == 0 {
+			continue
+		}
+		for code := lo; code <= hi; code++ {
+			fd.mapCode(code, decodeUTF16(units))
+			units[len(units)-1]++
 		}
 	}
 }
 
-// hexToUnicodeRunes converts a hex string to Unicode runes
-// Each pair of hex digits represents a byte in UTF-16BE
-func hexToUnicodeRunes(hex string) []rune {
-	var runes []rune
-
-	// Handle UTF-16BE encoding (most common in PDFs)
-	if len(hex) == 4 {
-		// Single BMP character
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) == 2 {
-		// Single byte - treat as code point
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) > 4 {
-		// Multi-character or surrogate pair
-		for i := 0; i < len(hex); i += 4 {
-			end := i + 4
-			if end > len(hex) {
-				end = len(hex)
-			}
-			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
-			}
+// characterCode returns the one- or two-byte character code of a CMap string
+func characterCode(operand []byte) (int, bool) {
+	if !syntax.IsString(operand) {
+		return 0, false
+	}
+	code := 0
+	for _, b := range syntax.DecodeString(operand) {
+		code = code<<8 | int(b)
+		if code > 0xFFFF {
+			return 0, false
 		}
 	}
+	return code, true
+}
 
-	return runes
+// destinationUnits returns the UTF-16BE code units of a CMap string; a single
+// byte is a code point
+func destinationUnits(operand []byte) []uint16 {
+	data := syntax.DecodeString(operand)
+	if len(data)%2 != 0 {
+		data = append([]byte{0}, data...)
+	}
+	units := make([]uint16, len(data)/2)
+	for i := range units {
+		units[i] = uint16(data[2*i])<<8 | uint16(data[2*i+1])
+	}
+	return units
+}
+
+// decodeUTF16 decodes UTF-16 code units
+func decodeUTF16(units []uint16) string {
+	return string(utf16.Decode(units))
 }
 
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
+	// Add brackets unless present
 	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
+	if !strings.HasPrefix(diffStr, "[") {
+		diffStr = "[" + diffStr + "]"
+	}
 
-	// Parse tokens
-	tokens := strings.Fields(diffStr)
 	currentCode := 0
-
-	for _, token := range tokens {
-		if strings.HasPrefix(token, "/") {
+	for _, token := range syntax.ArrayElements([]byte(diffStr)) {
+		if token[0] == '/' {
 			// Glyph name
-			glyphName := strings.TrimPrefix(token, "/")
-			if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
-				fd.differences[currentCode] = unicode
-			}
+			fd.SetDifferences(currentCode, syntax.DecodeName(token))
 			currentCode++
-		} else {
+		} else if code, err := strconv.Atoi(string(token)); err == nil {
 			// Character code
-			if code, err := strconv.Atoi(token); err == nil {
-				currentCode = code
-			}
+			currentCode = code
 		}
 	}
 }
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..1b792a3 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -71,35 +71,28 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	}
 	doc.Annotations = allAnnotations
 
-	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
-	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
-				}
+	// Extract images and fonts (collect unique ones from all pages, in page order)
+	leaves, _ := pageTree(pdf)
+	seen := make(map[int]bool)
+	for i, leaf := range leaves {
+		resources := doc.Pages[i].Resources
+		if resources == nil {
+			continue
+		}
+		resourcesDict := asDict(leaf.lookup(pdf, "Resources"))
+		for _, entry := range resourceEntries(resourcesDict, "XObject", pdf) {
+			if image, ok := resources.Images[entry.name]; ok && !seen[entry.objNum] {
+				seen[entry.objNum] = true
+				doc.Images = append(doc.Images, image)
 			}
 		}
-	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
-
-	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
-	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
-				}
+		for _, entry := range resourceEntries(resourcesDict, "Font", pdf) {
+			if font, ok := resources.Fonts[entry.name]; ok && !seen[entry.objNum] {
+				seen[entry.objNum] = entry.objNum != 0 // Direct objects are always distinct
+				doc.Fonts = append(doc.Fonts, font)
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..7da24f8 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,11 +1,8 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -14,129 +11,59 @@ import (
 
 // extractImageData extracts actual image binary data from an image XObject
 func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	imageObj, err := pdf.GetObject(imageObjNum)
+	dict, data, err := streamData(pdf, imageObjNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
 	}
 
-	imageObjBytes := imageObj
-	imageStr := string(imageObjBytes)
 	image := &types.Image{
-		ID:       fmt.Sprintf("/Im%d", imageObjNum),
-		Metadata: make(map[string]interface{}),
+		ID:               fmt.Sprintf("/Im%d", imageObjNum),
+		Width:            lookupInt(pdf, dict, "Width"),
+		Height:           lookupInt(pdf, dict, "Height"),
+		BitsPerComponent: lookupInt(pdf, dict, "BitsPerComponent"),
+		Metadata:         make(map[string]interface{}),
 	}
 
-	// Extract Width and Height
-	widthStr := extractDictValue(imageStr, "/Width")
-	heightStr := extractDictValue(imageStr, "/Height")
-	if widthStr != "" {
-		if w, err := strconv.Atoi(widthStr); err == nil {
-			image.Width = w
-		}
-	}
-	if heightStr != "" {
-		if h, err := strconv.Atoi(heightStr); err == nil {
-			image.Height = h
-		}
-	}
-
-	// Extract ColorSpace
-	colorSpace := extractDictValue(imageStr, "/ColorSpace")
-	if colorSpace != "" {
-		image.ColorSpace = colorSpace
-	}
-
-	// Extract BitsPerComponent
-	bitsPerCompStr := extractDictValue(imageStr, "/BitsPerComponent")
-	if bitsPerCompStr != "" {
-		if b, err := strconv.Atoi(bitsPerCompStr); err == nil {
-			image.BitsPerComponent = b
-		}
+	// Extract ColorSpace: a name, or an array as it is written
+	image.ColorSpace = lookupName(pdf, dict, "ColorSpace")
+	if image.ColorSpace == "" {
+		image.ColorSpace = string(lookup(pdf, dict, "ColorSpace"))
 	}
 
 	// Extract Filter to determine format and decompression method
-	filter := extractDictValue(imageStr, "/Filter")
-	if filter != "" {
-		image.Filter = filter
-		// Determine format from filter
-		if filter == "/DCTDecode" || strings.Contains(filter, "DCTDecode") {
+	filters, params := streamFilters(pdf, dict)
+	if len(filters) > 0 {
+		image.Filter = "/" + filters[0]
+		if len(filters) > 1 {
+			image.Filter = "[/" + strings.Join(filters, " /") + "]"
+		}
+		// Determine format from the filter applied first when encoding
+		switch filters[len(filters)-1] {
+		case "DCTDecode":
 			image.Format = "jpeg"
-		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
+		case "FlateDecode":
 			image.Format = "png" // Could be PNG or other FlateDecode image
-		} else if filter == "/CCITTFaxDecode" || strings.Contains(filter, "CCITTFaxDecode") {
+		case "CCITTFaxDecode":
 			image.Format = "tiff"
-		} else if filter == "/JPXDecode" || strings.Contains(filter, "JPXDecode") {
+		case "JPXDecode":
 			image.Format = "jpeg2000"
-		} else {
+		default:
 			image.Format = "unknown"
 		}
 	}
 
-	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
-			}
+	// Decompress if needed; JPEG and other image formats are kept as they are
+	image.Data, err = decodeFilters(pdf, data, filters, params)
+	if err != nil {
+		if verbose {
+			fmt.Printf("Warning: failed to decompress image: %v\n", err)
 		}
+		image.Data = data
+	}
 
-		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
-					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
-			}
-
-			// Set base64 encoded version for JSON serialization
-			if len(image.Data) > 0 {
-				image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
-			}
-		}
+	// Set base64 encoded version for JSON serialization
+	if len(image.Data) > 0 {
+		image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
 	}
 
 	return image, nil
@@ -153,161 +80,32 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// First get metadata to find all images
-	doc, err := ExtractContent(pdfBytes, password, verbose)
+	leaves, err := pageTree(pdf)
 	if err != nil {
 		return []types.Image{}, fmt.Errorf("failed to extract content: %w", err)
 	}
 
+	// Collect the images of all pages, each image object once
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
-
-	// Collect image object numbers by re-parsing Resources from pages
-	// We need to get the actual page object numbers to extract Resources
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
-
-	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
-		if i >= len(doc.Pages) {
-			break
-		}
-
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
-		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
+	extracted := make(map[int]bool)
+	for _, leaf := range leaves {
+		for _, entry := range resourceEntries(asDict(leaf.lookup(pdf, "Resources")), "XObject", pdf) {
+			if entry.objNum == 0 || extracted[entry.objNum] || lookupName(pdf, entry.dict, "Subtype") != "/Image" {
+				continue
 			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
+			extracted[entry.objNum] = true
 
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
+			image, err := extractImageData(entry.objNum, pdf, verbose)
+			if err != nil {
+				if verbose {
+					fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", entry.name, entry.objNum, err)
 				}
+				continue
 			}
-		}
-	}
-
-	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
-					}
-				}
-			}
-		} else {
+			image.ID = "/" + entry.name
 			allImages = append(allImages, *image)
 		}
 	}
 
-	// Also add any images we found but couldn't get object numbers for (metadata only)
-	for _, page := range doc.Pages {
-		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					allImages = append(allImages, image)
-					imageMap[imageID] = true
-				}
-			}
-		}
-	}
-
 	return allImages, nil
 }
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return pageObjNums
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums
-}
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..f1122cf 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -1,13 +1,11 @@
 package extract
 
 import (
-	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 	"time"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -15,7 +13,7 @@ import (
 func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.DocumentMetadata, error) {
 	metadata := &types.DocumentMetadata{
 		PDFVersion: pdf.Version(),
-		PageCount:  pdf.ObjectCount(), // Will be updated when we parse pages
+		PageCount:  len(pageObjectNumbers(pdf)),
 		Encrypted:  pdf.IsEncrypted(),
 		Custom:     make(map[string]string),
 	}
@@ -26,118 +24,41 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 		// Parse object number from reference (e.g., "5 0 R")
 		infoObjNum, err := parseObjectRef(trailer.InfoRef)
 		if err == nil {
-			infoObj, err := pdf.GetObject(infoObjNum)
-			if err == nil {
-				parseInfoDict(string(infoObj), metadata, verbose)
-			}
+			parseInfoDict(pdf, getDict(pdf, infoObjNum), metadata)
 		}
 	}
 
-	// Try to extract from raw PDF bytes as fallback
-	if metadata.Title == "" {
-		extractMetadataFromBytes(pdfBytes, metadata, verbose)
-	}
-
 	return metadata, nil
 }
 
-// parseObjectRef parses an object reference like "5 0 R" and returns the object number
-func parseObjectRef(ref string) (int, error) {
-	parts := strings.Fields(ref)
-	if len(parts) < 1 {
-		return 0, fmt.Errorf("invalid object reference: %s", ref)
-	}
-	objNum, err := strconv.Atoi(parts[0])
-	if err != nil {
-		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
-	}
-	return objNum, nil
-}
-
 // parseInfoDict parses a PDF Info dictionary
-func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
+func parseInfoDict(pdf *parse.PDF, info []byte, metadata *types.DocumentMetadata) {
 	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+		"Title":        &metadata.Title,
+		"Author":       &metadata.Author,
+		"Subject":      &metadata.Subject,
+		"Keywords":     &metadata.Keywords,
+		"Creator":      &metadata.Creator,
+		"Producer":     &metadata.Producer,
+		"CreationDate": &metadata.CreationDate,
+		"ModDate":      &metadata.ModDate,
 	}
 
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	for _, entry := range syntax.Entries(info, 0) {
+		value := resolveValue(pdf, info[entry.Start:entry.End])
+		if !syntax.IsString(value) {
+			continue
 		}
-	}
-
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
-
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
-			}
+		text := decodeTextString(syntax.DecodeString(value))
+		if fieldPtr, ok := fieldMap[entry.Key]; ok {
+			*fieldPtr = text
+		} else {
+			// Custom fields (any field that's not a standard field)
+			metadata.Custom[entry.Key] = text
 		}
 	}
 }
 
-// extractMetadataFromBytes extracts metadata by searching PDF bytes
-func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata, verbose bool) {
-	// This is a fallback method - search for common patterns
-	// In practice, Info dict parsing should work
-}
-
-// unescapePDFString unescapes a PDF string literal
-func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
-}
-
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm).
 // This function is available for future use when date parsing is needed.
diff --git a/content/extract/object.go b/content/extract/object.go
new file mode 100644
index 0000000..3164585
--- /dev/null
+++ b/content/extract/object.go
@@ -0,0 +1,302 @@
+package extract
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// maxReferenceChain bounds how many references are followed to reach a value
+const maxReferenceChain = 32
+
+// getDict returns the dictionary (or stream dictionary) of an object, starting
+// at its "<<", or nil
+func getDict(pdf *parse.PDF, objNum int) []byte {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil
+	}
+	return asDict(syntax.ObjectValue(obj))
+}
+
+// asDict returns value if it is a dictionary, else nil
+func asDict(value []byte) []byte {
+	if bytes.HasPrefix(value, []byte("<<")) {
+		return value
+	}
+	return nil
+}
+
+// resolveValue follows references until it reaches a direct value
+func resolveValue(pdf *parse.PDF, value []byte) []byte {
+	for i := 0; i < maxReferenceChain; i++ {
+		objNum, ok := syntax.Reference(value)
+		if !ok {
+			return value
+		}
+		obj, err := pdf.GetObject(objNum)
+		if err != nil {
+			return nil
+		}
+		value = syntax.ObjectValue(obj)
+	}
+	return nil
+}
+
+// lookup returns the direct value stored under key (without leading slash) in a
+// dictionary, following references
+func lookup(pdf *parse.PDF, dict []byte, key string) []byte {
+	value := resolveValue(pdf, syntax.Lookup(dict, key))
+	if string(value) == "null" {
+		return nil
+	}
+	return value
+}
+
+// lookupName returns the name stored under key with its leading slash, or ""
+func lookupName(pdf *parse.PDF, dict []byte, key string) string {
+	value := lookup(pdf, dict, key)
+	if len(value) == 0 || value[0] != '/' {
+		return ""
+	}
+	return "/" + syntax.DecodeName(value)
+}
+
+// lookupText returns the text string stored under key, or ""
+func lookupText(pdf *parse.PDF, dict []byte, key string) string {
+	value := lookup(pdf, dict, key)
+	if !syntax.IsString(value) {
+		return ""
+	}
+	return decodeTextString(syntax.DecodeString(value))
+}
+
+// lookupInt returns the integer stored under key, or 0
+func lookupInt(pdf *parse.PDF, dict []byte, key string) int {
+	if number, ok := syntax.Number(lookup(pdf, dict, key)); ok {
+		return int(number)
+	}
+	return 0
+}
+
+// lookupNumbers returns the numbers of the array stored under key
+func lookupNumbers(pdf *parse.PDF, dict []byte, key string) []float64 {
+	return numbers(pdf, lookup(pdf, dict, key))
+}
+
+// numbers returns the numbers of an array
+func numbers(pdf *parse.PDF, array []byte) []float64 {
+	var values []float64
+	for _, element := range syntax.ArrayElements(array) {
+		if number, ok := syntax.Number(resolveValue(pdf, element)); ok {
+			values = append(values, number)
+		}
+	}
+	return values
+}
+
+// parseObjectRef parses an object reference like "5 0 R" and returns the object number
+func parseObjectRef(ref string) (int, error) {
+	parts := strings.Fields(ref)
+	if len(parts) < 1 {
+		return 0, fmt.Errorf("invalid object reference: %s", ref)
+	}
+	objNum, err := strconv.Atoi(parts[0])
+	if err != nil {
+		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
+	}
+	return objNum, nil
+}
+
+// catalog returns the document catalog, or nil
+func catalog(pdf *parse.PDF) []byte {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil
+	}
+	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	if err != nil {
+		return nil
+	}
+	return getDict(pdf, rootObjNum)
+}
+
+// decodeTextString decodes a text string: UTF-16 or UTF-8 if it starts with a
+// byte order mark, PDFDocEncoding otherwise
+func decodeTextString(data []byte) string {
+	switch {
+	case bytes.HasPrefix(data, []byte{0xFE, 0xFF}):
+		units := make([]uint16, 0, len(data)/2)
+		for i := 2; i+1 < len(data); i += 2 {
+			units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
+		}
+		return string(utf16.Decode(units))
+	case bytes.HasPrefix(data, []byte{0xEF, 0xBB, 0xBF}):
+		return string(data[3:])
+	}
+	runes := make([]rune, len(data))
+	for i, c := range data {
+		if r, ok := pdfDocEncoding[c]; ok {
+			runes[i] = r
+		} else {
+			runes[i] = rune(c)
+		}
+	}
+	return string(runes)
+}
+
+// pdfDocEncoding lists where PDFDocEncoding differs from Latin-1
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
+	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
+	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
+	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
+	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
+	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
+}
+
+// streamData returns the raw data of a stream object and its dictionary
+func streamData(pdf *parse.PDF, objNum int) (dict, data []byte, err error) {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil, nil, err
+	}
+	value := syntax.ObjectValue(obj)
+	length := -1
+	if n, ok := syntax.Number(lookup(pdf, value, "Length")); ok {
+		length = int(n)
+	}
+	dict, data, ok := syntax.SplitStream(value, length)
+	if !ok {
+		return nil, nil, fmt.Errorf("object %d is not a stream", objNum)
+	}
+	return dict, data, nil
+}
+
+// streamFilters returns the names (without slash) and parameters of a stream's filters
+func streamFilters(pdf *parse.PDF, dict []byte) (names []string, params [][]byte) {
+	filter := lookup(pdf, dict, "Filter")
+	parms := lookup(pdf, dict, "DecodeParms")
+	if len(filter) > 0 && filter[0] == '/' {
+		return []string{syntax.DecodeName(filter)}, [][]byte{asDict(parms)}
+	}
+	parmElements := syntax.ArrayElements(parms)
+	for i, element := range syntax.ArrayElements(filter) {
+		names = append(names, syntax.DecodeName(resolveValue(pdf, element)))
+		var parm []byte
+		if i < len(parmElements) {
+			parm = asDict(resolveValue(pdf, parmElements[i]))
+		}
+		params = append(params, parm)
+	}
+	return names, params
+}
+
+// decodeFilters applies filters in order. It stops before an image codec
+// (DCTDecode, JPXDecode, ...), whose data is a file format of its own.
+func decodeFilters(pdf *parse.PDF, data []byte, names []string, params [][]byte) ([]byte, error) {
+	for i, name := range names {
+		switch name {
+		case "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode":
+			return data, nil
+		}
+		decoded, err := parse.DecodeFilter(data, name)
+		if err != nil {
+			return nil, err
+		}
+		data, err = decodePredictor(pdf, decoded, params[i])
+		if err != nil {
+			return nil, err
+		}
+	}
+	return data, nil
+}
+
+// decodedStream returns the data of a stream object with its filters applied
+func decodedStream(pdf *parse.PDF, objNum int) ([]byte, error) {
+	dict, data, err := streamData(pdf, objNum)
+	if err != nil {
+		return nil, err
+	}
+	names, params := streamFilters(pdf, dict)
+	return decodeFilters(pdf, data, names, params)
+}
+
+// decodePredictor undoes the PNG predictors
+func decodePredictor(pdf *parse.PDF, data, params []byte) ([]byte, error) {
+	predictor := lookupInt(pdf, params, "Predictor")
+	if params == nil || predictor < 2 {
+		return data, nil
+	}
+	if predictor < 10 {
+		return nil, fmt.Errorf("unsupported predictor: %d", predictor)
+	}
+	param := func(key string, value int) int {
+		if n := lookupInt(pdf, params, key); n > 0 {
+			value = n
+		}
+		return value
+	}
+	colors, bits, columns := param("Colors", 1), param("BitsPerComponent", 8), param("Columns", 1)
+	if colors > 256 || bits > 32 || columns > 1<<24 {
+		return nil, fmt.Errorf("invalid predictor parameters")
+	}
+	pixel := (colors*bits + 7) / 8
+	rowLen := (colors*bits*columns + 7) / 8
+	result := make([]byte, 0, len(data))
+	previous := make([]byte, rowLen)
+	for len(data) > 1 {
+		kind := data[0]
+		row := make([]byte, rowLen)
+		n := copy(row, data[1:])
+		data = data[1+n:]
+		for i := range row[:n] {
+			var left, up, upLeft byte
+			up = previous[i]
+			if i >= pixel {
+				left, upLeft = row[i-pixel], previous[i-pixel]
+			}
+			switch kind {
+			case 0:
+			case 1:
+				row[i] += left
+			case 2:
+				row[i] += up
+			case 3:
+				row[i] += byte((int(left) + int(up)) / 2)
+			case 4:
+				row[i] += paeth(left, up, upLeft)
+			default:
+				return nil, fmt.Errorf("invalid PNG filter type: %d", kind)
+			}
+		}
+		result = append(result, row[:n]...)
+		previous = row
+	}
+	return result, nil
+}
+
+// paeth is the PNG Paeth predictor
+func paeth(left, up, upLeft byte) byte {
+	p := int(left) + int(up) - int(upLeft)
+	result, distance := left, -1
+	for _, candidate := range []byte{left, up, upLeft} {
+		d := p - int(candidate)
+		if d < 0 {
+			d = -d
+		}
+		if distance == -1 || d < distance {
+			result, distance = candidate, d
+		}
+	}
+	return result
+}
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..b7d6c81 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -1,156 +1,116 @@
 package extract
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractPages extracts all pages from a PDF
 func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page, error) {
-	var pages []types.Page
-
-	// Get catalog to find pages tree
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found in trailer")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	leaves, err := pageTree(pdf)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
+		return nil, err
 	}
 
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog object: %w", err)
+	var pages []types.Page
+	for i, leaf := range leaves {
+		page := extractPage(pdf, leaf, verbose)
+		page.PageNumber = i + 1
+		for j := range page.Annotations {
+			page.Annotations[j].PageNumber = page.PageNumber
+		}
+		pages = append(pages, page)
 	}
 
-	// Find Pages reference in catalog
-	catalogStr := string(catalogObj)
-	if verbose {
-		fmt.Printf("Catalog object: %s\n", catalogStr)
-	}
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", catalogStr)
-	}
+	return pages, nil
+}
 
-	if verbose {
-		fmt.Printf("Found Pages reference: %s\n", pagesRef)
-	}
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference %s: %w", pagesRef, err)
-	}
+// pageNode is a page with the dictionaries it inherits attributes from
+type pageNode struct {
+	objNum int
+	dicts  [][]byte // The page's own dictionary first, then its ancestors'
+}
 
-	if verbose {
-		fmt.Printf("Pages object number: %d\n", pagesObjNum)
+// lookup returns an attribute of the page, inherited if necessary
+func (node pageNode) lookup(pdf *parse.PDF, key string) []byte {
+	for _, dict := range node.dicts {
+		if value := lookup(pdf, dict, key); value != nil {
+			return value
+		}
 	}
+	return nil
+}
 
-	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
+// pageTree returns the pages of a document in order
+func pageTree(pdf *parse.PDF) ([]pageNode, error) {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil, fmt.Errorf("no root reference found in trailer")
+	}
+	root := catalog(pdf)
+	if root == nil {
+		return nil, fmt.Errorf("failed to get catalog object %s", trailer.RootRef)
 	}
 
-	// Update page numbers
-	for i := range pages {
-		pages[i].PageNumber = i + 1
+	// Find Pages reference in catalog
+	pagesObjNum, ok := syntax.Reference(syntax.Lookup(root, "Pages"))
+	if !ok {
+		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", root)
+	}
+	if getDict(pdf, pagesObjNum) == nil {
+		return nil, fmt.Errorf("failed to get pages object %d", pagesObjNum)
 	}
 
-	return pages, nil
+	return pageLeaves(pdf, pagesObjNum, nil, make(map[int]bool)), nil
 }
 
-// extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
-	var result []types.Page
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
-	}
-
-	pagesStr := string(pagesObj)
-	if verbose {
-		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
+// pageLeaves returns the pages below a page tree node. Nodes that were visited
+// already and objects that cannot be read are left out.
+func pageLeaves(pdf *parse.PDF, objNum int, ancestors [][]byte, visited map[int]bool) []pageNode {
+	dict := getDict(pdf, objNum)
+	if dict == nil || visited[objNum] {
+		return nil
 	}
+	visited[objNum] = true
+	dicts := append([][]byte{dict}, ancestors...)
 
 	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
-		}
-	}
-	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
-	}
-	if pageType == "/Page" {
-		// This is a page object
-		page, err := extractPage(pdfBytes, pdf, pagesObjNum, pagesStr, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract page %d: %v\n", pagesObjNum, err)
-			}
-			return result, nil
+	kids := lookup(pdf, dict, "Kids")
+	switch lookupName(pdf, dict, "Type") {
+	case "/Page":
+		return []pageNode{{objNum, dicts}}
+	case "/Pages":
+	default:
+		if kids == nil {
+			return []pageNode{{objNum, dicts}}
 		}
-		return []types.Page{page}, nil
 	}
 
-	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if verbose {
-		fmt.Printf("Kids string: %s\n", kidsStr)
-	}
-	if kidsStr == "" {
-		if verbose {
-			fmt.Printf("No Kids array found in pages object\n")
+	var leaves []pageNode
+	for _, kid := range syntax.ArrayElements(kids) {
+		if kidObjNum, ok := syntax.Reference(kid); ok {
+			leaves = append(leaves, pageLeaves(pdf, kidObjNum, dicts, visited)...)
 		}
-		return result, nil
-	}
-
-	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]" or "5 0 R 6 0 R")
-	// If kidsStr already starts with [, use it as-is, otherwise wrap it
-	if !strings.HasPrefix(kidsStr, "[") {
-		kidsStr = "[" + kidsStr + "]"
 	}
-	kids := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kids {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse kid reference %s: %v\n", kidRef, err)
-			}
-			continue
-		}
-
-		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
-			}
-			continue
-		}
+	return leaves
+}
 
-		result = append(result, childPages...)
+// pageObjectNumbers returns the object numbers of a document's pages in order
+func pageObjectNumbers(pdf *parse.PDF) []int {
+	var objNums []int
+	leaves, _ := pageTree(pdf)
+	for _, leaf := range leaves {
+		objNums = append(objNums, leaf.objNum)
 	}
-
-	return result, nil
+	return objNums
 }
 
 // extractPage extracts a single page
-func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string, verbose bool) (types.Page, error) {
+func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
 	page := types.Page{
 		PageNumber:  0, // Will be set by caller
 		Text:        []types.TextElement{},
@@ -160,224 +120,77 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
-	if len(mediaBox) >= 4 {
-		page.MediaBox = &types.Rectangle{
-			LowerX: mediaBox[0],
-			LowerY: mediaBox[1],
-			UpperX: mediaBox[2],
-			UpperY: mediaBox[3],
-		}
-		page.Width = mediaBox[2] - mediaBox[0]
-		page.Height = mediaBox[3] - mediaBox[1]
+	page.MediaBox = rectangle(pdf, node.lookup(pdf, "MediaBox"))
+	if page.MediaBox != nil {
+		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
+		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
 
 	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
-	if len(cropBox) >= 4 {
-		page.CropBox = &types.Rectangle{
-			LowerX: cropBox[0],
-			LowerY: cropBox[1],
-			UpperX: cropBox[2],
-			UpperY: cropBox[3],
-		}
-	}
+	page.CropBox = rectangle(pdf, node.lookup(pdf, "CropBox"))
 
 	// Extract rotation
-	rotationStr := extractDictValue(pageStr, "/Rotate")
-	if rotationStr != "" {
-		if rot, err := strconv.Atoi(rotationStr); err == nil {
-			page.Rotation = rot
-		}
+	if rotation, ok := syntax.Number(node.lookup(pdf, "Rotate")); ok {
+		page.Rotation = int(rotation)
 	}
 
 	// Extract resources FIRST (needed for font decoders for text extraction)
-	var resourcesStr string
-	resourcesRef := extractDictValue(pageStr, "/Resources")
-	if resourcesRef != "" {
-		// Resources is a reference to another object
-		resourcesObjNum, err := parseObjectRef(resourcesRef)
-		if err == nil {
-			resourcesObj, err := pdf.GetObject(resourcesObjNum)
-			if err == nil {
-				resourcesStr = string(resourcesObj)
-				page.Resources = extractResources(resourcesStr, pdf, verbose)
-			}
-		}
-	} else {
-		// Resources might be inline - extract the Resources dictionary from page string
-		resourcesDictStr := extractInlineDict(pageStr, "/Resources")
-		if resourcesDictStr != "" {
-			resourcesStr = resourcesDictStr
-			page.Resources = extractResources(resourcesStr, pdf, verbose)
-		}
-	}
-
-	// Extract font decoders for text extraction
 	var fontDecoders map[string]*FontDecoder
-	if resourcesStr != "" {
-		fontDecoders = extractFontDecoders(resourcesStr, pdf, verbose)
+	if resources := asDict(node.lookup(pdf, "Resources")); resources != nil {
+		page.Resources = extractResources(resources, pdf, verbose)
+		// Extract font decoders for text extraction
+		fontDecoders = extractFontDecoders(resources, pdf, verbose)
 	}
 
-	// Extract content streams
-	contents := extractDictValue(pageStr, "/Contents")
-	if contents != "" {
-		// Contents can be a single reference or an array
-		// Decompress and parse content stream
-		contentRefs := parseObjectRefArray(contents)
-		if len(contentRefs) == 0 {
-			// Try as single reference
-			contentRefs = []string{contents}
-		}
-
-		// Extract text and graphics from content streams
-		for _, contentRef := range contentRefs {
-			contentObjNum, err := parseObjectRef(contentRef)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to parse content reference %s: %v\n", contentRef, err)
-				}
-				continue
-			}
-
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
-		}
-	}
+	// Extract text and graphics from content streams
+	content := pageContent(pdf, syntax.Lookup(node.dicts[0], "Contents"), verbose)
+	textElements, graphics, images := parseContentStream(content, page.Resources, fontDecoders)
+	page.Text = append(page.Text, textElements...)
+	page.Graphics = append(page.Graphics, graphics...)
+	page.Images = append(page.Images, images...)
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
-	if annotsRef != "" {
-		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
-		page.Annotations = annotations
-	}
+	page.Annotations = append(page.Annotations, extractAnnotations(lookup(pdf, node.dicts[0], "Annots"), pdf, verbose)...)
 
-	return page, nil
+	return page
 }
 
-// Helper functions for parsing PDF dictionaries and arrays
-
-func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+// pageContent returns the decoded content of a page whose /Contents is a stream
+// or an array of streams. The streams of an array form a single content stream.
+func pageContent(pdf *parse.PDF, contents []byte, verbose bool) []byte {
+	parts := [][]byte{contents}
+	if array := resolveValue(pdf, contents); bytes.HasPrefix(array, []byte("[")) {
+		parts = syntax.ArrayElements(array)
 	}
 
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
-	}
-
-	return ""
-}
-
-func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
-		return nil
-	}
-
-	// Parse numbers from array
-	parts := strings.Fields(match[1])
-	var values []float64
+	var content []byte
 	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			values = append(values, val)
+		objNum, ok := syntax.Reference(part)
+		if !ok {
+			continue
+		}
+		data, err := decodedStream(pdf, objNum)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to get content stream %d: %v\n", objNum, err)
+			}
+			continue
 		}
+		content = append(append(content, data...), '\n')
 	}
-	return values
+	return content
 }
 
-func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
-	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
+// rectangle converts an array of four numbers, given by any two opposite corners
+func rectangle(pdf *parse.PDF, array []byte) *types.Rectangle {
+	box := numbers(pdf, array)
+	if len(box) < 4 {
+		return nil
+	}
+	return &types.Rectangle{
+		LowerX: min(box[0], box[2]),
+		LowerY: min(box[1], box[3]),
+		UpperX: max(box[0], box[2]),
+		UpperY: max(box[1], box[3]),
 	}
-
-	return refs
 }
-
-// parseContentStream is implemented in content_stream.go
-
-// extractResources is implemented in resources.go
-
-// extractAnnotations is implemented in annotations.go
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..658f4b9 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -2,16 +2,16 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"sort"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractResources extracts resources from a Resources dictionary
-func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.PageResources {
+func extractResources(resourcesDict []byte, pdf *parse.PDF, verbose bool) *types.PageResources {
 	resources := &types.PageResources{
 		Fonts:       make(map[string]types.FontInfo),
 		Images:      make(map[string]types.Image),
@@ -22,26 +22,38 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	}
 
 	// Extract fonts
-	fontsDict := extractFontsDict(resourcesStr, pdf, verbose)
-	if fontsDict != nil {
-		resources.Fonts = fontsDict
+	for _, font := range resourceEntries(resourcesDict, "Font", pdf) {
+		if font.dict == nil {
+			if verbose {
+				fmt.Printf("Warning: failed to get font %s\n", font.name)
+			}
+			continue
+		}
+		fontInfo := extractFontInfo(font.dict, pdf)
+		fontInfo.ID = "/" + font.name
+		resources.Fonts[font.name] = *fontInfo
 	}
 
 	// Extract XObjects (images and forms)
-	xobjectsDict := extractXObjectsDict(resourcesStr, pdf, verbose)
-	if xobjectsDict != nil {
-		resources.XObjects = xobjectsDict
+	for _, entry := range resourceEntries(resourcesDict, "XObject", pdf) {
+		xobj := extractXObjectInfo(entry.dict, pdf)
+		if xobj == nil {
+			if verbose {
+				fmt.Printf("Warning: failed to get XObject %s\n", entry.name)
+			}
+			continue
+		}
+		xobj.ID = "/" + entry.name
+		resources.XObjects[entry.name] = *xobj
+
 		// Also populate Images from XObjects (for metadata)
 		// Note: Binary data extraction is done separately via extractImageData()
-		for name, xobj := range xobjectsDict {
-			if xobj.Subtype == "/Image" {
-				image := types.Image{
-					ID:     "/" + name,
-					Width:  int(xobj.Width),
-					Height: int(xobj.Height),
-					Format: "unknown", // Will be determined when extracting actual image data
-				}
-				resources.Images[name] = image
+		if xobj.Subtype == "/Image" {
+			resources.Images[entry.name] = types.Image{
+				ID:     "/" + entry.name,
+				Width:  int(xobj.Width),
+				Height: int(xobj.Height),
+				Format: "unknown", // Will be determined when extracting actual image data
 			}
 		}
 	}
@@ -49,553 +61,143 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	return resources
 }
 
-// extractFontsDict extracts font information from /Resources/Font dictionary
-func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.FontInfo {
-	fonts := make(map[string]types.FontInfo)
-
-	if verbose {
-		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources\n")
-		}
-		return fonts
-	}
-
-	fontDictStr := fontMatch[1]
-	if verbose {
-		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
-	}
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	if verbose {
-		fmt.Printf("Found %d font entries\n", len(fontEntries))
-	}
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
-		if fontInfo != nil {
-			fontInfo.ID = "/" + fontName
-			fonts[fontName] = *fontInfo
-		}
-	}
-
-	return fonts
+// resourceEntry is a named resource that is a dictionary or stream
+type resourceEntry struct {
+	name   string // Without leading slash
+	objNum int    // 0 if the resource is a direct object
+	dict   []byte // nil if the resource cannot be read
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
+// resourceEntries returns the resources of a category (Font, XObject), ordered by name
+func resourceEntries(resourcesDict []byte, category string, pdf *parse.PDF) []resourceEntry {
+	dict := asDict(lookup(pdf, resourcesDict, category))
+	var entries []resourceEntry
+	for _, entry := range syntax.Entries(dict, 0) {
+		value := dict[entry.Start:entry.End]
+		objNum, _ := syntax.Reference(value)
+		entries = append(entries, resourceEntry{entry.Key, objNum, asDict(resolveValue(pdf, value))})
+	}
+	sort.SliceStable(entries, func(i, j int) bool { return entries[i].name < entries[j].name })
+	return entries
+}
 
-	fontStr := string(fontObj)
+// extractFontInfo extracts information from a font dictionary
+func extractFontInfo(font []byte, pdf *parse.PDF) *types.FontInfo {
 	fontInfo := &types.FontInfo{
 		Embedded: false,
 	}
 
 	// Extract Subtype (Type1, TrueType, Type0, etc.)
-	// Try both /Subtype and Subtype (with and without leading /)
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
-	}
-	if subtype != "" {
-		fontInfo.Subtype = subtype
-		// Ensure it starts with /
-		if !strings.HasPrefix(fontInfo.Subtype, "/") {
-			fontInfo.Subtype = "/" + fontInfo.Subtype
-		}
-	} else {
+	fontInfo.Subtype = lookupName(pdf, font, "Subtype")
+	if fontInfo.Subtype == "" {
 		fontInfo.Subtype = "Unknown"
 	}
 
 	// Extract BaseFont
-	baseFont := extractDictValue(fontStr, "/BaseFont")
-	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
-	}
-	if baseFont != "" {
-		fontInfo.Name = baseFont
-		// Remove leading / if present for family extraction
-		familyName := strings.TrimPrefix(baseFont, "/")
-		// Try to extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
-		parts := strings.Split(familyName, "-")
-		if len(parts) > 0 {
-			fontInfo.Family = parts[0]
-		}
-	}
-
-	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		fontInfo.Encoding = encoding
-	}
+	fontInfo.Name = lookupName(pdf, font, "BaseFont")
+	// Try to extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
+	fontInfo.Family, _, _ = strings.Cut(strings.TrimPrefix(fontInfo.Name, "/"), "-")
 
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
+	// Extract Encoding: a name, or a dictionary based on a named encoding
+	fontInfo.Encoding = lookupName(pdf, font, "Encoding")
+	if encoding := asDict(lookup(pdf, font, "Encoding")); encoding != nil {
+		fontInfo.Encoding = lookupName(pdf, encoding, "BaseEncoding")
 	}
 
 	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
-		fontInfo.ToUnicode = true
-	}
+	fontInfo.ToUnicode = lookup(pdf, font, "ToUnicode") != nil
 
-	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
-			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = fontFamily
-				}
-			}
-		}
+	// Extract FontDescriptor for more info; composite fonts have it in their descendant
+	if descendants := syntax.ArrayElements(lookup(pdf, font, "DescendantFonts")); len(descendants) > 0 {
+		font = asDict(resolveValue(pdf, descendants[0]))
 	}
-
-	return fontInfo
-}
-
-// extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
-func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
+	descriptor := asDict(lookup(pdf, font, "FontDescriptor"))
+	// Check for embedded font files in descriptor
+	for _, key := range []string{"FontFile", "FontFile2", "FontFile3"} {
+		if lookup(pdf, descriptor, key) != nil {
+			fontInfo.Embedded = true
 		}
-		xobjMatch = xobjMatch2
 	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
+	// Extract font family name if available
+	if family := lookupText(pdf, descriptor, "FontFamily"); family != "" {
+		fontInfo.Family = family
 	}
 
-	return xobjects
-}
-
-// extractXObjectsDictWithObjNums extracts XObject information with object numbers
-func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose bool) (map[string]types.XObject, map[string]int) {
-	xobjects := make(map[string]types.XObject)
-	objNums := make(map[string]int) // image name -> object number
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
-		}
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-		objNums[xobjName] = xobjObjNum
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
-	return xobjects, objNums
+	return fontInfo
 }
 
 // extractXObjectInfo extracts information from an XObject dictionary
-func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XObject {
-	xobjObj, err := pdf.GetObject(xobjObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get XObject %d: %v\n", xobjObjNum, err)
-		}
-		return nil
-	}
-
-	xobjStr := string(xobjObj)
+func extractXObjectInfo(dict []byte, pdf *parse.PDF) *types.XObject {
 	xobject := &types.XObject{
 		Type: "XObject",
 	}
 
 	// Extract Subtype
-	subtype := extractDictValue(xobjStr, "/Subtype")
-	if subtype == "" {
+	xobject.Subtype = lookupName(pdf, dict, "Subtype")
+	if xobject.Subtype == "" {
 		return nil
 	}
-	xobject.Subtype = subtype
 
 	// For Image XObjects, extract dimensions
-	if subtype == "/Image" {
-		// Extract Width and Height
-		widthStr := extractDictValue(xobjStr, "/Width")
-		heightStr := extractDictValue(xobjStr, "/Height")
-		if widthStr != "" {
-			if w, err := strconv.ParseFloat(widthStr, 64); err == nil {
-				xobject.Width = w
-			}
-		}
-		if heightStr != "" {
-			if h, err := strconv.ParseFloat(heightStr, 64); err == nil {
-				xobject.Height = h
-			}
-		}
+	if xobject.Subtype == "/Image" {
+		xobject.Width, _ = syntax.Number(lookup(pdf, dict, "Width"))
+		xobject.Height, _ = syntax.Number(lookup(pdf, dict, "Height"))
 	}
 
 	return xobject
 }
 
-// extractImageDataWithBinary extracts image with full binary data
-// This is a helper that calls extractImageData from images.go
-func extractImageDataWithBinary(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	return extractImageData(imageObjNum, pdf, verbose)
-}
-
-// extractFontDecoders extracts font decoders for text extraction from a Resources string
-func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
+// extractFontDecoders extracts font decoders for text extraction from a Resources dictionary
+func extractFontDecoders(resourcesDict []byte, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
 	decoders := make(map[string]*FontDecoder)
 
-	if verbose {
-		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
-		}
-		return decoders
-	}
-
-	fontDictStr := fontMatch[1]
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
-		if decoder != nil {
-			decoders["/"+fontName] = decoder
+	for _, font := range resourceEntries(resourcesDict, "Font", pdf) {
+		if font.dict != nil {
+			decoders["/"+font.name] = extractFontDecoder(font.dict, font.name, pdf, verbose)
 		}
 	}
 
 	return decoders
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
-
-	fontStr := string(fontObj)
+// extractFontDecoder creates a FontDecoder for a font dictionary
+func extractFontDecoder(font []byte, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
 	decoder := NewFontDecoder(fontName)
 
 	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
-			}
-		}
-	} else {
-		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
-
-		// Standard 14 fonts use StandardEncoding by default
-		if isStandard14Font(baseFont) {
-			decoder.SetBaseEncoding("StandardEncoding")
-		} else if subtype == "/Type1" || subtype == "/TrueType" {
-			// Type1 and TrueType default to StandardEncoding
-			decoder.SetBaseEncoding("StandardEncoding")
-		}
-	}
-
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
-	}
-
-	// Extract ToUnicode CMap (highest priority for text decoding)
-	toUnicodeRef := extractDictValue(fontStr, "/ToUnicode")
-	if toUnicodeRef != "" {
-		toUnicodeObjNum, err := parseObjectRef(toUnicodeRef)
-		if err == nil {
-			cmapData := extractStreamData(toUnicodeObjNum, pdf, verbose)
-			if cmapData != "" {
-				decoder.ParseToUnicodeCMap(cmapData)
-				if verbose {
-					fmt.Printf("Parsed ToUnicode CMap for font %s with %d mappings\n", fontName, len(decoder.toUnicode))
-				}
-			}
-		}
-	}
-
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
+	subtype := lookupName(pdf, font, "Subtype")
+	baseFont := lookupName(pdf, font, "BaseFont")
+	encoding := lookup(pdf, font, "Encoding")
+	decoder.codeSize = 1
 	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
-			}
-		}
-	}
-
-	return decoder
-}
-
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
+		decoder.codeSize = 2
+	} else if isStandard14Font(baseFont) || subtype == "/Type1" || subtype == "/MMType1" || subtype == "/TrueType" {
+		// Standard 14, Type1 and TrueType fonts default to StandardEncoding
+		decoder.SetBaseEncoding("StandardEncoding")
 	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
+	if name := lookupName(pdf, font, "Encoding"); name != "" {
+		decoder.SetBaseEncoding(name)
+	} else if encodingDict := asDict(encoding); encodingDict != nil {
+		// Extract BaseEncoding from encoding dictionary
+		if baseEncoding := lookupName(pdf, encodingDict, "BaseEncoding"); baseEncoding != "" {
+			decoder.SetBaseEncoding(baseEncoding)
 		}
-		bracketEnd++
+		// Extract Differences array
+		decoder.ParseDifferencesArray(string(lookup(pdf, encodingDict, "Differences")))
 	}
 
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
-// extractStreamData extracts and decompresses stream data from a stream object
-func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
-	obj, err := pdf.GetObject(objNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get stream object %d: %v\n", objNum, err)
-		}
-		return ""
-	}
-
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
-		return ""
-	}
-
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
-	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
-
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
+	// Extract ToUnicode CMap (highest priority for text decoding)
+	if toUnicodeObjNum, ok := syntax.Reference(syntax.Lookup(font, "ToUnicode")); ok {
+		cmapData, err := decodedStream(pdf, toUnicodeObjNum)
 		if err == nil {
-			return string(decompressed)
+			decoder.ParseToUnicodeCMap(string(cmapData))
 		}
 		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+			fmt.Printf("Parsed ToUnicode CMap for font %s with %d mappings (error: %v)\n", fontName, len(decoder.toUnicode), err)
 		}
 	}
 
-	return string(streamData)
+	return decoder
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
-- 
2.43.0


From dd4599f4c17a757aeb4d0d5a591d9302023f91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 31/93] fix: report page rotation as an angle between 0 and 270

---
 content/extract/pages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index b7d6c81..e92f179 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -131,7 +131,7 @@ func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
 
 	// Extract rotation
 	if rotation, ok := syntax.Number(node.lookup(pdf, "Rotate")); ok {
-		page.Rotation = int(rotation)
+		page.Rotation = (int(rotation)%360 + 360) % 360
 	}
 
 	// Extract resources FIRST (needed for font decoders for text extraction)
-- 
2.43.0


From 7c139b75ea3d86b4f0ddf73199842eef132d560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 32/93] fix: code 0xDB of MacRomanEncoding is the currency sign

---
 content/extract/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index 9a704dc..f002c48 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -450,7 +450,7 @@ var macRomanEncoding = map[int]rune{
 	216: '\u00FF', // y with diaeresis
 	217: '\u0178', // Y with diaeresis
 	218: '\u2044', // Fraction slash
-	219: '\u20AC', // Euro sign
+	219: '\u00A4', // Currency sign
 	220: '\u2039', // Single left-pointing angle quotation mark
 	221: '\u203A', // Single right-pointing angle quotation mark
 	222: '\uFB01', // fi ligature
-- 
2.43.0


From 41065e8a6251d7b3c2a04a7732feac5ba6f0c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 33/93] fix: write metadata and bookmark titles as text strings

---
 core/write/bookmarks.go |  2 +-
 core/write/metadata.go  | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 879fbf6..193fda5 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -97,7 +97,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFString(bookmark.Title))),
+			"/Title": rawValue(fmt.Sprintf("(%s)", escapePDFString(textString(bookmark.Title)))),
 		}
 
 		if dest != "" {
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 7ef732f..f92da9d 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -19,22 +21,22 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = metadataString(escapePDFStringForMetadata(metadata.Title))
+		dict["/Title"] = metadataString(escapePDFStringForMetadata(textString(metadata.Title)))
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = metadataString(escapePDFStringForMetadata(metadata.Author))
+		dict["/Author"] = metadataString(escapePDFStringForMetadata(textString(metadata.Author)))
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = metadataString(escapePDFStringForMetadata(metadata.Subject))
+		dict["/Subject"] = metadataString(escapePDFStringForMetadata(textString(metadata.Subject)))
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = metadataString(escapePDFStringForMetadata(metadata.Keywords))
+		dict["/Keywords"] = metadataString(escapePDFStringForMetadata(textString(metadata.Keywords)))
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = metadataString(escapePDFStringForMetadata(metadata.Creator))
+		dict["/Creator"] = metadataString(escapePDFStringForMetadata(textString(metadata.Creator)))
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = metadataString(escapePDFStringForMetadata(metadata.Producer))
+		dict["/Producer"] = metadataString(escapePDFStringForMetadata(textString(metadata.Producer)))
 	}
 	if metadata.CreationDate != "" {
 		dict["/CreationDate"] = metadataString(formatPDFDate(metadata.CreationDate))
@@ -55,7 +57,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = metadataString(escapePDFStringForMetadata(value))
+			dict[key] = metadataString(escapePDFStringForMetadata(textString(value)))
 		}
 	}
 
@@ -100,6 +102,25 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 	return w.SetMetadata(metadata)
 }
 
+// textString encodes text as a PDF text string: as it is if PDFDocEncoding has the
+// same codes, as UTF-16BE otherwise. Text that is not UTF-8 is left as it is.
+func textString(s string) string {
+	plain := true
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c >= 0x7F || c < 0x20 && c != '\t' && c != '\n' && c != '\r' {
+			plain = false
+		}
+	}
+	if plain || !utf8.ValidString(s) {
+		return s
+	}
+	encoded := []byte{0xFE, 0xFF}
+	for _, unit := range utf16.Encode([]rune(s)) {
+		encoded = append(encoded, byte(unit>>8), byte(unit))
+	}
+	return string(encoded)
+}
+
 // metadataString makes a string object of escaped content, whatever the content
 // looks like (a value such as "/home" or "Vitamin 1 2 R" is still a string)
 func metadataString(escaped string) rawValue {
-- 
2.43.0


From 480daf849648ab7e9dc90962544fb3b0c308c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 34/93] fix: metadata keys may contain a number sign

---
 core/write/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index f92da9d..88de74f 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -57,6 +57,8 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
+			// A number sign would start an escape sequence in the name
+			key = strings.ReplaceAll(key, "#", "#23")
 			dict[key] = metadataString(escapePDFStringForMetadata(textString(value)))
 		}
 	}
-- 
2.43.0


From 1da1316da90ebee462e81d0603e83a2524207b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 35/93] fix: bound predictor rows by the data available

---
 content/extract/object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/extract/object.go b/content/extract/object.go
index 3164585..2a07ea6 100644
--- a/content/extract/object.go
+++ b/content/extract/object.go
@@ -251,7 +251,7 @@ func decodePredictor(pdf *parse.PDF, data, params []byte) ([]byte, error) {
 		return nil, fmt.Errorf("invalid predictor parameters")
 	}
 	pixel := (colors*bits + 7) / 8
-	rowLen := (colors*bits*columns + 7) / 8
+	rowLen := min((colors*bits*columns+7)/8, len(data)) // Only the last row may be short
 	result := make([]byte, 0, len(data))
 	previous := make([]byte, rowLen)
 	for len(data) > 1 {
-- 
2.43.0


From eda4d32e7b86b58ef35b8b7f0f8b456db4240f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 36/93] fix: count characters, not bytes, in the export summary

---
 content/extract/directory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..1f06c4b 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -214,7 +215,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 		// Count text characters
 		for _, text := range page.Text {
-			totalTextChars += len(text.Text)
+			totalTextChars += utf8.RuneCountInString(text.Text)
 		}
 		if len(page.Text) > 0 {
 			hasText = true
-- 
2.43.0


From ee75e3cf8c7adaf119bada8cc9a57e3a05fb3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 37/93] fix: read font names as UTF-16

---
 resources/font/font.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..8068155 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
 )
 
 // Font represents an embedded font with subsetting support
@@ -205,21 +206,17 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
+			// Both Unicode platforms store names in UTF-16BE
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
-- 
2.43.0


From 1af9c50da552d8dc1c1066fb06f9707561bac506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 38/93] fix: read cmap subtables within their bounds, first
 segment first

---
 resources/font/font.go | 43 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 8068155..4a744b2 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -100,7 +100,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 		tableOffset := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 		length := binary.BigEndian.Uint32(data[offset+12 : offset+16])
 
-		if int(tableOffset)+int(length) > len(data) {
+		if uint64(tableOffset)+uint64(length) > uint64(len(data)) {
 			return nil, fmt.Errorf("table %s extends beyond font data", tag)
 		}
 
@@ -401,6 +401,9 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
+	if uint64(bestOffset) > uint64(len(data)) {
+		return nil, fmt.Errorf("cmap subtable beyond table")
+	}
 	subtableData := data[bestOffset:]
 	if len(subtableData) < 2 {
 		return nil, fmt.Errorf("cmap subtable too short")
@@ -441,7 +444,11 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments beyond subtable")
+	}
 
+	next := 0
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
 		endCode := binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2])
@@ -452,7 +459,17 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 			break // Last segment
 		}
 
-		for code := startCode; code <= endCode && code != 0xFFFF; code++ {
+		// Segments are in ascending order: the first one that ends at or after a code counts
+		first := int(startCode)
+		if first < next {
+			first = next
+		}
+		if int(endCode) >= next {
+			next = int(endCode) + 1
+		}
+
+		for c := first; c <= int(endCode) && c != 0xFFFF; c++ {
+			code := uint16(c)
 			var glyphID uint16
 
 			if idRangeOffset == 0 {
@@ -485,11 +502,12 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 	length := binary.BigEndian.Uint32(data[4:8])
 	numGroups := binary.BigEndian.Uint32(data[12:16])
 
-	if len(data) < int(length) {
+	if uint64(len(data)) < uint64(length) {
 		return nil, fmt.Errorf("cmap format 12 length mismatch")
 	}
 
 	offset := 16
+	next := uint64(0)
 	for i := 0; i < int(numGroups); i++ {
 		if offset+12 > len(data) {
 			break
@@ -499,9 +517,22 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
-		for code := startCharCode; code <= endCharCode; code++ {
-			glyphID := uint16(startGlyphID + (code - startCharCode))
-			glyphMap[rune(code)] = glyphID
+		// Groups are in ascending order and do not overlap
+		if uint64(startCharCode) < next {
+			offset += 12
+			continue
+		}
+		next = uint64(endCharCode) + 1
+
+		for code := startCharCode; code <= endCharCode && code <= unicode.MaxRune; code++ {
+			// Glyph 0 stands for a missing character; glyph numbers have 16 bits
+			glyphID := uint64(startGlyphID) + uint64(code-startCharCode)
+			if glyphID > 0xFFFF {
+				break
+			}
+			if glyphID != 0 {
+				glyphMap[rune(code)] = uint16(glyphID)
+			}
 		}
 
 		offset += 12
-- 
2.43.0


From c8f7a28b3ce13f98a70d8b3c0115e31718d9283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 39/93] fix: describe embedded fonts by character code, in
 glyph space units

---
 resources/font/font.go |  32 ++++++---
 resources/font/pdf.go  | 154 +++++++++++++++++++++++++----------------
 2 files changed, 118 insertions(+), 68 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 4a744b2..a270bfa 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -550,6 +550,26 @@ func (f *Font) CreateSubsetFont() ([]byte, error) {
 	return f.Data, nil
 }
 
+// advanceWidth returns the advance width of a glyph in font units
+func (ttf *TTF) advanceWidth(gid uint16) (int, error) {
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return 0, fmt.Errorf("missing hmtx table")
+	}
+
+	// The glyphs after the last metric share its advance width
+	index := int(gid)
+	if hhea, ok := ttf.Tables["hhea"]; ok && len(hhea.Data) >= 36 {
+		if n := int(binary.BigEndian.Uint16(hhea.Data[34:36])); n > 0 && index >= n {
+			index = n - 1
+		}
+	}
+	if index*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm), nil // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[index*4 : index*4+2])), nil
+}
+
 // GetWidths returns the width array for the subset glyphs
 func (f *Font) GetWidths() ([]int, error) {
 	ttf, err := ParseTTF(f.Data)
@@ -562,18 +582,10 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
-		return nil, fmt.Errorf("missing hmtx table")
-	}
-
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
+		if widths[i], err = ttf.advanceWidth(gid); err != nil {
+			return nil, err
 		}
 	}
 
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index d42f528..a381b70 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -6,6 +6,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"sort"
 )
 
@@ -34,14 +35,9 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	}
 	subsetPrefix := f.FontID + "+"
 
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
-	}
-
-	// Get widths
-	widths, err := f.GetWidths()
+	// Map the character codes of the subset to characters and widths
+	codes := f.subsetCodes()
+	widths, err := f.codeWidths(ttf, codes)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get widths: %w", err)
 	}
@@ -64,7 +60,7 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
 	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
+	toUnicodeData := f.createToUnicodeCMapData(codes)
 	toUnicodeDict := map[string]interface{}{
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
@@ -77,7 +73,7 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
 
 	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, widths, subsetPrefix)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -101,7 +97,7 @@ type PDFWriter interface {
 }
 
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, widths map[int]int, subsetPrefix string) []byte {
 	var buf bytes.Buffer
 
 	// Base font name with subset prefix
@@ -111,16 +107,29 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 	buf.WriteString("/Type /Font\n")
 	buf.WriteString("/Subtype /TrueType\n")
 	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	buf.WriteString("/Encoding /WinAnsiEncoding\n")
 
-	// Width array
+	// Width array, indexed by character code
+	first, last := 255, 0
+	for code := range widths {
+		if code < first {
+			first = code
+		}
+		if code > last {
+			last = code
+		}
+	}
+	if first > last {
+		first, last = 0, 0
+	}
+	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", first))
+	buf.WriteString(fmt.Sprintf("/LastChar %d\n", last))
 	buf.WriteString("/Widths [")
-	for i, width := range widths {
-		if i > 0 {
+	for code := first; code <= last; code++ {
+		if code > first {
 			buf.WriteString(" ")
 		}
-		buf.WriteString(fmt.Sprintf("%d", width))
+		buf.WriteString(fmt.Sprintf("%d", widths[code]))
 	}
 	buf.WriteString("]\n")
 
@@ -145,11 +154,11 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
 	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+		-100, -100, 1100, 1100)) // Simplified bbox
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
 	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
 	buf.WriteString(">>")
@@ -157,30 +166,61 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 	return buf.Bytes()
 }
 
-// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
+// winAnsiHigh lists the characters of WinAnsiEncoding that differ from Latin-1
+var winAnsiHigh = map[rune]int{
+	0x20AC: 0x80, 0x201A: 0x82, 0x0192: 0x83, 0x201E: 0x84, 0x2026: 0x85, 0x2020: 0x86,
+	0x2021: 0x87, 0x02C6: 0x88, 0x2030: 0x89, 0x0160: 0x8A, 0x2039: 0x8B, 0x0152: 0x8C,
+	0x017D: 0x8E, 0x2018: 0x91, 0x2019: 0x92, 0x201C: 0x93, 0x201D: 0x94, 0x2022: 0x95,
+	0x2013: 0x96, 0x2014: 0x97, 0x02DC: 0x98, 0x2122: 0x99, 0x0161: 0x9A, 0x203A: 0x9B,
+	0x0153: 0x9C, 0x017E: 0x9E, 0x0178: 0x9F,
+}
+
+// subsetCodes returns the subset characters by their WinAnsiEncoding character code.
+// Characters outside WinAnsiEncoding have no code in a simple font.
+func (f *Font) subsetCodes() map[int]rune {
+	codes := make(map[int]rune)
+	for _, r := range f.Subset {
+		if r >= 0x20 && r <= 0x7E || r >= 0xA0 && r <= 0xFF {
+			codes[int(r)] = r
+		} else if code, ok := winAnsiHigh[r]; ok {
+			codes[code] = r
+		}
 	}
+	return codes
+}
 
+// codeWidths returns the widths of the character codes in thousandths of an em
+func (f *Font) codeWidths(ttf *TTF, codes map[int]rune) (map[int]int, error) {
 	cmap, ok := ttf.Tables["cmap"]
 	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
+		return nil, fmt.Errorf("missing cmap table")
 	}
-
 	glyphMap, err := parseCmap(cmap.Data)
 	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
+		return nil, fmt.Errorf("failed to parse cmap: %w", err)
 	}
 
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
+	widths := make(map[int]int)
+	for code, r := range codes {
+		width, err := ttf.advanceWidth(glyphMap[r])
+		if err != nil {
+			return nil, err
+		}
+		widths[code] = ttf.scale(width)
 	}
+	return widths, nil
+}
 
+// scale converts font units to thousandths of an em
+func (ttf *TTF) scale(v int) int {
+	if ttf.UnitsPerEm == 0 {
+		return v
+	}
+	return int(math.Round(float64(v) * 1000 / float64(ttf.UnitsPerEm)))
+}
+
+// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
+func (f *Font) createToUnicodeCMapData(codes map[int]rune) []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -198,22 +238,25 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("<00> <FF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
+	// Write bfchar entries (character code -> Unicode), at most 100 per block
+	sorted := make([]int, 0, len(codes))
+	for code := range codes {
+		sorted = append(sorted, code)
+	}
+	sort.Ints(sorted)
 
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
+	for len(sorted) > 0 {
+		n := len(sorted)
+		if n > 100 {
+			n = 100
+		}
+		buf.WriteString(fmt.Sprintf("%d beginbfchar\n", n))
+		for _, code := range sorted[:n] {
+			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", code, codes[code]))
 		}
+		buf.WriteString("endbfchar\n")
+		sorted = sorted[n:]
 	}
-	buf.WriteString("endbfchar\n")
 
 	buf.WriteString("endcmap\n")
 	buf.WriteString("CMapName currentdict /CMap defineresource pop\n")
@@ -252,13 +295,12 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 // escapeName escapes a PDF name
 func escapeName(s string) string {
 	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c <= ' ' || c >= 127 || bytes.IndexByte([]byte("#/()<>[]{}%"), c) >= 0 {
+			buf.WriteString(fmt.Sprintf("#%02X", c))
 		} else {
-			buf.WriteRune(r)
+			buf.WriteByte(c)
 		}
 	}
 	return buf.String()
@@ -282,11 +324,7 @@ func escapeString(s string) string {
 		case '\t':
 			buf.WriteString("\\t")
 		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
-			}
+			buf.WriteRune(r)
 		}
 	}
 	return buf.String()
-- 
2.43.0


From ff31e4168c13edd6fc85e41f97306be825ae85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 40/93] fix: compare repeated graphics and annotations one by
 one

---
 core/compare/compare.go | 109 +++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 34 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..1a849da 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -462,7 +462,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare graphics
-	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics)
+	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics, opts.GraphicTolerance)
 	if graphicDiff != nil && (len(graphicDiff.Added) > 0 || len(graphicDiff.Removed) > 0) {
 		diff.GraphicDiff = graphicDiff
 		diff.Differences = append(diff.Differences, Difference{
@@ -544,7 +544,7 @@ func abs(x float64) float64 {
 }
 
 // compareGraphics compares graphics between two pages
-func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
+func compareGraphics(g1, g2 []types.Graphic, tolerance float64) *GraphicDiff {
 	diff := &GraphicDiff{
 		Added:   []types.Graphic{},
 		Removed: []types.Graphic{},
@@ -552,24 +552,35 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 
 	// Simple comparison: compare by type and approximate position
 	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
-	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
-	}
-
-	for _, g := range g2 {
-		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
-			diff.Added = append(diff.Added, g)
-		} else {
-			delete(g1Map, key)
+	keys1 := make([]string, len(g1))
+	for i, g := range g1 {
+		keys1[i] = graphicKey(g)
+	}
+	keys2 := make([]string, len(g2))
+	for i, g := range g2 {
+		keys2[i] = graphicKey(g)
+	}
+	unmatched1, unmatched2 := unmatchedKeys(keys1, keys2)
+
+	// What has no exact counterpart may still have one within the tolerance
+	matched1 := make(map[int]bool)
+	for _, i2 := range unmatched2 {
+		found := false
+		for _, i1 := range unmatched1 {
+			if !matched1[i1] && graphicsMatch(g1[i1], g2[i2], tolerance) {
+				matched1[i1] = true
+				found = true
+				break
+			}
+		}
+		if !found {
+			diff.Added = append(diff.Added, g2[i2])
 		}
 	}
-
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+	for _, i1 := range unmatched1 {
+		if !matched1[i1] {
+			diff.Removed = append(diff.Removed, g1[i1])
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -579,6 +590,40 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 	return diff
 }
 
+// graphicsMatch checks if two graphics have the same type and, within tolerance, the same box
+func graphicsMatch(a, b types.Graphic, tolerance float64) bool {
+	if a.Type != b.Type || a.BoundingBox == nil || b.BoundingBox == nil {
+		return false
+	}
+	return positionsMatch(a.BoundingBox.LowerX, a.BoundingBox.LowerY, b.BoundingBox.LowerX, b.BoundingBox.LowerY, tolerance) &&
+		positionsMatch(a.BoundingBox.UpperX, a.BoundingBox.UpperY, b.BoundingBox.UpperX, b.BoundingBox.UpperY, tolerance)
+}
+
+// unmatchedKeys pairs equal keys one to one and returns the indices left over on both sides
+func unmatchedKeys(keys1, keys2 []string) (unmatched1, unmatched2 []int) {
+	available := make(map[string]int)
+	for _, key := range keys1 {
+		available[key]++
+	}
+	matched := make(map[string]int)
+	for i, key := range keys2 {
+		if available[key] > 0 {
+			available[key]--
+			matched[key]++
+		} else {
+			unmatched2 = append(unmatched2, i)
+		}
+	}
+	for i, key := range keys1 {
+		if matched[key] > 0 {
+			matched[key]--
+		} else {
+			unmatched1 = append(unmatched1, i)
+		}
+	}
+	return unmatched1, unmatched2
+}
+
 // graphicKey generates a key for a graphic element for comparison
 func graphicKey(g types.Graphic) string {
 	// Use type and bounding box for key
@@ -798,24 +843,20 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	}
 
 	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
-	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
+	keys1 := make([]string, len(a1))
+	for i, a := range a1 {
+		keys1[i] = annotationKey(a)
 	}
-
-	for _, a := range a2 {
-		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
-			diff.Added = append(diff.Added, a)
-		} else {
-			delete(a1Map, key)
-		}
+	keys2 := make([]string, len(a2))
+	for i, a := range a2 {
+		keys2[i] = annotationKey(a)
 	}
-
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
+	unmatched1, unmatched2 := unmatchedKeys(keys1, keys2)
+	for _, i := range unmatched2 {
+		diff.Added = append(diff.Added, a2[i])
+	}
+	for _, i := range unmatched1 {
+		diff.Removed = append(diff.Removed, a1[i])
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
-- 
2.43.0


From 3128f666d696719d186f6c564f618ba457fb44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 41/93] fix: text comparison honours its case, whitespace,
 tolerance and threshold options

---
 core/compare/compare.go   |  2 +-
 core/compare/text_diff.go | 64 ++++++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 1a849da..1499203 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -532,7 +532,7 @@ func textElementsEqual(t1, t2 types.TextElement) bool {
 
 // positionsMatch checks if two positions match within tolerance
 func positionsMatch(x1, y1, x2, y2, tolerance float64) bool {
-	return abs(x1-x2) < tolerance && abs(y1-y2) < tolerance
+	return abs(x1-x2) <= tolerance && abs(y1-y2) <= tolerance
 }
 
 // abs returns absolute value
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..4aa4107 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -35,7 +35,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
+			if sameText(t1, t2, opts) && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
 				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
 					text1Matched[i1] = true
 					text2Matched[i2] = true
@@ -54,7 +54,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && !sameText(t1, t2, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -136,6 +136,16 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 	return diff
 }
 
+// sameText checks if two text elements have the same text as far as the options tell them apart
+func sameText(t1, t2 types.TextElement, opts CompareOptions) bool {
+	return t1.Text == t2.Text || normalizeTextForComparison(t1.Text, opts) == normalizeTextForComparison(t2.Text, opts)
+}
+
+// sameFont checks if two text elements have the same font and size
+func sameFont(t1, t2 types.TextElement) bool {
+	return t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1
+}
+
 // myersDiffText applies Myers diff algorithm to text elements
 // This finds the optimal matching between two sequences of text elements
 func myersDiffText(text1, text2 []types.TextElement, opts CompareOptions) *TextDiff {
@@ -302,7 +312,7 @@ func wordLevelDiff(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 				words1 := splitWords(normalizeTextForComparison(t1.Text, opts))
 				words2 := splitWords(normalizeTextForComparison(t2.Text, opts))
 
-				if len(words1) == len(words2) && wordsEqual(words1, words2) {
+				if wordsEqual(words1, words2) && sameFont(t1, t2) {
 					// All words match
 					text1Matched[i1] = true
 					text2Matched[i2] = true
@@ -357,7 +367,7 @@ func charLevelDiff(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 				text1Norm := normalizeTextForComparison(t1.Text, opts)
 				text2Norm := normalizeTextForComparison(t2.Text, opts)
 
-				if text1Norm == text2Norm {
+				if text1Norm == text2Norm && sameFont(t1, t2) {
 					text1Matched[i1] = true
 					text2Matched[i2] = true
 				} else {
@@ -392,33 +402,31 @@ func applySensitivityFilter(diff *TextDiff, opts CompareOptions) *TextDiff {
 		return nil
 	}
 
-	switch opts.DiffSensitivity {
-	case SensitivityRelaxed:
-		// Only keep significant changes (more than threshold)
-		filtered := &TextDiff{
-			Added:    []types.TextElement{},
-			Removed:  []types.TextElement{},
-			Modified: []TextModification{},
-		}
-		for _, mod := range diff.Modified {
-			// Only keep if change is significant (e.g., >10% different)
-			oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
-			newNorm := normalizeTextForComparison(mod.New.Text, opts)
-			changeRatio := calculateChangeRatio(oldNorm, newNorm)
-			if changeRatio > 0.1 { // More than 10% change
-				filtered.Modified = append(filtered.Modified, mod)
-			}
-		}
-		filtered.Added = diff.Added
-		filtered.Removed = diff.Removed
-		return filtered
-	case SensitivityStrict:
+	relaxed := opts.DiffSensitivity == SensitivityRelaxed
+	if !relaxed && opts.MinChangeThreshold <= 0 {
 		// Keep all changes
 		return diff
-	default: // SensitivityNormal
-		// Keep all changes (could add filtering for very minor changes)
-		return diff
 	}
+
+	filtered := &TextDiff{
+		Added:    diff.Added,
+		Removed:  diff.Removed,
+		Modified: []TextModification{},
+	}
+	for _, mod := range diff.Modified {
+		oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
+		newNorm := normalizeTextForComparison(mod.New.Text, opts)
+		changeRatio := calculateChangeRatio(oldNorm, newNorm)
+		if changeRatio < opts.MinChangeThreshold {
+			continue
+		}
+		// Relaxed: only keep significant changes (more than 10% different)
+		if relaxed && changeRatio <= 0.1 {
+			continue
+		}
+		filtered.Modified = append(filtered.Modified, mod)
+	}
+	return filtered
 }
 
 // Helper functions
-- 
2.43.0


From 45eda332f1b4f48eb47fd4dad56a3801b96a68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 42/93] fix: compare the images of a page by their own data,
 place and size

---
 content/extract/images.go |  42 ++++++++++
 core/compare/compare.go   | 159 +++++++++++++++-----------------------
 2 files changed, 106 insertions(+), 95 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index 7da24f8..751174c 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -109,3 +109,45 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 
 	return allImages, nil
 }
+
+// ExtractPageImages extracts the images of every page with binary data, by resource name.
+// An image used by several pages is listed for each of them.
+func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[string]types.Image, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+
+	leaves, err := pageTree(pdf)
+	if err != nil {
+		return nil, fmt.Errorf("failed to extract content: %w", err)
+	}
+
+	pages := make([]map[string]types.Image, 0, len(leaves))
+	extracted := make(map[int]*types.Image)
+	for _, leaf := range leaves {
+		images := make(map[string]types.Image)
+		for _, entry := range resourceEntries(asDict(leaf.lookup(pdf, "Resources")), "XObject", pdf) {
+			if entry.objNum == 0 || lookupName(pdf, entry.dict, "Subtype") != "/Image" {
+				continue
+			}
+			image, ok := extracted[entry.objNum]
+			if !ok {
+				if image, err = extractImageData(entry.objNum, pdf, verbose); err != nil {
+					image = nil
+				}
+				extracted[entry.objNum] = image
+			}
+			if image != nil {
+				named := *image
+				named.ID = "/" + entry.name
+				images[entry.name] = named
+			}
+		}
+		pages = append(pages, images)
+	}
+	return pages, nil
+}
diff --git a/core/compare/compare.go b/core/compare/compare.go
index 1499203..7631932 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -242,7 +242,15 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	}
 
 	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	images1, err := extract.ExtractPageImages(pdf1Bytes, password1, opts.Verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to extract images from first PDF: %w", err)
+	}
+	images2, err := extract.ExtractPageImages(pdf2Bytes, password2, opts.Verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to extract images from second PDF: %w", err)
+	}
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -372,7 +380,7 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 }
 
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 []map[string]types.Image) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -382,7 +390,11 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		var pageImages1, pageImages2 map[string]types.Image
+		if i < len(images1) && i < len(images2) {
+			pageImages1, pageImages2 = images1[i], images2[i]
+		}
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pageImages1, pageImages2)
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -419,7 +431,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 }
 
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 map[string]types.Image) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -474,7 +486,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, images1, images2, opts.GraphicTolerance)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -633,8 +645,9 @@ func graphicKey(g types.Graphic) string {
 	return fmt.Sprintf("%s", g.Type)
 }
 
-// compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+// compareImagesWithBinary compares images between two pages, including binary data.
+// images1 and images2 hold the full images of the two pages by resource name.
+func compareImagesWithBinary(img1, img2 []types.ImageRef, images1, images2 map[string]types.Image, tolerance float64) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -642,82 +655,55 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 		Moved:    []ImageModification{},
 	}
 
-	// Extract full image data for all images
-	images1Map := make(map[string]*types.Image) // Map ImageID -> full Image data
-	images2Map := make(map[string]*types.Image)
-
-	// Extract images from PDF1
-	if resources1 != nil {
-		for name, img := range resources1.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
-			if err == nil {
-				images1Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images1Map[imageID] = &img
-			}
-		}
+	// Map ImageID -> full Image data
+	images1Map := imagesByID(images1)
+	images2Map := imagesByID(images2)
+
+	img1Matched := make(map[int]bool)
+	img2Matched := make(map[int]bool)
+
+	samePlace := func(a, b types.ImageRef) bool {
+		return positionsMatch(a.X, a.Y, b.X, b.Y, tolerance) && positionsMatch(a.Width, a.Height, b.Width, b.Height, tolerance)
 	}
 
-	// Extract images from PDF2
-	if resources2 != nil {
-		for name, img := range resources2.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
-			if err == nil {
-				images2Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images2Map[imageID] = &img
+	// First pass: exact matches (same place and binary data)
+	for i1, imgRef1 := range img1 {
+		for i2, imgRef2 := range img2 {
+			if img2Matched[i2] || !samePlace(imgRef1, imgRef2) {
+				continue
+			}
+			img1Data := images1Map[imgRef1.ImageID]
+			img2Data := images2Map[imgRef2.ImageID]
+			same := imgRef1.ImageID == imgRef2.ImageID // Without the data only the ID can be compared
+			if img1Data != nil && img2Data != nil {
+				same = imagesEqual(img1Data, img2Data)
+			}
+			if same {
+				img1Matched[i1] = true
+				img2Matched[i2] = true
+				break
 			}
 		}
 	}
 
-	// Compare by image ID and position (with tolerance for position)
-	img1Matched := make(map[int]bool)
-	img2Matched := make(map[int]bool)
-
-	// First pass: exact matches (same ID, position, and binary data)
+	// Same ID and place but different binary - modified
 	for i1, imgRef1 := range img1 {
 		if img1Matched[i1] {
 			continue
 		}
 		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
+			if img2Matched[i2] || imgRef1.ImageID != imgRef2.ImageID || !samePlace(imgRef1, imgRef2) {
 				continue
 			}
-			if imgRef1.ImageID == imgRef2.ImageID && positionsMatch(imgRef1.X, imgRef1.Y, imgRef2.X, imgRef2.Y, 1.0) {
-				// Same ID and position - check binary data
-				img1Data := images1Map[imgRef1.ImageID]
-				img2Data := images2Map[imgRef2.ImageID]
-				if img1Data != nil && img2Data != nil {
-					if imagesEqual(img1Data, img2Data) {
-						// Exact match including binary
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					} else {
-						// Same ID/position but different binary - mark as modified
-						diff.Modified = append(diff.Modified, ImageModification{
-							Old:      imgRef1,
-							New:      imgRef2,
-							OldImage: img1Data,
-							NewImage: img2Data,
-						})
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					}
-				} else {
-					// Can't compare binary (missing data) - treat as match for now
-					img1Matched[i1] = true
-					img2Matched[i2] = true
-					break
-				}
-			}
+			diff.Modified = append(diff.Modified, ImageModification{
+				Old:      imgRef1,
+				New:      imgRef2,
+				OldImage: images1Map[imgRef1.ImageID],
+				NewImage: images2Map[imgRef2.ImageID],
+			})
+			img1Matched[i1] = true
+			img2Matched[i2] = true
+			break
 		}
 	}
 
@@ -778,31 +764,14 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
-// getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
-	// If metadata image already has data, use it
-	if metadataImg != nil && len(metadataImg.Data) > 0 {
-		return metadataImg, nil
-	}
-
-	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
-	if err != nil {
-		return nil, err
-	}
-
-	// Find image by ID
-	for _, img := range allImages {
-		if img.ID == imageID {
-			return &img, nil
-		}
-	}
-
-	// Not found - return metadata-only image
-	if metadataImg != nil {
-		return metadataImg, nil
+// imagesByID returns the images of a page by the ID that image references use
+func imagesByID(images map[string]types.Image) map[string]*types.Image {
+	byID := make(map[string]*types.Image)
+	for name := range images {
+		image := images[name]
+		byID["/"+name] = &image
 	}
-	return nil, fmt.Errorf("image %s not found", imageID)
+	return byID
 }
 
 // imagesEqual compares two images for binary equality
@@ -812,7 +781,7 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	}
 
 	// Compare metadata first
-	if img1.Width != img2.Width || img1.Height != img2.Height {
+	if img1.Width != img2.Width || img1.Height != img2.Height || img1.BitsPerComponent != img2.BitsPerComponent {
 		return false
 	}
 	if img1.Format != img2.Format {
-- 
2.43.0


From 609b68a4bd924ed31e5d97409f404dd7964d577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 43/93] fix: report form differences in a stable order

---
 core/compare/compare.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 7631932..0607c0a 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
@@ -888,7 +889,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range sortedNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -900,7 +902,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range sortedNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -918,13 +921,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range sortedNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range sortedNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -939,7 +944,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range sortedNames(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -949,7 +955,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range sortedNames(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -959,7 +966,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range sortedNames(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
@@ -979,6 +987,16 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	return diff
 }
 
+// sortedNames returns the field names in a stable order
+func sortedNames(values types.FormData) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
 	if v1 == nil && v2 == nil {
-- 
2.43.0


From 7c6f0d812577d74979614bcf57b91c08da7f6dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 44/93] fix: text reports list every metadata and bookmark
 difference

---
 core/compare/report.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/core/compare/report.go b/core/compare/report.go
index 6c2e948..04f617b 100644
--- a/core/compare/report.go
+++ b/core/compare/report.go
@@ -25,14 +25,26 @@ func GenerateReport(result *ComparisonResult) string {
 	if result.MetadataDiff != nil {
 		report.WriteString("Metadata Differences:\n")
 		report.WriteString(strings.Repeat("-", 30) + "\n")
-		if result.MetadataDiff.Title != nil {
-			report.WriteString(fmt.Sprintf("  Title: %v -> %v\n", result.MetadataDiff.Title.OldValue, result.MetadataDiff.Title.NewValue))
-		}
-		if result.MetadataDiff.Author != nil {
-			report.WriteString(fmt.Sprintf("  Author: %v -> %v\n", result.MetadataDiff.Author.OldValue, result.MetadataDiff.Author.NewValue))
-		}
-		if result.MetadataDiff.PageCount != nil {
-			report.WriteString(fmt.Sprintf("  Page Count: %v -> %v\n", result.MetadataDiff.PageCount.OldValue, result.MetadataDiff.PageCount.NewValue))
+		md := result.MetadataDiff
+		for _, field := range []struct {
+			name string
+			diff *FieldDiff
+		}{
+			{"Title", md.Title},
+			{"Author", md.Author},
+			{"Subject", md.Subject},
+			{"Keywords", md.Keywords},
+			{"Creator", md.Creator},
+			{"Producer", md.Producer},
+			{"Creation Date", md.CreationDate},
+			{"Modification Date", md.ModDate},
+			{"PDF Version", md.PDFVersion},
+			{"Page Count", md.PageCount},
+			{"Encrypted", md.Encrypted},
+		} {
+			if field.diff != nil {
+				report.WriteString(fmt.Sprintf("  %s: %v -> %v\n", field.name, field.diff.OldValue, field.diff.NewValue))
+			}
 		}
 		report.WriteString("\n")
 	}
@@ -105,6 +117,13 @@ func GenerateReport(result *ComparisonResult) string {
 		report.WriteString("\n")
 	}
 
+	// Other differences of the document as a whole
+	for _, d := range result.Differences {
+		if d.Type != DifferenceTypeForm {
+			report.WriteString(fmt.Sprintf("%s: %s\n\n", d.Type, d.Description))
+		}
+	}
+
 	// Form differences
 	if result.FormDiff != nil {
 		report.WriteString("Form Differences:\n")
-- 
2.43.0


From b787988a2e4cadd6c0c44cd12010f82867e2c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 45/93] fix: bookmarks are compared by target page, not by its
 object number or spelling

---
 core/compare/compare.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 0607c0a..49dbd09 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -857,7 +858,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	}
 
 	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !reflect.DeepEqual(withoutObjectNumbers(b1), withoutObjectNumbers(b2)) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -868,6 +869,28 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// withoutObjectNumbers returns the bookmarks without the object numbers of their target pages,
+// which differ between files: PageNumber tells the target
+func withoutObjectNumbers(bookmarks []types.Bookmark) []types.Bookmark {
+	result := make([]types.Bookmark, len(bookmarks))
+	for i, b := range bookmarks {
+		if elements := syntax.ArrayElements([]byte(b.Destination)); len(elements) > 0 {
+			if _, ok := syntax.Reference(elements[0]); ok {
+				elements[0] = nil
+			}
+			for j, element := range elements {
+				if len(element) > 0 && element[0] == '/' {
+					elements[j] = []byte("/" + syntax.DecodeName(element))
+				}
+			}
+			b.Destination = string(bytes.Join(elements, []byte(" ")))
+		}
+		b.Children = withoutObjectNumbers(b.Children)
+		result[i] = b
+	}
+	return result
+}
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
-- 
2.43.0


From ea68a72c69f3fcf5d7829a175f2dd85cc9f48c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 46/93] fix: AcroForm fields are read as the document defines
 them

---
 content/extract/extract.go    |   5 +-
 content/extract/images.go     |   9 +-
 content/extract/object.go     | 319 ++-----------------------
 content/extract/pages.go      |  91 +-------
 core/parse/api.go             |   6 +
 forms/acroform/extract.go     |  74 +++---
 forms/acroform/parser.go      | 427 +++++++++++++++++-----------------
 internal/document/document.go | 303 ++++++++++++++++++++++++
 internal/document/pages.go    |  78 +++++++
 internal/document/text.go     |  45 ++++
 10 files changed, 727 insertions(+), 630 deletions(-)
 create mode 100644 internal/document/document.go
 create mode 100644 internal/document/pages.go
 create mode 100644 internal/document/text.go

diff --git a/content/extract/extract.go b/content/extract/extract.go
index 1b792a3..a2a1c78 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -72,14 +73,14 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	doc.Annotations = allAnnotations
 
 	// Extract images and fonts (collect unique ones from all pages, in page order)
-	leaves, _ := pageTree(pdf)
+	leaves, _ := document.PageTree(pdf)
 	seen := make(map[int]bool)
 	for i, leaf := range leaves {
 		resources := doc.Pages[i].Resources
 		if resources == nil {
 			continue
 		}
-		resourcesDict := asDict(leaf.lookup(pdf, "Resources"))
+		resourcesDict := asDict(leaf.Lookup(pdf, "Resources"))
 		for _, entry := range resourceEntries(resourcesDict, "XObject", pdf) {
 			if image, ok := resources.Images[entry.name]; ok && !seen[entry.objNum] {
 				seen[entry.objNum] = true
diff --git a/content/extract/images.go b/content/extract/images.go
index 751174c..d5a85bc 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -80,7 +81,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	leaves, err := pageTree(pdf)
+	leaves, err := document.PageTree(pdf)
 	if err != nil {
 		return []types.Image{}, fmt.Errorf("failed to extract content: %w", err)
 	}
@@ -89,7 +90,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	allImages := make([]types.Image, 0)
 	extracted := make(map[int]bool)
 	for _, leaf := range leaves {
-		for _, entry := range resourceEntries(asDict(leaf.lookup(pdf, "Resources")), "XObject", pdf) {
+		for _, entry := range resourceEntries(asDict(leaf.Lookup(pdf, "Resources")), "XObject", pdf) {
 			if entry.objNum == 0 || extracted[entry.objNum] || lookupName(pdf, entry.dict, "Subtype") != "/Image" {
 				continue
 			}
@@ -121,7 +122,7 @@ func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[st
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	leaves, err := pageTree(pdf)
+	leaves, err := document.PageTree(pdf)
 	if err != nil {
 		return nil, fmt.Errorf("failed to extract content: %w", err)
 	}
@@ -130,7 +131,7 @@ func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[st
 	extracted := make(map[int]*types.Image)
 	for _, leaf := range leaves {
 		images := make(map[string]types.Image)
-		for _, entry := range resourceEntries(asDict(leaf.lookup(pdf, "Resources")), "XObject", pdf) {
+		for _, entry := range resourceEntries(asDict(leaf.Lookup(pdf, "Resources")), "XObject", pdf) {
 			if entry.objNum == 0 || lookupName(pdf, entry.dict, "Subtype") != "/Image" {
 				continue
 			}
diff --git a/content/extract/object.go b/content/extract/object.go
index 2a07ea6..fbcbc06 100644
--- a/content/extract/object.go
+++ b/content/extract/object.go
@@ -1,302 +1,23 @@
 package extract
 
-import (
-	"bytes"
-	"fmt"
-	"strconv"
-	"strings"
-	"unicode/utf16"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/internal/syntax"
+import "github.com/benedoc-inc/pdfer/internal/document"
+
+// Short names for reading values of the document
+var (
+	getDict          = document.Dict
+	asDict           = document.AsDict
+	resolveValue     = document.Resolve
+	lookup           = document.Lookup
+	lookupName       = document.LookupName
+	lookupText       = document.LookupText
+	lookupInt        = document.LookupInt
+	lookupNumbers    = document.LookupNumbers
+	numbers          = document.Numbers
+	catalog          = document.Catalog
+	decodeTextString = document.DecodeText
+	parseObjectRef   = document.ParseObjectRef
+	streamData       = document.StreamData
+	streamFilters    = document.StreamFilters
+	decodeFilters    = document.DecodeFilters
+	decodedStream    = document.DecodedStream
 )
-
-// maxReferenceChain bounds how many references are followed to reach a value
-const maxReferenceChain = 32
-
-// getDict returns the dictionary (or stream dictionary) of an object, starting
-// at its "<<", or nil
-func getDict(pdf *parse.PDF, objNum int) []byte {
-	obj, err := pdf.GetObject(objNum)
-	if err != nil {
-		return nil
-	}
-	return asDict(syntax.ObjectValue(obj))
-}
-
-// asDict returns value if it is a dictionary, else nil
-func asDict(value []byte) []byte {
-	if bytes.HasPrefix(value, []byte("<<")) {
-		return value
-	}
-	return nil
-}
-
-// resolveValue follows references until it reaches a direct value
-func resolveValue(pdf *parse.PDF, value []byte) []byte {
-	for i := 0; i < maxReferenceChain; i++ {
-		objNum, ok := syntax.Reference(value)
-		if !ok {
-			return value
-		}
-		obj, err := pdf.GetObject(objNum)
-		if err != nil {
-			return nil
-		}
-		value = syntax.ObjectValue(obj)
-	}
-	return nil
-}
-
-// lookup returns the direct value stored under key (without leading slash) in a
-// dictionary, following references
-func lookup(pdf *parse.PDF, dict []byte, key string) []byte {
-	value := resolveValue(pdf, syntax.Lookup(dict, key))
-	if string(value) == "null" {
-		return nil
-	}
-	return value
-}
-
-// lookupName returns the name stored under key with its leading slash, or ""
-func lookupName(pdf *parse.PDF, dict []byte, key string) string {
-	value := lookup(pdf, dict, key)
-	if len(value) == 0 || value[0] != '/' {
-		return ""
-	}
-	return "/" + syntax.DecodeName(value)
-}
-
-// lookupText returns the text string stored under key, or ""
-func lookupText(pdf *parse.PDF, dict []byte, key string) string {
-	value := lookup(pdf, dict, key)
-	if !syntax.IsString(value) {
-		return ""
-	}
-	return decodeTextString(syntax.DecodeString(value))
-}
-
-// lookupInt returns the integer stored under key, or 0
-func lookupInt(pdf *parse.PDF, dict []byte, key string) int {
-	if number, ok := syntax.Number(lookup(pdf, dict, key)); ok {
-		return int(number)
-	}
-	return 0
-}
-
-// lookupNumbers returns the numbers of the array stored under key
-func lookupNumbers(pdf *parse.PDF, dict []byte, key string) []float64 {
-	return numbers(pdf, lookup(pdf, dict, key))
-}
-
-// numbers returns the numbers of an array
-func numbers(pdf *parse.PDF, array []byte) []float64 {
-	var values []float64
-	for _, element := range syntax.ArrayElements(array) {
-		if number, ok := syntax.Number(resolveValue(pdf, element)); ok {
-			values = append(values, number)
-		}
-	}
-	return values
-}
-
-// parseObjectRef parses an object reference like "5 0 R" and returns the object number
-func parseObjectRef(ref string) (int, error) {
-	parts := strings.Fields(ref)
-	if len(parts) < 1 {
-		return 0, fmt.Errorf("invalid object reference: %s", ref)
-	}
-	objNum, err := strconv.Atoi(parts[0])
-	if err != nil {
-		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
-	}
-	return objNum, nil
-}
-
-// catalog returns the document catalog, or nil
-func catalog(pdf *parse.PDF) []byte {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil
-	}
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil
-	}
-	return getDict(pdf, rootObjNum)
-}
-
-// decodeTextString decodes a text string: UTF-16 or UTF-8 if it starts with a
-// byte order mark, PDFDocEncoding otherwise
-func decodeTextString(data []byte) string {
-	switch {
-	case bytes.HasPrefix(data, []byte{0xFE, 0xFF}):
-		units := make([]uint16, 0, len(data)/2)
-		for i := 2; i+1 < len(data); i += 2 {
-			units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
-		}
-		return string(utf16.Decode(units))
-	case bytes.HasPrefix(data, []byte{0xEF, 0xBB, 0xBF}):
-		return string(data[3:])
-	}
-	runes := make([]rune, len(data))
-	for i, c := range data {
-		if r, ok := pdfDocEncoding[c]; ok {
-			runes[i] = r
-		} else {
-			runes[i] = rune(c)
-		}
-	}
-	return string(runes)
-}
-
-// pdfDocEncoding lists where PDFDocEncoding differs from Latin-1
-var pdfDocEncoding = map[byte]rune{
-	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
-	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
-	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
-	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
-	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
-	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
-	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
-	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
-	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
-	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
-}
-
-// streamData returns the raw data of a stream object and its dictionary
-func streamData(pdf *parse.PDF, objNum int) (dict, data []byte, err error) {
-	obj, err := pdf.GetObject(objNum)
-	if err != nil {
-		return nil, nil, err
-	}
-	value := syntax.ObjectValue(obj)
-	length := -1
-	if n, ok := syntax.Number(lookup(pdf, value, "Length")); ok {
-		length = int(n)
-	}
-	dict, data, ok := syntax.SplitStream(value, length)
-	if !ok {
-		return nil, nil, fmt.Errorf("object %d is not a stream", objNum)
-	}
-	return dict, data, nil
-}
-
-// streamFilters returns the names (without slash) and parameters of a stream's filters
-func streamFilters(pdf *parse.PDF, dict []byte) (names []string, params [][]byte) {
-	filter := lookup(pdf, dict, "Filter")
-	parms := lookup(pdf, dict, "DecodeParms")
-	if len(filter) > 0 && filter[0] == '/' {
-		return []string{syntax.DecodeName(filter)}, [][]byte{asDict(parms)}
-	}
-	parmElements := syntax.ArrayElements(parms)
-	for i, element := range syntax.ArrayElements(filter) {
-		names = append(names, syntax.DecodeName(resolveValue(pdf, element)))
-		var parm []byte
-		if i < len(parmElements) {
-			parm = asDict(resolveValue(pdf, parmElements[i]))
-		}
-		params = append(params, parm)
-	}
-	return names, params
-}
-
-// decodeFilters applies filters in order. It stops before an image codec
-// (DCTDecode, JPXDecode, ...), whose data is a file format of its own.
-func decodeFilters(pdf *parse.PDF, data []byte, names []string, params [][]byte) ([]byte, error) {
-	for i, name := range names {
-		switch name {
-		case "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode":
-			return data, nil
-		}
-		decoded, err := parse.DecodeFilter(data, name)
-		if err != nil {
-			return nil, err
-		}
-		data, err = decodePredictor(pdf, decoded, params[i])
-		if err != nil {
-			return nil, err
-		}
-	}
-	return data, nil
-}
-
-// decodedStream returns the data of a stream object with its filters applied
-func decodedStream(pdf *parse.PDF, objNum int) ([]byte, error) {
-	dict, data, err := streamData(pdf, objNum)
-	if err != nil {
-		return nil, err
-	}
-	names, params := streamFilters(pdf, dict)
-	return decodeFilters(pdf, data, names, params)
-}
-
-// decodePredictor undoes the PNG predictors
-func decodePredictor(pdf *parse.PDF, data, params []byte) ([]byte, error) {
-	predictor := lookupInt(pdf, params, "Predictor")
-	if params == nil || predictor < 2 {
-		return data, nil
-	}
-	if predictor < 10 {
-		return nil, fmt.Errorf("unsupported predictor: %d", predictor)
-	}
-	param := func(key string, value int) int {
-		if n := lookupInt(pdf, params, key); n > 0 {
-			value = n
-		}
-		return value
-	}
-	colors, bits, columns := param("Colors", 1), param("BitsPerComponent", 8), param("Columns", 1)
-	if colors > 256 || bits > 32 || columns > 1<<24 {
-		return nil, fmt.Errorf("invalid predictor parameters")
-	}
-	pixel := (colors*bits + 7) / 8
-	rowLen := min((colors*bits*columns+7)/8, len(data)) // Only the last row may be short
-	result := make([]byte, 0, len(data))
-	previous := make([]byte, rowLen)
-	for len(data) > 1 {
-		kind := data[0]
-		row := make([]byte, rowLen)
-		n := copy(row, data[1:])
-		data = data[1+n:]
-		for i := range row[:n] {
-			var left, up, upLeft byte
-			up = previous[i]
-			if i >= pixel {
-				left, upLeft = row[i-pixel], previous[i-pixel]
-			}
-			switch kind {
-			case 0:
-			case 1:
-				row[i] += left
-			case 2:
-				row[i] += up
-			case 3:
-				row[i] += byte((int(left) + int(up)) / 2)
-			case 4:
-				row[i] += paeth(left, up, upLeft)
-			default:
-				return nil, fmt.Errorf("invalid PNG filter type: %d", kind)
-			}
-		}
-		result = append(result, row[:n]...)
-		previous = row
-	}
-	return result, nil
-}
-
-// paeth is the PNG Paeth predictor
-func paeth(left, up, upLeft byte) byte {
-	p := int(left) + int(up) - int(upLeft)
-	result, distance := left, -1
-	for _, candidate := range []byte{left, up, upLeft} {
-		d := p - int(candidate)
-		if d < 0 {
-			d = -d
-		}
-		if distance == -1 || d < distance {
-			result, distance = candidate, d
-		}
-	}
-	return result
-}
diff --git a/content/extract/pages.go b/content/extract/pages.go
index e92f179..3310dd9 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -5,13 +5,14 @@ import (
 	"fmt"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
 	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractPages extracts all pages from a PDF
 func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page, error) {
-	leaves, err := pageTree(pdf)
+	leaves, err := document.PageTree(pdf)
 	if err != nil {
 		return nil, err
 	}
@@ -29,88 +30,18 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	return pages, nil
 }
 
-// pageNode is a page with the dictionaries it inherits attributes from
-type pageNode struct {
-	objNum int
-	dicts  [][]byte // The page's own dictionary first, then its ancestors'
-}
-
-// lookup returns an attribute of the page, inherited if necessary
-func (node pageNode) lookup(pdf *parse.PDF, key string) []byte {
-	for _, dict := range node.dicts {
-		if value := lookup(pdf, dict, key); value != nil {
-			return value
-		}
-	}
-	return nil
-}
-
-// pageTree returns the pages of a document in order
-func pageTree(pdf *parse.PDF) ([]pageNode, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found in trailer")
-	}
-	root := catalog(pdf)
-	if root == nil {
-		return nil, fmt.Errorf("failed to get catalog object %s", trailer.RootRef)
-	}
-
-	// Find Pages reference in catalog
-	pagesObjNum, ok := syntax.Reference(syntax.Lookup(root, "Pages"))
-	if !ok {
-		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", root)
-	}
-	if getDict(pdf, pagesObjNum) == nil {
-		return nil, fmt.Errorf("failed to get pages object %d", pagesObjNum)
-	}
-
-	return pageLeaves(pdf, pagesObjNum, nil, make(map[int]bool)), nil
-}
-
-// pageLeaves returns the pages below a page tree node. Nodes that were visited
-// already and objects that cannot be read are left out.
-func pageLeaves(pdf *parse.PDF, objNum int, ancestors [][]byte, visited map[int]bool) []pageNode {
-	dict := getDict(pdf, objNum)
-	if dict == nil || visited[objNum] {
-		return nil
-	}
-	visited[objNum] = true
-	dicts := append([][]byte{dict}, ancestors...)
-
-	// Check if this is a page or a pages node
-	kids := lookup(pdf, dict, "Kids")
-	switch lookupName(pdf, dict, "Type") {
-	case "/Page":
-		return []pageNode{{objNum, dicts}}
-	case "/Pages":
-	default:
-		if kids == nil {
-			return []pageNode{{objNum, dicts}}
-		}
-	}
-
-	var leaves []pageNode
-	for _, kid := range syntax.ArrayElements(kids) {
-		if kidObjNum, ok := syntax.Reference(kid); ok {
-			leaves = append(leaves, pageLeaves(pdf, kidObjNum, dicts, visited)...)
-		}
-	}
-	return leaves
-}
-
 // pageObjectNumbers returns the object numbers of a document's pages in order
 func pageObjectNumbers(pdf *parse.PDF) []int {
 	var objNums []int
-	leaves, _ := pageTree(pdf)
+	leaves, _ := document.PageTree(pdf)
 	for _, leaf := range leaves {
-		objNums = append(objNums, leaf.objNum)
+		objNums = append(objNums, leaf.ObjNum)
 	}
 	return objNums
 }
 
 // extractPage extracts a single page
-func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
+func extractPage(pdf *parse.PDF, node document.PageNode, verbose bool) types.Page {
 	page := types.Page{
 		PageNumber:  0, // Will be set by caller
 		Text:        []types.TextElement{},
@@ -120,37 +51,37 @@ func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
 	}
 
 	// Extract media box
-	page.MediaBox = rectangle(pdf, node.lookup(pdf, "MediaBox"))
+	page.MediaBox = rectangle(pdf, node.Lookup(pdf, "MediaBox"))
 	if page.MediaBox != nil {
 		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
 		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
 
 	// Extract crop box
-	page.CropBox = rectangle(pdf, node.lookup(pdf, "CropBox"))
+	page.CropBox = rectangle(pdf, node.Lookup(pdf, "CropBox"))
 
 	// Extract rotation
-	if rotation, ok := syntax.Number(node.lookup(pdf, "Rotate")); ok {
+	if rotation, ok := syntax.Number(node.Lookup(pdf, "Rotate")); ok {
 		page.Rotation = (int(rotation)%360 + 360) % 360
 	}
 
 	// Extract resources FIRST (needed for font decoders for text extraction)
 	var fontDecoders map[string]*FontDecoder
-	if resources := asDict(node.lookup(pdf, "Resources")); resources != nil {
+	if resources := asDict(node.Lookup(pdf, "Resources")); resources != nil {
 		page.Resources = extractResources(resources, pdf, verbose)
 		// Extract font decoders for text extraction
 		fontDecoders = extractFontDecoders(resources, pdf, verbose)
 	}
 
 	// Extract text and graphics from content streams
-	content := pageContent(pdf, syntax.Lookup(node.dicts[0], "Contents"), verbose)
+	content := pageContent(pdf, syntax.Lookup(node.Dicts[0], "Contents"), verbose)
 	textElements, graphics, images := parseContentStream(content, page.Resources, fontDecoders)
 	page.Text = append(page.Text, textElements...)
 	page.Graphics = append(page.Graphics, graphics...)
 	page.Images = append(page.Images, images...)
 
 	// Extract annotations
-	page.Annotations = append(page.Annotations, extractAnnotations(lookup(pdf, node.dicts[0], "Annots"), pdf, verbose)...)
+	page.Annotations = append(page.Annotations, extractAnnotations(lookup(pdf, node.Dicts[0], "Annots"), pdf, verbose)...)
 
 	return page
 }
diff --git a/core/parse/api.go b/core/parse/api.go
index e821237..6a4e866 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -40,6 +40,7 @@ type ParseOptions struct {
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
+	Encryption  *types.PDFEncryption    // Result of an earlier decryption, used instead of the password if set
 }
 
 // PDF represents a parsed PDF document.
@@ -118,6 +119,11 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
+	if p.opts.Encryption != nil {
+		p.encryption = p.opts.Encryption
+		return nil
+	}
+
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
 	if errors.Is(err, encrypt.ErrNotEncrypted) {
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..42b1182 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,25 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -45,19 +42,11 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
+	for _, field := range af.allFields() {
 		fieldName := field.GetFullName()
 		if fieldName != "" && field.V != nil {
 			values[fieldName] = field.V
 		}
-
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
-		}
 	}
 
 	return values
@@ -65,28 +54,43 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 
 // GetFullName returns the full field name (handles hierarchical names)
 func (f *Field) GetFullName() string {
-	if f.Parent != nil {
-		parentName := f.Parent.GetFullName()
-		if parentName != "" {
-			return parentName + "." + f.T
-		}
+	if f.Parent == nil {
+		return f.T
+	}
+	parentName := f.Parent.GetFullName()
+	if parentName == "" || f.T == "" {
+		return parentName + f.T
 	}
-	return f.T
+	return parentName + "." + f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name, or failing that by its partial
+// name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
+	fields := af.allFields()
+	for _, field := range fields {
+		if field.GetFullName() == name {
 			return field
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+	}
+	for _, field := range fields {
+		if field.T == name {
+			return field
 		}
 	}
 	return nil
 }
+
+// allFields returns all fields of the hierarchy, parents before their kids
+func (af *AcroForm) allFields() []*Field {
+	var fields []*Field
+	var collect func(siblings []*Field)
+	collect = func(siblings []*Field) {
+		for _, field := range siblings {
+			fields = append(fields, field)
+			collect(field.Kids)
+		}
+	}
+	collect(af.Fields)
+	return fields
+}
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..623a502 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -3,14 +3,22 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// Field flags
+const (
+	flagRadio       = 1 << 15 // A button with neither this flag nor the next is a checkbox
+	flagPushbutton  = 1 << 16
+	flagCombo       = 1 << 17
+	flagEdit        = 1 << 18 // A combo box that allows any text
+	flagMultiSelect = 1 << 21
+)
+
 // AcroForm represents an AcroForm dictionary structure
 type AcroForm struct {
 	Fields          []*Field
@@ -41,247 +49,220 @@ type Field struct {
 	I          []int                  // Selected indices (for choice fields)
 	Rect       []float64              // Field rectangle [llx lly urx ury]
 	Page       int                    // Page number (0-indexed)
+
+	widgets []widget // Annotations on pages
 }
 
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
+		Encryption: encryptInfo,
+		Verbose:    verbose,
 	})
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return parseAcroForm(pdf, verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
+// parseAcroForm parses the AcroForm the document catalog refers to
+func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
+	dict := document.AsDict(document.Lookup(pdf, document.Catalog(pdf), "AcroForm"))
+	if dict == nil {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
+	fields := document.Lookup(pdf, dict, "Fields")
+	if fields == nil {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
 
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
+	parser := &fieldParser{
+		pdf:     pdf,
+		form:    dict,
+		pages:   widgetPages(pdf),
+		visited: make(map[int]bool),
+		verbose: verbose,
 	}
-
 	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
+		Fields:          parser.parseFields(fields, nil, nil),
+		NeedAppearances: string(document.Lookup(pdf, dict, "NeedAppearances")) == "true",
+		XFA:             document.Lookup(pdf, dict, "XFA") != nil,
 	}
-
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
+	for _, field := range acroForm.allFields() {
+		if field.FT == "Sig" {
+			acroForm.SignatureFields = append(acroForm.SignatureFields, field.ObjectNum)
+		}
 	}
-
 	return acroForm, nil
 }
 
-// parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
-	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
-		acroForm.XFA = true
-		if verbose {
-			fmt.Println("Found XFA in AcroForm (hybrid form)")
-		}
-	}
-
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
-	}
-
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
-	}
-
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
+// widget is an annotation that represents a field on a page
+type widget struct {
+	objNum int
+	rect   []float64
+	page   int      // 0-indexed, -1 if unknown
+	states []string // Names of the appearance states other than Off
+}
 
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
+// fieldParser parses the fields of a document
+type fieldParser struct {
+	pdf     *parse.PDF
+	form    []byte       // AcroForm dictionary
+	pages   map[int]int  // Annotation object number -> page (0-indexed)
+	visited map[int]bool // Objects parsed already
+	verbose bool
+}
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
+// parseFields parses an array of references to fields
+func (p *fieldParser) parseFields(array []byte, parent *Field, ancestors [][]byte) []*Field {
+	fields := make([]*Field, 0)
+	for _, element := range syntax.ArrayElements(array) {
+		objNum, generation, _, ok := syntax.ReferenceAt(element, 0)
+		dict := document.Dict(p.pdf, objNum)
+		if !ok || dict == nil || p.visited[objNum] {
+			if p.verbose {
+				fmt.Printf("Warning: Failed to parse field %s\n", element)
 			}
 			continue
 		}
+		p.visited[objNum] = true
+		dicts := append([][]byte{dict}, ancestors...)
 
-		acroForm.Fields = append(acroForm.Fields, field)
+		if parent != nil && document.Lookup(p.pdf, dict, "T") == nil && document.Lookup(p.pdf, dict, "Kids") == nil {
+			// Not a field of its own, but one of the parent's annotations
+			parent.widgets = append(parent.widgets, p.parseWidget(objNum, dict))
+			continue
+		}
+		field := p.parseField(dicts)
+		field.ObjectNum = objNum
+		field.Generation = generation
+		field.Parent = parent
+		if document.LookupName(p.pdf, dict, "Subtype") == "/Widget" || field.Rect != nil {
+			field.widgets = append(field.widgets, p.parseWidget(objNum, dict))
+		}
+		field.Kids = p.parseFields(document.Lookup(p.pdf, dict, "Kids"), field, dicts)
+		if len(field.widgets) > 0 {
+			if field.Rect == nil {
+				field.Rect = field.widgets[0].rect
+			}
+			field.Page = max(field.widgets[0].page, 0)
+		}
+		fields = append(fields, field)
 	}
-
-	return nil
+	return fields
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
-	}
-
-	field := &Field{
-		ObjectNum:  objNum,
-		Generation: genNum,
-		Kids:       make([]*Field, 0),
-	}
-
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
-	}
-
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
+// parseField parses a field dictionary, given with those of its ancestors
+func (p *fieldParser) parseField(dicts [][]byte) *Field {
+	dict := dicts[0]
+	inherited := func(key string) []byte {
+		for _, dict := range dicts {
+			if value := document.Lookup(p.pdf, dict, key); value != nil {
+				return value
+			}
+		}
+		return nil
 	}
-
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+	inheritedInt := func(key string) int {
+		number, _ := syntax.Number(inherited(key))
+		return int(number)
 	}
 
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
+	field := &Field{
+		FT:     syntax.DecodeName(inherited("FT")),
+		T:      document.LookupText(p.pdf, dict, "T"),
+		TU:     document.LookupText(p.pdf, dict, "TU"),
+		TM:     document.LookupText(p.pdf, dict, "TM"),
+		Ff:     inheritedInt("Ff"),
+		V:      p.parseValue(inherited("V")),
+		DV:     p.parseValue(inherited("DV")),
+		MaxLen: inheritedInt("MaxLen"),
+		TI:     document.LookupInt(p.pdf, dict, "TI"),
+		Rect:   document.LookupNumbers(p.pdf, dict, "Rect"),
+	}
+	for _, element := range syntax.ArrayElements(inherited("Opt")) {
+		if option := p.parseValue(document.Resolve(p.pdf, element)); option != nil {
+			field.Opt = append(field.Opt, option)
+		}
 	}
-
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+	for _, index := range document.LookupNumbers(p.pdf, dict, "I") {
+		field.I = append(field.I, int(index))
 	}
 
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	// The form has defaults for these
+	dicts = append(dicts[:len(dicts):len(dicts)], p.form)
+	if da := inherited("DA"); syntax.IsString(da) {
+		field.DA = string(syntax.DecodeString(da))
 	}
+	field.Q = inheritedInt("Q")
+	return field
+}
 
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
+// parseWidget parses the entries of a widget annotation
+func (p *fieldParser) parseWidget(objNum int, dict []byte) widget {
+	page, ok := p.pages[objNum]
+	if !ok {
+		page = -1
 	}
-
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+	return widget{
+		objNum: objNum,
+		rect:   document.LookupNumbers(p.pdf, dict, "Rect"),
+		page:   page,
+		states: appearanceStates(p.pdf, dict),
 	}
+}
 
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
+// parseValue converts a field value: strings and names to string, arrays to
+// []interface{}, anything else to nil
+func (p *fieldParser) parseValue(value []byte) interface{} {
+	switch {
+	case syntax.IsString(value):
+		return document.DecodeText(syntax.DecodeString(value))
+	case len(value) > 0 && value[0] == '/':
+		return syntax.DecodeName(value)
+	case len(value) > 0 && value[0] == '[':
+		items := make([]interface{}, 0)
+		for _, element := range syntax.ArrayElements(value) {
+			if element = document.Resolve(p.pdf, element); len(element) == 0 || element[0] == '[' {
 				continue
 			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
-		}
-	}
-
-	return field, nil
-}
-
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
+			if item := p.parseValue(element); item != nil {
+				items = append(items, item)
+			}
 		}
+		return items
 	}
-	return items
+	return nil
 }
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
-	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+// appearanceStates returns the names of a widget's normal appearances, if it has
+// several, without Off
+func appearanceStates(pdf *parse.PDF, dict []byte) []string {
+	appearances := document.AsDict(document.Lookup(pdf, document.Lookup(pdf, dict, "AP"), "N"))
+	if _, _, isStream := syntax.SplitStream(appearances, -1); isStream {
+		return nil
+	}
+	var states []string
+	for _, entry := range syntax.Entries(appearances, 0) {
+		if entry.Key != "Off" {
+			states = append(states, entry.Key)
 		}
 	}
-
-	return options
+	return states
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// widgetPages returns the page (0-indexed) of every annotation
+func widgetPages(pdf *parse.PDF) map[int]int {
+	pages := make(map[int]int)
+	leaves, _ := document.PageTree(pdf)
+	for i := len(leaves) - 1; i >= 0; i-- {
+		for _, element := range syntax.ArrayElements(document.Lookup(pdf, leaves[i].Dicts[0], "Annots")) {
+			if objNum, ok := syntax.Reference(element); ok {
+				pages[objNum] = i
+			}
 		}
 	}
-	return rect
+	return pages
 }
 
 // ToFormSchema converts AcroForm to FormSchema
@@ -294,7 +275,10 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
+	for _, field := range af.allFields() {
+		if len(field.Kids) > 0 {
+			continue // Only groups other fields
+		}
 		question := field.ToQuestion()
 		if question != nil {
 			schema.Questions = append(schema.Questions, *question)
@@ -308,7 +292,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -330,19 +314,12 @@ func (f *Field) ToQuestion() *types.Question {
 	if len(f.Opt) > 0 {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
-			optStr := fmt.Sprintf("%v", opt)
+			value, label := optionValue(opt)
 			question.Options = append(question.Options, types.Option{
-				Value: optStr,
-				Label: optStr,
+				Value:    value,
+				Label:    label,
+				Selected: f.isSelected(i, value),
 			})
-			// Check if this option is selected
-			if f.I != nil {
-				for _, idx := range f.I {
-					if idx == i {
-						question.Options[i].Selected = true
-					}
-				}
-			}
 		}
 	}
 
@@ -368,6 +345,38 @@ func (f *Field) ToQuestion() *types.Question {
 	return question
 }
 
+// optionValue returns the export value and the displayed text of an option, which
+// is either a text or a pair of both
+func optionValue(opt interface{}) (value, label string) {
+	if pair, ok := opt.([]interface{}); ok && len(pair) == 2 {
+		return fmt.Sprintf("%v", pair[0]), fmt.Sprintf("%v", pair[1])
+	}
+	value = fmt.Sprintf("%v", opt)
+	return value, value
+}
+
+// isSelected returns whether an option is selected: by index if the field lists
+// indices, by value otherwise
+func (f *Field) isSelected(index int, value string) bool {
+	if f.I != nil {
+		for _, selected := range f.I {
+			if selected == index {
+				return true
+			}
+		}
+		return false
+	}
+	if values, ok := f.V.([]interface{}); ok {
+		for _, selected := range values {
+			if selected == value {
+				return true
+			}
+		}
+		return false
+	}
+	return f.V == value
+}
+
 // mapFieldType maps AcroForm field type to ResponseType
 func mapFieldType(ft string) types.ResponseType {
 	switch ft {
@@ -391,15 +400,13 @@ func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
+		if (flags & flagPushbutton) != 0 {
+			return types.ResponseTypeButton
 		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		if (flags & flagRadio) != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
 		if (flags & 0x20000) != 0 {
diff --git a/internal/document/document.go b/internal/document/document.go
new file mode 100644
index 0000000..5f0abc9
--- /dev/null
+++ b/internal/document/document.go
@@ -0,0 +1,303 @@
+// Package document reads values of a parsed PDF document, following references.
+package document
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// maxReferenceChain bounds how many references are followed to reach a value
+const maxReferenceChain = 32
+
+// Dict returns the dictionary (or stream dictionary) of an object, starting
+// at its "<<", or nil
+func Dict(pdf *parse.PDF, objNum int) []byte {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil
+	}
+	return AsDict(syntax.ObjectValue(obj))
+}
+
+// AsDict returns value if it is a dictionary, else nil
+func AsDict(value []byte) []byte {
+	if bytes.HasPrefix(value, []byte("<<")) {
+		return value
+	}
+	return nil
+}
+
+// Resolve follows references until it reaches a direct value
+func Resolve(pdf *parse.PDF, value []byte) []byte {
+	for i := 0; i < maxReferenceChain; i++ {
+		objNum, ok := syntax.Reference(value)
+		if !ok {
+			return value
+		}
+		obj, err := pdf.GetObject(objNum)
+		if err != nil {
+			return nil
+		}
+		value = syntax.ObjectValue(obj)
+	}
+	return nil
+}
+
+// Lookup returns the direct value stored under key (without leading slash) in a
+// dictionary, following references
+func Lookup(pdf *parse.PDF, dict []byte, key string) []byte {
+	value := Resolve(pdf, syntax.Lookup(dict, key))
+	if string(value) == "null" {
+		return nil
+	}
+	return value
+}
+
+// LookupName returns the name stored under key with its leading slash, or ""
+func LookupName(pdf *parse.PDF, dict []byte, key string) string {
+	value := Lookup(pdf, dict, key)
+	if len(value) == 0 || value[0] != '/' {
+		return ""
+	}
+	return "/" + syntax.DecodeName(value)
+}
+
+// LookupText returns the text string stored under key, or ""
+func LookupText(pdf *parse.PDF, dict []byte, key string) string {
+	value := Lookup(pdf, dict, key)
+	if !syntax.IsString(value) {
+		return ""
+	}
+	return DecodeText(syntax.DecodeString(value))
+}
+
+// LookupInt returns the integer stored under key, or 0
+func LookupInt(pdf *parse.PDF, dict []byte, key string) int {
+	if number, ok := syntax.Number(Lookup(pdf, dict, key)); ok {
+		return int(number)
+	}
+	return 0
+}
+
+// LookupNumbers returns the numbers of the array stored under key
+func LookupNumbers(pdf *parse.PDF, dict []byte, key string) []float64 {
+	return Numbers(pdf, Lookup(pdf, dict, key))
+}
+
+// Numbers returns the numbers of an array
+func Numbers(pdf *parse.PDF, array []byte) []float64 {
+	var values []float64
+	for _, element := range syntax.ArrayElements(array) {
+		if number, ok := syntax.Number(Resolve(pdf, element)); ok {
+			values = append(values, number)
+		}
+	}
+	return values
+}
+
+// ParseObjectRef parses an object reference like "5 0 R" and returns the object number
+func ParseObjectRef(ref string) (int, error) {
+	parts := strings.Fields(ref)
+	if len(parts) < 1 {
+		return 0, fmt.Errorf("invalid object reference: %s", ref)
+	}
+	objNum, err := strconv.Atoi(parts[0])
+	if err != nil {
+		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
+	}
+	return objNum, nil
+}
+
+// Catalog returns the document catalog, or nil
+func Catalog(pdf *parse.PDF) []byte {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil
+	}
+	rootObjNum, err := ParseObjectRef(trailer.RootRef)
+	if err != nil {
+		return nil
+	}
+	return Dict(pdf, rootObjNum)
+}
+
+// DecodeText decodes a text string: UTF-16 or UTF-8 if it starts with a
+// byte order mark, PDFDocEncoding otherwise
+func DecodeText(data []byte) string {
+	switch {
+	case bytes.HasPrefix(data, []byte{0xFE, 0xFF}):
+		units := make([]uint16, 0, len(data)/2)
+		for i := 2; i+1 < len(data); i += 2 {
+			units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
+		}
+		return string(utf16.Decode(units))
+	case bytes.HasPrefix(data, []byte{0xEF, 0xBB, 0xBF}):
+		return string(data[3:])
+	}
+	runes := make([]rune, len(data))
+	for i, c := range data {
+		if r, ok := pdfDocEncoding[c]; ok {
+			runes[i] = r
+		} else {
+			runes[i] = rune(c)
+		}
+	}
+	return string(runes)
+}
+
+// pdfDocEncoding lists where PDFDocEncoding differs from Latin-1
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
+	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
+	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
+	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
+	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
+	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
+}
+
+// StreamData returns the raw data of a stream object and its dictionary
+func StreamData(pdf *parse.PDF, objNum int) (dict, data []byte, err error) {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil, nil, err
+	}
+	value := syntax.ObjectValue(obj)
+	length := -1
+	if n, ok := syntax.Number(Lookup(pdf, value, "Length")); ok {
+		length = int(n)
+	}
+	dict, data, ok := syntax.SplitStream(value, length)
+	if !ok {
+		return nil, nil, fmt.Errorf("object %d is not a stream", objNum)
+	}
+	return dict, data, nil
+}
+
+// StreamFilters returns the names (without slash) and parameters of a stream's filters
+func StreamFilters(pdf *parse.PDF, dict []byte) (names []string, params [][]byte) {
+	filter := Lookup(pdf, dict, "Filter")
+	parms := Lookup(pdf, dict, "DecodeParms")
+	if len(filter) > 0 && filter[0] == '/' {
+		return []string{syntax.DecodeName(filter)}, [][]byte{AsDict(parms)}
+	}
+	parmElements := syntax.ArrayElements(parms)
+	for i, element := range syntax.ArrayElements(filter) {
+		names = append(names, syntax.DecodeName(Resolve(pdf, element)))
+		var parm []byte
+		if i < len(parmElements) {
+			parm = AsDict(Resolve(pdf, parmElements[i]))
+		}
+		params = append(params, parm)
+	}
+	return names, params
+}
+
+// DecodeFilters applies filters in order. It stops before an image codec
+// (DCTDecode, JPXDecode, ...), whose data is a file format of its own.
+func DecodeFilters(pdf *parse.PDF, data []byte, names []string, params [][]byte) ([]byte, error) {
+	for i, name := range names {
+		switch name {
+		case "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode":
+			return data, nil
+		}
+		decoded, err := parse.DecodeFilter(data, name)
+		if err != nil {
+			return nil, err
+		}
+		data, err = decodePredictor(pdf, decoded, params[i])
+		if err != nil {
+			return nil, err
+		}
+	}
+	return data, nil
+}
+
+// DecodedStream returns the data of a stream object with its filters applied
+func DecodedStream(pdf *parse.PDF, objNum int) ([]byte, error) {
+	dict, data, err := StreamData(pdf, objNum)
+	if err != nil {
+		return nil, err
+	}
+	names, params := StreamFilters(pdf, dict)
+	return DecodeFilters(pdf, data, names, params)
+}
+
+// decodePredictor undoes the PNG predictors
+func decodePredictor(pdf *parse.PDF, data, params []byte) ([]byte, error) {
+	predictor := LookupInt(pdf, params, "Predictor")
+	if params == nil || predictor < 2 {
+		return data, nil
+	}
+	if predictor < 10 {
+		return nil, fmt.Errorf("unsupported predictor: %d", predictor)
+	}
+	param := func(key string, value int) int {
+		if n := LookupInt(pdf, params, key); n > 0 {
+			value = n
+		}
+		return value
+	}
+	colors, bits, columns := param("Colors", 1), param("BitsPerComponent", 8), param("Columns", 1)
+	if colors > 256 || bits > 32 || columns > 1<<24 {
+		return nil, fmt.Errorf("invalid predictor parameters")
+	}
+	pixel := (colors*bits + 7) / 8
+	rowLen := min((colors*bits*columns+7)/8, len(data)) // Only the last row may be short
+	result := make([]byte, 0, len(data))
+	previous := make([]byte, rowLen)
+	for len(data) > 1 {
+		kind := data[0]
+		row := make([]byte, rowLen)
+		n := copy(row, data[1:])
+		data = data[1+n:]
+		for i := range row[:n] {
+			var left, up, upLeft byte
+			up = previous[i]
+			if i >= pixel {
+				left, upLeft = row[i-pixel], previous[i-pixel]
+			}
+			switch kind {
+			case 0:
+			case 1:
+				row[i] += left
+			case 2:
+				row[i] += up
+			case 3:
+				row[i] += byte((int(left) + int(up)) / 2)
+			case 4:
+				row[i] += paeth(left, up, upLeft)
+			default:
+				return nil, fmt.Errorf("invalid PNG filter type: %d", kind)
+			}
+		}
+		result = append(result, row[:n]...)
+		previous = row
+	}
+	return result, nil
+}
+
+// paeth is the PNG Paeth predictor
+func paeth(left, up, upLeft byte) byte {
+	p := int(left) + int(up) - int(upLeft)
+	result, distance := left, -1
+	for _, candidate := range []byte{left, up, upLeft} {
+		d := p - int(candidate)
+		if d < 0 {
+			d = -d
+		}
+		if distance == -1 || d < distance {
+			result, distance = candidate, d
+		}
+	}
+	return result
+}
diff --git a/internal/document/pages.go b/internal/document/pages.go
new file mode 100644
index 0000000..1a71eb0
--- /dev/null
+++ b/internal/document/pages.go
@@ -0,0 +1,78 @@
+package document
+
+import (
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// PageNode is a page with the dictionaries it inherits attributes from
+type PageNode struct {
+	ObjNum int
+	Dicts  [][]byte // The page's own dictionary first, then its ancestors'
+}
+
+// Lookup returns an attribute of the page, inherited if necessary
+func (node PageNode) Lookup(pdf *parse.PDF, key string) []byte {
+	for _, dict := range node.Dicts {
+		if value := Lookup(pdf, dict, key); value != nil {
+			return value
+		}
+	}
+	return nil
+}
+
+// PageTree returns the pages of a document in order
+func PageTree(pdf *parse.PDF) ([]PageNode, error) {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil, fmt.Errorf("no root reference found in trailer")
+	}
+	root := Catalog(pdf)
+	if root == nil {
+		return nil, fmt.Errorf("failed to get catalog object %s", trailer.RootRef)
+	}
+
+	// Find Pages reference in catalog
+	pagesObjNum, ok := syntax.Reference(syntax.Lookup(root, "Pages"))
+	if !ok {
+		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", root)
+	}
+	if Dict(pdf, pagesObjNum) == nil {
+		return nil, fmt.Errorf("failed to get pages object %d", pagesObjNum)
+	}
+
+	return pageLeaves(pdf, pagesObjNum, nil, make(map[int]bool)), nil
+}
+
+// pageLeaves returns the pages below a page tree node. Nodes that were visited
+// already and objects that cannot be read are left out.
+func pageLeaves(pdf *parse.PDF, objNum int, ancestors [][]byte, visited map[int]bool) []PageNode {
+	dict := Dict(pdf, objNum)
+	if dict == nil || visited[objNum] {
+		return nil
+	}
+	visited[objNum] = true
+	dicts := append([][]byte{dict}, ancestors...)
+
+	// Check if this is a page or a pages node
+	kids := Lookup(pdf, dict, "Kids")
+	switch LookupName(pdf, dict, "Type") {
+	case "/Page":
+		return []PageNode{{objNum, dicts}}
+	case "/Pages":
+	default:
+		if kids == nil {
+			return []PageNode{{objNum, dicts}}
+		}
+	}
+
+	var leaves []PageNode
+	for _, kid := range syntax.ArrayElements(kids) {
+		if kidObjNum, ok := syntax.Reference(kid); ok {
+			leaves = append(leaves, pageLeaves(pdf, kidObjNum, dicts, visited)...)
+		}
+	}
+	return leaves
+}
diff --git a/internal/document/text.go b/internal/document/text.go
new file mode 100644
index 0000000..3b7a4a1
--- /dev/null
+++ b/internal/document/text.go
@@ -0,0 +1,45 @@
+package document
+
+import (
+	"unicode/utf16"
+	"unicode/utf8"
+
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// EncodeText returns a text string object in PDF syntax: a literal string if
+// PDFDocEncoding has the same codes, UTF-16BE otherwise. Text that is not UTF-8
+// is kept as it is.
+func EncodeText(s string) []byte {
+	plain := true
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c >= 0x7F || c < 0x20 && c != '\t' && c != '\n' && c != '\r' {
+			plain = false
+		}
+	}
+	if plain {
+		return encodeLiteral(s)
+	}
+	if !utf8.ValidString(s) {
+		return syntax.EncodeHexString([]byte(s))
+	}
+	encoded := []byte{0xFE, 0xFF}
+	for _, unit := range utf16.Encode([]rune(s)) {
+		encoded = append(encoded, byte(unit>>8), byte(unit))
+	}
+	return syntax.EncodeHexString(encoded)
+}
+
+// encodeLiteral returns a literal string object
+func encodeLiteral(s string) []byte {
+	escapes := map[byte]string{'\\': `\\`, '(': `\(`, ')': `\)`, '\n': `\n`, '\r': `\r`, '\t': `\t`}
+	result := []byte{'('}
+	for i := 0; i < len(s); i++ {
+		if escape, ok := escapes[s[i]]; ok {
+			result = append(result, escape...)
+		} else {
+			result = append(result, s[i])
+		}
+	}
+	return append(result, ')')
+}
-- 
2.43.0


From 6b39f50f8305af76986389247ea8ad16a256bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 47/93] fix: filling and flattening a form leaves the rest of
 the document intact

---
 core/manipulate/manipulate.go    |  18 ++-
 forms/acroform/fill_streams.go   | 168 +++----------------
 forms/acroform/flatten.go        | 128 ++++++---------
 forms/acroform/replace.go        | 193 ++++++++++++----------
 forms/acroform/stream_finder.go  |  51 ------
 forms/acroform/stream_rebuild.go | 270 ++-----------------------------
 forms/acroform/writer.go         |   2 +-
 7 files changed, 205 insertions(+), 625 deletions(-)
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 9b24574..7c5eaf5 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -29,7 +29,11 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
+	return NewFromPDF(pdf, verbose), nil
+}
 
+// NewFromPDF creates a new PDF manipulator from a parsed PDF
+func NewFromPDF(pdf *parse.PDF, verbose bool) *PDFManipulator {
 	// Create a new writer for rebuilding
 	writer := write.NewPDFWriter()
 
@@ -56,11 +60,21 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 
 	return &PDFManipulator{
 		pdf:      pdf,
-		pdfBytes: pdfBytes,
+		pdfBytes: pdf.Raw(),
 		writer:   writer,
 		objects:  objects,
 		verbose:  verbose,
-	}, nil
+	}
+}
+
+// Object returns the value of an object in PDF syntax, or nil
+func (m *PDFManipulator) Object(objNum int) []byte {
+	return m.objects[objNum]
+}
+
+// SetObject sets the value of an object, in PDF syntax
+func (m *PDFManipulator) SetObject(objNum int, value []byte) {
+	m.objects[objNum] = value
 }
 
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..3a4fd2e 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -2,12 +2,12 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,7 +17,6 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("PDF bytes are empty")
 	}
 
-	// Parse PDF to get encryption info and object locations
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Password: password,
 		Verbose:  verbose,
@@ -26,28 +25,13 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
-	}
-
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
-
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
 	for fieldName, value := range formData {
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
@@ -56,142 +40,34 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			}
 			continue
 		}
-
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
+		if err := setFieldValue(manipulator, field, value); err != nil {
 			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, err)
 			}
 			continue
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
-		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
-
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
-
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
-
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
-
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
-			}
-		}
-
 		if verbose {
 			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
 		}
 	}
+	requestAppearances(manipulator, pdf)
 
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
-		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
-			}
-			// Continue with other streams
-			continue
-		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
-		}
-	}
-
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
-	}
-
-	return result, nil
+	return manipulator.Rebuild()
 }
 
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
+// requestAppearances asks viewers to draw the fields anew, because their stored
+// appearances show the former values
+func requestAppearances(manipulator *manipulate.PDFManipulator, pdf *parse.PDF) {
+	objNum, err := document.ParseObjectRef(pdf.Trailer().RootRef)
+	if err != nil {
+		return
+	}
+	catalog := manipulator.Object(objNum)
+	form := syntax.Lookup(catalog, "AcroForm")
+	if formObjNum, ok := syntax.Reference(form); ok {
+		manipulator.SetObject(formObjNum, syntax.SetKey(manipulator.Object(formObjNum), "NeedAppearances", []byte("true")))
 	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+		form = syntax.SetKey(form, "NeedAppearances", []byte("true"))
+		manipulator.SetObject(objNum, syntax.SetKey(catalog, "AcroForm", form))
 	}
-
-	return []byte(newFieldStr), nil
 }
diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..2dde284 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -3,16 +3,17 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
-// This creates a new PDF with form fields rendered as regular text/graphics
+// The form is removed from the document catalog, so that the fields are no longer
+// interactive; the annotations that show them stay on the pages.
 func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error) {
 	// Parse PDF
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
@@ -23,44 +24,27 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
-
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
-	// For each field, we need to:
-	// 1. Get the field's appearance stream (if it exists)
-	// 2. Add it to the page content
-	// 3. Remove the field from AcroForm
-
-	// This is a simplified version - full flattening would:
-	// - Extract appearance streams (/AP dictionary)
-	// - Convert them to page content
-	// - Remove /AcroForm from catalog
-	// - Remove field annotations from pages
-
 	if verbose {
 		fmt.Printf("Flattening %d form fields\n", len(acroForm.Fields))
 	}
 
-	// For now, return a copy with AcroForm reference removed from catalog
-	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	// Remove the form from the catalog
+	rootObjNum, err := document.ParseObjectRef(pdf.Trailer().RootRef)
+	if err != nil {
+		return nil, fmt.Errorf("failed to find catalog: %w", err)
+	}
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
+	catalog := manipulator.Object(rootObjNum)
+	manipulator.SetObject(rootObjNum, syntax.SetKey(catalog, "AcroForm", nil))
+	result, err := manipulator.Rebuild()
+	if err != nil {
+		return nil, err
+	}
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
@@ -71,17 +55,8 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 
 // FlattenField converts a single field to static content
 func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
 	// Check for appearance stream (/AP)
-	apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-	if !apPattern.MatchString(fieldStr) {
+	if _, err := GetFieldAppearance(field, pdfBytes, encryptInfo, verbose); err != nil {
 		// No appearance stream - field value should be rendered as text
 		// This would require creating content stream with field value
 		if verbose {
@@ -98,45 +73,40 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 	return pdfBytes, nil
 }
 
-// GetFieldAppearance gets the appearance stream for a field
+// GetFieldAppearance gets the appearance stream for a field, decoded. Of the
+// annotations of the field it is the first that has one.
 func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
-	// Find /AP dictionary
-	apPattern := regexp.MustCompile(`/AP\s*<<([^>]*)>>`)
-	apMatch := apPattern.FindStringSubmatch(fieldStr)
-	if apMatch == nil {
-		return nil, fmt.Errorf("no appearance stream found for field")
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// Find /N (normal appearance) stream reference
-	nPattern := regexp.MustCompile(`/N\s+(\d+)\s+(\d+)\s+R`)
-	nMatch := nPattern.FindStringSubmatch(apMatch[1])
-	if nMatch == nil {
-		return nil, fmt.Errorf("no normal appearance stream found")
+	objNums := []int{field.ObjectNum}
+	for _, widget := range field.widgets {
+		objNums = append(objNums, widget.objNum)
 	}
-
-	appearanceObjNum, _ := strconv.Atoi(nMatch[1])
-	_ = nMatch[2] // Generation number (usually 0)
-
-	// Get appearance stream
-	appearanceData, err := parse.GetObject(pdfBytes, appearanceObjNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get appearance stream: %w", err)
-	}
-
-	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
+	for _, objNum := range objNums {
+		dict := document.Dict(pdf, objNum)
+		normal := syntax.Lookup(document.Lookup(pdf, dict, "AP"), "N")
+		if appearances := document.AsDict(document.Resolve(pdf, normal)); appearances != nil {
+			if _, _, isStream := syntax.SplitStream(appearances, -1); !isStream {
+				// One stream per state
+				state := syntax.DecodeName(document.Lookup(pdf, dict, "AS"))
+				normal = syntax.Lookup(appearances, state)
+			}
+		}
+		appearanceObjNum, ok := syntax.Reference(normal)
+		if !ok {
+			continue
+		}
+		data, err := document.DecodedStream(pdf, appearanceObjNum)
+		if err != nil {
+			return nil, fmt.Errorf("failed to get appearance stream: %w", err)
+		}
+		return data, nil
 	}
-
-	return appearanceData, nil
+	return nil, fmt.Errorf("no appearance stream found for field")
 }
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..8e005c5 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -2,94 +2,143 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
+	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
+	if err != nil {
+		return nil, err
+	}
+	if manipulator.Object(objNum) == nil {
 		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
 	}
+	manipulator.SetObject(objNum, syntax.ObjectValue(newContent))
+	return manipulator.Rebuild()
+}
 
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+// FillFieldValue fills a field with a value by replacing the object
+func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
+	if err != nil {
+		return nil, err
 	}
+	if err := setFieldValue(manipulator, field, value); err != nil {
+		return nil, err
+	}
+	return manipulator.Rebuild()
+}
 
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
+// openForEditing opens a PDF whose objects are going to be replaced
+func openForEditing(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*manipulate.PDFManipulator, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+	return manipulate.NewFromPDF(pdf, verbose), nil
+}
 
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
+// setFieldValue sets the value of a field, and the appearance states of its
+// annotations if it is a button
+func setFieldValue(manipulator *manipulate.PDFManipulator, field *Field, value interface{}) error {
+	dict := manipulator.Object(field.ObjectNum)
+	if !bytes.HasPrefix(dict, []byte("<<")) {
+		return fmt.Errorf("field dictionary not found")
+	}
 
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
+	switch {
+	case field.FT == "Sig" || field.FT == "Btn" && field.Ff&flagPushbutton != 0:
+		return fmt.Errorf("field has no value to fill in")
+
+	case field.FT == "Btn":
+		state := field.buttonState(value)
+		manipulator.SetObject(field.ObjectNum, syntax.SetKey(dict, "V", encodeFieldValue(state, field.FT)))
+		for _, widget := range field.widgets {
+			widgetState := "Off"
+			if widget.hasState(state) {
+				widgetState = state
+			}
+			widgetDict := manipulator.Object(widget.objNum)
+			manipulator.SetObject(widget.objNum, syntax.SetKey(widgetDict, "AS", encodeFieldValue(widgetState, field.FT)))
+		}
 
-	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+	default:
+		dict = syntax.SetKey(dict, "V", encodeFieldValue(value, field.FT))
+		dict = syntax.SetKey(dict, "RV", nil) // Described the former value
+		dict = syntax.SetKey(dict, "I", nil)
+		manipulator.SetObject(field.ObjectNum, dict)
 	}
-
-	return result, nil
+	return nil
 }
 
-// FillFieldValue fills a field with a value by replacing the object
-func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+// buttonState returns the name of the appearance state a value stands for
+func (f *Field) buttonState(value interface{}) string {
+	if checked, ok := value.(bool); ok && checked {
+		for _, widget := range f.widgets {
+			if len(widget.states) > 0 {
+				return widget.states[0]
+			}
+		}
 	}
+	if state := formatFieldValue(value, f.FT); state != "" {
+		return state
+	}
+	return "Off"
+}
 
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+// encodeFieldValue returns the value of a field in PDF syntax: a name for buttons,
+// a text or an array of texts otherwise
+func encodeFieldValue(value interface{}, fieldType string) []byte {
+	var items []interface{}
+	switch v := value.(type) {
+	case []string:
+		for _, item := range v {
+			items = append(items, item)
+		}
+	case []interface{}:
+		items = v
+	default:
+		text := formatFieldValue(value, fieldType)
+		if fieldType == "Btn" {
+			return []byte("/" + syntax.EncodeName(text))
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+		return document.EncodeText(text)
+	}
+	array := []byte{'['}
+	for _, item := range items {
+		array = append(array, document.EncodeText(formatFieldValue(item, fieldType))...)
 	}
+	return append(array, ']')
+}
 
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+// hasState returns whether a widget has an appearance for a state. One without
+// any appearances gets them from the viewer.
+func (w widget) hasState(state string) bool {
+	for _, candidate := range w.states {
+		if candidate == state {
+			return true
+		}
+	}
+	return len(w.states) == 0
 }
 
 // formatFieldValue formats a value for PDF based on field type
 func formatFieldValue(value interface{}, fieldType string) string {
 	switch v := value.(type) {
+	case nil:
+		return ""
 	case string:
 		return v
 	case int:
@@ -110,34 +159,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..0f41d46 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,15 +2,9 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -21,262 +15,18 @@ type StreamObjectUpdate struct {
 	NewContent []byte
 }
 
-// RebuildObjectStream rebuilds an object stream with updated objects
+// RebuildObjectStream updates objects that are kept in an object stream. The
+// resulting PDF stores them on their own.
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
+	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
+		return nil, err
 	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
+	for _, update := range updates {
+		if manipulator.Object(update.ObjNum) == nil {
+			return nil, fmt.Errorf("object %d of object stream %d not found", update.ObjNum, streamObjNum)
 		}
-		streamData = decrypted
+		manipulator.SetObject(update.ObjNum, syntax.ObjectValue(update.NewContent))
 	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
-	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
-		}
-	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
-	}
-
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
-		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
-	}
-
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
-	}
-
-	buf.WriteString(" >>")
-	return buf.String()
+	return manipulator.Rebuild()
 }
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..a00bc93 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -211,7 +211,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValueForWriter(opt)))
 		}
 		dict.WriteString("]")
 	}
-- 
2.43.0


From b872a5550ccd8c1f69317e88f381a429773d8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 48/93] fix: a built form is part of the document, with its
 fields on their pages

---
 core/write/page.go            |  87 ++++++++++++++-----
 forms/acroform/integration.go |  18 ++--
 forms/acroform/writer.go      | 154 +++++++++++-----------------------
 3 files changed, 123 insertions(+), 136 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 4743ee3..d912c15 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -6,6 +6,7 @@ import (
 	"sort"
 	"strconv"
 
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -198,10 +199,10 @@ func formatNumber(v float64) string {
 
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
-	writer        *PDFWriter
-	pages         []int
-	pagesObjNum   int
-	catalogObjNum int
+	writer      *PDFWriter
+	pages       []int
+	pagesObjNum int
+	annotations map[int][]int // page (0-indexed) -> annotations still to be added to it
 }
 
 // NewSimplePDFBuilder creates a new simple PDF builder
@@ -224,13 +225,7 @@ func (b *SimplePDFBuilder) AddPage(size PageSize) *PageBuilder {
 
 // FinalizePage adds a built page to the document
 func (b *SimplePDFBuilder) FinalizePage(pb *PageBuilder) {
-	// Use a placeholder for pagesObjNum - we'll fix it later
-	if b.pagesObjNum == 0 {
-		// Reserve object number for pages
-		b.pagesObjNum = b.writer.nextObjNum
-		b.writer.nextObjNum++
-	}
-	pageObjNum := pb.Build(b.pagesObjNum)
+	pageObjNum := pb.Build(b.reservePages())
 	b.pages = append(b.pages, pageObjNum)
 }
 
@@ -243,25 +238,73 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	}
 	kids += "]"
 
-	if b.pagesObjNum == 0 {
-		// No page finalized yet: the (empty) page tree still needs a number
-		b.pagesObjNum = b.writer.nextObjNum
-		b.writer.nextObjNum++
-	}
-
 	// Create/update Pages object
+	pagesObjNum := b.reservePages()
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
-	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
+	b.writer.SetObject(pagesObjNum, []byte(pagesDict))
+
+	b.placeAnnotations()
 
-	// Create Catalog (once, however often the document is written)
-	if b.catalogObjNum == 0 {
-		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-		b.writer.SetRoot(b.catalogObjNum)
+	// Create Catalog, or let the one set on the writer refer to the pages
+	catalogObjNum := b.CatalogObjNum()
+	if catalog, err := b.writer.GetObject(catalogObjNum); err == nil {
+		pagesRef := fmt.Sprintf("%d 0 R", pagesObjNum)
+		b.writer.SetObject(catalogObjNum, syntax.SetKey(catalog, "Pages", []byte(pagesRef)))
 	}
 
 	return b.writer.Bytes()
 }
 
+// CatalogObjNum returns the object number of the document catalog, which is
+// created if the writer has none yet
+func (b *SimplePDFBuilder) CatalogObjNum() int {
+	catalogObjNum := 0
+	fmt.Sscanf(b.writer.rootRef, "%d", &catalogObjNum)
+	if catalogObjNum == 0 {
+		pagesObjNum := b.reservePages()
+		catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+		b.writer.SetRoot(catalogObjNum)
+	}
+	return catalogObjNum
+}
+
+// AddAnnotation places an annotation object on a page (0-indexed), which need not
+// be finalized yet
+func (b *SimplePDFBuilder) AddAnnotation(page, annotObjNum int) {
+	if b.annotations == nil {
+		b.annotations = make(map[int][]int)
+	}
+	b.annotations[page] = append(b.annotations[page], annotObjNum)
+}
+
+// placeAnnotations adds the annotations of the finalized pages to their /Annots
+func (b *SimplePDFBuilder) placeAnnotations() {
+	for i, pageObjNum := range b.pages {
+		page, err := b.writer.GetObject(pageObjNum)
+		if err != nil || len(b.annotations[i]) == 0 {
+			continue
+		}
+		annots := []byte{'['}
+		for _, element := range syntax.ArrayElements(syntax.Lookup(page, "Annots")) {
+			annots = append(append(annots, element...), ' ')
+		}
+		for _, annotObjNum := range b.annotations[i] {
+			annots = append(annots, fmt.Sprintf("%d 0 R ", annotObjNum)...)
+		}
+		b.writer.SetObject(pageObjNum, syntax.SetKey(page, "Annots", append(annots, ']')))
+		delete(b.annotations, i)
+	}
+}
+
+// reservePages returns the object number of the page tree
+func (b *SimplePDFBuilder) reservePages() int {
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
+	return b.pagesObjNum
+}
+
 // SetBookmarks sets bookmarks for the document
 // pageObjNums will be automatically built from the pages if nil
 func (b *SimplePDFBuilder) SetBookmarks(bookmarks []types.Bookmark) error {
diff --git a/forms/acroform/integration.go b/forms/acroform/integration.go
index d7d1608..4869946 100644
--- a/forms/acroform/integration.go
+++ b/forms/acroform/integration.go
@@ -4,8 +4,8 @@ package acroform
 import (
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // FormBuilder integrates AcroForm creation with SimplePDFBuilder
@@ -57,15 +57,13 @@ func (fb *FormBuilder) BuildForm() (int, error) {
 		return 0, fmt.Errorf("failed to build AcroForm: %w", err)
 	}
 
-	// Get pages object number
-	pagesObjNum := fb.builder.PagesObjNum()
-
-	// Update catalog to include AcroForm
-	w := fb.builder.Writer()
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>",
-		pagesObjNum, acroFormNum)
-	catalogNum := w.AddObject([]byte(catalogDict))
-	w.SetRoot(catalogNum)
+	// Refer to the form from the catalog, and to the fields from their pages
+	if err := AddAcroFormToCatalog(fb.builder.Writer(), fb.builder.CatalogObjNum(), acroFormNum); err != nil {
+		return 0, err
+	}
+	for _, field := range fb.fieldBuilder.fields {
+		fb.builder.AddAnnotation(field.Page, field.objNum)
+	}
 
 	return acroFormNum, nil
 }
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index a00bc93..25a61fe 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -2,11 +2,14 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // FieldBuilder helps build AcroForm fields
@@ -29,6 +32,8 @@ type FieldDef struct {
 	MaxLen       int      // For text fields
 	Required     bool
 	ReadOnly     bool
+
+	objNum int // Object number, once built
 }
 
 // NewFieldBuilder creates a new field builder
@@ -54,11 +59,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn", // A checkbox, as neither flag for other buttons is set
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +75,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +97,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -151,8 +156,8 @@ func (fb *FieldBuilder) Build() (int, error) {
 	// Create field objects
 	fieldRefs := make([]string, 0, len(fb.fields))
 	for _, field := range fb.fields {
-		fieldObjNum := fb.createFieldObject(field)
-		fieldRefs = append(fieldRefs, fmt.Sprintf("%d 0 R", fieldObjNum))
+		field.objNum = fb.createFieldObject(field)
+		fieldRefs = append(fieldRefs, fmt.Sprintf("%d 0 R", field.objNum))
 	}
 
 	// Create AcroForm dictionary
@@ -163,141 +168,82 @@ func (fb *FieldBuilder) Build() (int, error) {
 	return acroFormNum, nil
 }
 
-// createFieldObject creates a PDF field object
+// createFieldObject creates a PDF field object, which is also the annotation that
+// shows the field
 func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
-	var dict strings.Builder
-	dict.WriteString("<<")
+	var dict bytes.Buffer
+	dict.WriteString("<< /Type /Annot /Subtype /Widget")
 
 	// Field type
-	dict.WriteString(fmt.Sprintf(" /FT /%s", field.Type))
+	fmt.Fprintf(&dict, " /FT /%s", syntax.EncodeName(field.Type))
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		fmt.Fprintf(&dict, " /T %s", document.EncodeText(field.Name))
 	}
 
-	// Rectangle
+	// Rectangle, and that the annotation is printed
 	if len(field.Rect) >= 4 {
-		dict.WriteString(fmt.Sprintf(" /Rect [%.2f %.2f %.2f %.2f]",
-			field.Rect[0], field.Rect[1], field.Rect[2], field.Rect[3]))
+		dict.WriteString(" /Rect [")
+		for i, number := range field.Rect[:4] {
+			if i > 0 {
+				dict.WriteByte(' ')
+			}
+			dict.WriteString(strconv.FormatFloat(number, 'f', -1, 64))
+		}
+		dict.WriteString("]")
 	}
+	dict.WriteString(" /F 4")
 
 	// Flags
 	if field.Flags != 0 {
-		dict.WriteString(fmt.Sprintf(" /Ff %d", field.Flags))
+		fmt.Fprintf(&dict, " /Ff %d", field.Flags)
 	}
 
 	// Value
 	if field.Value != nil {
-		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		value := encodeFieldValue(field.Value, field.Type)
+		fmt.Fprintf(&dict, " /V %s", value)
+		if field.Type == "Btn" && field.Flags&flagPushbutton == 0 {
+			fmt.Fprintf(&dict, " /AS %s", value)
+		}
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
-		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		fmt.Fprintf(&dict, " /DV %s", encodeFieldValue(field.DefaultValue, field.Type))
 	}
 
 	// Maximum length
 	if field.MaxLen > 0 {
-		dict.WriteString(fmt.Sprintf(" /MaxLen %d", field.MaxLen))
+		fmt.Fprintf(&dict, " /MaxLen %d", field.MaxLen)
 	}
 
 	// Options (for choice fields)
 	if len(field.Options) > 0 {
-		dict.WriteString(" /Opt [")
-		for i, opt := range field.Options {
-			if i > 0 {
-				dict.WriteString(" ")
-			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValueForWriter(opt)))
-		}
-		dict.WriteString("]")
+		fmt.Fprintf(&dict, " /Opt %s", encodeFieldValue(field.Options, field.Type))
 	}
 
-	// Page reference (would need to be set properly in real implementation)
-	// For now, we'll add it as a property
-
 	dict.WriteString(" >>")
 
-	return fb.writer.AddObject([]byte(dict.String()))
-}
-
-// formatFieldValueForWriter formats a value for PDF writing
-func formatFieldValueForWriter(value interface{}, fieldType string) string {
-	switch v := value.(type) {
-	case string:
-		return v
-	case int:
-		return strconv.Itoa(v)
-	case float64:
-		return strconv.FormatFloat(v, 'f', -1, 64)
-	case bool:
-		if fieldType == "Btn" {
-			if v {
-				return "Yes"
-			}
-			return "Off"
-		}
-		return strconv.FormatBool(v)
-	default:
-		return fmt.Sprintf("%v", v)
-	}
-}
-
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
+	return fb.writer.AddObject(dict.Bytes())
 }
 
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
-	catalogData, err := w.GetObject(catalogNum)
+	catalog, err := w.GetObject(catalogNum)
 	if err != nil {
 		return fmt.Errorf("failed to get catalog: %w", err)
 	}
+	if document.AsDict(syntax.ObjectValue(catalog)) == nil {
+		return fmt.Errorf("invalid catalog dictionary")
+	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("invalid catalog dictionary")
-		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+	if syntax.Lookup(catalog, "AcroForm") == nil {
+		acroFormRef := fmt.Sprintf("%d 0 R", acroFormNum)
+		w.SetObject(catalogNum, syntax.SetKey(catalog, "AcroForm", []byte(acroFormRef)))
 	}
 
 	return nil
-- 
2.43.0


From f52fa33dd0b686db60aaa5f5e36c6a8d456e4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 49/93] fix: form validation follows the field types, options
 and required flags

---
 forms/acroform/validation.go | 173 +++++++++++++++++++----------------
 1 file changed, 93 insertions(+), 80 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..439a362 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -4,7 +4,9 @@ package acroform
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -28,7 +30,7 @@ func ValidateField(field *Field, value interface{}) error {
 
 	// Check required
 	if (field.Ff & 0x2) != 0 { // Required flag
-		if value == nil || value == "" {
+		if isEmptyValue(value) {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
 				Message:   "field is required",
@@ -58,15 +60,35 @@ func ValidateField(field *Field, value interface{}) error {
 	return nil
 }
 
+// isEmptyValue returns whether a value leaves a field without one
+func isEmptyValue(value interface{}) bool {
+	return len(valueTexts(value)) == 0 || value == ""
+}
+
+// valueTexts returns the texts a value consists of: none for nil, all of a list,
+// one otherwise
+func valueTexts(value interface{}) []string {
+	switch v := value.(type) {
+	case nil:
+		return nil
+	case []string:
+		return v
+	case []interface{}:
+		texts := make([]string, 0, len(v))
+		for _, item := range v {
+			texts = append(texts, formatFieldValue(item, ""))
+		}
+		return texts
+	}
+	return []string{formatFieldValue(value, "")}
+}
+
 // validateTextField validates a text field
 func validateTextField(field *Field, value interface{}) error {
-	valueStr, ok := value.(string)
-	if !ok {
-		valueStr = fmt.Sprintf("%v", value)
-	}
+	valueStr := formatFieldValue(value, field.FT)
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -86,29 +108,14 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
+	// Checkboxes allow any appearance state name
 
 	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
-		// Radio buttons should match one of the option values
-		if len(field.Opt) > 0 {
-			valueStr := fmt.Sprintf("%v", value)
-			found := false
-			for _, opt := range field.Opt {
-				if fmt.Sprintf("%v", opt) == valueStr {
-					found = true
-					break
-				}
-			}
-			if !found {
+	if (field.Ff & flagRadio) != 0 { // Radio button flag
+		// Radio buttons should match one of the option values, or none
+		if len(field.Opt) > 0 && !isEmptyValue(value) {
+			valueStr := formatFieldValue(value, field.FT)
+			if valueStr != "Off" && !field.hasOption(valueStr) {
 				return &ValidationError{
 					FieldName: field.GetFullName(),
 					Message:   "value does not match any radio button option",
@@ -121,32 +128,48 @@ func validateButtonField(field *Field, value interface{}) error {
 	return nil
 }
 
+// hasOption returns whether a text is the export value of one of the options
+func (f *Field) hasOption(text string) bool {
+	for _, opt := range f.Opt {
+		if value, _ := optionValue(opt); value == text {
+			return true
+		}
+	}
+	return false
+}
+
 // validateChoiceField validates a choice field (dropdown/list)
 func validateChoiceField(field *Field, value interface{}) error {
 	if len(field.Opt) == 0 {
 		return nil // No options to validate against
 	}
-
-	valueStr := fmt.Sprintf("%v", value)
-
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
-		if optStr == valueStr {
-			found = true
-			break
-		}
+	if isEmptyValue(value) {
+		return nil // Nothing is selected
+	}
+	if field.Ff&flagCombo != 0 && field.Ff&flagEdit != 0 {
+		return nil // Any text may be entered
 	}
 
-	if !found {
+	texts := valueTexts(value)
+	if len(texts) > 1 && field.Ff&flagMultiSelect == 0 {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
-			Message:   "value is not in the list of valid options",
+			Message:   "only one option may be selected",
 			Value:     value,
 		}
 	}
 
+	// Check if value is in options
+	for _, text := range texts {
+		if !field.hasOption(text) {
+			return &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "value is not in the list of valid options",
+				Value:     value,
+			}
+		}
+	}
+
 	return nil
 }
 
@@ -171,12 +194,15 @@ func validateSignatureField(field *Field, value interface{}) error {
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
-	for fieldName, value := range formData {
+	filled := make(map[*Field]bool)
+	for _, fieldName := range sortedFieldNames(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
 			continue
 		}
+		filled[field] = true
 
 		if err := ValidateField(field, value); err != nil {
 			errors = append(errors, err)
@@ -184,56 +210,42 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
-			fieldName := field.GetFullName()
-			if _, found := formData[fieldName]; !found {
-				errors = append(errors, &ValidationError{
-					FieldName: fieldName,
-					Message:   "required field is missing",
-					Value:     nil,
-				})
-			}
+	for _, field := range acroForm.allFields() {
+		if len(field.Kids) > 0 {
+			continue // Only groups other fields
 		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
+		if (field.Ff&0x2) != 0 && !filled[field] { // Required flag
+			errors = append(errors, &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "required field is missing",
+				Value:     nil,
+			})
 		}
 	}
 
 	return errors
 }
 
+// sortedFieldNames returns the names of the fields data is given for, in order
+func sortedFieldNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFieldValue validates a field value using FormSchema validation rules
 func ValidateFieldValue(question *types.Question, value interface{}) error {
 	if question.Validation == nil {
 		return nil
 	}
 
-	valueStr := ""
-	switch v := value.(type) {
-	case string:
-		valueStr = v
-	case int:
-		valueStr = strconv.Itoa(v)
-	case float64:
-		valueStr = strconv.FormatFloat(v, 'f', -1, 64)
-	default:
-		valueStr = fmt.Sprintf("%v", v)
-	}
+	valueStr := formatFieldValue(value, "")
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +254,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
@@ -305,7 +317,8 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedFieldNames(formData) {
+		value := formData[fieldName]
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
@@ -320,11 +333,11 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	// Check for missing required fields
 	for _, question := range schema.Questions {
 		if question.Required {
-			if _, found := formData[question.Name]; !found {
+			if value := formData[question.Name]; isEmptyValue(value) {
 				errors = append(errors, &ValidationError{
 					FieldName: question.Name,
 					Message:   "required field is missing",
-					Value:     nil,
+					Value:     value,
 				})
 			}
 		}
-- 
2.43.0


From bf08ae855a8c0135a65683b58db88c2c945f190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 50/93] fix: actions and appearances are added to fields as
 valid PDF

---
 forms/acroform/actions.go    | 129 ++++++++++-------------------------
 forms/acroform/appearance.go |  99 +++++++++++++--------------
 2 files changed, 84 insertions(+), 144 deletions(-)

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..c793f25 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -3,10 +3,10 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // ActionType represents the type of PDF action
@@ -29,23 +29,13 @@ type Action struct {
 	PageNum     int    // For GoTo actions (page number)
 }
 
-// AddActionToField adds an action to a field
+// AddActionToField adds an action to a field, in place of the one it has
 func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error {
-	// Get existing field object
-	fieldData, err := w.GetObject(fieldObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
-	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
-	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+	case ActionTypeURI, ActionTypeJavaScript:
+		actionDict = formatTextAction(action)
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -63,50 +53,20 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
 	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+	return editField(fieldObjNum, w, func(field []byte) []byte {
+		return syntax.SetKey(field, "A", []byte(actionDict))
+	})
 }
 
-// AddMouseAction adds a mouse-triggered action (e.g., onClick)
+// AddMouseAction adds a mouse-triggered action (e.g., onClick). Actions for other
+// events are kept.
 func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFWriter) error {
-	// Get existing field object
-	fieldData, err := w.GetObject(fieldObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
-	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
-	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+	case ActionTypeURI, ActionTypeJavaScript:
+		actionDict = formatTextAction(action)
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -126,51 +86,32 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	}
 
 	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
+	return editField(fieldObjNum, w, func(field []byte) []byte {
+		actions := document.AsDict(syntax.Lookup(field, "AA"))
+		if actions == nil {
+			actions = []byte("<< >>")
 		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
-	}
+		return syntax.SetKey(field, "AA", syntax.SetKey(actions, actionKey, []byte(actionDict)))
+	})
+}
 
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+// formatTextAction returns the dictionary of an action that consists of a text
+func formatTextAction(action *Action) string {
+	if action.Type == ActionTypeURI {
+		return fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", document.EncodeText(action.URI))
+	}
+	return fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", document.EncodeText(action.JavaScript))
 }
 
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
+// editField replaces the dictionary of a field by the edited one
+func editField(fieldObjNum int, w *write.PDFWriter, edit func(field []byte) []byte) error {
+	field, err := w.GetObject(fieldObjNum)
+	if err != nil {
+		return fmt.Errorf("failed to get field object: %w", err)
+	}
+	if document.AsDict(syntax.ObjectValue(field)) == nil {
+		return fmt.Errorf("field dictionary not found")
 	}
-	return result.String()
+	w.SetObject(fieldObjNum, edit(field))
+	return nil
 }
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..33f8e96 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,10 +3,11 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
 
 // AppearanceBuilder helps create appearance streams for form fields
@@ -79,7 +80,7 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 	// Set up text
 	content.WriteString("BT\n") // Begin text
-	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", fontName, fontSize))
+	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", syntax.EncodeName(fontName), fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Position text (bottom-left of field)
@@ -94,6 +95,17 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 	content.WriteString("Q\n")  // Restore state
 
 	// Create appearance stream
+	return ab.addTextAppearance(content.String(), width, height, fontName), nil
+}
+
+// addTextAppearance adds an appearance stream that uses one font
+func (ab *AppearanceBuilder) addTextAppearance(content string, width, height float64, fontName string) int {
+	baseFont := fontName
+	if !standardFonts[baseFont] {
+		baseFont = "Helvetica"
+	}
+	fontNum := ab.writer.AddObject([]byte(fmt.Sprintf(
+		"<< /Type /Font /Subtype /Type1 /BaseFont /%s /Encoding /WinAnsiEncoding >>", baseFont)))
 	appearanceDict := write.Dictionary{
 		"/Type":    "/XObject",
 		"/Subtype": "/Form",
@@ -101,13 +113,18 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
 		"/Resources": write.Dictionary{
 			"/Font": write.Dictionary{
-				fontName: fmt.Sprintf("%d 0 R", 0), // Font reference (would need actual font)
+				"/" + fontName: fmt.Sprintf("%d 0 R", fontNum),
 			},
 		},
 	}
+	return ab.writer.AddStreamObject(appearanceDict, []byte(content), true)
+}
 
-	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
-	return appearanceNum, nil
+// standardFonts lists the standard fonts that have a text encoding
+var standardFonts = map[string]bool{
+	"Helvetica": true, "Helvetica-Bold": true, "Helvetica-Oblique": true, "Helvetica-BoldOblique": true,
+	"Times-Roman": true, "Times-Bold": true, "Times-Italic": true, "Times-BoldItalic": true,
+	"Courier": true, "Courier-Bold": true, "Courier-Oblique": true, "Courier-BoldOblique": true,
 }
 
 // CreateButtonAppearance creates an appearance stream for a button
@@ -129,12 +146,12 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 
 	// Draw text (centered)
 	content.WriteString("BT\n") // Begin text
-	content.WriteString("/Helvetica 12 Tf\n")
+	content.WriteString(fmt.Sprintf("/Helvetica %.2f Tf\n", fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Center text
-	textX := (width - float64(len(label))*6) / 2 // Rough centering
-	textY := (height - 12) / 2
+	textX := (width - float64(utf8.RuneCountInString(label))*fontSize/2) / 2 // Rough centering
+	textY := (height - fontSize) / 2
 	content.WriteString(fmt.Sprintf("%.2f %.2f Td\n", textX, textY))
 	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapeAppearanceText(label)))
 	content.WriteString("ET\n") // End text
@@ -142,18 +159,14 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 	content.WriteString("Q\n") // Restore state
 
 	// Create appearance stream
-	appearanceDict := write.Dictionary{
-		"/Type":    "/XObject",
-		"/Subtype": "/Form",
-		"/BBox":    []interface{}{0, 0, width, height},
-		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
-	}
-
-	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
-	return appearanceNum, nil
+	return ab.addTextAppearance(content.String(), width, height, "Helvetica"), nil
 }
 
-// escapeAppearanceText escapes text for appearance streams
+// winAnsiHigh lists the characters WinAnsiEncoding has at 0x80 to 0x9F
+var winAnsiHigh = []rune("€\uFFFD‚ƒ„…†‡ˆ‰Š‹Œ\uFFFDŽ\uFFFD\uFFFD‘’“”•–—˜™š›œ\uFFFDžŸ")
+
+// escapeAppearanceText encodes text for appearance streams in WinAnsiEncoding and
+// escapes it. Characters the encoding lacks become question marks.
 func escapeAppearanceText(s string) string {
 	var result strings.Builder
 	for _, r := range s {
@@ -171,44 +184,30 @@ func escapeAppearanceText(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
+			if r < 0x7F {
 				result.WriteRune(r)
+				continue
+			}
+			code := '?'
+			if r >= 0xA0 && r <= 0xFF {
+				code = r
 			}
+			for i, high := range winAnsiHigh {
+				if r == high && r != utf8.RuneError {
+					code = rune(0x80 + i)
+				}
+			}
+			result.WriteString(fmt.Sprintf("\\%03o", code))
 		}
 	}
 	return result.String()
 }
 
-// AddAppearanceToField adds an appearance stream to a field object
+// AddAppearanceToField adds an appearance stream to a field object, in place of
+// the appearances it has
 func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) error {
-	// Get existing field object
-	fieldData, err := w.GetObject(fieldObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to get field object: %w", err)
-	}
-
-	fieldStr := string(fieldData)
-
-	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
-
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
+	appearances := fmt.Sprintf("<< /N %d 0 R >>", appearanceNum)
+	return editField(fieldObjNum, w, func(field []byte) []byte {
+		return syntax.SetKey(field, "AP", []byte(appearances))
+	})
 }
-- 
2.43.0


From 962ba3f811069c854932e14cb9d038d7461f4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 51/93] fix: filling a single field asks viewers to draw it
 anew

---
 forms/acroform/replace.go        | 11 +++++++----
 forms/acroform/stream_rebuild.go |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 8e005c5..1402581 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -15,10 +15,11 @@ import (
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
+	pdf, err := openForEditing(pdfBytes, encryptInfo, verbose)
 	if err != nil {
 		return nil, err
 	}
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
 	if manipulator.Object(objNum) == nil {
 		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
 	}
@@ -28,18 +29,20 @@ func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte,
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
+	pdf, err := openForEditing(pdfBytes, encryptInfo, verbose)
 	if err != nil {
 		return nil, err
 	}
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
 	if err := setFieldValue(manipulator, field, value); err != nil {
 		return nil, err
 	}
+	requestAppearances(manipulator, pdf)
 	return manipulator.Rebuild()
 }
 
 // openForEditing opens a PDF whose objects are going to be replaced
-func openForEditing(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*manipulate.PDFManipulator, error) {
+func openForEditing(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*parse.PDF, error) {
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Encryption: encryptInfo,
 		Verbose:    verbose,
@@ -47,7 +50,7 @@ func openForEditing(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose b
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-	return manipulate.NewFromPDF(pdf, verbose), nil
+	return pdf, nil
 }
 
 // setFieldValue sets the value of a field, and the appearance states of its
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index 0f41d46..323a9d9 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -4,6 +4,7 @@ package acroform
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -18,10 +19,11 @@ type StreamObjectUpdate struct {
 // RebuildObjectStream updates objects that are kept in an object stream. The
 // resulting PDF stores them on their own.
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	manipulator, err := openForEditing(pdfBytes, encryptInfo, verbose)
+	pdf, err := openForEditing(pdfBytes, encryptInfo, verbose)
 	if err != nil {
 		return nil, err
 	}
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
 	for _, update := range updates {
 		if manipulator.Object(update.ObjNum) == nil {
 			return nil, fmt.Errorf("object %d of object stream %d not found", update.ObjNum, streamObjNum)
-- 
2.43.0


From 7c3d02be07f7b099aedfa7a8ebc3e92cd42284f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 52/93] fix: read and replace XFA streams through the document
 structure

XFA streams were located by searching the file for patterns, so arrays stored
indirectly, other filters, encrypted or escaped names and objects in object
streams were missed. Replacing a stream overwrote the caller's data, kept
/Filter for uncompressed data, and wrote plain text into encrypted files.
---
 core/write/xfa_builder.go | 432 +++-------------------
 forms/xfa/xfa.go          | 273 ++------------
 forms/xfa/xfa_utils.go    | 760 +-------------------------------------
 internal/document/xfa.go  |  44 +++
 4 files changed, 149 insertions(+), 1360 deletions(-)
 create mode 100644 internal/document/xfa.go

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..c850959 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -1,15 +1,14 @@
 package write
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -65,7 +64,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 
 	// Create AcroForm dictionary with XFA array
 	acroFormContent := fmt.Sprintf("<</Fields[]/XFA[%s]>>",
-		joinStrings(xfaArrayParts, ""))
+		strings.Join(xfaArrayParts, " "))
 	b.acroFormNum = b.writer.AddObject([]byte(acroFormContent))
 
 	// Create catalog (root) with AcroForm reference
@@ -89,400 +88,85 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	}
 
 	// Parse the original PDF structure
-	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
+	pdf, err := parse.OpenWithOptions(originalPDF, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    b.verbose,
+	})
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
-	}
-
-	if b.verbose {
-		log.Printf("Parsed %d objects from original PDF", len(objects))
-	}
-
-	// Find trailer info
-	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-
-	if b.verbose {
-		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
+		return nil, fmt.Errorf("failed to parse original PDF: %w", err)
 	}
 
 	// Find XFA stream references in AcroForm
-	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
+	updatedObjects := make(map[int][]byte)
+	packets, err := document.XFAPackets(pdf)
 	if err != nil {
 		if b.verbose {
-			log.Printf("Warning: could not find XFA stream map: %v", err)
+			log.Printf("Warning: could not find XFA streams: %v", err)
 		}
 	}
-
-	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
-		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
-
-				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
-				}
-			}
+	for _, packet := range packets {
+		if newData, ok := updatedStreams[packet.Name]; ok {
+			updatedObjects[packet.ObjNum] = newData
+			b.xfaStreams[packet.Name] = packet.ObjNum
 		}
 	}
 
 	// Add all objects to writer
-	for objNum, obj := range objects {
-		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
-		} else if obj.Content != nil {
-			b.writer.SetObject(objNum, obj.Content)
-		}
-	}
-
-	// Set trailer references
-	if rootObjNum > 0 {
-		b.writer.SetRoot(rootObjNum)
-	}
-	if infoObjNum > 0 {
-		b.writer.SetInfo(infoObjNum)
-	}
-	if encryptObjNum > 0 && encryptInfo != nil {
-		b.writer.SetEncryptRef(encryptObjNum)
-		b.writer.SetEncryption(encryptInfo, fileID)
-	}
-
-	return b.writer.Bytes()
-}
-
-// parseAllObjects parses all objects from a PDF including those in object streams
-func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
-	objects := make(map[int]*PDFObject)
-
-	// First, parse direct objects (those with "N G obj" pattern)
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
-	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
-
-	for _, match := range matches {
-		objNumStr := string(pdfBytes[match[2]:match[3]])
-		genNumStr := string(pdfBytes[match[4]:match[5]])
-
-		objNum, _ := strconv.Atoi(objNumStr)
-		genNum, _ := strconv.Atoi(genNumStr)
-
-		// Find endobj
-		objStart := match[1] // After "obj"
-		endObjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endObjPos == -1 {
-			continue
-		}
-
-		objContent := pdfBytes[objStart : objStart+endObjPos]
-
-		// Check for stream
-		streamPos := bytes.Index(objContent, []byte("stream"))
-		var streamData []byte
-		var dict Dictionary
-
-		if streamPos != -1 {
-			// Parse dictionary
-			dictContent := objContent[:streamPos]
-			dict = parseDictionary(dictContent)
-
-			// Find stream data
-			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
-				streamStart++
-			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
-			}
-
-			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
-				streamData = objContent[streamStart : streamStart+length]
-			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
-			}
-		}
-
-		// Trim whitespace from content
-		content := bytes.TrimSpace(objContent)
-		if streamPos != -1 {
-			content = bytes.TrimSpace(objContent[:streamPos])
-		}
-
-		objects[objNum] = &PDFObject{
-			Number:     objNum,
-			Generation: genNum,
-			Content:    content,
-			Stream:     streamData,
-			Dict:       dict,
-		}
-	}
-
-	// Now extract objects from object streams using the parser
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef > 0 {
-		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
-		if err == nil {
-			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
-				if _, exists := objects[objNum]; exists {
-					continue // Already have this object as a direct object
-				}
-
-				// Extract object from the object stream
-				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
-				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
-				}
-
-				// Parse the extracted object content
-				objects[objNum] = &PDFObject{
-					Number:     objNum,
-					Generation: 0,
-					Content:    bytes.TrimSpace(objData),
-				}
-
-				if verbose {
-					log.Printf("Extracted object %d from object stream %d", objNum, entry.StreamObjNum)
-				}
+	for _, objNum := range pdf.Objects() {
+		obj, err := pdf.GetObject(objNum)
+		if err != nil {
+			if b.verbose {
+				log.Printf("Warning: failed to get object %d: %v", objNum, err)
 			}
-		} else if verbose {
-			log.Printf("Warning: could not parse xref stream: %v", err)
+			continue
 		}
-	}
-
-	return objects, nil
-}
-
-// findStartXRef finds the startxref position in a PDF
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end of file
-	searchLen := min(1024, len(pdfBytes))
-	tailStart := len(pdfBytes) - searchLen
-	tail := string(pdfBytes[tailStart:])
-
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindStringSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(match[1], 10, 64)
-		if err == nil {
-			return val
+		value := syntax.ObjectValue(obj)
+		dict, data, err := document.StreamData(pdf, objNum)
+		if err != nil {
+			b.writer.SetObject(objNum, value)
+			continue
 		}
-	}
-	return -1
-}
-
-// parseDictionary parses a PDF dictionary into our Dictionary type
-func parseDictionary(data []byte) Dictionary {
-	dict := make(Dictionary)
-
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
+		// Object streams and cross-reference streams are part of how the file was stored
+		if streamType := syntax.LookupName(dict, "Type"); streamType == "ObjStm" || streamType == "XRef" {
+			continue
 		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
-
-		// Parse value type
-		if num, err := strconv.Atoi(value); err == nil {
-			dict[key] = num
-		} else {
-			dict[key] = value
+		streamDict := make(Dictionary)
+		for _, entry := range syntax.Entries(dict, 0) {
+			streamDict[entry.Key] = rawValue(dict[entry.Start:entry.End])
 		}
-	}
-
-	return dict
-}
-
-// parseTrailerInfo extracts trailer references
-func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
-	pdfStr := string(pdfBytes)
-
-	// Find Root
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+\d+\s+R`)
-	if match := rootPattern.FindStringSubmatch(pdfStr); match != nil {
-		rootNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Info
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+\d+\s+R`)
-	if match := infoPattern.FindStringSubmatch(pdfStr); match != nil {
-		infoNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Encrypt
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+\d+\s+R`)
-	if match := encryptPattern.FindStringSubmatch(pdfStr); match != nil {
-		encryptNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find ID
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	if match := idPattern.FindStringSubmatch(pdfStr); match != nil {
-		fileID, _ = hexDecode(match[1])
-	}
-
-	return
-}
-
-// findXFAStreamMap finds the mapping of XFA stream names to object numbers
-func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// First find AcroForm reference
-	pdfStr := string(pdfBytes)
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		return findXFAStreamMapInline(pdfBytes)
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
-	}
-
-	// Get the AcroForm object using proper parser (handles object streams)
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
-	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
-	}
-
-	// Find XFA array in AcroForm content
-	return parseXFAArrayFromContent(acroFormData, verbose)
-}
-
-// findXFAStreamMapInline finds XFA array when AcroForm is inline
-func findXFAStreamMapInline(pdfBytes []byte) (map[string]int, error) {
-	result := make(map[string]int)
-	pdfStr := string(pdfBytes)
-
-	xfaPattern := regexp.MustCompile(`/XFA\s*\[([^\]]+)\]`)
-	match := xfaPattern.FindStringSubmatch(pdfStr)
-	if match == nil {
-		return result, fmt.Errorf("XFA array not found")
-	}
-
-	return parseXFAArrayContent(match[1])
-}
-
-// parseXFAArrayFromContent parses XFA array from object content
-func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// Find XFA array
-	xfaIdx := bytes.Index(content, []byte("/XFA"))
-	if xfaIdx == -1 {
-		return result, fmt.Errorf("XFA not found in AcroForm")
-	}
-
-	// Find array start
-	arrayStart := bytes.Index(content[xfaIdx:], []byte("["))
-	if arrayStart == -1 {
-		return result, fmt.Errorf("XFA array start not found")
-	}
-	arrayStart += xfaIdx
-
-	// Find array end
-	depth := 0
-	arrayEnd := arrayStart
-	for i := arrayStart; i < len(content); i++ {
-		if content[i] == '[' {
-			depth++
-		} else if content[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEnd = i + 1
-				break
+		newData, updated := updatedObjects[objNum]
+		if updated {
+			delete(streamDict, "Filter")
+			delete(streamDict, "DecodeParms")
+			data = newData
+			if b.verbose {
+				log.Printf("Updated stream object %d: %d bytes", objNum, len(newData))
 			}
 		}
+		b.writer.SetStreamObject(objNum, streamDict, data, updated)
 	}
 
-	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
-	if verbose {
-		log.Printf("Found XFA array content: %s", arrayContent)
+	// Set trailer references
+	trailer := pdf.Trailer()
+	if rootObjNum, err := document.ParseObjectRef(trailer.RootRef); err == nil {
+		b.catalogNum = rootObjNum
+		b.writer.SetRoot(rootObjNum)
 	}
-
-	return parseXFAArrayContent(arrayContent)
-}
-
-// parseXFAArrayContent parses XFA array content string
-func parseXFAArrayContent(arrayContent string) (map[string]int, error) {
-	result := make(map[string]int)
-
-	refPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+\d+\s+R`)
-	refs := refPattern.FindAllStringSubmatch(arrayContent, -1)
-
-	for _, ref := range refs {
-		name := ref[1]
-		objNum, _ := strconv.Atoi(ref[2])
-		result[name] = objNum
+	if infoObjNum, err := document.ParseObjectRef(trailer.InfoRef); err == nil {
+		b.writer.SetInfo(infoObjNum)
 	}
 
-	return result, nil
-}
-
-// hexDecode decodes a hex string to bytes
-func hexDecode(s string) ([]byte, error) {
-	if len(s)%2 != 0 {
-		s = "0" + s
-	}
-	result := make([]byte, len(s)/2)
-	for i := 0; i < len(s); i += 2 {
-		b, err := strconv.ParseUint(s[i:i+2], 16, 8)
-		if err != nil {
-			return nil, err
+	// Set encryption if present: the encryption dictionary is kept as it is
+	if pdf.IsEncrypted() {
+		encryption := pdf.Encryption()
+		encryptObjNum := encryption.ObjNum
+		if encryptObjNum == 0 {
+			encryptObjNum = b.writer.NextObjectNumber() // Was part of the trailer
 		}
-		result[i/2] = byte(b)
+		b.writer.SetObject(encryptObjNum, syntax.ObjectValue(encryption.Dict))
+		b.writer.SetEncryptRef(encryptObjNum)
+		b.writer.SetEncryption(encryption, encrypt.ExtractFileID(originalPDF, b.verbose))
 	}
-	return result, nil
-}
 
-// joinStrings joins strings without separator
-func joinStrings(parts []string, sep string) string {
-	var buf bytes.Buffer
-	for i, p := range parts {
-		if i > 0 {
-			buf.WriteString(sep)
-		}
-		buf.WriteString(p)
-	}
-	return buf.String()
+	return b.writer.Bytes()
 }
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..9b982bf 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,99 +1,16 @@
 package xfa
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractStreamDataFromObject extracts stream data from raw object bytes
-// The object should already be decrypted
-func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find stream keyword
-	streamIdx := bytes.Index(objData, []byte("stream"))
-	if streamIdx == -1 {
-		// Not a stream object - might be a simple value
-		// Look for dictionary or value content
-		dictStart := bytes.Index(objData, []byte("<<"))
-		if dictStart != -1 {
-			return objData[dictStart:], nil
-		}
-		return objData, nil
-	}
-
-	// Find endstream
-	endstreamIdx := bytes.Index(objData[streamIdx:], []byte("endstream"))
-	if endstreamIdx == -1 {
-		return nil, fmt.Errorf("endstream not found in object %d", objNum)
-	}
-	endstreamIdx += streamIdx
-
-	// Get /Length from dictionary if available
-	dictEnd := streamIdx
-	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
-
-	// Skip "stream" and EOL
-	dataStart := streamIdx + 6
-	if dataStart < len(objData) && objData[dataStart] == '\r' {
-		dataStart++
-	}
-	if dataStart < len(objData) && objData[dataStart] == '\n' {
-		dataStart++
-	}
-
-	var streamData []byte
-	if lengthMatch != nil {
-		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
-			streamData = objData[dataStart : dataStart+length]
-		} else {
-			streamData = objData[dataStart:endstreamIdx]
-		}
-	} else {
-		streamData = objData[dataStart:endstreamIdx]
-	}
-
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
-	}
-
-	return streamData, nil
-}
-
 // XFAStreamInfo contains stream data and metadata
 type XFAStreamInfo struct {
 	Data         []byte `json:"data"`
@@ -120,163 +37,53 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
 	}
 
-	streams := &XFAStreams{}
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatchIndex(pdfStr)
-
-	var acroFormObjNum int
-	var err error
-
-	if acroFormMatch != nil {
-		// AcroForm is an indirect reference
-		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
-		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
-		}
-
-		if verbose {
-			log.Printf("Found AcroForm indirect reference: object %d", acroFormObjNum)
-		}
-	} else {
-		// Try inline AcroForm dictionary
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		acroFormInlineMatch := acroFormInlinePattern.FindStringIndex(pdfStr)
-		if acroFormInlineMatch == nil {
-			return nil, fmt.Errorf("AcroForm not found (neither inline nor indirect reference)")
-		}
-		// For inline, we'll search from that position
-		acroFormObjNum = 0
-	}
-
-	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
-	var xfaArrayContent string
-	if acroFormObjNum > 0 {
-		// Use new GetObject function that handles both direct objects and object streams
-		// This is the equivalent of PyPDF's get_object() method
-		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("GetObject failed for AcroForm %d: %v, trying fallback", acroFormObjNum, err)
-			}
-			// Fallback to old method
-			decryptedContent, err = findAndDecryptAcroForm(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		xfaArrayContent, err = findXFAArrayContent(decryptedContent, verbose)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// Inline AcroForm - find XFA directly
-		xfaPattern := regexp.MustCompile(`/XFA\s*\[`)
-		xfaMatch := xfaPattern.FindStringIndex(pdfStr)
-		if xfaMatch == nil {
-			return nil, fmt.Errorf("XFA entry not found")
-		}
-
-		arrayStart := xfaMatch[1] - 1
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(pdfStr) && i < arrayStart+10000; i++ {
-			if pdfStr[i] == '[' {
-				depth++
-			} else if pdfStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i
-					break
-				}
-			}
-		}
-
-		if arrayEnd == arrayStart {
-			return nil, fmt.Errorf("could not find end of XFA array")
-		}
-
-		xfaArrayContent = pdfStr[arrayStart+1 : arrayEnd]
-	}
-
-	if verbose {
-		log.Printf("Found XFA array content: %s", xfaArrayContent[:min(200, len(xfaArrayContent))])
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
-
-	if len(matches) == 0 {
-		return nil, fmt.Errorf("no stream references found in XFA array")
+	packets, err := document.XFAPackets(pdf)
+	if err != nil {
+		return nil, err
 	}
 
 	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
+		log.Printf("Found %d stream references in XFA array", len(packets))
 	}
 
 	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
-			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
-			}
-			continue
-		}
-
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
-				}
-				continue
-			}
-		}
-
-		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
+	streams := &XFAStreams{}
+	for _, packet := range packets {
+		dict, streamData, err := document.StreamData(pdf, packet.ObjNum)
 		if err != nil {
 			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				log.Printf("Failed to get object %d for stream %s: %v", packet.ObjNum, packet.Name, err)
 			}
 			continue
 		}
-
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
+		filters, params := document.StreamFilters(pdf, dict)
+		data, err := document.DecodeFilters(pdf, streamData, filters, params)
 		if err != nil {
 			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
+				log.Printf("Failed to decode stream %s: %v", packet.Name, err)
 			}
-			decompressed = streamData // Use as-is if decompression fails
+			data = streamData // Use as-is if decoding fails
 		}
 
 		streamInfo := &XFAStreamInfo{
-			Data:         decompressed,
-			ObjectNumber: objNum,
-			Compressed:   wasCompressed,
+			Data:         data,
+			ObjectNumber: packet.ObjNum,
+			Compressed:   len(filters) > 0,
 		}
 
 		if verbose {
-			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", streamName, len(decompressed), objNum, wasCompressed)
+			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", packet.Name, len(data), packet.ObjNum, streamInfo.Compressed)
 		}
 
 		// Store in appropriate field
-		switch streamName {
+		switch packet.Name {
 		case "template":
 			streams.Template = streamInfo
 		case "datasets":
@@ -297,7 +104,7 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 			streams.SourceSet = streamInfo
 		default:
 			if verbose {
-				log.Printf("Unknown XFA stream type: %s", streamName)
+				log.Printf("Unknown XFA stream type: %s", packet.Name)
 			}
 		}
 	}
@@ -440,37 +247,15 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
-	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
-	}
-
 	// Update field values in XFA XML
-	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
+	updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
-	// Re-compress if it was compressed
-	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
-		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
-		}
-		updatedStream = compressed
-		if verbose {
-			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
-		}
-	}
-
 	// Update PDF with new stream
-	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
+	builder := write.NewXFABuilder(verbose)
+	updatedPDF, err := builder.BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
 	if err != nil {
 		return nil, fmt.Errorf("error replacing stream: %v", err)
 	}
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..9aa34b7 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -7,424 +7,16 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"regexp"
 	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/document"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// findObjectBoundaries finds the start and end of a PDF object using incremental parsing
-// This uses non-encrypted markers ("obj", "endobj") to locate object boundaries
-func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName string, verbose bool) (objStart, objEnd int, objContent []byte, err error) {
-	// Find object boundaries - search backwards from objIndex to find "obj" keyword
-	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
-	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
-
-	objKeywordPos := -1
-	objStart = objIndex
-
-	// First, try to find the object number pattern directly (works if object header is visible)
-	// This is the most reliable method
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-
-	// Search in a window around the given index first
-	if objIndex >= 0 && objIndex < len(pdfBytes) {
-		searchStart := max(0, objIndex-2000)
-		searchEnd := min(len(pdfBytes), objIndex+2000)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		patternPos := bytes.Index(searchArea, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = searchStart + patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = searchStart + patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		}
-	}
-
-	// If pattern not found in window, the object might be compressed or the offset wrong
-	// Try searching entire PDF (slower but more reliable)
-	if objKeywordPos == -1 {
-		patternPos := bytes.Index(pdfBytes, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		} else {
-			// Object header not found - might be compressed or offset is wrong
-			// Try searching for just the number "212" followed by whitespace and "0" near the offset
-			// This handles cases where the object header format is slightly different
-			numStr := fmt.Sprintf("%d", objNum)
-			searchStart := max(0, objIndex-1000)
-			searchEnd := min(len(pdfBytes), objIndex+1000)
-			searchArea := pdfBytes[searchStart:searchEnd]
-
-			// Look for number pattern
-			numBytes := []byte(numStr)
-			numPos := bytes.Index(searchArea, numBytes)
-			if numPos != -1 {
-				// Found the number, check if followed by space/tab and "0 obj"
-				checkPos := searchStart + numPos + len(numBytes)
-				if checkPos+10 < len(pdfBytes) {
-					afterNum := pdfBytes[checkPos : checkPos+10]
-					// Check for whitespace followed by "0 obj"
-					if afterNum[0] == ' ' || afterNum[0] == '\t' || afterNum[0] == '\n' || afterNum[0] == '\r' {
-						if bytes.HasPrefix(afterNum[1:], []byte("0 obj")) {
-							objKeywordPos = checkPos + 1 + 2 // Position after "0 "
-							objStart = searchStart + numPos
-							// Find line start
-							for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-								objStart--
-							}
-						}
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, try searching for "obj" keyword near the offset and verify object number
-	if objKeywordPos == -1 {
-		searchWindow := 5000 // Very large window for encrypted PDFs
-		searchStart := max(0, objIndex-searchWindow)
-		searchEnd := min(len(pdfBytes), objIndex+searchWindow)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		// Search for "obj" keyword (not encrypted)
-		objKeywordPosInArea := bytes.Index(searchArea, []byte("obj"))
-		if objKeywordPosInArea != -1 {
-			objKeywordPos = searchStart + objKeywordPosInArea
-			// Search backwards to find the start of the object number line
-			for i := objKeywordPos - 1; i >= 0 && i > objKeywordPos-100; i-- {
-				if pdfBytes[i] >= '0' && pdfBytes[i] <= '9' {
-					lineStart := i
-					for lineStart > 0 && pdfBytes[lineStart-1] != '\n' && pdfBytes[lineStart-1] != '\r' {
-						lineStart--
-					}
-					// Verify this is the right object by checking the number
-					lineEnd := objKeywordPos + 3
-					for lineEnd < len(pdfBytes) && pdfBytes[lineEnd] != '\n' && pdfBytes[lineEnd] != '\r' {
-						lineEnd++
-					}
-					lineContent := string(pdfBytes[lineStart:lineEnd])
-					if bytes.Contains([]byte(lineContent), []byte(fmt.Sprintf("%d 0 obj", objNum))) {
-						objStart = lineStart
-						break
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, the object header might be missing or the object is compressed
-	// UniPDF approach: use the xref offset directly and decrypt content there
-	// The xref offset points to the start of encrypted content, so start there
-	// But we should also try searching backwards a bit in case there's a header
-	if objKeywordPos == -1 {
-		// For encrypted PDFs without visible headers, UniPDF decrypts at the xref offset
-		// Try starting slightly before the offset (in case there's a short header)
-		// Then decrypt a larger chunk to ensure we get the full object
-		searchBack := 200 // Search backwards for potential header
-		objStart = max(0, objIndex-searchBack)
-		estimatedSize := 10000 // Larger estimate for AcroForm with XFA
-		objEnd = min(len(pdfBytes), objIndex+estimatedSize)
-		objContent = pdfBytes[objStart:objEnd]
-
-		if verbose {
-			log.Printf("%s object %d: Using xref offset with search window (start=%d, xref=%d, end=%d) - header not found, will decrypt and look for structure",
-				objName, objNum, objStart, objIndex, objEnd)
-		}
-	} else {
-		// Found obj keyword - find endobj normally
-		// Find "endobj" - search forward from objStart
-		objEndBytes := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if objEndBytes == -1 {
-			return 0, 0, nil, fmt.Errorf("%s object %d end not found", objName, objNum)
-		}
-		objEnd = objStart + objEndBytes + 6 // Include "endobj"
-		objContent = pdfBytes[objStart:objEnd]
-	}
-
-	return objStart, objEnd, objContent, nil
-}
-
-// extractDictionaryKeys extracts PDF dictionary keys for debugging
-func extractDictionaryKeys(dictContent []byte) string {
-	var keys []string
-	// Simple extraction: look for /Key patterns
-	content := string(dictContent)
-	keyPattern := regexp.MustCompile(`/([A-Za-z][A-Za-z0-9]*)`)
-	matches := keyPattern.FindAllStringSubmatch(content, -1)
-	for _, match := range matches {
-		if len(match) > 1 {
-			keys = append(keys, match[1])
-		}
-	}
-	if len(keys) > 0 {
-		return strings.Join(keys, ", ")
-	}
-	return "none found"
-}
-
-// findAndDecryptAcroForm finds and decrypts the AcroForm object, returning the decrypted content
-func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find the AcroForm object
-	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, objIndex, acroFormObjNum, "AcroForm", verbose)
-	if err != nil {
-		return nil, err
-	}
-
-	if verbose {
-		log.Printf("AcroForm object %d: objStart=%d, objEnd=%d, content length=%d", acroFormObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Decrypt if needed - only decrypt the encrypted portions between markers
-	var decryptedContent []byte
-	if encryptInfo != nil {
-		// Find object structure markers (these are NOT encrypted)
-		objKeywordPos := bytes.Index(objContent, []byte("obj"))
-
-		// Extract generation number from object header (if available)
-		genNum := 0
-		if objKeywordPos != -1 {
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if verbose {
-				log.Printf("Extracted generation number for AcroForm object %d: %d", acroFormObjNum, genNum)
-			}
-		} else {
-			// Object header not found - try to extract from objContent by searching for pattern
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if genNum == 0 {
-				if verbose {
-					log.Printf("AcroForm object header not found, using default generation number 0")
-				}
-				// Note: If decryption fails, we might need to try other generation numbers
-				// but that would be expensive. Most PDFs use generation 0.
-			} else if verbose {
-				log.Printf("Found generation number %d for AcroForm object %d (header not in expected location)", genNum, acroFormObjNum)
-			}
-		}
-
-		var dataStart int
-		if objKeywordPos == -1 {
-			// Object header not found - UniPDF approach: try decrypting from multiple starting points
-			// The xref offset might point to encrypted content, but alignment is unknown
-			// Try starting from the beginning of objContent and let decryptInChunks find alignment
-			// Also try starting from the xref offset position
-			relativeXrefOffset := objIndex - objStart
-			if relativeXrefOffset < 0 {
-				relativeXrefOffset = 0
-			}
-
-			// Try decrypting from start first (decryptInChunks will try alignments)
-			dataStart = 0
-			if verbose {
-				log.Printf("AcroForm object header not found, trying decryption from start of content (xref at relative offset %d)", relativeXrefOffset)
-			}
-		} else {
-			// Skip "obj" and whitespace to find where encrypted data starts
-			dataStart = objKeywordPos + 3
-			for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-				dataStart++
-			}
-		}
-
-		// Check if this is a stream object
-		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
-
-		if isStreamObject {
-			// Stream object: decrypt dictionary portion (between "obj" and "stream")
-			// The dictionary is encrypted, but "stream", stream data, "endstream", and "endobj" are not
-			if verbose {
-				log.Printf("AcroForm object is a stream object, decrypting dictionary portion only")
-			}
-
-			// Dictionary is encrypted from dataStart to streamKeywordPos
-			encryptedDict := objContent[dataStart:streamKeywordPos]
-
-			// Decrypt dictionary in chunks if needed (for alignment)
-			// Use extracted generation number
-			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
-			}
-		} else {
-			// Regular object: decrypt content between dataStart and "endobj"
-			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
-				// If endobj not found and no header, try decrypting a reasonable chunk
-				// UniPDF approach: decrypt and look for structure markers
-				if objKeywordPos == -1 {
-					// No header, no endobj - decrypt a chunk starting from xref offset
-					// UniPDF approach: the xref offset points to encrypted content
-					// Calculate where the xref offset is in objContent
-					relativeXrefOffset := objIndex - objStart
-					if relativeXrefOffset < 0 {
-						relativeXrefOffset = 0
-					}
-
-					// Try decrypting from the xref offset position
-					// decryptInChunks will try different alignments, but we should start from xref position
-					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
-					// Round down to multiple of 16 for AES
-					decryptLen = (decryptLen / 16) * 16
-					if decryptLen >= 16 {
-						encryptedContent := objContent[decryptStart : decryptStart+decryptLen]
-						if verbose {
-							log.Printf("Attempting to decrypt %d bytes starting from xref position (offset %d in content, absolute %d)",
-								decryptLen, decryptStart, objIndex)
-						}
-						decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-						if err == nil && len(decryptedData) > 0 {
-							// If decryptInChunks succeeded, use the decrypted content
-							// It will have found valid PDF structure (<< or PDF keywords)
-							decryptedContent = decryptedData
-							if verbose {
-								log.Printf("Successfully decrypted AcroForm (no header/endobj): %d bytes", len(decryptedContent))
-
-								// Output full structure for debugging
-								log.Printf("=== DECRYPTED ACROFORM STRUCTURE ===")
-								log.Printf("Content length: %d bytes", len(decryptedContent))
-
-								// Hex dump of first 2000 bytes
-								previewLen := min(2000, len(decryptedContent))
-								log.Printf("First %d bytes (hex dump):", previewLen)
-								for i := 0; i < previewLen; i += 16 {
-									end := min(i+16, previewLen)
-									hexPart := fmt.Sprintf("%04x: ", i)
-									for j := i; j < end; j++ {
-										hexPart += fmt.Sprintf("%02x ", decryptedContent[j])
-									}
-									log.Printf("%s", hexPart)
-								}
-
-								// ASCII dump
-								log.Printf("First %d bytes (ASCII, non-printable as .):", previewLen)
-								asciiLine := ""
-								for i := 0; i < previewLen; i++ {
-									if i > 0 && i%80 == 0 {
-										log.Printf("%s", asciiLine)
-										asciiLine = ""
-									}
-									b := decryptedContent[i]
-									if b >= 32 && b < 127 {
-										asciiLine += string(b)
-									} else {
-										asciiLine += "."
-									}
-								}
-								if asciiLine != "" {
-									log.Printf("%s", asciiLine)
-								}
-
-								// Check for PDF markers
-								if bytes.Contains(decryptedContent, []byte("<<")) {
-									dictStart := bytes.Index(decryptedContent, []byte("<<"))
-									log.Printf("Found '<<' at offset %d", dictStart)
-									// Show context around dictionary start
-									ctxStart := max(0, dictStart-50)
-									ctxEnd := min(len(decryptedContent), dictStart+200)
-									log.Printf("Context around '<<' (offset %d-%d): %q", ctxStart, ctxEnd, string(decryptedContent[ctxStart:ctxEnd]))
-								}
-								if bytes.Contains(decryptedContent, []byte("/XFA")) {
-									xfaPos := bytes.Index(decryptedContent, []byte("/XFA"))
-									log.Printf("Found '/XFA' at offset %d", xfaPos)
-								} else {
-									log.Printf("'/XFA' NOT found in decrypted content")
-									// Check for XFA with different case/spacing
-									if bytes.Contains(decryptedContent, []byte("XFA")) || bytes.Contains(decryptedContent, []byte("xfa")) {
-										log.Printf("Found 'XFA' (case-insensitive) in decrypted content")
-									}
-								}
-								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
-							}
-						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
-							}
-							decryptedContent = objContent
-						}
-					} else {
-						decryptedContent = objContent
-					}
-				} else {
-					// Has header but no endobj - decrypt up to end
-					endobjPos = len(objContent)
-					encryptedContent := objContent[dataStart:endobjPos]
-					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-					}
-				}
-			} else {
-				// Has endobj - decrypt normally
-				encryptedContent := objContent[dataStart:endobjPos]
-				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
-				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
-						}
-					}
-				}
-			}
-		}
-	} else {
-		decryptedContent = objContent
-	}
-
-	return decryptedContent, nil
-}
-
 // decryptInChunks decrypts data in chunks, trying different alignments to find the correct decryption
 // This handles cases where encrypted data might not start exactly at a 16-byte boundary
 func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -529,278 +121,6 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 	return decrypted, nil
 }
 
-// findXFAArrayContent extracts the XFA array content string from decrypted AcroForm content
-func findXFAArrayContent(decryptedContent []byte, verbose bool) (string, error) {
-	// UniPDF approach: the decrypted content might have padding or extra data
-	// Find where the actual PDF dictionary starts (look for "<<")
-	dictStart := bytes.Index(decryptedContent, []byte("<<"))
-	var xfaPos int = -1
-
-	if dictStart != -1 {
-		// Found dictionary start - find matching >> with proper nesting
-		// Must balance << and >> pairs for nested dictionaries
-		dictEnd := -1
-		depth := 0
-		for i := dictStart; i < len(decryptedContent)-1; i++ {
-			if decryptedContent[i] == '<' && decryptedContent[i+1] == '<' {
-				depth++
-				i++ // Skip second '<'
-			} else if decryptedContent[i] == '>' && decryptedContent[i+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd = i
-					break
-				}
-				i++ // Skip second '>'
-			}
-		}
-		if dictEnd != -1 {
-			dictContent := decryptedContent[dictStart : dictEnd+2]
-			if verbose {
-				log.Printf("Found dictionary start at offset %d, end at %d (length: %d bytes)", dictStart, dictEnd, len(dictContent))
-				// Show the actual dictionary content to verify it's valid
-				previewLen := min(200, len(dictContent))
-				log.Printf("Dictionary content preview: %q", dictContent[:previewLen])
-			}
-
-			// Search for /XFA within the dictionary
-			xfaPos = bytes.Index(dictContent, []byte("/XFA"))
-			if xfaPos != -1 {
-				xfaPos += dictStart // Adjust to absolute position
-			} else {
-				// Try case variations
-				xfaPos = bytes.Index(dictContent, []byte("/xfa"))
-				if xfaPos != -1 {
-					xfaPos += dictStart
-				}
-			}
-
-			if xfaPos != -1 {
-				if verbose {
-					log.Printf("Found /XFA at offset %d within dictionary", xfaPos)
-				}
-			} else if verbose {
-				// Dictionary found but no /XFA - show what's in the dictionary
-				log.Printf("Dictionary found but /XFA not found. Dictionary keys: %q", extractDictionaryKeys(dictContent))
-			}
-		} else if verbose {
-			log.Printf("Found '<<' at offset %d but no matching '>>' found - might be false positive", dictStart)
-		}
-	}
-
-	// If not found from dictionary, try searching entire content
-	if xfaPos == -1 {
-		xfaPos = bytes.Index(decryptedContent, []byte("/XFA"))
-	}
-	if xfaPos == -1 {
-		// Try case variations
-		xfaPos = bytes.Index(decryptedContent, []byte("/xfa"))
-	}
-	if xfaPos == -1 {
-		// Try with spaces
-		xfaPos = bytes.Index(decryptedContent, []byte("/ XFA"))
-	}
-	if xfaPos == -1 {
-		// Try searching byte by byte
-		for i := 0; i < len(decryptedContent)-3; i++ {
-			if decryptedContent[i] == '/' &&
-				(decryptedContent[i+1] == 'X' || decryptedContent[i+1] == 'x') &&
-				(decryptedContent[i+2] == 'F' || decryptedContent[i+2] == 'f') &&
-				(decryptedContent[i+3] == 'A' || decryptedContent[i+3] == 'a') {
-				xfaPos = i
-				break
-			}
-		}
-	}
-
-	if xfaPos == -1 {
-		if verbose {
-			log.Printf("XFA not found in decrypted content (length: %d bytes)", len(decryptedContent))
-			// Show content around dictionary start if found
-			if dictStart != -1 {
-				previewStart := max(0, dictStart-50)
-				previewEnd := min(len(decryptedContent), dictStart+500)
-				log.Printf("Content around dictionary start (offset %d): %q", dictStart, decryptedContent[previewStart:previewEnd])
-			} else {
-				log.Printf("Decrypted content preview (first 500 bytes): %q", decryptedContent[:min(500, len(decryptedContent))])
-			}
-		}
-		return "", fmt.Errorf("XFA entry not found in AcroForm")
-	}
-
-	// Find array after /XFA
-	arrayStart := bytes.Index(decryptedContent[xfaPos:], []byte("["))
-	if arrayStart == -1 {
-		return "", fmt.Errorf("XFA array start not found after /XFA")
-	}
-	arrayStartIdx := xfaPos + arrayStart + 1 // Position after '['
-
-	// Find matching ']' for the array
-	// Start at depth 1 because we've already passed the opening '['
-	depth := 1
-	arrayEndIdx := arrayStartIdx
-	for i := arrayStartIdx; i < len(decryptedContent) && i < arrayStartIdx+10000; i++ {
-		if decryptedContent[i] == '[' {
-			depth++
-		} else if decryptedContent[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEndIdx = i + 1
-				break
-			}
-		}
-	}
-
-	if arrayEndIdx == arrayStartIdx {
-		return "", fmt.Errorf("could not find end of XFA array")
-	}
-
-	return string(decryptedContent[arrayStartIdx:arrayEndIdx]), nil
-}
-
-// extractGenerationNumber extracts the generation number from an object header
-// Object format: "objNum genNum obj"
-// Returns the generation number, or 0 if not found (most objects are generation 0)
-func extractGenerationNumber(objContent []byte, objNum int) int {
-	// Find object header pattern: "objNum genNum obj"
-	// Try multiple patterns to handle different whitespace
-	patterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // Standard: "123 0 obj"
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // With tabs
-		regexp.MustCompile(fmt.Sprintf(`%d\s*(\d+)\s*obj`, objNum)), // Flexible whitespace
-	}
-
-	for _, pattern := range patterns {
-		match := pattern.FindSubmatch(objContent)
-		if match != nil && len(match) > 1 {
-			genNum, err := strconv.Atoi(string(match[1]))
-			if err == nil {
-				return genNum
-			}
-		}
-	}
-
-	// Also try searching in a larger window if objContent is large
-	// Sometimes the header might be further in if there's padding
-	if len(objContent) > 1000 {
-		// Search first 500 bytes more carefully
-		searchArea := objContent[:min(500, len(objContent))]
-		for _, pattern := range patterns {
-			match := pattern.FindSubmatch(searchArea)
-			if match != nil && len(match) > 1 {
-				genNum, err := strconv.Atoi(string(match[1]))
-				if err == nil {
-					return genNum
-				}
-			}
-		}
-	}
-
-	// Default to 0 if not found (most PDF objects are generation 0)
-	return 0
-}
-
-// This follows the same approach as findAndDecryptAcroForm: parse structure first, then decrypt only encrypted portions
-func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
-	// Find the stream object using incremental parser (finds non-encrypted markers)
-	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, streamObjIndex, streamObjNum, "stream", verbose)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	if verbose {
-		log.Printf("Stream object %d: objStart=%d, objEnd=%d, content length=%d", streamObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Find structure markers (these are NOT encrypted)
-	objKeywordPosInContent := bytes.Index(objContent, []byte("obj"))
-	if objKeywordPosInContent == -1 {
-		return nil, 0, fmt.Errorf("'obj' keyword not found in stream object %d", streamObjNum)
-	}
-
-	// Extract generation number from object header (CRITICAL for correct key derivation)
-	genNum := extractGenerationNumber(objContent, streamObjNum)
-	if verbose {
-		log.Printf("Extracted generation number for object %d: %d", streamObjNum, genNum)
-	}
-
-	// Skip "obj" and whitespace to find where encrypted data starts
-	dataStart := objKeywordPosInContent + 3
-	for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-		dataStart++
-	}
-
-	// Find "stream" keyword (not encrypted)
-	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
-	}
-
-	// Get /Length from dictionary (between dataStart and streamKeywordPos)
-	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-
-	var streamLength int
-	if lengthMatch != nil {
-		streamLength, _ = strconv.Atoi(lengthMatch[1])
-	}
-
-	// Extract stream data
-	// Skip "stream" keyword (6 bytes) and EOL
-	streamDataStart := streamKeywordPos + 6
-
-	// Skip exactly one EOL marker per PDF spec
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Use /Length if available, otherwise find endstream
-	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
-		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
-	} else {
-		// Fallback: find endstream
-		endstreamPos := bytes.Index(objContent[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
-		}
-		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
-	}
-
-	streamDataEnd := streamDataStart + len(streamContent)
-
-	if verbose {
-		log.Printf("Stream object %d: dictionary encrypted from %d to %d, stream data from %d to %d",
-			streamObjNum, dataStart, streamKeywordPos, streamDataStart, streamDataEnd)
-	}
-
-	// Decrypt stream data if needed (dictionary decryption not needed for extraction, only for reading)
-	if encryptInfo != nil {
-		// Decrypt the stream data itself (not the dictionary)
-		// Use the extracted generation number instead of hardcoded 0
-		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
-		}
-		streamContent = decryptedStream
-		if verbose {
-			log.Printf("Decrypted stream data: %d bytes -> %d bytes", len(objContent[streamDataStart:streamDataEnd]), len(streamContent))
-		}
-	}
-
-	return streamContent, streamObjNum, nil
-}
-
 // DecompressStream attempts to decompress a stream (handles FlateDecode)
 // FlateDecode can be either raw deflate or zlib-wrapped
 func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
@@ -853,70 +173,26 @@ func CompressStream(data []byte) ([]byte, error) {
 
 // ReplaceStreamInPDF replaces a stream in the PDF and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
-	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
-	if streamObjMatch == nil {
-		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-	}
-
-	// Find stream dictionary (before "stream" keyword)
-	streamKeywordPos := bytes.Index(pdfBytes[streamObjMatch[0]:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	dictStart := streamObjMatch[0]
-	dictEnd := streamObjMatch[0] + streamKeywordPos
-
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("Length entry not found in stream dictionary")
-	}
-
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
+	dict, oldStream, err := document.StreamData(pdf, streamObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("stream object %d not found: %w", streamObjNum, err)
 	}
 
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
-
-	result := append(beforeLength, []byte(newLength)...)
-	result = append(result, betweenLengthAndStream...)
-	result = append(result, newStream...)
-	result = append(result, afterStream...)
+	// Replace length and data
+	value := append([]byte(nil), syntax.SetKey(dict, "Length", []byte(strconv.Itoa(len(newStream))))...)
+	value = append(value, "\nstream\n"...)
+	value = append(value, newStream...)
+	value = append(value, "\nendstream"...)
 
 	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+		log.Printf("Replaced stream %d: old length %d, new length %d", streamObjNum, len(oldStream), len(newStream))
 	}
 
-	return result, nil
+	manipulator := manipulate.NewFromPDF(pdf, verbose)
+	manipulator.SetObject(streamObjNum, value)
+	return manipulator.Rebuild()
 }
diff --git a/internal/document/xfa.go b/internal/document/xfa.go
new file mode 100644
index 0000000..e521633
--- /dev/null
+++ b/internal/document/xfa.go
@@ -0,0 +1,44 @@
+package document
+
+import (
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
+)
+
+// XFAPacket is a packet of an XFA form: a part of its XML, stored as a stream
+type XFAPacket struct {
+	Name   string
+	ObjNum int // Object number of the stream
+}
+
+// XFAPackets lists the packets of the document's XFA form in their order
+func XFAPackets(pdf *parse.PDF) ([]XFAPacket, error) {
+	form := Lookup(pdf, Catalog(pdf), "AcroForm")
+	if AsDict(form) == nil {
+		return nil, fmt.Errorf("AcroForm not found")
+	}
+	xfa := Lookup(pdf, form, "XFA")
+	if len(xfa) == 0 {
+		return nil, fmt.Errorf("XFA entry not found in AcroForm")
+	}
+	elements := syntax.ArrayElements(xfa)
+
+	var packets []XFAPacket
+	for i := 0; i+1 < len(elements); i += 2 {
+		name := Resolve(pdf, elements[i])
+		objNum, ok := syntax.Reference(elements[i+1])
+		if !ok || !syntax.IsString(name) {
+			continue
+		}
+		packets = append(packets, XFAPacket{
+			Name:   DecodeText(syntax.DecodeString(name)),
+			ObjNum: objNum,
+		})
+	}
+	if len(packets) == 0 {
+		return nil, fmt.Errorf("no stream references found in XFA array")
+	}
+	return packets, nil
+}
-- 
2.43.0


From c70d8fa14c54654d0cf864a797dd7e338f943fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 53/93] fix: give PDFs built from XFA streams a page tree and
 escape stream names

The catalog had no /Pages, so readers rejected the document, and a stream name
with parentheses broke the XFA array.
---
 core/write/xfa_builder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c850959..f560f6e 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -55,7 +55,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("%s %d 0 R", document.EncodeText(stream.Name), objNum))
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
@@ -67,8 +67,13 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		strings.Join(xfaArrayParts, " "))
 	b.acroFormNum = b.writer.AddObject([]byte(acroFormContent))
 
+	// A document has at least one page, even if the XFA form lays out its own
+	pagesNum := b.writer.NextObjectNumber() + 1
+	pageNum := b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Page/Parent %d 0 R/MediaBox[0 0 612 792]/Resources<<>>>>", pagesNum)))
+	b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Pages/Kids[%d 0 R]/Count 1>>", pageNum)))
+
 	// Create catalog (root) with AcroForm reference
-	catalogContent := fmt.Sprintf("<</Type/Catalog/AcroForm %d 0 R>>", b.acroFormNum)
+	catalogContent := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>", pagesNum, b.acroFormNum)
 	b.catalogNum = b.writer.AddObject([]byte(catalogContent))
 
 	// Set root
-- 
2.43.0


From 1ab7432c2a73e4be084d38e7438097bd8d689bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 54/93] fix: keep signature and sourceSet streams when building
 a PDF from XFA streams

---
 forms/xfa/xfa.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 9b982bf..7c08a05 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -229,6 +229,20 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 			Compress: true,
 		})
 	}
+	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "signature",
+			Data:     streams.Signature.Data,
+			Compress: true,
+		})
+	}
+	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "sourceSet",
+			Data:     streams.SourceSet.Data,
+			Compress: true,
+		})
+	}
 
 	builder := write.NewXFABuilder(verbose)
 	return builder.BuildFromXFA(xfaStreams)
-- 
2.43.0


From 39b96fcf18a3cc37b83b40c2f67a7dd0780a12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 55/93] fix: update XFA field values in the XML structure, with
 escaping

Values were pasted into the XML unescaped, numbers in exponent notation, and
fields were found only by one spelling of the start tag and any part of the
document, so that the update could corrupt the form data.
---
 forms/xfa/xfa.go | 193 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 134 insertions(+), 59 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 7c08a05..c1d2595 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,7 +1,9 @@
 package xfa
 
 import (
+	"encoding/xml"
 	"fmt"
+	"io"
 	"log"
 	"strings"
 
@@ -277,82 +279,155 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	return updatedPDF, nil
 }
 
-// UpdateXFAValues updates field values in XFA XML
+// UpdateXFAValues updates field values in the data section of XFA XML
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
-	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
-	return result, nil
+	return updateFieldValues(xfaXML, formData, true, verbose)
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
+	return updateFieldValues(xfaXML, formData, false, verbose)
+}
 
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
-		fieldIndex := strings.Index(resultXML, fieldPattern)
+// fieldElement is a field element of XFA XML, with offsets into the XML
+type fieldElement struct {
+	name               string
+	inData             bool
+	tagEnd             int // End of the start tag
+	end                int // Start of the end tag, or tagEnd of an empty-element tag
+	valueStart         int // Content of the last value element; valueStart is 0 if there is none
+	valueEnd           int
+	selfClosing        bool
+	valueIsSelfClosing bool
+}
 
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
-			}
+// updateFieldValues sets the values of the first field of each name. Everything
+// else of the XML is kept as it is.
+func updateFieldValues(xfaXML string, formData types.FormData, dataOnly bool, verbose bool) (string, error) {
+	fields, hasData := findFieldElements(xfaXML)
+
+	var result strings.Builder
+	pos := 0
+	updated := make(map[string]bool)
+	for _, field := range fields {
+		newValue, ok := formData[field.name]
+		if !ok || updated[field.name] || dataOnly && hasData && !field.inData {
 			continue
 		}
+		updated[field.name] = true
 
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+		var valueBuf strings.Builder
+		if err := xml.EscapeText(&valueBuf, []byte(formatFieldValue(newValue))); err != nil {
+			return "", err
 		}
+		valueStr := valueBuf.String()
 
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
-
-		valueStr := fmt.Sprintf("%v", newValue)
-
-		if valueStart != -1 && valueEnd != -1 {
+		switch {
+		case field.valueStart > 0 && field.valueIsSelfClosing:
+			pos = copyOpened(&result, xfaXML, pos, field.valueStart, valueStr)
+		case field.valueStart > 0:
 			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
+			result.WriteString(xfaXML[pos:field.valueStart])
+			result.WriteString(valueStr)
+			pos = field.valueEnd
+		case field.selfClosing:
+			pos = copyOpened(&result, xfaXML, pos, field.tagEnd, "<value>"+valueStr+"</value>")
+		default:
+			// Insert new value element before the end tag
+			result.WriteString(xfaXML[pos:field.end])
+			result.WriteString("<value>" + valueStr + "</value>")
+			pos = field.end
 		}
 
 		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
+			log.Printf("Updated field '%s' = '%s'", field.name, valueStr)
 		}
 	}
+	result.WriteString(xfaXML[pos:])
 
-	return resultXML, nil
+	if verbose {
+		for fieldName := range formData {
+			if !updated[fieldName] {
+				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
+			}
+		}
+	}
+	return result.String(), nil
+}
+
+// copyOpened copies xfaXML from pos to tagEnd, the end of an empty-element tag,
+// which gets content. It returns tagEnd.
+func copyOpened(result *strings.Builder, xfaXML string, pos, tagEnd int, content string) int {
+	start := strings.LastIndexByte(xfaXML[:tagEnd], '<') // Not part of an attribute value in XML
+	name := xfaXML[start+1 : tagEnd]
+	name = name[:strings.IndexAny(name, " \t\r\n/>")]
+
+	result.WriteString(strings.TrimSuffix(xfaXML[pos:tagEnd], "/>"))
+	result.WriteString(">" + content + "</" + name + ">")
+	return tagEnd
+}
+
+// findFieldElements finds the field elements of XFA XML in document order.
+// hasData tells whether there is a data element.
+func findFieldElements(xfaXML string) (fields []*fieldElement, hasData bool) {
+	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
+	decoder.Strict = false
+	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+		return input, nil // Only the offsets matter
+	}
+
+	var stack []string
+	var field *fieldElement
+	var fieldDepth, dataDepth int
+	for {
+		start := int(decoder.InputOffset())
+		token, err := decoder.RawToken()
+		if err != nil {
+			break
+		}
+		end := int(decoder.InputOffset())
+
+		switch se := token.(type) {
+		case xml.StartElement:
+			stack = append(stack, se.Name.Local)
+			switch se.Name.Local {
+			case "data":
+				hasData = true
+				if dataDepth == 0 {
+					dataDepth = len(stack)
+				}
+			case "field":
+				field = &fieldElement{inData: dataDepth > 0, tagEnd: end}
+				fieldDepth = len(stack)
+				for _, attr := range se.Attr {
+					if attr.Name.Local == "name" {
+						field.name = attr.Value
+					}
+				}
+			case "value":
+				if field != nil && len(stack) == fieldDepth+1 {
+					field.valueStart = end
+				}
+			}
+
+		case xml.EndElement:
+			if len(stack) == 0 {
+				continue
+			}
+			selfClosing := start == end
+			switch {
+			case field != nil && len(stack) == fieldDepth:
+				field.end, field.selfClosing = start, selfClosing
+				fields = append(fields, field)
+				field = nil
+			case field != nil && len(stack) == fieldDepth+1 && stack[len(stack)-1] == "value":
+				field.valueEnd, field.valueIsSelfClosing = start, selfClosing
+			}
+			if len(stack) == dataDepth {
+				dataDepth = 0
+			}
+			stack = stack[:len(stack)-1]
+		}
+	}
+	return fields, hasData
 }
-- 
2.43.0


From 454bf3262d0ebbc4b5d0f3700d9d3f4c9580ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 56/93] fix: read nested groups and plain data elements of XFA
 datasets

A group that followed a nested one was lost, as were the values of elements
named after their field, which is how XFA forms store data; and fields were
written in a random order.
---
 forms/xfa/xfa.go                     |  17 +++-
 forms/xfa/xfa_datasets_translator.go | 116 ++++++++++++++++-----------
 2 files changed, 82 insertions(+), 51 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index c1d2595..c8d8fd3 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -289,7 +289,8 @@ func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool)
 	return updateFieldValues(xfaXML, formData, false, verbose)
 }
 
-// fieldElement is a field element of XFA XML, with offsets into the XML
+// fieldElement is a field element of XFA XML, or a data element that holds the
+// value of the field it is named after, with offsets into the XML
 type fieldElement struct {
 	name               string
 	inData             bool
@@ -367,8 +368,8 @@ func copyOpened(result *strings.Builder, xfaXML string, pos, tagEnd int, content
 	return tagEnd
 }
 
-// findFieldElements finds the field elements of XFA XML in document order.
-// hasData tells whether there is a data element.
+// findFieldElements finds the field elements of XFA XML, and the elements in its
+// data that only hold a value, in document order. hasData tells whether there is a data element.
 func findFieldElements(xfaXML string) (fields []*fieldElement, hasData bool) {
 	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
 	decoder.Strict = false
@@ -377,7 +378,7 @@ func findFieldElements(xfaXML string) (fields []*fieldElement, hasData bool) {
 	}
 
 	var stack []string
-	var field *fieldElement
+	var field, leaf *fieldElement
 	var fieldDepth, dataDepth int
 	for {
 		start := int(decoder.InputOffset())
@@ -390,6 +391,10 @@ func findFieldElements(xfaXML string) (fields []*fieldElement, hasData bool) {
 		switch se := token.(type) {
 		case xml.StartElement:
 			stack = append(stack, se.Name.Local)
+			leaf = nil
+			if dataDepth > 0 && field == nil && !isStandardXFAElement(se.Name.Local) {
+				leaf = &fieldElement{name: se.Name.Local, inData: true, valueStart: end}
+			}
 			switch se.Name.Local {
 			case "data":
 				hasData = true
@@ -416,6 +421,10 @@ func findFieldElements(xfaXML string) (fields []*fieldElement, hasData bool) {
 			}
 			selfClosing := start == end
 			switch {
+			case leaf != nil:
+				leaf.valueEnd, leaf.valueIsSelfClosing = start, selfClosing
+				fields = append(fields, leaf)
+				leaf = nil
 			case field != nil && len(stack) == fieldDepth:
 				field.end, field.selfClosing = start, selfClosing
 				fields = append(fields, field)
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..4c4876a 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -25,14 +26,31 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	decoder := xml.NewDecoder(strings.NewReader(xfaDatasetsXML))
 	decoder.Strict = false
 
-	var currentGroup *types.XFAFieldGroup
+	// Groups that are open, below the top level
+	type openGroup struct {
+		types.XFAFieldGroup
+		isLeaf bool
+		text   strings.Builder
+	}
+	var groupStack []*openGroup
 	var currentFieldName string
 	var currentFieldValue strings.Builder
-	var inData bool
+	var dataDepth int
 	var inField bool
 	var inValue bool
-	var inGroup bool
-	var groupStack []*types.XFAFieldGroup
+
+	setField := func(name, value string) {
+		// Try to parse as number or boolean
+		parsedValue := parseFieldValue(strings.TrimSpace(value))
+		if len(groupStack) > 0 {
+			groupStack[len(groupStack)-1].Fields[name] = parsedValue
+		} else {
+			datasets.Fields[name] = parsedValue
+		}
+		if verbose {
+			log.Printf("Parsed field: %s = %v", name, parsedValue)
+		}
+	}
 
 	for {
 		token, err := decoder.Token()
@@ -49,10 +67,13 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 		switch se := token.(type) {
 		case xml.StartElement:
 			localName := se.Name.Local
+			if len(groupStack) > 0 {
+				groupStack[len(groupStack)-1].isLeaf = false
+			}
 
 			switch localName {
 			case "data":
-				inData = true
+				dataDepth++
 			case "field":
 				inField = true
 				currentFieldValue.Reset()
@@ -68,18 +89,15 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				}
 			default:
 				// Treat unknown elements as groups if they're not standard XFA elements
-				if inData && !isStandardXFAElement(localName) {
-					inGroup = true
-					group := &types.XFAFieldGroup{
-						Name:   localName,
-						Fields: make(map[string]interface{}),
-						Groups: make([]types.XFAFieldGroup, 0),
-					}
-					if currentGroup != nil {
-						// Nested group
-						groupStack = append(groupStack, currentGroup)
-					}
-					currentGroup = group
+				if dataDepth > 0 && !inField && !isStandardXFAElement(localName) {
+					groupStack = append(groupStack, &openGroup{
+						XFAFieldGroup: types.XFAFieldGroup{
+							Name:   localName,
+							Fields: make(map[string]interface{}),
+							Groups: make([]types.XFAFieldGroup, 0),
+						},
+						isLeaf: true,
+					})
 				}
 			}
 
@@ -88,21 +106,10 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 
 			switch localName {
 			case "data":
-				inData = false
+				dataDepth--
 			case "field":
 				if currentFieldName != "" {
-					value := strings.TrimSpace(currentFieldValue.String())
-					// Try to parse as number or boolean
-					parsedValue := parseFieldValue(value)
-
-					if currentGroup != nil {
-						currentGroup.Fields[currentFieldName] = parsedValue
-					} else {
-						datasets.Fields[currentFieldName] = parsedValue
-					}
-					if verbose {
-						log.Printf("Parsed field: %s = %v", currentFieldName, parsedValue)
-					}
+					setField(currentFieldName, currentFieldValue.String())
 				}
 				inField = false
 				currentFieldName = ""
@@ -111,25 +118,30 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inValue = false
 			default:
 				// End of group
-				if inGroup && currentGroup != nil && localName == currentGroup.Name {
-					if len(groupStack) > 0 {
-						// Add to parent group
-						parent := groupStack[len(groupStack)-1]
-						parent.Groups = append(parent.Groups, *currentGroup)
-						groupStack = groupStack[:len(groupStack)-1]
-						currentGroup = parent
-					} else {
-						// Top-level group
-						datasets.Groups = append(datasets.Groups, *currentGroup)
-						currentGroup = nil
-					}
-					inGroup = false
+				last := len(groupStack) - 1
+				if last < 0 || inField || localName != groupStack[last].Name {
+					break
+				}
+				group := groupStack[last]
+				groupStack = groupStack[:last]
+				if group.isLeaf && strings.TrimSpace(group.text.String()) != "" {
+					// An element that holds the value of the field it is named after
+					setField(group.Name, group.text.String())
+				} else if last > 0 {
+					// Add to parent group
+					parent := groupStack[last-1]
+					parent.Groups = append(parent.Groups, group.XFAFieldGroup)
+				} else {
+					// Top-level group
+					datasets.Groups = append(datasets.Groups, group.XFAFieldGroup)
 				}
 			}
 
 		case xml.CharData:
 			if inValue && inField {
 				currentFieldValue.WriteString(string(se))
+			} else if len(groupStack) > 0 {
+				groupStack[len(groupStack)-1].text.Write(se)
 			}
 		}
 	}
@@ -186,8 +198,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedKeys(datasets.Fields) {
+		if err := encodeField(enc, name, datasets.Fields[name]); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
 	}
@@ -216,6 +228,16 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	return result, nil
 }
 
+// sortedKeys returns the names of fields in a stable order
+func sortedKeys(fields map[string]interface{}) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // encodeField encodes a field as XFA XML
 func encodeField(enc *xml.Encoder, name string, value interface{}) error {
 	fieldStart := xml.StartElement{
@@ -259,8 +281,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedKeys(group.Fields) {
+		if err := encodeField(enc, name, group.Fields[name]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 66f4027a283263a2a7452739b145c14f9c26754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 57/93] fix: keep the text of XFA field values that only
 resemble numbers

Values such as 007, 1.50 or 1e5 were written back as other text, 1 and 0 as
true and false, and Inf as a number that JSON cannot hold.
---
 forms/xfa/xfa_datasets_translator.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 4c4876a..2d20c81 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,20 +161,21 @@ func parseFieldValue(value string) interface{} {
 	}
 
 	// Try boolean
-	if value == "true" || value == "1" {
+	if value == "true" {
 		return true
 	}
-	if value == "false" || value == "0" {
+	if value == "false" {
 		return false
 	}
 
-	// Try integer
-	if intVal, err := strconv.Atoi(value); err == nil {
+	// Try integer. Digits written in another way, such as "007", are not a number
+	// but text, which must not change when the value is written again
+	if intVal, err := strconv.Atoi(value); err == nil && formatFieldValue(intVal) == value {
 		return intVal
 	}
 
 	// Try float
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil && !math.IsNaN(floatVal) && !math.IsInf(floatVal, 0) && formatFieldValue(floatVal) == value {
 		return floatVal
 	}
 
-- 
2.43.0


From fc517d72abeaaa2c45d615e6843231eff1935cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 58/93] fix: read nested subforms, options, scripts and
 patterns of XFA templates

Fields before a nested subform were lost, the texts of options, scripts and
patterns were never collected, captions were taken for default values, choice
lists became text questions, and two questions could have the same ID.
---
 forms/xfa/xfa_form_translator.go | 265 ++++++++++++++++---------------
 1 file changed, 140 insertions(+), 125 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..a09464a 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -45,8 +45,13 @@ func ParseXFAForm(xfaXML string, verbose bool) (*types.FormSchema, error) {
 	}
 
 	// Convert fields to questions
+	usedIDs := make(map[string]bool)
 	for i, field := range xfaData.Fields {
 		question := convertXFAFieldToQuestion(field, i+1, verbose)
+		for usedIDs[question.ID] {
+			question.ID = fmt.Sprintf("%s_%d", question.ID, i+1)
+		}
+		usedIDs[question.ID] = true
 		formSchema.Questions = append(formSchema.Questions, question)
 	}
 
@@ -477,18 +482,18 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
 	decoder.Strict = false // Allow malformed XML
 
+	// Elements that are open, with where their text begins
+	type openElement struct {
+		name      string
+		textStart int
+	}
+	var stack []openElement
+	var text []byte  // Character data of the current field so far
+	var unvalued int // Number of open elements whose value is not the field's
 	var currentField *XFAFieldData
-	var currentSubform *XFASubformData
-	var currentValue strings.Builder
-	var currentLabel strings.Builder
-	var currentDescription strings.Builder
-	var inField bool
-	var inSubform bool
-	var inValue bool
-	var inLabel bool
-	var inDescription bool
-	var inItems bool // For choice options
-	var fieldIndex int
+	var subforms []*XFASubformData // Subforms that are open
+	var itemLists []xfaItemList
+	var caption string
 
 	for {
 		token, err := decoder.Token()
@@ -518,24 +523,24 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 			case "subform":
-				inSubform = true
-				currentSubform = &XFASubformData{
+				subform := &XFASubformData{
 					Fields: make([]XFAFieldData, 0),
 				}
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" {
-						currentSubform.Name = attr.Value
+						subform.Name = attr.Value
 					}
 				}
+				subforms = append(subforms, subform)
 			case "field":
-				inField = true
-				fieldIndex++
 				currentField = &XFAFieldData{
 					Properties: make(map[string]interface{}),
 					Options:    make([]XFAOption, 0),
 					Events:     make([]XFAEvent, 0),
 					PageNumber: 1, // Default
 				}
+				itemLists = nil
+				caption = ""
 
 				// Extract field attributes
 				for _, attr := range se.Attr {
@@ -553,6 +558,10 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						} else if attr.Value == "hidden" {
 							currentField.Hidden = true
 						}
+					case "presence":
+						if attr.Value == "hidden" || attr.Value == "invisible" || attr.Value == "inactive" {
+							currentField.Hidden = true
+						}
 					case "h", "w", "x", "y":
 						// Store layout properties
 						if val, err := parseFloat(attr.Value); err == nil {
@@ -566,32 +575,18 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						}
 					}
 				}
-			case "value":
-				if inField {
-					inValue = true
-					currentValue.Reset()
-				}
-			case "label":
-				if inField {
-					inLabel = true
-					currentLabel.Reset()
-				}
-			case "desc", "description":
-				if inField {
-					inDescription = true
-					currentDescription.Reset()
-				}
 			case "items":
-				if inField {
-					inItems = true
-				}
-			case "text":
-				// Option text in items
-				if inItems && inField {
-					currentValue.Reset()
+				if currentField != nil {
+					list := xfaItemList{}
+					for _, attr := range se.Attr {
+						if attr.Name.Local == "save" {
+							list.save = parseBool(attr.Value)
+						}
+					}
+					itemLists = append(itemLists, list)
 				}
 			case "event":
-				if inField {
+				if currentField != nil {
 					event := XFAEvent{}
 					for _, attr := range se.Attr {
 						switch attr.Name.Local {
@@ -603,13 +598,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 					currentField.Events = append(currentField.Events, event)
 				}
-			case "script":
-				if inField && len(currentField.Events) > 0 {
-					// Script content will be in CharData
-					currentValue.Reset()
-				}
 			case "validate":
-				if inField {
+				if currentField != nil {
 					if currentField.Validation == nil {
 						currentField.Validation = &XFAValidation{}
 					}
@@ -622,12 +612,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						}
 					}
 				}
-			case "pattern":
-				if inField && currentField.Validation != nil {
-					currentValue.Reset()
-				}
 			case "bind":
-				if inField {
+				if currentField != nil {
 					for _, attr := range se.Attr {
 						switch attr.Name.Local {
 						case "match":
@@ -638,99 +624,100 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						}
 					}
 				}
+			default:
+				// The user interface element tells the type if there is no type attribute
+				if currentField != nil && currentField.Type == "" && len(stack) > 0 && stack[len(stack)-1].name == "ui" {
+					currentField.Type = localName
+					if localName == "textEdit" {
+						currentField.Type = "text"
+						for _, attr := range se.Attr {
+							if attr.Name.Local == "multiLine" && parseBool(attr.Value) {
+								currentField.Type = "textEdit"
+							}
+						}
+					}
+				}
+			}
+			if localName == "caption" || localName == "items" {
+				unvalued++
 			}
+			stack = append(stack, openElement{localName, len(text)})
 
 		case xml.EndElement:
-			localName := se.Name.Local
+			if len(stack) == 0 {
+				break
+			}
+			element := stack[len(stack)-1]
+			stack = stack[:len(stack)-1]
+			parent := ""
+			if len(stack) > 0 {
+				parent = stack[len(stack)-1].name
+			}
+			if element.name == "caption" || element.name == "items" {
+				unvalued--
+			}
 
-			switch localName {
-			case "field":
-				if currentField != nil {
-					// Finalize field
-					if currentValue.Len() > 0 {
-						currentField.Value = strings.TrimSpace(currentValue.String())
-						if currentField.Default == "" {
-							currentField.Default = currentField.Value
-						}
-					}
-					if currentLabel.Len() > 0 {
-						currentField.Label = strings.TrimSpace(currentLabel.String())
-					}
-					if currentDescription.Len() > 0 {
-						currentField.Description = strings.TrimSpace(currentDescription.String())
-					}
+			if element.name == "subform" && len(subforms) > 0 {
+				structure.Subforms = append(structure.Subforms, *subforms[len(subforms)-1])
+				subforms = subforms[:len(subforms)-1]
+			}
+			if currentField == nil {
+				break
+			}
 
-					if inSubform && currentSubform != nil {
-						currentSubform.Fields = append(currentSubform.Fields, *currentField)
-					} else {
-						structure.Fields = append(structure.Fields, *currentField)
-					}
+			content := func() string {
+				return strings.TrimSpace(string(text[element.textStart:]))
+			}
+			switch element.name {
+			case "field":
+				currentField.Options = append(currentField.Options, xfaOptions(itemLists)...)
+				if currentField.Label == "" {
+					currentField.Label = caption
 				}
-				inField = false
-				currentField = nil
-				currentValue.Reset()
-				currentLabel.Reset()
-				currentDescription.Reset()
-			case "subform":
-				if currentSubform != nil {
-					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
+				if len(subforms) > 0 {
+					subform := subforms[len(subforms)-1]
+					subform.Fields = append(subform.Fields, *currentField)
 				}
-				inSubform = false
-				currentSubform = nil
+				// Also add subform fields to top-level fields
+				structure.Fields = append(structure.Fields, *currentField)
+				currentField = nil
+				text = nil
 			case "value":
-				if inField && currentField != nil {
-					val := strings.TrimSpace(currentValue.String())
-					if val != "" {
-						currentField.Value = val
-						if currentField.Default == "" {
-							currentField.Default = val
-						}
+				if unvalued > 0 {
+					break
+				}
+				if val := content(); val != "" {
+					currentField.Value = val
+					if currentField.Default == "" {
+						currentField.Default = val
 					}
 				}
-				inValue = false
 			case "label":
-				if inField && currentField != nil {
-					currentField.Label = strings.TrimSpace(currentLabel.String())
-				}
-				inLabel = false
+				currentField.Label = content()
+			case "caption":
+				caption = content()
 			case "desc", "description":
-				if inField && currentField != nil {
-					currentField.Description = strings.TrimSpace(currentDescription.String())
-				}
-				inDescription = false
-			case "items":
-				inItems = false
-			case "text":
-				if inItems && inField && currentField != nil {
-					// This is an option value
-					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
-					}
-					currentField.Options = append(currentField.Options, option)
-				}
+				currentField.Description = content()
 			case "script":
-				if inField && len(currentField.Events) > 0 {
+				if parent == "event" {
 					// Add script to last event
 					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
+					lastEvent.Script = content()
 				}
 			case "pattern":
-				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
+				if parent == "validate" {
+					currentField.Validation.Pattern = content()
 				}
 			}
+			if parent == "items" && currentField != nil {
+				// This is an option
+				list := &itemLists[len(itemLists)-1]
+				list.texts = append(list.texts, content())
+			}
 
 		case xml.CharData:
-			data := string(se)
-			if inValue && inField {
-				currentValue.WriteString(data)
-			} else if inLabel && inField {
-				currentLabel.WriteString(data)
-			} else if inDescription && inField {
-				currentDescription.WriteString(data)
+			if currentField != nil {
+				text = append(text, se...)
 			}
 		}
 	}
@@ -738,6 +725,34 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	return structure, nil
 }
 
+// xfaItemList is an items element of a choice field: the texts that are shown,
+// or the values that are stored if save is set
+type xfaItemList struct {
+	save  bool
+	texts []string
+}
+
+// xfaOptions combines the items elements of a field to its options
+func xfaOptions(lists []xfaItemList) []XFAOption {
+	var options []XFAOption
+	if len(lists) == 2 && lists[0].save != lists[1].save && len(lists[0].texts) == len(lists[1].texts) {
+		labels, values := lists[0], lists[1]
+		if labels.save {
+			labels, values = values, labels
+		}
+		for i, value := range values.texts {
+			options = append(options, XFAOption{Value: value, Label: labels.texts[i]})
+		}
+		return options
+	}
+	for _, list := range lists {
+		for _, text := range list.texts {
+			options = append(options, XFAOption{Value: text, Label: text})
+		}
+	}
+	return options
+}
+
 // convertXFAFieldToQuestion converts an XFAFieldData to a Question
 func convertXFAFieldToQuestion(field XFAFieldData, index int, verbose bool) types.Question {
 	question := types.Question{
@@ -799,11 +814,11 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
-	case "numeric", "decimal", "integer", "float":
+	case "numeric", "numericedit", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
-	case "date", "datefield":
+	case "date", "datefield", "datetimeedit":
 		return types.ResponseTypeDate
 	case "email", "emailfield":
 		return types.ResponseTypeEmail
-- 
2.43.0


From c4e080cdc99022ffafd868d306ecb60cbdbfff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 59/93] fix: write pages, option values, rules and numbers of
 XFA templates

Rules lost the field they belong to, options their labels or values, pages were
not written, numbers were written in exponent notation and attributes in a
random order.
---
 forms/xfa/xfa_form_translator.go | 117 +++++++++++++++++++++++--------
 1 file changed, 86 insertions(+), 31 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index a09464a..b1f1f13 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -99,14 +99,30 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 	}
 
 	// Convert questions to fields
-	for _, question := range formSchema.Questions {
-		if err := encodeQuestionAsField(enc, question); err != nil {
+	owners := make(map[string]int) // Name or ID -> question
+	for i := len(formSchema.Questions) - 1; i >= 0; i-- {
+		owners[formSchema.Questions[i].ID] = i
+	}
+	for i := len(formSchema.Questions) - 1; i >= 0; i-- {
+		owners[formSchema.Questions[i].Name] = i
+	}
+	questionRules := make(map[int][]types.Rule)
+	var otherRules []types.Rule
+	for _, rule := range formSchema.Rules {
+		if i, ok := owners[rule.Source]; ok && rule.Source != "" {
+			questionRules[i] = append(questionRules[i], rule)
+		} else {
+			otherRules = append(otherRules, rule)
+		}
+	}
+	for i, question := range formSchema.Questions {
+		if err := encodeQuestionAsField(enc, question, questionRules[i]); err != nil {
 			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
 		}
 	}
 
-	// Convert rules to events/scripts
-	for _, rule := range formSchema.Rules {
+	// Convert other rules to events/scripts
+	for _, rule := range otherRules {
 		if err := encodeRuleAsEvent(enc, rule); err != nil {
 			if verbose {
 				log.Printf("Warning: Failed to encode rule %s: %v", rule.ID, err)
@@ -131,8 +147,9 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 	return result, nil
 }
 
-// encodeQuestionAsField encodes a Question as an XFA field element
-func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
+// encodeQuestionAsField encodes a Question, with the rules it is the source of, as an
+// XFA field element
+func encodeQuestionAsField(enc *xml.Encoder, question types.Question, rules []types.Rule) error {
 	fieldStart := xml.StartElement{
 		Name: xml.Name{Local: "field"},
 		Attr: []xml.Attr{
@@ -165,6 +182,12 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 			Name:  xml.Name{Local: "access"},
 			Value: "readOnly",
 		})
+		if question.Hidden {
+			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+				Name:  xml.Name{Local: "presence"},
+				Value: "hidden",
+			})
+		}
 	} else if question.Hidden {
 		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 			Name:  xml.Name{Local: "access"},
@@ -173,22 +196,24 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	}
 
 	// Add layout properties
-	if question.Properties != nil {
-		for key, val := range question.Properties {
-			if key == "x" || key == "y" || key == "w" || key == "h" {
-				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-					Name:  xml.Name{Local: key},
-					Value: fmt.Sprintf("%v", val),
-				})
-			}
-		}
-		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
+	for _, key := range []string{"x", "y", "w", "h"} {
+		if val, ok := question.Properties[key]; ok {
 			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
+				Name:  xml.Name{Local: key},
+				Value: fmt.Sprintf("%v", val),
 			})
 		}
 	}
+	pageNum := question.PageNumber
+	if pageNum <= 0 {
+		pageNum, _ = question.Properties["page_number"].(int)
+	}
+	if pageNum > 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNum),
+		})
+	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
 		return err
@@ -228,7 +253,7 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		if err := enc.EncodeToken(valueStart); err != nil {
 			return err
 		}
-		valueStr := fmt.Sprintf("%v", question.Default)
+		valueStr := formatFieldValue(question.Default)
 		if err := enc.EncodeToken(xml.CharData(valueStr)); err != nil {
 			return err
 		}
@@ -239,23 +264,25 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add options for choice types
 	if len(question.Options) > 0 {
-		itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}}
-		if err := enc.EncodeToken(itemsStart); err != nil {
-			return err
-		}
-		for _, opt := range question.Options {
-			textStart := xml.StartElement{Name: xml.Name{Local: "text"}}
-			if err := enc.EncodeToken(textStart); err != nil {
-				return err
+		labels := make([]string, len(question.Options))
+		values := make([]string, len(question.Options))
+		labeled := false
+		for i, opt := range question.Options {
+			labels[i], values[i] = opt.Label, opt.Value
+			if opt.Label == "" {
+				labels[i] = opt.Value
 			}
-			if err := enc.EncodeToken(xml.CharData(opt.Value)); err != nil {
+			labeled = labeled || labels[i] != values[i]
+		}
+		if labeled {
+			// The texts shown and the values stored
+			if err := encodeItems(enc, labels, nil); err != nil {
 				return err
 			}
-			if err := enc.EncodeToken(textStart.End()); err != nil {
+			if err := encodeItems(enc, values, []xml.Attr{{Name: xml.Name{Local: "save"}, Value: "1"}}); err != nil {
 				return err
 			}
-		}
-		if err := enc.EncodeToken(itemsStart.End()); err != nil {
+		} else if err := encodeItems(enc, values, nil); err != nil {
 			return err
 		}
 	}
@@ -267,6 +294,13 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		}
 	}
 
+	// Add rules as events
+	for _, rule := range rules {
+		if err := encodeRuleAsEvent(enc, rule); err != nil {
+			return err
+		}
+	}
+
 	// End field
 	if err := enc.EncodeToken(fieldStart.End()); err != nil {
 		return err
@@ -275,6 +309,27 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	return nil
 }
 
+// encodeItems encodes the items of a choice field
+func encodeItems(enc *xml.Encoder, texts []string, attrs []xml.Attr) error {
+	itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}, Attr: attrs}
+	if err := enc.EncodeToken(itemsStart); err != nil {
+		return err
+	}
+	for _, text := range texts {
+		textStart := xml.StartElement{Name: xml.Name{Local: "text"}}
+		if err := enc.EncodeToken(textStart); err != nil {
+			return err
+		}
+		if err := enc.EncodeToken(xml.CharData(text)); err != nil {
+			return err
+		}
+		if err := enc.EncodeToken(textStart.End()); err != nil {
+			return err
+		}
+	}
+	return enc.EncodeToken(itemsStart.End())
+}
+
 // encodeValidation encodes validation rules as XFA validation elements
 func encodeValidation(enc *xml.Encoder, validation *types.ValidationRules) error {
 	validateStart := xml.StartElement{Name: xml.Name{Local: "validate"}}
-- 
2.43.0


From feaa3aea0e0f67fd95ad581b57cce36c8f331c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 60/93] fix: open encrypted XFA forms with the password

The password was ignored, so that encrypted XFA forms were not detected,
extracted or filled.
---
 forms/forms.go | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..8c542d7 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,7 @@
 package forms
 
 import (
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +80,14 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	encryptInfo, err := encryption(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -106,6 +103,27 @@ func (w *XFAFormWrapper) GetValues() map[string]interface{} {
 	return make(map[string]interface{})
 }
 
+// encryption returns what is needed to decrypt a PDF, or nil if it is not encrypted
+func encryption(pdfBytes []byte, password []byte, verbose bool) (*types.PDFEncryption, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, err
+	}
+	return pdf.Encryption(), nil
+}
+
+// extractXFAStreams extracts the XFA streams of a PDF that may be encrypted
+func extractXFAStreams(pdfBytes []byte, password []byte, verbose bool) (*xfa.XFAStreams, error) {
+	encryptInfo, err := encryption(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
+	}
+	return xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
+}
+
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	// Try AcroForm first
@@ -115,7 +133,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +155,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +187,7 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 8392bd38714a4e755cfd1bf2aca211d34b8f22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 61/93] fix: read and write every setting of XFA configurations

---
 forms/xfa/xfa_config_translator.go | 221 ++++++++++++++++++++++++++---
 1 file changed, 200 insertions(+), 21 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..e711989 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -25,6 +26,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 	decoder.Strict = false
 
 	var currentSection string
+	var inPresent bool
 	var currentValue strings.Builder
 
 	for {
@@ -47,7 +49,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 			case "config":
 				// Root element
 			case "present":
-				currentSection = "present"
+				currentSection, inPresent = "present", true
 				if config.Present == nil {
 					config.Present = &types.XFAConfigPresent{}
 				}
@@ -57,6 +59,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseConfigValidateAttributes(se, config.Validate)
 			case "submit":
 				currentSection = "submit"
 				if config.Submit == nil {
@@ -82,21 +85,30 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseCommonAttributes(se, config.Common)
 			case "output":
 				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseOutputAttributes(se, config.Output)
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseConfigScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseConfigScriptAttributes(se, config.Script)
 				}
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
+				}
+				parseTraceAttributes(se, config.Trace)
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.PDF == nil {
@@ -109,12 +121,14 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseXDPAttributes(se, config.Present.XDP)
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parsePrintAttributes(se, config.Present.Print)
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -123,20 +137,27 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					}
 					parseInteractiveAttributes(se, config.Present.Interactive)
 				}
-			default:
-				// Store as property
-				currentValue.Reset()
 			}
+			currentValue.Reset()
 
 		case xml.EndElement:
 			localName := se.Name.Local
 
 			switch localName {
-			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
+			case "config":
+				// Root element
+			case "present":
+				currentSection, inPresent = "", false
+				currentValue.Reset()
+			case "validate", "submit", "destination", "acrobat", "common", "output":
 				currentSection = ""
+				if inPresent {
+					currentSection = "present"
+				}
+				currentValue.Reset()
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -242,6 +263,82 @@ func parsePDFAttributes(se xml.StartElement, pdf *types.XFAConfigPDF) {
 	}
 }
 
+func parseConfigValidateAttributes(se xml.StartElement, validate *types.XFAConfigValidate) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validate.ScriptTest = attr.Value
+		case "nullTest":
+			validate.NullTest = attr.Value
+		case "formatTest":
+			validate.FormatTest = attr.Value
+		}
+	}
+}
+
+func parseCommonAttributes(se xml.StartElement, common *types.XFAConfigCommon) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "dataPrefix":
+			common.DataPrefix = attr.Value
+		case "timeStamp":
+			common.TimeStamp = attr.Value
+		}
+	}
+}
+
+func parseOutputAttributes(se xml.StartElement, output *types.XFAConfigOutput) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "format":
+			output.Format = attr.Value
+		case "destination":
+			output.Destination = attr.Value
+		}
+	}
+}
+
+func parseConfigScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "contentType":
+			script.ContentType = attr.Value
+		case "runAt":
+			script.RunAt = attr.Value
+		}
+	}
+}
+
+func parseTraceAttributes(se xml.StartElement, trace *types.XFAConfigTrace) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "enabled":
+			trace.Enabled = parseBool(attr.Value)
+		case "level":
+			trace.Level = attr.Value
+		}
+	}
+}
+
+func parseXDPAttributes(se xml.StartElement, xdp *types.XFAConfigXDP) {
+	for _, attr := range se.Attr {
+		if attr.Name.Local == "version" {
+			xdp.Version = attr.Value
+		}
+	}
+}
+
+func parsePrintAttributes(se xml.StartElement, print *types.XFAConfigPrint) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "printerName":
+			print.PrinterName = attr.Value
+		case "printerCap":
+			print.PrinterCap = attr.Value
+		}
+	}
+}
+
 func parseInteractiveAttributes(se xml.StartElement, interactive *types.XFAConfigInteractive) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
@@ -322,22 +419,29 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
-	// Encode additional properties
-	if config.Properties != nil {
-		for key, value := range config.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return "", err
-			}
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
 		}
 	}
 
+	// Encode trace section
+	if config.Trace != nil {
+		enabled := ""
+		if config.Trace.Enabled {
+			enabled = "1"
+		}
+		if err := encodeEmptyElement(enc, "trace", "enabled", enabled, "level", config.Trace.Level); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
+		}
+	}
+
+	// Encode additional properties
+	if err := encodeProperties(enc, config.Properties); err != nil {
+		return "", err
+	}
+
 	// End config element
 	if err := enc.EncodeToken(configStart.End()); err != nil {
 		return "", fmt.Errorf("failed to encode config end: %v", err)
@@ -376,6 +480,24 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		if err := encodeEmptyElement(enc, "xdp", "version", present.XDP.Version); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		if err := encodeEmptyElement(enc, "print", "printerName", present.Print.PrinterName, "printerCap", present.Print.PrinterCap); err != nil {
+			return err
+		}
+	}
+
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
@@ -389,6 +511,55 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 	return nil
 }
 
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	return encodeEmptyElement(enc, "script", "contentType", script.ContentType, "runAt", script.RunAt)
+}
+
+// encodeEmptyElement writes an element without content; attributes are given as
+// name, value pairs and left out when the value is empty
+func encodeEmptyElement(enc *xml.Encoder, name string, attributes ...string) error {
+	start := xml.StartElement{Name: xml.Name{Local: name}}
+	for i := 0; i+1 < len(attributes); i += 2 {
+		if attributes[i+1] != "" {
+			start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: attributes[i]}, Value: attributes[i+1]})
+		}
+	}
+	if err := enc.EncodeToken(start); err != nil {
+		return err
+	}
+	return enc.EncodeToken(start.End())
+}
+
+// encodeProperties writes each property as an element with its value as text,
+// in the order of the names
+func encodeProperties(enc *xml.Encoder, properties map[string]interface{}, except ...string) error {
+	names := make([]string, 0, len(properties))
+next:
+	for name := range properties {
+		for _, e := range except {
+			if name == e {
+				continue next
+			}
+		}
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		start := xml.StartElement{Name: xml.Name{Local: name}}
+		if err := enc.EncodeToken(start); err != nil {
+			return err
+		}
+		if err := enc.EncodeToken(xml.CharData(formatFieldValue(properties[name]))); err != nil {
+			return err
+		}
+		if err := enc.EncodeToken(start.End()); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 	pdfStart := xml.StartElement{Name: xml.Name{Local: "pdf"}}
 	attrs := []xml.Attr{}
@@ -428,7 +599,7 @@ func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInteractive) error {
 	interactiveStart := xml.StartElement{Name: xml.Name{Local: "interactive"}}
 	attrs := []xml.Attr{}
-	if interactive.CurrentPage > 0 {
+	if interactive.CurrentPage != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "currentPage"}, Value: strconv.Itoa(interactive.CurrentPage)})
 	}
 	if interactive.Zoom != "" {
@@ -494,6 +665,14 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	names := make([]string, 0, len(submit.Properties))
+	for name := range submit.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: submit.Properties[name]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
@@ -533,7 +712,7 @@ func encodeConfigAcrobat(enc *xml.Encoder, acrobat *types.XFAConfigAcrobat) erro
 	if acrobat.AutoSave {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSave"}, Value: "1"})
 	}
-	if acrobat.AutoSaveTime > 0 {
+	if acrobat.AutoSaveTime != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSaveTime"}, Value: strconv.Itoa(acrobat.AutoSaveTime)})
 	}
 	if acrobat.FormType != "" {
-- 
2.43.0


From baaf309e87b2cdfb3787890e30990af3bd52fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 62/93] fix: keep locale holidays whose name contains the word
 holiday and negative precisions

---
 forms/xfa/xfa_locale_translator.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..f5e5a34 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -145,11 +145,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
@@ -392,7 +388,7 @@ func encodeCurrency(enc *xml.Encoder, currency *types.XFACurrency) error {
 	if currency.Name != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "name"}, Value: currency.Name})
 	}
-	if currency.Precision > 0 {
+	if currency.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(currency.Precision)})
 	}
 	currencyStart.Attr = attrs
@@ -464,7 +460,7 @@ func encodeNumberPattern(enc *xml.Encoder, pattern *types.XFANumberPattern) erro
 	if pattern.Decimal != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "decimal"}, Value: pattern.Decimal})
 	}
-	if pattern.Precision > 0 {
+	if pattern.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(pattern.Precision)})
 	}
 	patternStart.Attr = attrs
-- 
2.43.0


From 1d909c13157d29677c4cb7b17d35b4f4f9b81a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 63/93] fix: keep the properties of XFA data descriptions apart
 and write properties in a fixed order

---
 forms/xfa/xfa_connection_translator.go | 90 +++-----------------------
 1 file changed, 8 insertions(+), 82 deletions(-)

diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..7eab9f1 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -129,62 +129,7 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				currentConnection = nil
 			case "dataDescription":
 				inDataDescription = false
-			case "uri", "url":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["uri"] = value
-					}
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["wsdl"] = value
-					}
-				}
-			case "operation":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["operation"] = value
-					}
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["soapAction"] = value
-					}
-				}
-			case "user":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["user"] = value
-					}
-				}
-			case "password":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["password"] = value
-					}
-				}
-			case "dsn":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["dsn"] = value
-					}
-				}
-			case "query":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["query"] = value
-					}
-				}
+				currentValue.Reset()
 			default:
 				if inDataDescription && currentConnection != nil && currentConnection.DataDescription != nil {
 					value := strings.TrimSpace(currentValue.String())
@@ -194,6 +139,9 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				} else if currentConnection != nil {
 					value := strings.TrimSpace(currentValue.String())
 					if value != "" {
+						if localName == "url" {
+							localName = "uri"
+						}
 						currentConnection.Properties[localName] = value
 					}
 				}
@@ -275,19 +223,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 	}
 
 	// Encode properties
-	if connection.Properties != nil {
-		for key, value := range connection.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, connection.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(connectionStart.End()); err != nil {
@@ -316,19 +253,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 	}
 
 	// Encode properties
-	if desc.Properties != nil {
-		for key, value := range desc.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, desc.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(descStart.End()); err != nil {
-- 
2.43.0


From 1cb75bb79b91f264d0edaa6163b27b4b32088a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 64/93] fix: keep negative lengths and the text of XFA style
 properties

---
 forms/xfa/xfa_stylesheet_translator.go | 55 +++++++++++---------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..20d79b4 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 
@@ -269,15 +270,16 @@ func parseSizeAttributes(se xml.StartElement, size *types.XFASize) {
 }
 
 func parseStyleValue(value string) interface{} {
-	// Try to parse as number
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	// Try to parse as number; text that only resembles one ("007", "1e3") stays text
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil &&
+		!math.IsNaN(floatVal) && !math.IsInf(floatVal, 0) && formatFieldValue(floatVal) == value {
 		return floatVal
 	}
 	// Try boolean
-	if value == "true" || value == "1" {
+	if value == "true" {
 		return true
 	}
-	if value == "false" || value == "0" {
+	if value == "false" {
 		return false
 	}
 	// Return as string
@@ -382,19 +384,8 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
-	for key, value := range style.Properties {
-		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, style.Properties, "font", "border", "margin", "padding", "position", "size"); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(styleStart.End()); err != nil {
@@ -410,7 +401,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 	if font.Family != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "family"}, Value: font.Family})
 	}
-	if font.Size > 0 {
+	if font.Size != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "size"}, Value: strconv.FormatFloat(font.Size, 'f', -1, 64)})
 	}
 	if font.Weight != "" {
@@ -440,7 +431,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	borderStart := xml.StartElement{Name: xml.Name{Local: "border"}}
 	attrs := []xml.Attr{}
-	if border.Width > 0 {
+	if border.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(border.Width, 'f', -1, 64)})
 	}
 	if border.Style != "" {
@@ -449,7 +440,7 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	if border.Color != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "color"}, Value: border.Color})
 	}
-	if border.Radius > 0 {
+	if border.Radius != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "radius"}, Value: strconv.FormatFloat(border.Radius, 'f', -1, 64)})
 	}
 	borderStart.Attr = attrs
@@ -467,16 +458,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -494,16 +485,16 @@ func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 	paddingStart := xml.StartElement{Name: xml.Name{Local: "padding"}}
 	attrs := []xml.Attr{}
-	if padding.Top > 0 {
+	if padding.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(padding.Top, 'f', -1, 64)})
 	}
-	if padding.Right > 0 {
+	if padding.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(padding.Right, 'f', -1, 64)})
 	}
-	if padding.Bottom > 0 {
+	if padding.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(padding.Bottom, 'f', -1, 64)})
 	}
-	if padding.Left > 0 {
+	if padding.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(padding.Left, 'f', -1, 64)})
 	}
 	paddingStart.Attr = attrs
@@ -521,10 +512,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
@@ -542,10 +533,10 @@ func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 func encodeSize(enc *xml.Encoder, size *types.XFASize) error {
 	sizeStart := xml.StartElement{Name: xml.Name{Local: "size"}}
 	attrs := []xml.Attr{}
-	if size.Width > 0 {
+	if size.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(size.Width, 'f', -1, 64)})
 	}
-	if size.Height > 0 {
+	if size.Height != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "height"}, Value: strconv.FormatFloat(size.Height, 'f', -1, 64)})
 	}
 	sizeStart.Attr = attrs
-- 
2.43.0


From 434994c6b3c7a777e28a5a7c4581bf87a223249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 65/93] fix: extract the schema of an XFA form from its
 template

---
 cmd/pdfer/main.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 3af6443..e6e3bb4 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -249,20 +249,23 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		}
 	}
 
-	// Extract XFA data from PDF
-	xfaData, _, err := xfa.FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
+	// Extract XFA streams from PDF
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		log.Fatalf("Error finding XFA datasets stream: %v", err)
+		log.Fatalf("Error extracting XFA streams: %v", err)
 	}
 
-	// Decompress XFA XML
-	xfaXML, _, err := xfa.DecompressStream(xfaData)
-	if err != nil {
-		log.Fatalf("Error decompressing XFA stream: %v", err)
+	// The template holds the questions; the datasets hold the answers
+	packet := streams.Template
+	if packet == nil {
+		packet = streams.Datasets
+	}
+	if packet == nil {
+		log.Fatalf("Error finding XFA template stream")
 	}
 
 	// Parse XFA to FormSchema
-	schema, err := xfa.ParseXFAForm(string(xfaXML), verbose)
+	schema, err := xfa.ParseXFAForm(string(packet.Data), verbose)
 	if err != nil {
 		log.Fatalf("Error parsing XFA form: %v", err)
 	}
-- 
2.43.0


From 34f45de6d7e5b901a207a0b2d2bbf28fe70d484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 66/93] fix: compress XFA streams in the zlib format that
 FlateDecode means

---
 forms/xfa/xfa_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 9aa34b7..7f96490 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -152,7 +152,7 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 // CompressStream compresses data using FlateDecode
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
+	writer, err := zlib.NewWriterLevel(&buf, zlib.DefaultCompression)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cef5f374364dbc33ad2ae2d2f9e865031cfc7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 67/93] fix: read the fields of XFA datasets from the data
 element, not from data descriptions

---
 forms/xfa/xfa_datasets_translator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 2d20c81..272456a 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -37,6 +37,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	var currentFieldName string
 	var currentFieldValue strings.Builder
 	var dataDepth int
+	var hasData bool
 	var inField bool
 	var inValue bool
 
@@ -75,6 +76,11 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			switch localName {
 			case "data":
 				dataDepth++
+				if !hasData {
+					// Fields before the data element belong to something else, such as a data description
+					hasData = true
+					datasets.Fields = make(map[string]interface{})
+				}
 			case "field":
 				inField = true
 				currentFieldValue.Reset()
@@ -109,7 +115,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			case "data":
 				dataDepth--
 			case "field":
-				if currentFieldName != "" {
+				if currentFieldName != "" && (dataDepth > 0 || !hasData) {
 					setField(currentFieldName, currentFieldValue.String())
 				}
 				inField = false
-- 
2.43.0


From 13833742d18eaa70dcec99cb40b8b636cc13ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 68/93] fix: keep the keys of stream dictionaries when
 rebuilding a PDF with XFA

---
 core/write/xfa_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index f560f6e..05a1fa5 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -137,7 +137,9 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 		}
 		streamDict := make(Dictionary)
 		for _, entry := range syntax.Entries(dict, 0) {
-			streamDict[entry.Key] = rawValue(dict[entry.Start:entry.End])
+			// The writer takes these two characters of a key as they are
+			key := strings.NewReplacer("#", "#23", "/", "#2F").Replace(entry.Key)
+			streamDict[key] = rawValue(dict[entry.Start:entry.End])
 		}
 		newData, updated := updatedObjects[objNum]
 		if updated {
-- 
2.43.0


From 55cc4eb991c58f61ff991168e37d2f7e5533f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 69/93] fix: refuse cross-reference offsets outside the file

---
 core/parse/document_parser.go | 3 +++
 core/parse/parser.go          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index d6507a2..b4648bd 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -338,6 +338,9 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
 
 	trailer := &TrailerData{}
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 6b5da12..c905706 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -188,6 +188,9 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 
 // ParseTraditionalXRefTable parses a traditional PDF cross-reference table
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
 	objMap := make(map[int]int64)
 
 	// Read from startxref position
-- 
2.43.0


From 8af344f92262e494fad1c73627740a94b3b88dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 70/93] fix: refuse to write object numbers above the PDF limit
 instead of gigabytes of free entries

---
 core/write/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index 55960b0..5f94bd0 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -28,6 +28,11 @@ type PDFObject struct {
 // Dictionary represents a PDF dictionary
 type Dictionary map[string]interface{}
 
+// maxObjectNumber is the highest object number that PDF readers accept (ISO
+// 32000-1 Annex C). The cross-reference section lists every number up to the
+// highest one used.
+const maxObjectNumber = 8388607
+
 // PDFWriter builds PDF files from scratch
 type PDFWriter struct {
 	objects         map[int]*PDFObject
@@ -256,6 +261,10 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		}
 	}
 
+	if endObjNum-1 > maxObjectNumber {
+		return fmt.Errorf("object number %d exceeds the limit of %d", endObjNum-1, maxObjectNumber)
+	}
+
 	// Collect and sort object numbers (after object streams are created)
 	var objNums []int
 	for num := range w.objects {
-- 
2.43.0


From b5f68750180a20fd08fe6d9075ba8d81d146165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 71/93] fix: let the error helpers see through wrapped errors

---
 types/errors.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/types/errors.go b/types/errors.go
index ca28617..43bde67 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -154,17 +155,18 @@ var (
 	ErrIOError = &PDFError{Code: ErrCodeIOError}
 )
 
-// IsPDFError checks if an error is a PDFError and returns it
+// IsPDFError checks if an error is or wraps a PDFError and returns it
 func IsPDFError(err error) (*PDFError, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	var pdfErr *PDFError
+	if errors.As(err, &pdfErr) {
 		return pdfErr, true
 	}
 	return nil, false
 }
 
-// GetErrorCode extracts the error code from an error if it's a PDFError
+// GetErrorCode extracts the error code from an error if it is or wraps a PDFError
 func GetErrorCode(err error) (PDFErrorCode, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code, true
 	}
 	return "", false
@@ -172,7 +174,7 @@ func GetErrorCode(err error) (PDFErrorCode, bool) {
 
 // IsNotFound checks if the error is an object not found error
 func IsNotFound(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeObjectNotFound || pdfErr.Code == ErrCodeFieldNotFound
 	}
 	return false
@@ -180,7 +182,7 @@ func IsNotFound(err error) bool {
 
 // IsEncryptionError checks if the error is related to encryption
 func IsEncryptionError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		switch pdfErr.Code {
 		case ErrCodeEncrypted, ErrCodeDecryptionFailed, ErrCodeWrongPassword, ErrCodeUnsupportedCrypto:
 			return true
@@ -191,7 +193,7 @@ func IsEncryptionError(err error) bool {
 
 // IsValidationError checks if the error is a validation error
 func IsValidationError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeValidationError || pdfErr.Code == ErrCodeInvalidValue
 	}
 	return false
-- 
2.43.0


From 5d5edd381d908deaab8efbd0d8e357c071e03b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 72/93] fix: list object numbers in ascending order

---
 core/parse/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 6a4e866..302e937 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -29,6 +29,7 @@ package parse
 
 import (
 	"errors"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
@@ -286,12 +287,13 @@ func (p *PDF) ObjectCount() int {
 	return len(p.xref.Objects)
 }
 
-// Objects returns a list of all object numbers in the PDF
+// Objects returns a list of all object numbers in the PDF, in ascending order
 func (p *PDF) Objects() []int {
 	result := make([]int, 0, len(p.xref.Objects))
 	for objNum := range p.xref.Objects {
 		result = append(result, objNum)
 	}
+	sort.Ints(result)
 	return result
 }
 
-- 
2.43.0


From f079655af6b4bc30586e7d63a97c3152b9ec3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 73/93] fix: report unsupported encryption as such, not as a
 wrong password

---
 core/encrypt/decrypt.go | 28 ++++++++++++++++++++++++++--
 core/parse/api.go       |  3 ++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 5627a5c..18de109 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -33,8 +33,8 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	// For V5/R5/R6, we need to unwrap the encryption key from /UE
 	var encryptKey []byte
 
-	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
-		return nil, nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported security handler %s", encrypt.Filter)
+	if err := checkSupported(encrypt); err != nil {
+		return nil, nil, err
 	}
 
 	if encrypt.R >= 5 {
@@ -120,6 +120,30 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	return decryptedPDF, encrypt, nil
 }
 
+// checkSupported returns an error unless the encryption dictionary describes
+// encryption this package can undo
+func checkSupported(encrypt *types.PDFEncryption) error {
+	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported security handler %s", encrypt.Filter)
+	}
+	switch encrypt.V {
+	case 1, 2, 4, 5:
+	default:
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption version %d", encrypt.V)
+	}
+	if encrypt.R < 2 || encrypt.R > 6 {
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption revision %d", encrypt.R)
+	}
+	for _, forString := range []bool{false, true} {
+		switch method := encryptionMethod(encrypt, forString); method {
+		case "V2", "AESV2", "AESV3", "Identity":
+		default:
+			return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption method %s", method)
+		}
+	}
+	return nil
+}
+
 // uValueMatches compares a computed U value with the stored one: all 32 bytes
 // for revision 2, the first 16 bytes (the rest is arbitrary) for revision 3-4
 func uValueMatches(uValue []byte, encrypt *types.PDFEncryption) bool {
diff --git a/core/parse/api.go b/core/parse/api.go
index 302e937..104b75e 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -138,7 +138,8 @@ func (p *PDF) handleEncryption() error {
 		// PDF is encrypted - validate password
 		_, validatedEnc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
 		if err != nil {
-			return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
+			// The cause says whether the password or the file is at fault
+			return types.WrapError(types.ErrCodeDecryptionFailed, "decryption failed", err)
 		}
 		p.encryption = validatedEnc
 	}
-- 
2.43.0


From 7e6029828845c4c51ac43e785a28a214ff873efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 74/93] fix: mark missing objects as not found in
 parse.GetObject

---
 core/parse/get_object.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 51ff500..f9de336 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -57,7 +57,7 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 
 		// Deleted objects must not be resurrected by the search below
 		if result.Free[objNum] {
-			return nil, fmt.Errorf("object %d not found", objNum)
+			return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
 		}
 	}
 
@@ -78,7 +78,7 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 		return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 	}
 
-	return nil, fmt.Errorf("object %d not found", objNum)
+	return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
 }
 
 // GetObject retrieves a PDF object, handling both direct objects and objects in object streams
@@ -87,7 +87,7 @@ func GetObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, ve
 	// Find where the object is located
 	loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("object %d not found: %v", objNum, err)
+		return nil, fmt.Errorf("failed to locate object %d: %w", objNum, err)
 	}
 
 	if !loc.IsDirect {
-- 
2.43.0


From 2ffb6c703156e51d309ad69812235004698072d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 75/93] fix: report why a PDF could not be opened when looking
 for its form

---
 forms/forms.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/forms/forms.go b/forms/forms.go
index 8c542d7..b0f4bc8 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -126,6 +126,11 @@ func extractXFAStreams(pdfBytes []byte, password []byte, verbose bool) (*xfa.XFA
 
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
+	// A PDF that cannot be opened is not one without forms
+	if _, err := encryption(pdfBytes, password, verbose); err != nil {
+		return FormTypeUnknown, err
+	}
+
 	// Try AcroForm first
 	acroForm, err := acroform.ExtractAcroForm(pdfBytes, password, verbose)
 	if err == nil && acroForm != nil && len(acroForm.Fields) > 0 {
@@ -144,6 +149,11 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 // Extract extracts and returns a unified Form interface
 // It automatically detects whether the PDF contains AcroForm or XFA forms
 func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
+	// A PDF that cannot be opened is not one without forms
+	if _, err := encryption(pdfBytes, password, verbose); err != nil {
+		return nil, err
+	}
+
 	// Try AcroForm first
 	acroForm, err := acroform.ExtractAcroForm(pdfBytes, password, verbose)
 	if err == nil && acroForm != nil && len(acroForm.Fields) > 0 {
-- 
2.43.0


From def31eb8ab8377a0a00fa7938b3ce541cc4980a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 76/93] fix: mark the absence of an XFA form as no forms

---
 internal/document/xfa.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/document/xfa.go b/internal/document/xfa.go
index e521633..a0e42b6 100644
--- a/internal/document/xfa.go
+++ b/internal/document/xfa.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/internal/syntax"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // XFAPacket is a packet of an XFA form: a part of its XML, stored as a stream
@@ -17,11 +18,11 @@ type XFAPacket struct {
 func XFAPackets(pdf *parse.PDF) ([]XFAPacket, error) {
 	form := Lookup(pdf, Catalog(pdf), "AcroForm")
 	if AsDict(form) == nil {
-		return nil, fmt.Errorf("AcroForm not found")
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
 	xfa := Lookup(pdf, form, "XFA")
 	if len(xfa) == 0 {
-		return nil, fmt.Errorf("XFA entry not found in AcroForm")
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "XFA entry not found in AcroForm")
 	}
 	elements := syntax.ArrayElements(xfa)
 
-- 
2.43.0


From fe8281097b0893d3e936a4686cf1ab0de0e0e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 77/93] fix: keep warning lists already handed out when a
 collector is cleared

---
 types/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/warnings.go b/types/warnings.go
index 59f8557..1d85d46 100644
--- a/types/warnings.go
+++ b/types/warnings.go
@@ -124,7 +124,7 @@ func (wc *WarningCollector) HasWarnings() bool {
 
 // Clear clears all warnings
 func (wc *WarningCollector) Clear() {
-	wc.warnings = wc.warnings[:0]
+	wc.warnings = make([]*Warning, 0) // lists already handed out keep theirs
 }
 
 // FilterByLevel returns warnings filtered by level
-- 
2.43.0


From d86ab08de1ec265c52538d81384871968bced8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 78/93] fix: read x height and cap height from their OS/2
 fields

---
 resources/font/font.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index a270bfa..912e081 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -266,9 +266,10 @@ func (ttf *TTF) parsePost() error {
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
 	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	// (sxHeight and sCapHeight, from version 2 on)
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 && binary.BigEndian.Uint16(os2.Data[0:2]) >= 2 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
-- 
2.43.0


From 21ed93206e1e6623a6db2b8780665f4b39a446ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 79/93] fix: embed OpenType fonts with CFF outlines as such

---
 resources/font/pdf.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index a381b70..3aeed53 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -53,6 +53,9 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		"/Length1": len(fontFileData),
 		"/Length":  len(fontFileData),
 	}
+	if isOpenTypeCFF(fontFileData) {
+		fontFileDict["/Subtype"] = "/OpenType"
+	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
@@ -105,7 +108,11 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, wid
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
-	buf.WriteString("/Subtype /TrueType\n")
+	if isOpenTypeCFF(f.Data) {
+		buf.WriteString("/Subtype /Type1\n")
+	} else {
+		buf.WriteString("/Subtype /TrueType\n")
+	}
 	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
 	buf.WriteString("/Encoding /WinAnsiEncoding\n")
 
@@ -160,12 +167,22 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
 	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
-	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	if isOpenTypeCFF(f.Data) {
+		buf.WriteString(fmt.Sprintf("/FontFile3 %d 0 R\n", fontFileNum))
+	} else {
+		buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	}
 	buf.WriteString(">>")
 
 	return buf.Bytes()
 }
 
+// isOpenTypeCFF reports whether a font program is an OpenType font with CFF outlines,
+// which PDF embeds as FontFile3 rather than FontFile2
+func isOpenTypeCFF(data []byte) bool {
+	return len(data) >= 4 && string(data[:4]) == "OTTO"
+}
+
 // winAnsiHigh lists the characters of WinAnsiEncoding that differ from Latin-1
 var winAnsiHigh = map[rune]int{
 	0x20AC: 0x80, 0x201A: 0x82, 0x0192: 0x83, 0x201E: 0x84, 0x2026: 0x85, 0x2020: 0x86,
-- 
2.43.0


From 5c52ec6750c8645067f2e5bde92a9fbe77db5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 80/93] fix: describe embedded fonts with their own bounding
 box

---
 resources/font/pdf.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 3aeed53..502226a 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,6 +4,7 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
+	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"math"
@@ -160,8 +161,8 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
 	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
-	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, 1100, 1100)) // Simplified bbox
+	bbox := ttf.boundingBox()
+	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n", bbox[0], bbox[1], bbox[2], bbox[3]))
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
 	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
 	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
@@ -177,6 +178,19 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 	return buf.Bytes()
 }
 
+// boundingBox returns the box around all glyphs (from the head table) in thousandths of an em
+func (ttf *TTF) boundingBox() [4]int {
+	var box [4]int
+	head, ok := ttf.Tables["head"]
+	if !ok || len(head.Data) < 44 {
+		return box
+	}
+	for i := range box {
+		box[i] = ttf.scale(int(int16(binary.BigEndian.Uint16(head.Data[36+2*i:]))))
+	}
+	return box
+}
+
 // isOpenTypeCFF reports whether a font program is an OpenType font with CFF outlines,
 // which PDF embeds as FontFile3 rather than FontFile2
 func isOpenTypeCFF(data []byte) bool {
-- 
2.43.0


From ce762fa1394987321ec792df588e8b1964e7850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 81/93] fix: report the values of XFA fields in groups

---
 forms/forms.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index b0f4bc8..7017982 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -97,10 +97,24 @@ func (w *XFAFormWrapper) Validate(data types.FormData) []error {
 }
 
 func (w *XFAFormWrapper) GetValues() map[string]interface{} {
+	values := make(map[string]interface{})
 	if w.datasets != nil {
-		return w.datasets.Fields
+		addFieldValues(values, w.datasets.Fields, w.datasets.Groups)
+	}
+	return values
+}
+
+// addFieldValues adds the values of fields, and of those in groups, to values.
+// Of fields with the same name the outermost counts.
+func addFieldValues(values, fields map[string]interface{}, groups []types.XFAFieldGroup) {
+	for name, value := range fields {
+		if _, exists := values[name]; !exists {
+			values[name] = value
+		}
+	}
+	for _, group := range groups {
+		addFieldValues(values, group.Fields, group.Groups)
 	}
-	return make(map[string]interface{})
 }
 
 // encryption returns what is needed to decrypt a PDF, or nil if it is not encrypted
-- 
2.43.0


From a67366dde6bb4101d3ad6adb13eff738871b3582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 82/93] fix: tell form values apart that print alike

---
 core/compare/compare.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 49dbd09..3aef30a 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -1022,15 +1022,5 @@ func sortedNames(values types.FormData) []string {
 
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
-	if v1 == nil && v2 == nil {
-		return true
-	}
-	if v1 == nil || v2 == nil {
-		return false
-	}
-
-	// Convert to strings for comparison (handles different types)
-	str1 := fmt.Sprintf("%v", v1)
-	str2 := fmt.Sprintf("%v", v2)
-	return str1 == str2
+	return reflect.DeepEqual(v1, v2)
 }
-- 
2.43.0


From 007723c24aa2346992be35ae1c30d06a89f61e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 83/93] fix: read cross-reference tables with bare carriage
 returns

---
 core/parse/document_parser.go |  2 +-
 core/parse/incremental.go     | 13 +++++++++----
 core/parse/parser.go          |  6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index b4648bd..9801b49 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -223,7 +223,7 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 	xref.RawBytes = xrefTableBytes(section)
 
 	// Parse entries
-	lines := bytes.Split(xref.RawBytes, []byte("\n"))
+	lines := xrefTableLines(xref.RawBytes)
 
 	currentObjNum := 0
 	inSubsection := false
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 3b4f5b6..ea8a8fd 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -294,6 +294,12 @@ func xrefTableBytes(data []byte) []byte {
 	return data
 }
 
+// xrefTableLines splits a traditional xref table into its lines, which end with
+// a carriage return, a line feed or both.
+func xrefTableLines(table []byte) [][]byte {
+	return bytes.FieldsFunc(table, func(c rune) bool { return c == '\r' || c == '\n' })
+}
+
 // parseTraditionalxrefSection parses a traditional xref table
 func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefSection, error) {
 	section := &xrefSection{
@@ -304,16 +310,15 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefTableBytes(xrefData))
 
 	// Parse xref entries
-	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
+	lines := xrefTableLines(xrefTableBytes(xrefData))
 
 	currentObjNum := 0
 	inSubsection := false
 
-	for i, line := range lines {
-		line = strings.TrimSpace(line)
+	for i, rawLine := range lines {
+		line := strings.TrimSpace(string(rawLine))
 		if line == "" {
 			continue
 		}
diff --git a/core/parse/parser.go b/core/parse/parser.go
index c905706..8ef0183 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -208,17 +208,17 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 	// - First line after "xref": "0 N" means starting object 0, N entries
 	// - Subsequent lines: "offset generation f" or "offset generation n"
 	//   where f=free, n=in-use
-	lines := strings.Split(xrefStr[xrefPos:], "\n")
+	lines := xrefTableLines([]byte(xrefStr[xrefPos:]))
 
 	currentObjNum := 0
 	inSubsection := false
 
-	for i, line := range lines {
+	for i, rawLine := range lines {
 		if i == 0 {
 			continue // Skip "xref" line
 		}
 
-		line = strings.TrimSpace(line)
+		line := strings.TrimSpace(string(rawLine))
 		if line == "" {
 			continue
 		}
-- 
2.43.0


From 46f79ca13f36dd94fbef05f25aac440140f8a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 84/93] fix: decode all filters of object and cross-reference
 streams

---
 core/parse/object_stream.go | 223 ++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 123 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 1865c8b..0a06894 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -3,7 +3,6 @@ package parse
 import (
 	"bytes"
 	"compress/flate"
-	"compress/zlib"
 	"fmt"
 	"io"
 	"regexp"
@@ -11,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -91,109 +91,10 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		subsections = []struct{ first, count int }{{0, size}}
 	}
 
-	// Decompress stream content
-	streamContent := xrefSection[extent.dataStart:extent.dataEnd]
-
-	// Decompress (xref streams are NOT encrypted)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if !strings.Contains(xrefStr, "/Filter") {
-		// Uncompressed xref stream
-		decompressed = streamContent
-	} else if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	// Decode stream content (xref streams are NOT encrypted)
+	decompressed, err := decodeStructureStream(xrefSection[extent.dictStart:extent.dictEnd], xrefSection[extent.dataStart:extent.dataEnd])
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
-	}
-
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(xrefStr)
-
-	if decodeparmsMatch != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
-
-			if predictor >= 10 && predictor <= 15 && columns > 0 && columns <= len(decompressed) {
-				// PNG predictor - apply filter
-				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
-
-				decoded := make([]byte, numRows*columns)
-				prevRow := make([]byte, columns)
-
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					switch filterByte {
-					case 0: // None
-						copy(decoded[row*columns:], rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
-						}
-					case 3: // Average
-						for i := 0; i < columns; i++ {
-							left := 0
-							if i > 0 {
-								left = int(decoded[row*columns+i-1])
-							}
-							decoded[row*columns+i] = rowData[i] + byte((left+int(prevRow[i]))/2)
-						}
-					case 4: // Paeth
-						for i := 0; i < columns; i++ {
-							left, upLeft := byte(0), byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-								upLeft = prevRow[i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + paethPredictor(left, prevRow[i], upLeft)
-						}
-					default:
-						copy(decoded[row*columns:], rowData)
-					}
-
-					copy(prevRow, decoded[row*columns:row*columns+columns])
-				}
-
-				decompressed = decoded
-			}
-		}
+		return nil, fmt.Errorf("error decompressing xref stream: %w", err)
 	}
 
 	// Parse entries
@@ -266,6 +167,99 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	return result, nil
 }
 
+// decodeStructureStream applies the filters of a cross-reference or object stream
+func decodeStructureStream(dict, data []byte) ([]byte, error) {
+	filters := structureStreamEntry(dict, "Filter")
+	params := structureStreamEntry(dict, "DecodeParms")
+	for i, filter := range filters {
+		name := syntax.DecodeName(filter)
+		decoded, err := DecodeFilter(data, name)
+		if err != nil && name == "FlateDecode" {
+			// Try raw deflate
+			reader := flate.NewReader(bytes.NewReader(data))
+			decoded, err = io.ReadAll(reader)
+			reader.Close()
+		}
+		if err != nil {
+			return nil, err
+		}
+		if i < len(params) && bytes.HasPrefix(params[i], []byte("<<")) {
+			if decoded, err = undoPredictor(decoded, params[i]); err != nil {
+				return nil, err
+			}
+		}
+		data = decoded
+	}
+	return data, nil
+}
+
+// structureStreamEntry returns the elements of an entry that is either a single
+// value or an array
+func structureStreamEntry(dict []byte, key string) [][]byte {
+	value := syntax.Lookup(dict, key)
+	if bytes.HasPrefix(value, []byte("[")) {
+		return syntax.ArrayElements(value)
+	}
+	if value == nil {
+		return nil
+	}
+	return [][]byte{value}
+}
+
+// undoPredictor reverses the PNG predictors
+func undoPredictor(data, params []byte) ([]byte, error) {
+	predictor, _ := syntax.LookupInt(params, "Predictor")
+	if predictor < 2 {
+		return data, nil
+	}
+	if predictor < 10 {
+		return nil, fmt.Errorf("unsupported predictor: %d", predictor)
+	}
+	param := func(key string, value int) int {
+		if n, ok := syntax.LookupInt(params, key); ok && n > 0 {
+			value = n
+		}
+		return value
+	}
+	colors, bits, columns := param("Colors", 1), param("BitsPerComponent", 8), param("Columns", 1)
+	if colors > 256 || bits > 32 || columns > 1<<24 {
+		return nil, fmt.Errorf("invalid predictor parameters")
+	}
+	pixel := (colors*bits + 7) / 8
+	rowLen := min((colors*bits*columns+7)/8, len(data)) // Only the last row may be short
+
+	decoded := make([]byte, 0, len(data))
+	prevRow := make([]byte, rowLen)
+	for len(data) > 1 {
+		filterByte := data[0]
+		row := make([]byte, rowLen)
+		n := copy(row, data[1:])
+		data = data[1+n:]
+		for i := range row[:n] {
+			var left, upLeft byte
+			if i >= pixel {
+				left, upLeft = row[i-pixel], prevRow[i-pixel]
+			}
+			switch filterByte {
+			case 0: // None
+			case 1: // Sub
+				row[i] += left
+			case 2: // Up (most common for Predictor 12)
+				row[i] += prevRow[i]
+			case 3: // Average
+				row[i] += byte((int(left) + int(prevRow[i])) / 2)
+			case 4: // Paeth
+				row[i] += paethPredictor(left, prevRow[i], upLeft)
+			default:
+				return nil, fmt.Errorf("invalid PNG filter type: %d", filterByte)
+			}
+		}
+		decoded = append(decoded, row[:n]...)
+		prevRow = row
+	}
+	return decoded, nil
+}
+
 // paethPredictor implements the PNG Paeth predictor
 func paethPredictor(left, up, upLeft byte) byte {
 	p := int(left) + int(up) - int(upLeft)
@@ -321,26 +315,9 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 		streamData = decrypted
 	}
 
-	// Decompress stream data (FlateDecode)
-	var decompressed []byte
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if !strings.Contains(dictSection, "/Filter") {
-		// Uncompressed object stream
-		decompressed, zlibErr = streamData, nil
-	} else if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-	}
-
-	if err != nil || zlibErr != nil {
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
-		}
+	decompressed, err := decodeStructureStream(streamObj.DictRaw, streamData)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress object stream: %w", err)
 	}
 
 	// Parse object stream header
-- 
2.43.0


From 25a9aa33f6a944761eb2e34b47d835c1d3aba7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 85/93] fix: read both cross-reference sections of linearized
 files byte-preservingly

---
 core/parse/document_parser.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 9801b49..4e167ba 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -171,6 +171,11 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 		prevEnd = int64(len(doc.Header.RawBytes))
 	}
 
+	// A linearized file has two xref sections in one revision
+	if rev.Trailer != nil {
+		addContinuedEntries(pdfBytes, xref, rev.Trailer.Prev, prevEnd, eofOffset)
+	}
+
 	// Parse objects in this revision's xref
 	for _, entry := range xref.Entries {
 		if !entry.InUse || entry.InObjectStream {
@@ -191,6 +196,35 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	return rev, nil
 }
 
+// addContinuedEntries adds the entries of the xref sections at prev and before
+// that belong to the same revision, i.e. do not lie before start.
+// Entries that are already there take precedence.
+func addContinuedEntries(pdfBytes []byte, xref *XRefData, prev, start int64, eofOffset int) {
+	known := make(map[int]bool)
+	for _, entry := range xref.Entries {
+		known[entry.ObjectNum] = true
+	}
+	visited := map[int64]bool{xref.Offset: true}
+	for prev >= start && prev < int64(eofOffset) && !visited[prev] {
+		visited[prev] = true
+		section, err := ParseXRefDataRaw(pdfBytes, prev)
+		if err != nil {
+			return
+		}
+		for _, entry := range section.Entries {
+			if !known[entry.ObjectNum] {
+				known[entry.ObjectNum] = true
+				xref.Entries = append(xref.Entries, entry)
+			}
+		}
+		trailer, err := ParseTrailerDataRaw(pdfBytes, prev, eofOffset)
+		if err != nil {
+			return
+		}
+		prev = trailer.Prev
+	}
+}
+
 // ParseXRefDataRaw parses cross-reference data preserving raw bytes
 func ParseXRefDataRaw(pdfBytes []byte, startXRef int64) (*XRefData, error) {
 	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
-- 
2.43.0


From f77cdd92fbf7202af05e79e9337f45cb6ec7794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 86/93] fix: read trailer and stream dictionary entries by key,
 not by text search

---
 core/parse/document_parser.go | 75 ++++++++++++---------------
 core/parse/incremental.go     | 98 ++++++++---------------------------
 core/parse/object_stream.go   | 78 ++++++++++++++--------------
 3 files changed, 96 insertions(+), 155 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 4e167ba..4ba6431 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -393,24 +393,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 			return nil, fmt.Errorf("xref stream dictionary not terminated")
 		}
 		trailer.RawBytes = section[dictStart:dictEnd]
-		sectionStr := string(trailer.RawBytes)
-
-		// Extract trailer-equivalent info from stream dictionary
-		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Size, _ = strconv.Atoi(match[1])
-		}
-		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Root = match[1]
-		}
-		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Encrypt = match[1]
-		}
-		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Info = match[1]
-		}
-		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-		}
+		parseTrailerEntries(trailer, trailer.RawBytes)
 
 		return trailer, nil
 	}
@@ -423,36 +406,46 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 
 	trailer.Offset = startXRef + int64(trailerIdx)
 
-	// Find end of trailer (at startxref keyword)
-	startxrefIdx := bytes.Index(section[trailerIdx:], []byte("startxref"))
-	if startxrefIdx == -1 {
-		startxrefIdx = len(section) - trailerIdx
-	}
-
-	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
-
-	// Parse trailer values
-	trailerStr := string(trailer.RawBytes)
-
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Size, _ = strconv.Atoi(match[1])
-	}
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Encrypt = match[1]
+	// The trailer ends at the startxref keyword after the dictionary
+	dictStart := syntax.SkipSpace(section, trailerIdx+len("trailer"))
+	dictEnd := -1
+	if bytes.HasPrefix(section[min(dictStart, len(section)):], []byte("<<")) {
+		dictEnd = syntax.DictionaryEnd(section, dictStart)
 	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Info = match[1]
+	if dictEnd == -1 {
+		dictStart, dictEnd = trailerIdx, trailerIdx
 	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
+	end := bytes.Index(section[dictEnd:], []byte("startxref"))
+	if end == -1 {
+		end = len(section)
+	} else {
+		end += dictEnd
 	}
+	trailer.RawBytes = section[trailerIdx:end]
+	parseTrailerEntries(trailer, section[dictStart:dictEnd])
 
 	return trailer, nil
 }
 
+// parseTrailerEntries reads the entries of the trailer dictionary dict
+func parseTrailerEntries(trailer *TrailerData, dict []byte) {
+	trailer.Size, _ = syntax.LookupInt(dict, "Size")
+	trailer.Root = lookupReference(dict, "Root")
+	trailer.Encrypt = lookupReference(dict, "Encrypt")
+	trailer.Info = lookupReference(dict, "Info")
+	prev, _ := syntax.LookupInt(dict, "Prev")
+	trailer.Prev = int64(prev)
+}
+
+// lookupReference returns the reference ("N G R") stored under key, or ""
+func lookupReference(dict []byte, key string) string {
+	value := syntax.Lookup(dict, key)
+	if objNum, genNum, _, ok := syntax.ReferenceAt(value, 0); ok {
+		return fmt.Sprintf("%d %d R", objNum, genNum)
+	}
+	return ""
+}
+
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index ea8a8fd..29c1303 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -209,55 +209,25 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 
 	section := p.pdfBytes[startXRef:]
 
-	// Check if this is an xref stream or traditional xref
+	// The dictionary follows the trailer keyword of a traditional xref, or is
+	// that of the cross-reference stream
+	pos := 0
 	if bytes.HasPrefix(section, []byte("xref")) {
-		// Traditional xref - find trailer and /Prev
-		trailerIdx := bytes.Index(section, []byte("trailer"))
-		if trailerIdx == -1 {
+		pos = bytes.Index(section, []byte("trailer"))
+		if pos == -1 {
 			return 0, fmt.Errorf("no trailer found")
 		}
-
-		// Find the end of the trailer dictionary (>>)
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(section[trailerStart:], []byte("<<"))
-		if dictStart == -1 {
-			return 0, fmt.Errorf("trailer dictionary not found")
-		}
-		dictStart += trailerStart
-
-		dictEnd := syntax.DictionaryEnd(section, dictStart)
-		if dictEnd == -1 {
-			dictEnd = len(section)
-		}
-
-		trailerDict := string(section[dictStart:dictEnd])
-		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-		match := prevPattern.FindStringSubmatch(trailerDict)
-		if match == nil {
-			return 0, fmt.Errorf("no /Prev in trailer")
-		}
-
-		return strconv.ParseInt(match[1], 10, 64)
 	}
-
-	// Cross-reference stream - /Prev is in the stream dictionary
-	dictStart := bytes.Index(section, []byte("<<"))
+	dictStart := bytes.Index(section[pos:], []byte("<<"))
 	if dictStart == -1 {
-		return 0, fmt.Errorf("xref stream dictionary not found")
-	}
-	dictEnd := syntax.DictionaryEnd(section, dictStart)
-	if dictEnd == -1 {
-		dictEnd = len(section)
+		return 0, fmt.Errorf("trailer dictionary not found")
 	}
 
-	dictSection := string(section[dictStart:dictEnd])
-	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-	match := prevPattern.FindStringSubmatch(dictSection)
-	if match == nil {
-		return 0, fmt.Errorf("no /Prev in xref stream")
+	prev, ok := syntax.LookupInt(section[pos+dictStart:], "Prev")
+	if !ok {
+		return 0, fmt.Errorf("no /Prev in trailer")
 	}
-
-	return strconv.ParseInt(match[1], 10, 64)
+	return int64(prev), nil
 }
 
 // parsexrefSection parses a single xref section at the given offset
@@ -375,23 +345,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 				dictEnd = len(xrefData)
 			}
 
-			trailerDict := string(xrefData[dictStart:dictEnd])
-
-			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Root = match[1]
-			}
-			if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Info = match[1]
-			}
-			if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Encrypt = match[1]
-			}
-			if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-			}
-			if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Size, _ = strconv.Atoi(match[1])
-			}
+			section.parseTrailerEntries(xrefData[dictStart:dictEnd])
 		}
 	}
 
@@ -403,6 +357,16 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	return section, nil
 }
 
+// parseTrailerEntries reads the entries of the trailer dictionary dict
+func (s *xrefSection) parseTrailerEntries(dict []byte) {
+	s.Root = lookupReference(dict, "Root")
+	s.Info = lookupReference(dict, "Info")
+	s.Encrypt = lookupReference(dict, "Encrypt")
+	prev, _ := syntax.LookupInt(dict, "Prev")
+	s.Prev = int64(prev)
+	s.Size, _ = syntax.LookupInt(dict, "Size")
+}
+
 // parseXRefStreamSection parses a cross-reference stream
 func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSection, error) {
 	section := &xrefSection{
@@ -432,23 +396,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	if dictEnd == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not terminated")
 	}
-	xrefStr := string(xrefData[dictStart:dictEnd])
-
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Size, _ = strconv.Atoi(match[1])
-	}
+	section.parseTrailerEntries(xrefData[dictStart:dictEnd])
 
 	if p.verbose {
 		fmt.Printf("Parsed xref stream at %d: %d objects, %d in streams, Prev=%d\n",
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 0a06894..32f3050 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -5,7 +5,6 @@ import (
 	"compress/flate"
 	"fmt"
 	"io"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -54,41 +53,31 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	if !extent.isStream {
 		return nil, fmt.Errorf("stream keyword not found")
 	}
-	xrefStr := string(xrefSection[extent.dictStart:extent.dictEnd])
+	dict := xrefSection[extent.dictStart:extent.dictEnd]
 
-	// Find /Size entry
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr)
-	if sizeMatch == nil {
+	size, ok := syntax.LookupInt(dict, "Size")
+	if !ok {
 		return nil, fmt.Errorf("/Size not found in xref stream")
 	}
 
-	// Find /W entry (field widths)
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr)
-	if wMatch == nil {
+	// /W: field widths
+	widths := integers(syntax.Lookup(dict, "W"))
+	if len(widths) < 3 {
 		return nil, fmt.Errorf("/W not found in xref stream")
 	}
+	w1, w2, w3 := widths[0], widths[1], widths[2]
+	if w1 < 0 || w2 < 0 || w3 < 0 {
+		return nil, fmt.Errorf("invalid /W in xref stream")
+	}
 
-	w1, _ := strconv.Atoi(wMatch[1])
-	w2, _ := strconv.Atoi(wMatch[2])
-	w3, _ := strconv.Atoi(wMatch[3])
-
-	// Find /Index entry
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr)
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
+	// /Index: pairs of first object number and count
+	subsections := []struct{ first, count int }{{0, size}}
+	if index := syntax.Lookup(dict, "Index"); index != nil {
+		subsections = nil
+		numbers := integers(index)
+		for i := 0; i+1 < len(numbers); i += 2 {
+			subsections = append(subsections, struct{ first, count int }{numbers[i], numbers[i+1]})
 		}
-	} else {
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
 	}
 
 	// Decode stream content (xref streams are NOT encrypted)
@@ -280,6 +269,25 @@ func absInt(x int) int {
 	return x
 }
 
+// integers returns the leading integers of an array
+func integers(array []byte) []int {
+	if len(array) == 0 || array[0] != '[' {
+		return nil
+	}
+	var numbers []int
+	pos := syntax.SkipSpace(array, 1)
+	for pos < len(array) {
+		end := syntax.SkipToken(array, pos)
+		n, err := strconv.Atoi(string(array[pos:end]))
+		if err != nil {
+			break
+		}
+		numbers = append(numbers, n)
+		pos = syntax.SkipSpace(array, end)
+	}
+	return numbers
+}
+
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -303,7 +311,6 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 	if streamObj.Number != streamObjNum || !streamObj.IsStream {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
-	dictSection := string(streamObj.DictRaw)
 	streamData := streamObj.StreamRaw
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
@@ -326,20 +333,13 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 	// - /First = byte offset to first object's data
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
-	// Find /N and /First from dictionary
-	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
-	nMatch := nPattern.FindStringSubmatch(dictSection)
-	if nMatch == nil {
+	if _, ok := syntax.LookupInt(streamObj.DictRaw, "N"); !ok {
 		return nil, fmt.Errorf("/N not found in object stream dictionary")
 	}
-	_ = nMatch[1] // Number of objects (for validation if needed)
-
-	firstPattern := regexp.MustCompile(`/First\s+(\d+)`)
-	firstMatch := firstPattern.FindStringSubmatch(dictSection)
-	if firstMatch == nil {
+	firstOffset, ok := syntax.LookupInt(streamObj.DictRaw, "First")
+	if !ok || firstOffset < 0 {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, _ := strconv.Atoi(firstMatch[1])
 
 	// Parse header: pairs of "objnum offset"
 	type objEntry struct {
-- 
2.43.0


From 9aa1d044ef6c64a886b2e00cef89539320e68eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 87/93] fix: do not search comments and data for objects the
 cross-references do not have

---
 core/parse/get_object.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index f9de336..1cc0d88 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -55,13 +55,12 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 		}
 
-		// Deleted objects must not be resurrected by the search below
-		if result.Free[objNum] {
-			return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
-		}
+		// Deleted or never defined: whatever looks like the object is an old
+		// revision of it or part of something else
+		return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
 	}
 
-	// Not found in xref - try regex search for object header with word boundary
+	// No usable xref - try regex search for object header with word boundary
 	// Use negative lookbehind equivalent: require whitespace or start of file before objNum
 	pattern := regexp.MustCompile(fmt.Sprintf(`(^|\s|[\r\n])%d\s+0\s+obj`, objNum))
 	matches := pattern.FindIndex(pdfBytes)
-- 
2.43.0


From 5357054ca7e662b5bd31b48c97cfbf5c64afc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:55 +0000
Subject: [PATCH 88/93] fix: leave the contents of signatures out of encryption

---
 core/encrypt/decrypt.go | 55 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 18de109..6b9b9da 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -8,6 +8,7 @@ import (
 	"crypto/rand"
 	"crypto/rc4"
 	"log"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
@@ -315,6 +316,56 @@ func DecryptStream(dict, data []byte, objNum, genNum int, encrypt *types.PDFEncr
 	return decryptData(data, objNum, genNum, encrypt, streamMethod(dict, encrypt))
 }
 
+// mapStrings returns content with f applied to every string except the
+// /Contents of signature dictionaries, which are never encrypted
+func mapStrings(content []byte, f func([]byte) ([]byte, error)) ([]byte, error) {
+	var result []byte
+	start := 0
+	for _, contents := range signatureContents(content) {
+		mapped, err := syntax.MapStrings(content[start:contents.Start], f)
+		if err != nil {
+			return nil, err
+		}
+		result = append(result, mapped...)
+		result = append(result, content[contents.Start:contents.End]...)
+		start = contents.End
+	}
+	mapped, err := syntax.MapStrings(content[start:], f)
+	if err != nil {
+		return nil, err
+	}
+	return append(result, mapped...), nil
+}
+
+// signatureContents finds the /Contents strings of the signature dictionaries,
+// those with a /ByteRange, in content
+func signatureContents(content []byte) []syntax.Entry {
+	if !bytes.Contains(content, []byte("ByteRange")) && bytes.IndexByte(content, '#') == -1 {
+		return nil
+	}
+	var found []syntax.Entry
+	for pos := syntax.SkipSpace(content, 0); pos < len(content); {
+		if bytes.HasPrefix(content[pos:], []byte("<<")) {
+			var contents syntax.Entry
+			isSignature := false
+			for _, entry := range syntax.Entries(content, pos) {
+				if entry.Key == "ByteRange" {
+					isSignature = true
+				}
+				if entry.Key == "Contents" && syntax.IsString(content[entry.Start:entry.End]) {
+					contents = entry
+				}
+			}
+			if isSignature && contents.Key != "" {
+				found = append(found, contents)
+			}
+		}
+		pos = syntax.SkipSpace(content, syntax.SkipToken(content, pos))
+	}
+	sort.Slice(found, func(i, j int) bool { return found[i].Start < found[j].Start })
+	return found
+}
+
 // DecryptStrings returns content, the value of an object or a stream dictionary
 // in PDF syntax, with all strings decrypted. Strings that cannot be decrypted
 // are kept.
@@ -326,7 +377,7 @@ func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	if method == "Identity" || syntax.LookupName(content, "Type") == "XRef" {
 		return content
 	}
-	result, _ := syntax.MapStrings(content, func(value []byte) ([]byte, error) {
+	result, _ := mapStrings(content, func(value []byte) ([]byte, error) {
 		if decrypted, err := decryptData(value, objNum, genNum, encrypt, method); err == nil {
 			return decrypted, nil
 		}
@@ -348,7 +399,7 @@ func EncryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	if method == "Identity" {
 		return content, nil
 	}
-	return syntax.MapStrings(content, func(value []byte) ([]byte, error) {
+	return mapStrings(content, func(value []byte) ([]byte, error) {
 		return encryptData(value, objNum, genNum, encrypt, method)
 	})
 }
-- 
2.43.0


From 4710dab19c5398701a6d3928d4e3046abcef3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:57 +0000
Subject: [PATCH 89/93] fix: honour crypt filters named by a stream or for
 embedded files

---
 core/encrypt/decrypt.go | 20 +++++++++++++++++---
 core/encrypt/parser.go  | 15 ++++++++-------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 6b9b9da..771edb9 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -286,8 +286,8 @@ func streamMethod(dict []byte, encrypt *types.PDFEncryption) string {
 			return "Identity"
 		}
 	}
-	// A Crypt filter without parameters, or naming Identity, leaves the stream
-	// unencrypted
+	// A Crypt filter names its method; without parameters the stream is not
+	// encrypted
 	filter := syntax.Lookup(dict, "Filter")
 	parms := syntax.Lookup(dict, "DecodeParms")
 	if len(filter) > 0 && filter[0] == '[' {
@@ -301,8 +301,22 @@ func streamMethod(dict []byte, encrypt *types.PDFEncryption) string {
 		}
 	}
 	if len(filter) > 0 && syntax.DecodeName(filter) == "Crypt" {
-		if name := syntax.LookupName(parms, "Name"); name == "" || name == "Identity" {
+		switch method := namedFilterMethod(encrypt.Dict, syntax.LookupName(parms, "Name")); method {
+		case "":
+		case "None":
 			return "Identity"
+		default:
+			return method
+		}
+	}
+	// Embedded files may have a method of their own
+	if encrypt.V >= 4 && syntax.LookupName(dict, "Type") == "EmbeddedFile" && syntax.LookupName(encrypt.Dict, "EFF") != "" {
+		switch method := cryptFilterMethod(encrypt.Dict, "EFF"); method {
+		case "":
+		case "None":
+			return "Identity"
+		default:
+			return method
 		}
 	}
 	return encryptionMethod(encrypt, false)
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index ec6e76e..0f5f8eb 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -182,19 +182,20 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 // cryptFilterMethod returns the method (/CFM) of the crypt filter named by the
 // given entry of the encryption dictionary, or "" if there are no crypt filters
 func cryptFilterMethod(dict []byte, entry string) string {
-	filters := syntax.Lookup(dict, "CF")
 	name := syntax.LookupName(dict, entry)
-	if name == "" && filters == nil {
+	if name == "" && syntax.Lookup(dict, "CF") == nil {
 		return ""
 	}
+	return namedFilterMethod(dict, name)
+}
+
+// namedFilterMethod returns the method of the crypt filter with the given name
+func namedFilterMethod(dict []byte, name string) string {
 	if name == "" || name == "Identity" {
 		return "Identity"
 	}
-	filter := syntax.Lookup(filters, name)
-	if method := syntax.LookupName(filter, "CFM"); method != "" {
-		return method
-	}
-	return ""
+	filter := syntax.Lookup(syntax.Lookup(dict, "CF"), name)
+	return syntax.LookupName(filter, "CFM")
 }
 
 // lookupString returns the decoded string stored under key, or nil
-- 
2.43.0


From 7d8408559ccadede3b6d7289d7ed9b83c82df7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 90/93] fix: do not take the text /Encrypt for an encrypted
 file in the command

---
 cmd/pdfer/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index e6e3bb4..866a3f9 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -1,8 +1,8 @@
 package main
 
 import (
-	"bytes"
 	"encoding/json"
+	"errors"
 	"flag"
 	"fmt"
 	"log"
@@ -124,7 +124,7 @@ func main() {
 
 	// Check if PDF is encrypted and decrypt if needed
 	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
+	if isEncrypted(pdfBytes) {
 		if *verbose {
 			log.Printf("PDF is encrypted, attempting to decrypt...")
 		}
@@ -201,6 +201,13 @@ func main() {
 	fmt.Printf("Fields filled: %d\n", len(formData))
 }
 
+// isEncrypted reports whether the trailer of the PDF names an encryption
+// dictionary (the text "/Encrypt" alone may occur anywhere)
+func isEncrypted(pdfBytes []byte) bool {
+	_, err := encrypt.ParseEncryptionDictionary(pdfBytes, false)
+	return !errors.Is(err, encrypt.ErrNotEncrypted)
+}
+
 // handleExtractSchema extracts questionnaire schema from PDF and writes it as JSON
 func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 	// Read PDF file
@@ -211,7 +218,7 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 
 	// Check if PDF is encrypted and decrypt if needed
 	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
+	if isEncrypted(pdfBytes) {
 		if verbose {
 			log.Printf("PDF is encrypted, attempting to decrypt...")
 		}
-- 
2.43.0


From 2003a007c599f8c916d58a56badaa9d72d296eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 91/93] fix: set the outline entry of the catalog by key

---
 core/write/writer.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 5f94bd0..8aaa5f6 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -217,18 +218,9 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		catalogObj.Content = w.formatDictionary(catalogObj.Dict)
 		return
 	}
-	catalogStr := string(catalogObj.Content)
-	if outlinesPattern.MatchString(catalogStr) {
-		catalogStr = outlinesPattern.ReplaceAllLiteralString(catalogStr, "/Outlines "+w.outlinesRef)
-	} else {
-		catalogStr = addDictEntry(catalogStr, " /Outlines", w.outlinesRef)
-	}
-	catalogObj.Content = []byte(catalogStr)
+	catalogObj.Content = syntax.SetKey(catalogObj.Content, "Outlines", []byte(w.outlinesRef))
 }
 
-// outlinesPattern matches the /Outlines entry of a catalog
-var outlinesPattern = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R`)
-
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
 	w.encryptRef = fmt.Sprintf("%d 0 R", objNum)
-- 
2.43.0


From ce039ecfe8d98e64b2637c96a558e93a1cf03ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:35 +0000
Subject: [PATCH 92/93] fix: use the length of a stream that is stored in
 another object

---
 core/parse/api.go             | 13 ++++++--
 core/parse/document_parser.go | 36 +++++++++++++++++++---
 core/parse/get_object.go      |  7 ++++-
 core/parse/lexer.go           | 57 +++++++++++++++++++++++++++++++----
 core/parse/object_stream.go   |  8 ++---
 5 files changed, 104 insertions(+), 17 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 104b75e..3382584 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -312,16 +312,25 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 		return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object %d not found", objNum).WithContext("object_number", objNum)
 	}
 
+	// Streams may keep their lengths in other objects
+	lengths := lengthsAt(p.raw, func(objNum int) (int64, bool) {
+		ref, ok := p.xref.Objects[objNum]
+		if !ok || ref.InStream {
+			return 0, false
+		}
+		return ref.Offset, true
+	})
+
 	if ref.InStream {
 		// Object is in an object stream - extract it
 		if container, ok := p.xref.Objects[ref.StreamObjNum]; ok && !container.InStream {
-			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose)
+			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, lengths, p.encryption, p.opts.Verbose)
 		}
 		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
 	}
 
 	// Direct object - get from byte offset
-	return GetDirectObject(p.raw, objNum, ref.Offset, p.encryption, p.opts.Verbose)
+	return getDirectObject(p.raw, objNum, ref.Offset, lengths, p.encryption, p.opts.Verbose)
 }
 
 // GetRawObject returns a PDFRawObject with full byte preservation.
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 4ba6431..b76f2c7 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -176,6 +176,24 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 		addContinuedEntries(pdfBytes, xref, rev.Trailer.Prev, prevEnd, eofOffset)
 	}
 
+	// Streams may keep their lengths in other objects, those of earlier
+	// revisions included
+	offsets := make(map[int]int64)
+	for _, earlier := range doc.Revisions {
+		for objNum, obj := range earlier.Objects {
+			offsets[objNum] = obj.Offset
+		}
+	}
+	for _, entry := range xref.Entries {
+		if entry.InUse && !entry.InObjectStream {
+			offsets[entry.ObjectNum] = entry.Offset
+		}
+	}
+	lengths := lengthsAt(pdfBytes, func(objNum int) (int64, bool) {
+		offset, ok := offsets[objNum]
+		return offset, ok
+	})
+
 	// Parse objects in this revision's xref
 	for _, entry := range xref.Entries {
 		if !entry.InUse || entry.InObjectStream {
@@ -185,7 +203,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 		// Check if this object belongs to this revision
 		// (its offset is after previous revision's end)
 		if entry.Offset >= prevEnd && entry.Offset < int64(eofOffset) {
-			obj, err := ParseRawObject(pdfBytes, entry.ObjectNum, entry.Generation, entry.Offset)
+			obj, err := parseRawObject(pdfBytes, entry.ObjectNum, entry.Generation, entry.Offset, lengths)
 			if err != nil {
 				continue
 			}
@@ -325,7 +343,7 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	objGen, _ := strconv.Atoi(string(match[2]))
 
 	// Parse the complete object
-	obj, err := ParseRawObject(pdfBytes, objNum, objGen, startXRef)
+	obj, err := parseRawObject(pdfBytes, objNum, objGen, startXRef, nil)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse xref stream object: %v", err)
 	}
@@ -448,6 +466,11 @@ func lookupReference(dict []byte, key string) string {
 
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
+	return parseRawObject(pdfBytes, objNum, objGen, offset, lengthsOf(pdfBytes, false))
+}
+
+// parseRawObject parses a PDF object preserving all raw bytes
+func parseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64, lengths lengthLookup) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("invalid offset: %d", offset)
 	}
@@ -472,7 +495,7 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 
 	// Locate the object's extent; keywords inside strings, comments or stream
 	// data do not end it.
-	extent, ok := scanIndirectObject(section)
+	extent, ok := scanIndirectObject(section, lengths)
 	if !ok {
 		// Damaged object: fall back to a plain keyword search
 		endobjIdx := bytes.Index(section, []byte("endobj"))
@@ -505,6 +528,11 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 // ParseRawObjectAt is a convenience function to parse an object at a byte offset
 // without knowing its object number (extracts from header)
 func ParseRawObjectAt(pdfBytes []byte, offset int64) (*PDFRawObject, error) {
+	return parseRawObjectAt(pdfBytes, offset, lengthsOf(pdfBytes, false))
+}
+
+// parseRawObjectAt parses an object at a byte offset
+func parseRawObjectAt(pdfBytes []byte, offset int64, lengths lengthLookup) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("invalid offset: %d", offset)
 	}
@@ -521,5 +549,5 @@ func ParseRawObjectAt(pdfBytes []byte, offset int64) (*PDFRawObject, error) {
 	objNum, _ := strconv.Atoi(string(match[1]))
 	objGen, _ := strconv.Atoi(string(match[2]))
 
-	return ParseRawObject(pdfBytes, objNum, objGen, offset)
+	return parseRawObject(pdfBytes, objNum, objGen, offset, lengths)
 }
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 1cc0d88..5e8e8ab 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -106,6 +106,11 @@ func GetObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, ve
 
 // GetDirectObject reads a PDF object at a specific byte offset
 func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	return getDirectObject(pdfBytes, objNum, offset, lengthsOf(pdfBytes, verbose), encryptInfo, verbose)
+}
+
+// getDirectObject reads a PDF object at a specific byte offset
+func getDirectObject(pdfBytes []byte, objNum int, offset int64, lengths lengthLookup, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("invalid offset %d for object %d", offset, objNum)
 	}
@@ -144,7 +149,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	// Locate the object's value; keywords inside strings, comments or stream
 	// data do not end it.
-	extent, scanned := scanIndirectObject(objData)
+	extent, scanned := scanIndirectObject(objData, lengths)
 	if !scanned {
 		// Damaged object: fall back to a plain keyword search
 		endobjPos := bytes.Index(objData, []byte("endobj"))
diff --git a/core/parse/lexer.go b/core/parse/lexer.go
index dce4106..8a0c786 100644
--- a/core/parse/lexer.go
+++ b/core/parse/lexer.go
@@ -2,6 +2,7 @@ package parse
 
 import (
 	"bytes"
+	"strconv"
 
 	"github.com/benedoc-inc/pdfer/internal/syntax"
 )
@@ -22,10 +23,49 @@ type indirectObject struct {
 	streamEnd     int // offset just past "endstream"
 }
 
+// lengthLookup returns the value of an indirect /Length. It is nil where
+// objects cannot be located.
+type lengthLookup func(objNum int) (length int, ok bool)
+
+// lengthsAt returns a lookup for lengths that are stored as direct objects of
+// pdfBytes, whose offsets are determined by locate.
+func lengthsAt(pdfBytes []byte, locate func(objNum int) (offset int64, ok bool)) lengthLookup {
+	return func(objNum int) (int, bool) {
+		offset, ok := locate(objNum)
+		if !ok || offset < 0 || offset >= int64(len(pdfBytes)) {
+			return 0, false
+		}
+		data := pdfBytes[offset:min(offset+lengthObjectMax, int64(len(pdfBytes)))]
+		obj, ok := scanIndirectObject(data, nil)
+		if !ok || obj.isStream {
+			return 0, false
+		}
+		pos := syntax.SkipSpace(data, obj.contentStart)
+		length, err := strconv.Atoi(string(data[pos:syntax.SkipToken(data, pos)]))
+		return length, err == nil
+	}
+}
+
+// lengthObjectMax is the number of bytes within which an object holding nothing
+// but a stream length has to end.
+const lengthObjectMax = 256
+
+// lengthsOf returns a lookup that locates lengths through the cross-reference
+// table of pdfBytes.
+func lengthsOf(pdfBytes []byte, verbose bool) lengthLookup {
+	return lengthsAt(pdfBytes, func(objNum int) (int64, bool) {
+		loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
+		if err != nil || !loc.IsDirect {
+			return 0, false
+		}
+		return loc.ByteOffset, true
+	})
+}
+
 // scanIndirectObject determines the extent of the indirect object whose header
 // starts at the beginning of data. Keywords inside strings, comments and
 // stream data do not terminate the object.
-func scanIndirectObject(data []byte) (indirectObject, bool) {
+func scanIndirectObject(data []byte, lengths lengthLookup) (indirectObject, bool) {
 	var obj indirectObject
 
 	// Header: N G obj
@@ -74,7 +114,7 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 		if bytes.HasPrefix(word, []byte("stream")) && obj.dictEnd > 0 && !obj.isStream {
 			obj.isStream = true
 			obj.streamKeyword = pos
-			if !obj.scanStreamData(data) {
+			if !obj.scanStreamData(data, lengths) {
 				return obj, false
 			}
 			pos = obj.streamEnd
@@ -84,12 +124,17 @@ func scanIndirectObject(data []byte) (indirectObject, bool) {
 	}
 }
 
-// scanStreamData locates the stream data following the "stream" keyword. A
-// direct /Length is used when "endstream" really follows that many bytes.
-func (o *indirectObject) scanStreamData(data []byte) bool {
+// scanStreamData locates the stream data following the "stream" keyword. The
+// /Length is used when "endstream" really follows that many bytes.
+func (o *indirectObject) scanStreamData(data []byte, lengths lengthLookup) bool {
 	o.dataStart = skipStreamEOL(data, o.streamKeyword+len("stream"))
 
-	if n, ok := syntax.LookupInt(data[o.dictStart:o.dictEnd], "Length"); ok && n >= 0 && n <= len(data)-o.dataStart {
+	dict := data[o.dictStart:o.dictEnd]
+	n, ok := syntax.LookupInt(dict, "Length")
+	if lengthObjNum, isRef := syntax.Reference(syntax.Lookup(dict, "Length")); isRef && lengths != nil {
+		n, ok = lengths(lengthObjNum)
+	}
+	if ok && n >= 0 && n <= len(data)-o.dataStart {
 		after := skipStreamEOL(data, o.dataStart+n)
 		if bytes.HasPrefix(data[after:], []byte("endstream")) {
 			o.dataEnd = o.dataStart + n
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 32f3050..b654112 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -46,7 +46,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// The xref stream object should be at startXRef
 	xrefSection := pdfBytes[startXRef:]
-	extent, ok := scanIndirectObject(xrefSection)
+	extent, ok := scanIndirectObject(xrefSection, nil)
 	if !ok {
 		return nil, fmt.Errorf("xref stream object not found")
 	}
@@ -299,12 +299,12 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if !loc.IsDirect {
 		return nil, fmt.Errorf("object stream %d is itself stored in an object stream", streamObjNum)
 	}
-	return getObjectFromStreamAt(pdfBytes, objNum, streamObjNum, loc.ByteOffset, indexInStream, encryptInfo, verbose)
+	return getObjectFromStreamAt(pdfBytes, objNum, streamObjNum, loc.ByteOffset, indexInStream, lengthsOf(pdfBytes, verbose), encryptInfo, verbose)
 }
 
 // getObjectFromStreamAt extracts an object from the object stream at streamOffset
-func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, streamOffset int64, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	streamObj, err := ParseRawObjectAt(pdfBytes, streamOffset)
+func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, streamOffset int64, indexInStream int, lengths lengthLookup, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	streamObj, err := parseRawObjectAt(pdfBytes, streamOffset, lengths)
 	if err != nil {
 		return nil, fmt.Errorf("failed to read object stream %d: %v", streamObjNum, err)
 	}
-- 
2.43.0


From 5f7657a70b990ebb5596c3e95d1c839e4f512909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:36 +0000
Subject: [PATCH 93/93] fix: look for a missing object stream once

---
 core/parse/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 3382584..19a764e 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -326,7 +326,7 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 		if container, ok := p.xref.Objects[ref.StreamObjNum]; ok && !container.InStream {
 			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, lengths, p.encryption, p.opts.Verbose)
 		}
-		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object stream %d of object %d not found", ref.StreamObjNum, objNum).WithContext("object_number", objNum)
 	}
 
 	// Direct object - get from byte offset
-- 
2.43.0

