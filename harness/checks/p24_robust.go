package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/metrics"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// allocBudget bounds what one call may allocate in total, for inputs without
// decompression bombs. Files written anew list every object number up to the
// highest one in the table, so writing needs more.
func allocBudget(what string, in int) uint64 {
	for _, w := range []string{"Fill", "ebuild", "Replace", "Update", "Build", "Flatten", "Split", "Merge"} {
		if strings.Contains(what, w) {
			return 2<<30 + 400*uint64(in)
		}
	}
	return 256<<20 + 400*uint64(in)
}

// rob runs calls on damaged input and watches them.
type rob struct {
	c     *rt.C
	in    []byte
	calls int
	errs  int
	most  uint64
}

// call runs one entry point. It must return, without a panic, a result or an
// error, and leave its input alone.
func (q *rob) call(what string, fn func() (interface{}, error)) (res interface{}, ok bool) {
	if q.c.Failed() {
		return nil, false
	}
	before := allocated()
	q.c.Try(what, func() {
		v, err := fn()
		q.calls++
		if err != nil {
			q.errs++
			if s := err.Error(); s == "" {
				q.c.Failf("%s: an error without a text", what)
			}
			return
		}
		if isNil(v) {
			q.c.Failf("%s: neither a result nor an error", what)
			return
		}
		res, ok = v, true
	})
	n := allocated() - before
	if n > q.most {
		q.most = n
	}
	if n > allocBudget(what, len(q.in)) {
		q.c.Failf("%s allocated %d MB for an input of %d bytes", what, n>>20, len(q.in))
	}
	return res, ok
}

// allocated is the number of bytes this process has allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (q *rob) done() {
	q.c.Obs("calls", q.calls)
	q.c.Obs("calls refused", q.errs)
	if q.calls > q.errs {
		q.c.Obs("cases with results", 1)
	}
	mx := 0
	for mx < 40 && q.most>>mx > 0 {
		mx++
	}
	q.c.Obs(fmt.Sprintf("largest allocation below 2^%d", mx), 1)
	q.c.Distinct(q.calls, q.errs, len(q.in))
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Func:
		return rv.IsNil()
	}
	return false
}

// void is the result of calls that return none.
var void = struct{}{}

// readAll feeds a document to every reading entry point.
func (q *rob) readAll(in, pw []byte, r *rand.Rand) {
	c := q.c
	in = tight(in)
	orig := append([]byte{}, in...)
	q.in = in
	check := func(what string) {
		if !bytes.Equal(orig, in) {
			c.Failf("%s changed its input", what)
			copy(in, orig)
		}
	}
	var nums []int
	var enc *types.PDFEncryption
	for _, bp := range []bool{false, true} {
		what := fmt.Sprintf("OpenWithOptions(BytePerfect %v)", bp)
		v, ok := q.call(what, func() (interface{}, error) {
			return parse.OpenWithOptions(in, parse.ParseOptions{Password: pw, BytePerfect: bp, Warnings: types.NewWarningCollector(true)})
		})
		check(what)
		if !ok {
			continue
		}
		pdf := v.(*parse.PDF)
		enc = pdf.Encryption()
		nums = pdf.Objects()
		q.call("PDF accessors", func() (interface{}, error) {
			_, _, _, _, _ = pdf.Version(), pdf.RevisionCount(), pdf.ObjectCount(), pdf.Trailer(), pdf.Bytes()
			return void, nil
		})
		seen := 0
		for _, n := range nums {
			if seen++; seen > 400 {
				break
			}
			q.call("PDF.GetObject", func() (interface{}, error) { return pdf.GetObject(n) })
			if bp {
				q.call("PDF.GetRawObject", func() (interface{}, error) { return pdf.GetRawObject(n) })
			}
		}
		for _, n := range []int{0, -1, 1, 1 << 31, -1 << 62, r.Intn(300)} {
			q.call("PDF.GetObject", func() (interface{}, error) { return pdf.GetObject(n) })
		}
		q.call("ExtractMetadata", func() (interface{}, error) { return extract.ExtractMetadata(in, pdf, false) })
		q.call("ExtractBookmarks", func() (interface{}, error) { return extract.ExtractBookmarks(in, pdf, false) })
		q.call("ExtractPages", func() (interface{}, error) { return extract.ExtractPages(in, pdf, false) })
		q.call("NewFromPDF", func() (interface{}, error) { return manipulate.NewFromPDF(pdf, false), nil })
	}
	check("the opened document")
	if r.Intn(2) == 0 {
		q.call("GetRevisionBoundaries", func() (interface{}, error) {
			parse.CountRevisions(in)
			parse.FindAllEOFMarkers(in)
			return parse.GetRevisionBoundaries(in), nil
		})
		for _, n := range []int{0, 1, 2, -1, 1 << 40} {
			q.call("ExtractRevision", func() (interface{}, error) { return parse.ExtractRevision(in, n) })
		}
		if v, ok := q.call("ParsePDFDocument", func() (interface{}, error) { return parse.ParsePDFDocument(in) }); ok {
			d := v.(*parse.PDFDocument)
			q.call("PDFDocument accessors", func() (interface{}, error) {
				_, _, _, _ = d.Bytes(), d.AllObjects(), d.LatestRevision(), d.ObjectCount()
				for _, o := range d.AllObjects() {
					_, _, _ = o.Bytes(), o.Content(), o.StreamData()
				}
				for _, n := range []int{-1, 0, 1, 2, 99} {
					d.GetObjectInRevision(1, n)
				}
				return void, nil
			})
		}
		q.call("ParsePDFHeader", func() (interface{}, error) { return parse.ParsePDFHeader(in) })
		q.call("ParsePDFTrailer", func() (interface{}, error) { return parse.ParsePDFTrailer(in) })
		for i := 0; i < 4; i++ {
			n := r.Intn(60)
			off := int64(r.Intn(len(in)+20) - 10)
			switch r.Intn(6) {
			case 0:
				off = []int64{-1, 1 << 62, -1 << 62, int64(len(in)), int64(len(in)) - 1}[r.Intn(5)]
			case 1, 2:
				if k := bytes.Index(in[min(max(0, int(off)), len(in)):], []byte(" obj")); k > 0 {
					off = int64(min(max(0, int(off)), len(in))+k) - int64(r.Intn(6))
				}
			}
			q.call("parse.GetObject", func() (interface{}, error) { return parse.GetObject(in, n, enc, false) })
			q.call("FindObjectByNumber", func() (interface{}, error) { return parse.FindObjectByNumber(in, n, enc, false) })
			q.call("FindObjectLocation", func() (interface{}, error) { return parse.FindObjectLocation(in, n, false) })
			q.call("GetDirectObject", func() (interface{}, error) { return parse.GetDirectObject(in, n, off, enc, false) })
			q.call("GetObjectFromStream", func() (interface{}, error) {
				return parse.GetObjectFromStream(in, n, r.Intn(60), r.Intn(40)-5, enc, false)
			})
			q.call("ParseCrossReferenceTable", func() (interface{}, error) { return parse.ParseCrossReferenceTable(in, off) })
			q.call("ParseTraditionalXRefTable", func() (interface{}, error) { return parse.ParseTraditionalXRefTable(in, off) })
			q.call("ParseXRefStream", func() (interface{}, error) { return parse.ParseXRefStream(in, off) })
			q.call("ParseXRefStreamFull", func() (interface{}, error) { return parse.ParseXRefStreamFull(in, off, false) })
			q.call("ParseRawObjectAt", func() (interface{}, error) { return parse.ParseRawObjectAt(in, off) })
			q.call("ParseRawObject", func() (interface{}, error) { return parse.ParseRawObject(in, n, 0, off) })
			q.call("ParseTrailerDataRaw", func() (interface{}, error) { return parse.ParseTrailerDataRaw(in, off, r.Intn(len(in)+5)) })
			q.call("ParseXRefDataRaw", func() (interface{}, error) { return parse.ParseXRefDataRaw(in, off) })
		}
		check("package parse")
	}
	q.call("encrypt.DecryptPDF", func() (interface{}, error) {
		_, e, err := encrypt.DecryptPDF(in, pw, false)
		if errors.Is(err, encrypt.ErrNotEncrypted) || err == nil && e == nil {
			return void, nil
		}
		return e, err
	})
	q.call("ExtractFileID", func() (interface{}, error) { return encrypt.ExtractFileID(in, false), nil })
	check("DecryptPDF")

	q.call("ExtractContent", func() (interface{}, error) { return extract.ExtractContent(in, pw, false) })
	q.call("ExtractContentToJSON", func() (interface{}, error) { return extract.ExtractContentToJSON(in, pw, false) })
	q.call("ExtractAllImages", func() (interface{}, error) { return extract.ExtractAllImages(in, pw, false) })
	if r.Intn(3) == 0 {
		q.call("ExtractPageImages", func() (interface{}, error) { return extract.ExtractPageImages(in, pw, false) })
		dir := filepath.Join(c.Dir, "out")
		q.call("ExtractToDirectory", func() (interface{}, error) { return extract.ExtractToDirectory(in, pw, dir, false) })
		ents, _ := os.ReadDir(c.Dir)
		for _, e := range ents {
			if e.Name() != "out" {
				c.Failf("ExtractToDirectory made %q outside its directory", e.Name())
			}
		}
		os.RemoveAll(dir)
	}
	check("package extract")

	q.call("forms.Detect", func() (interface{}, error) { return forms.Detect(in, pw, false) })
	data := types.FormData{"total": "x", "name": 1.5, "Group.total": true}
	if v, ok := q.call("forms.Extract", func() (interface{}, error) { return forms.Extract(in, pw, false) }); ok {
		f := v.(forms.Form)
		q.call("Form accessors", func() (interface{}, error) {
			for _, qu := range f.Schema().Questions {
				if len(data) < 12 {
					data[qu.Name] = "text"
				}
			}
			for k := range f.GetValues() {
				if len(data) < 20 {
					data[k] = "v"
				}
			}
			f.Validate(data)
			return void, nil
		})
		q.call("Form.Fill", func() (interface{}, error) { return f.Fill(in, data, pw, false) })
	}
	if v, ok := q.call("ExtractAcroForm", func() (interface{}, error) { return acroform.ExtractAcroForm(in, pw, false) }); ok {
		af := v.(*acroform.AcroForm)
		q.call("AcroForm accessors", func() (interface{}, error) {
			af.ToFormSchema()
			af.GetFieldValues()
			acroform.ValidateFormData(af, data)
			af.FindFieldByName("total")
			for i, f := range af.Fields {
				f.GetFullName()
				if i < 5 {
					acroform.GetFieldAppearance(f, in, enc, false)
				}
			}
			return void, nil
		})
		q.call("FillForm", func() (interface{}, error) { return acroform.FillForm(in, data, pw, false) })
		if r.Intn(3) == 0 {
			q.call("FillFormFields", func() (interface{}, error) { return acroform.FillFormFields(in, data, pw, false) })
			q.call("FillFormFieldsWithStreams", func() (interface{}, error) { return acroform.FillFormFieldsWithStreams(in, data, pw, false) })
			q.call("ExtractAndFill", func() (interface{}, error) { return acroform.ExtractAndFill(in, data, pw, false) })
			q.call("FlattenForm", func() (interface{}, error) { return acroform.FlattenForm(in, pw, false) })
			q.call("ReplaceFieldObject", func() (interface{}, error) {
				return acroform.ReplaceFieldObject(in, r.Intn(60), 0, []byte("<< /V 1 >>"), enc, false)
			})
			q.call("RebuildObjectStream", func() (interface{}, error) {
				return acroform.RebuildObjectStream(in, r.Intn(60), nil, enc, false)
			})
		}
	}
	if r.Intn(2) == 0 || bytes.Contains(in, []byte("XFA")) {
		if v, ok := q.call("ExtractAllXFAStreams", func() (interface{}, error) { return xfa.ExtractAllXFAStreams(in, enc, false) }); ok {
			s := v.(*xfa.XFAStreams)
			q.call("RebuildPDFFromXFAStreams", func() (interface{}, error) { return xfa.RebuildPDFFromXFAStreams(in, s, enc, false) })
		}
		q.call("FindXFADatasetsStream", func() (interface{}, error) {
			b, _, err := xfa.FindXFADatasetsStream(in, enc, false)
			return b, err
		})
		q.call("UpdateXFAInPDF", func() (interface{}, error) { return xfa.UpdateXFAInPDF(in, data, enc, false) })
		q.call("ExtractXFA", func() (interface{}, error) {
			_, _, err := forms.ExtractXFA(in, pw, false)
			return void, err
		})
		q.call("BuildFromOriginal", func() (interface{}, error) {
			return write.NewXFABuilder(false).BuildFromOriginal(in, map[string][]byte{"datasets": []byte("<a/>")}, enc)
		})
		q.call("ReplaceStreamInPDF", func() (interface{}, error) { return xfa.ReplaceStreamInPDF(in, r.Intn(60), []byte("x"), false) })
	}
	check("package forms")

	if v, ok := q.call("NewPDFManipulator", func() (interface{}, error) { return manipulate.NewPDFManipulator(in, pw, false) }); ok {
		m := v.(*manipulate.PDFManipulator)
		switch r.Intn(4) {
		case 0:
			q.call("RotateAllPages", func() (interface{}, error) { return void, m.RotateAllPages(90) })
		case 1:
			q.call("DeletePage", func() (interface{}, error) { return void, m.DeletePage(1 + r.Intn(3)) })
		case 2:
			q.call("InsertPage", func() (interface{}, error) { return void, m.InsertPage(1+r.Intn(3), 5000, []byte("<< /Type /Page >>")) })
		case 3:
			q.call("DeletePages", func() (interface{}, error) { return void, m.DeletePages([]int{1, r.Intn(5), -1}) })
		}
		if v, ok := q.call("Rebuild", func() (interface{}, error) { return m.Rebuild() }); ok && r.Intn(2) == 0 && len(v.([]byte)) < 8<<20 {
			out := v.([]byte)
			q.call("opening the rebuilt file", func() (interface{}, error) { return parse.OpenWithOptions(out, parse.ParseOptions{Password: pw}) })
		}
	}
	switch r.Intn(3) {
	case 0:
		q.call("SplitPDF", func() (interface{}, error) {
			return manipulate.SplitPDF(in, []manipulate.PageRange{{1, 1}, {1, 2}}, pw, false)
		})
		q.call("SplitPDFByPageCount", func() (interface{}, error) { return manipulate.SplitPDFByPageCount(in, 1+r.Intn(3), pw, false) })
	case 1:
		q.call("ExtractPages", func() (interface{}, error) { return manipulate.ExtractPages(in, []int{1, 2, 1}, pw, false) })
		q.call("MergePDFs", func() (interface{}, error) {
			return manipulate.MergePDFs([][]byte{in, in}, [][]byte{pw, pw}, false)
		})
	case 2:
		if v, ok := q.call("ComparePDFs", func() (interface{}, error) { return compare.ComparePDFs(in, in, pw, pw, false) }); ok {
			q.call("reports", func() (interface{}, error) {
				res := v.(*compare.ComparisonResult)
				compare.GenerateReport(res)
				return compare.GenerateJSONReport(res)
			})
		}
	}
	check("package manipulate or compare")
}

// ---- sources ----

// richDoc draws a document of one of the kinds the other checks generate.
func richDoc(c *rt.C, crypt bool) (*doc, string) {
	r := c.R
	switch r.Intn(6) {
	case 0:
		d, _ := sceneDoc(r, 1+r.Intn(3), 40, crypt)
		return d, "content"
	case 1:
		d, _ := formDoc(r, crypt)
		return d, "form"
	case 2:
		return genXFADoc(r, crypt, r.Intn(3) == 0).doc, "xfa"
	case 3:
		return genDoc(r, docOpts{pages: 1 + r.Intn(4), crypt: crypt, setup: func(d *docGen) { d.pageObjects() }}), "objects"
	case 4:
		return genDoc(r, docOpts{pages: 1 + r.Intn(8), crypt: crypt, setup: func(d *docGen) { d.outlines(c) }}), "outlines"
	}
	return genDoc(r, docOpts{pages: 1 + r.Intn(6), crypt: crypt}), "plain"
}

var hostileInts = []int64{0, -1, 1, 2, 3, 7, 255, 256, 65535, 65536, 100000, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, -1 << 63, 99999999, 1 << 40}

var hostileTokens = []string{"<<", ">>", "[", "]", "(", ")", "<", ">", "/", "%", "null", "true", "R", "0 R", "obj", "endobj", "stream\n", "endstream", "xref", "trailer", "startxref", "%%EOF", "\x00", "\xff\xfe", "\r", "BT", "ET", "BI", "ID", "EI", "q", "Q", "Do", "Tj", "TJ", "/Length", "/Filter/FlateDecode", "/Kids[1 0 R]", "/Parent", "/Prev 0", "/Type/XRef", "/W[0 0 0]", "/Index[0 99999999]", "#", "\\", "<feff", "1 0 obj", "99999999 65535 R", "beginbfrange", "<00><ffffffff><0000>", "-", "+.", "1e9", "0000000000 65535 f", "9999999999 00000 n"}

// bend damages bytes.
func bend(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	for n := 1 + r.Intn(1+r.Intn(12)); n > 0 && len(out) > 0; n-- {
		i := r.Intn(len(out))
		switch r.Intn(12) {
		case 0, 1:
			out[i] ^= 1 << r.Intn(8)
		case 2:
			out[i] = byte(r.Intn(256))
		case 3:
			j := min(len(out), i+1+r.Intn(40))
			out = append(out[:i:i], out[j:]...)
		case 4:
			j := min(len(out), i+1+r.Intn(200))
			k := r.Intn(len(out))
			out = append(out[:k:k], append(append([]byte{}, out[i:j]...), out[k:]...)...)
		case 5, 6:
			t := hostileTokens[r.Intn(len(hostileTokens))]
			out = append(out[:i:i], append([]byte(t), out[i:]...)...)
		case 7, 8:
			// another number in place of one
			for k := i; k < len(out); k++ {
				if out[k] >= '0' && out[k] <= '9' {
					e := k
					for e < len(out) && out[e] >= '0' && out[e] <= '9' {
						e++
					}
					t := fmt.Sprint(hostileInts[r.Intn(len(hostileInts))])
					if r.Intn(3) == 0 {
						t = fmt.Sprint(r.Intn(120))
					}
					out = append(out[:k:k], append([]byte(t), out[e:]...)...)
					break
				}
			}
		case 9:
			if r.Intn(4) == 0 {
				out = out[:i]
			}
		case 10:
			// overwrite with a piece of the rest
			j := r.Intn(len(out))
			copy(out[i:min(len(out), i+1+r.Intn(60))], out[j:])
		case 11:
			// the end of the file, where its directory is
			k := max(0, len(out)-1-r.Intn(300))
			out[k] = byte("0123456789 /<>[]\n"[r.Intn(17)])
		}
	}
	return tight(out)
}

// tight gives a slice no spare capacity, so that reading past its end shows.
func tight(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out[:len(b):len(b)]
}

// bendFont lays the tables of a font out in another order, with numbers in
// them replaced and some cut short.
func bendFont(r *rand.Rand, b []byte) []byte {
	type table struct {
		tag  string
		data []byte
	}
	be := binary.BigEndian
	var ts []table
	n := int(be.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		d := b[12+16*i:]
		off, l := be.Uint32(d[8:]), be.Uint32(d[12:])
		ts = append(ts, table{string(d[:4]), tight(b[off : off+l])})
	}
	words := []int{0, 1, 2, 3, 4, 6, 12, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff}
	for k := 1 + r.Intn(3); k > 0; k-- {
		t := &ts[r.Intn(len(ts))]
		if len(t.data) < 2 {
			continue
		}
		switch r.Intn(4) {
		case 0, 1:
			at := 2 * r.Intn(min(len(t.data), []int{12, 40, 1 << 20}[r.Intn(3)])/2)
			v := words[r.Intn(len(words))]
			if r.Intn(3) == 0 {
				v = len(t.data) + r.Intn(7) - 3
			} else if r.Intn(4) == 0 {
				v = int(be.Uint16(t.data[at:])) + r.Intn(5) - 2
			}
			be.PutUint16(t.data[at:], uint16(v))
		case 2:
			t.data = t.data[:r.Intn(len(t.data))]
		case 3:
			t.data = t.data[:len(t.data)-1-r.Intn(min(len(t.data), 4))]
		}
	}
	order := r.Perm(n)
	out := append([]byte{}, b[:12+16*n]...)
	for _, i := range order {
		d := out[12+16*i:]
		l := len(ts[i].data)
		be.PutUint32(d[8:], uint32(len(out)))
		be.PutUint32(d[12:], uint32(l))
		if r.Intn(40) == 0 {
			be.PutUint32(d[8+4*r.Intn(2):], []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(out) + r.Intn(200)), uint32(len(out) + l + 1)}[r.Intn(7)])
		}
		out = append(out, ts[i].data...)
	}
	return tight(out)
}

// twist damages the object tree of a document; the file around it stays valid.
func (d *doc) twist() {
	r := d.r
	refs := []Obj{d.ref(d.rootNum), Ref{0, 0}, Ref{99999, 0}, Ref{1 << 31, 7}, Ref{-1, 0}}
	var nums []int
	for n := range d.objs {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	for _, n := range nums {
		refs = append(refs, d.ref(n))
	}
	var pool []Obj
	hostile := func(self Ref) Obj {
		switch r.Intn(16) {
		case 0:
			return nil
		case 1, 2:
			return Int(hostileInts[r.Intn(len(hostileInts))])
		case 3:
			return Real([]float64{1e38, -1e38, 1e300, 0.0000001, -0.5, 1e15}[r.Intn(6)])
		case 4:
			return Str(d.g.str())
		case 5:
			return Name([]string{"", "FlateDecode", "DCTDecode", "LZWDecode", "Page", "Pages", "Image", "Form", "Catalog", "XRef", "ObjStm", "Type0", "Type3", "Identity-H", "WinAnsiEncoding", "Btn", "Tx", "Ch", "Sig", "Link", "Widget", "Crypt", "Identity", "RunLengthDecode", "A", "ASCII85Decode", "DeviceRGB", "Indexed", "GoTo", "URI"}[r.Intn(30)])
		case 6:
			return Arr{}
		case 7:
			return NewDict()
		case 8, 9:
			return self
		case 10, 11:
			return refs[r.Intn(len(refs))]
		case 12:
			a := Arr{}
			for n := 1 + r.Intn(2000); n > 0; n-- {
				a = append(a, refs[r.Intn(len(refs))])
			}
			return a
		case 13:
			var o Obj = Arr{}
			for n := r.Intn(400); n > 0; n-- {
				if n%3 == 0 {
					o = NewDict("Kids", o)
				} else {
					o = Arr{o}
				}
			}
			return o
		case 14:
			return Arr{self, self, Int(0)}
		}
		if len(pool) > 0 {
			return pool[r.Intn(len(pool))]
		}
		return Str("")
	}
	done := map[int]Obj{}
	for n := 1 + r.Intn(6); n > 0; n-- {
		k := nums[r.Intn(len(nums))]
		if r.Intn(4) == 0 {
			k = d.rootNum
		} else if r.Intn(4) == 0 && len(d.pages) > 0 {
			k = d.pages[r.Intn(len(d.pages))]
		} else if r.Intn(6) == 0 && len(d.nodes) > 0 {
			k = d.nodes[r.Intn(len(d.nodes))]
		}
		o, ok := done[k]
		if !ok {
			o = d.objs[k]
		}
		// choose a place in the value
		var spots int
		var walk func(o Obj, depth int) Obj
		pick := -1
		at := 0
		walk = func(o Obj, depth int) Obj {
			if at == pick {
				at++
				return hostile(d.ref(k))
			}
			at++
			if len(pool) < 200 && depth > 0 {
				pool = append(pool, o)
			}
			switch o := o.(type) {
			case Arr:
				out := Arr{}
				for _, v := range o {
					out = append(out, walk(v, depth+1))
				}
				return out
			case *Dict:
				out := o.Copy()
				for _, key := range o.Keys {
					out.Set(key, walk(o.Get(key), depth+1))
				}
				return out
			case *Stream:
				at-- // counted by the dictionary
				return &Stream{D: asDict(walk(o.D, depth)), Raw: o.Raw}
			}
			return o
		}
		walk(o, 0)
		spots = at
		at = 0
		pick = r.Intn(spots)
		if pick == 0 && r.Intn(4) != 0 && spots > 1 {
			pick = 1 + r.Intn(spots-1)
		}
		o = walk(o, 0)
		if s, ok := o.(*Stream); ok && r.Intn(2) == 0 {
			s.Raw = bend(r, s.Raw)
		}
		if dd := asDict(o); dd != nil && r.Intn(4) == 0 {
			// an entry that means something where it was not
			keys := []string{"Kids", "Parent", "Count", "Type", "Contents", "Resources", "Annots", "MediaBox", "Rotate", "AcroForm", "Fields", "Outlines", "First", "Next", "Prev", "Last", "Filter", "DecodeParms", "Length", "Extends", "N", "First", "W", "Index", "Size", "Widths", "FirstChar", "LastChar", "ToUnicode", "Encoding", "DescendantFonts", "Width", "Height", "BitsPerComponent", "ColorSpace", "SMask", "Opt", "V", "FT", "T", "DA", "XFA", "AP", "N", "QuadPoints", "Rect", "Dest", "A", "Names", "Dests"}
			dd.Set(keys[r.Intn(len(keys))], hostile(d.ref(k)))
		}
		done[k] = o
	}
	for i := range d.S.Revs {
		objs := d.S.Revs[i].Objs
		for j := range objs {
			if o, ok := done[objs[j].N]; ok && (i == len(d.S.Revs)-1 || r.Intn(2) == 0) {
				objs[j].O = o
				if r.Intn(8) == 0 {
					objs[j].O = nil
					objs[j].InStm = false
					objs[j].Body = bend(r, Ser(o, Style{R: r}))
				}
			}
		}
		if r.Intn(5) == 0 {
			e := NewDict()
			for n := 1 + r.Intn(2); n > 0; n-- {
				k := []string{"Prev", "Size", "Root", "Info", "ID", "Encrypt", "XRefStm", "W", "Index", "Filter", "DecodeParms", "Type"}[r.Intn(12)]
				e.Set(k, hostile(d.ref(d.rootNum)))
			}
			d.S.Revs[i].Extra = e
		}
	}
	d.B = d.S.Build()
}

func asDict(o Obj) *Dict {
	switch o := o.(type) {
	case *Dict:
		return o
	case *Stream:
		return o.D
	}
	return NewDict()
}

func robustCase(kind string) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		crypt := kind == "encrypted" || r.Intn(8) == 0
		d, src := richDoc(c, crypt)
		if r.Intn(2) == 0 {
			d.S.XRefRaw, d.S.ObjStmRaw, d.S.Predictor = true, r.Intn(2) == 0, 0
			d.B = d.S.Build()
		}
		var in []byte
		switch kind {
		case "bytes", "encrypted":
			in = bend(r, d.B.B)
		case "ends":
			// only the directory parts are damaged
			cut := max(0, len(d.B.B)-200-r.Intn(600))
			if len(d.B.StartX) > 0 && r.Intn(2) == 0 {
				cut = d.B.StartX[len(d.B.StartX)-1]
			}
			in = append(append([]byte{}, d.B.B[:cut]...), bend(r, d.B.B[cut:])...)
		case "objects":
			d.twist()
			in = d.B.B
		case "encryption":
			in = d.B.B
			i := bytes.Index(in, []byte("/Standard"))
			if i < 0 {
				return
			}
			a, b := max(0, i-300), min(len(in), i+400)
			in = append(append(append([]byte{}, in[:a]...), bend(r, in[a:b])...), in[b:]...)
		case "truncated":
			in = append([]byte{}, d.B.B[:r.Intn(len(d.B.B))]...)
			if r.Intn(2) == 0 && len(d.B.B) > 400 {
				in = append(in, d.B.B[len(d.B.B)-r.Intn(400):]...)
			}
		}
		c.Save("in.pdf", in)
		q := &rob{c: c}
		q.readAll(in, d.PW, r)
		q.done()
		c.Sample("%s, %s, %d bytes: %d calls, %d refused, at most %d kB allocated", kind, src, len(in), q.calls, q.errs, q.most>>10)
	}
}

// partsCase feeds damaged parts to the functions that take them.
func partsCase(kinds ...int) func(c *rt.C) {
	return func(c *rt.C) { parts(c, kinds) }
}

func parts(c *rt.C, kinds []int) {
	r := c.R
	q := &rob{c: c}
	mess := func() []byte {
		switch r.Intn(3) {
		case 0:
			return rbytes(r, r.Intn(300))
		case 1:
			var b bytes.Buffer
			for n := r.Intn(40); n > 0; n-- {
				b.WriteString(hostileTokens[r.Intn(len(hostileTokens))])
				if r.Intn(2) == 0 {
					b.WriteByte(' ')
				}
				if r.Intn(4) == 0 {
					fmt.Fprint(&b, hostileInts[r.Intn(len(hostileInts))])
				}
			}
			return b.Bytes()
		}
		return bend(r, []byte(randWords(r, 20)))
	}
	for round := 0; round < 8; round++ {
		switch kinds[r.Intn(len(kinds))] {
		case 0: // filters
			data := rbytes(r, r.Intn(600))
			var in []byte
			switch r.Intn(6) {
			case 0:
				in = Zlib(data, 6)
			case 1:
				in = AHxEncode(data)
			case 2:
				in = A85Encode(data, true)
			case 3:
				in = mess()
			case 4:
				in = RLEncode(data, r)
			case 5:
				in = data
			}
			if in = bend(r, append(in, 0)); r.Intn(3) == 0 {
				in = tight(in[:r.Intn(len(in)+1)])
			}
			c.Save("filter", in)
			for _, n := range []string{"FlateDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "DCTDecode", "/FlateDecode", "LZWDecode", "", "Fl"} {
				q.call("DecodeFilter "+n, func() (interface{}, error) { return parse.DecodeFilter(in, n) })
			}
			q.call("encoders", func() (interface{}, error) {
				parse.EncodeASCII85(in)
				parse.EncodeASCIIHex(in)
				parse.EncodeRunLength(in)
				parse.EncodeDCTDecode(in)
				return void, nil
			})
			q.call("DecompressStream", func() (interface{}, error) { b, _, err := xfa.DecompressStream(in); return b, err })
		case 1: // fonts: maps
			fd := extract.NewFontDecoder("F")
			m := mess()
			if r.Intn(2) == 0 {
				dg := &docGen{r: r}
				mm := map[int]string{}
				for n := r.Intn(20); n > 0; n-- {
					mm[r.Intn(65536)] = string(rune(32 + r.Intn(5000)))
				}
				m = bend(r, dg.cmap(mm, 1+r.Intn(2)))
			}
			c.Save("cmap", m)
			q.call("FontDecoder", func() (interface{}, error) {
				fd.ParseToUnicodeCMap(string(m))
				fd.ParseDifferencesArray(string(mess()))
				fd.SetBaseEncoding(string(mess()))
				fd.SetDifferences(int(hostileInts[r.Intn(len(hostileInts))]), "uni"+string(mess()))
				fd.Decode(rbytes(r, r.Intn(50)))
				fd.DecodeHex(string(mess()))
				return void, nil
			})
		case 2: // font files
			t := randTTF(r)
			in := bendFont(r, t.b)
			switch r.Intn(5) {
			case 0:
				in = bend(r, t.b)
			case 1:
				// the table directory
				in = tight(append(bend(r, t.b[:min(len(t.b), 12+16*10)]), t.b[min(len(t.b), 12+16*10):]...))
			case 2:
				in = bend(r, in)
			}
			c.Save("font.ttf", in)
			q.call("ParseTTF", func() (interface{}, error) { return font.ParseTTF(in) })
			if v, ok := q.call("NewFont", func() (interface{}, error) { return font.NewFont("F", in) }); ok {
				f := v.(*font.Font)
				q.call("Font", func() (interface{}, error) {
					f.AddString("Hello, wörld € 123 " + string(rune(r.Intn(70000))))
					f.GetWidths()
					f.GetSubsetGlyphs()
					return void, nil
				})
				q.call("CreateSubsetFont", func() (interface{}, error) { return f.CreateSubsetFont() })
				q.call("embedding a font", func() (interface{}, error) {
					b := write.NewSimplePDFBuilder()
					p := b.AddPage(write.PageSizeA4)
					n, err := p.AddEmbeddedFont(f)
					if err != nil {
						return nil, err
					}
					p.Content().BeginText().SetFont(n, 12).ShowText("Hello").EndText()
					b.FinalizePage(p)
					return b.Bytes()
				})
			}
		case 3: // images
			im := image.NewNRGBA(image.Rect(0, 0, 1+r.Intn(9), 1+r.Intn(9)))
			for i := range im.Pix {
				im.Pix[i] = byte(r.Intn(256))
			}
			im.Set(0, 0, color.NRGBA{1, 2, 3, 4})
			var b bytes.Buffer
			png.Encode(&b, im)
			in := bend(r, b.Bytes())
			jp := bend(r, []byte("\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x0b\x08\x00\x10\x00\x10\x01\x01\x11\x00\xff\xda\x00\x08\x01\x01\x00\x00?\x00abc\xff\xd9"))
			c.Save("image.png", in)
			c.Save("image.jpg", jp)
			w := write.NewPDFWriter()
			q.call("AddImage", func() (interface{}, error) { return w.AddImage(in, "Im1") })
			q.call("AddJPEGImage", func() (interface{}, error) { return w.AddJPEGImage(jp, "Im2") })
			for k := 0; k <= len(jp); k++ {
				q.call("AddJPEGImage", func() (interface{}, error) { return w.AddJPEGImage(jp[:k:k], "Im4") })
			}
			q.call("AddImage of a JPEG", func() (interface{}, error) { return w.AddImage(jp, "Im3") })
		case 4, 5: // XFA texts
			var src string
			if r.Intn(2) == 0 {
				_, _, _, src = makeDatasets(r)
			} else {
				src = makeTemplate(r).src
			}
			s := string(bend(r, []byte(src)))
			if r.Intn(4) == 0 {
				s = strings.Repeat("<subform name=\"a\"><field>", r.Intn(3000)) + s
			}
			c.Save("in.xml", []byte(s))
			q.call("ParseXFAForm", func() (interface{}, error) { return xfa.ParseXFAForm(s, false) })
			q.call("ParseXFADatasets", func() (interface{}, error) { return xfa.ParseXFADatasets(s, false) })
			q.call("ParseXFAFields", func() (interface{}, error) { return parse.ParseXFAFields(s, false) })
			q.call("ParseXFAConfig", func() (interface{}, error) { return xfa.ParseXFAConfig(s, false) })
			q.call("ParseXFALocaleSet", func() (interface{}, error) { return xfa.ParseXFALocaleSet(s, false) })
			q.call("ParseXFAConnectionSet", func() (interface{}, error) { return xfa.ParseXFAConnectionSet(s, false) })
			q.call("ParseXFAStylesheet", func() (interface{}, error) { return xfa.ParseXFAStylesheet(s, false) })
			data := types.FormData{"total": "<x>", "name": 3}
			q.call("UpdateXFAValues", func() (interface{}, error) { return xfa.UpdateXFAValues(s, data, false) })
			q.call("UpdateXFAFieldValues", func() (interface{}, error) { return xfa.UpdateXFAFieldValues(s, data, false) })
		case 6: // encryption parts
			b := func(n int) []byte {
				switch r.Intn(5) {
				case 0:
					return nil
				case 1:
					return rbytes(r, r.Intn(140))
				}
				return rbytes(r, n)
			}
			e := &types.PDFEncryption{V: r.Intn(8) - 1, R: r.Intn(9) - 1, KeyLength: []int{0, 5, 16, 32, -1, 1 << 30, 7, 128, 17}[r.Intn(9)], Filter: "Standard",
				O: b(48), U: b(48), UE: b(32), OE: b(32), P: int32(r.Uint32()), EncryptKey: b(16),
				StreamFilter: []string{"", "V2", "AESV2", "AESV3", "Identity", "Zed"}[r.Intn(6)], StringFilter: []string{"", "V2", "AESV2", "AESV3", "Identity", "Zed"}[r.Intn(6)]}
			e.Version, e.Revision = e.V, e.R
			pw, id := rbytes(r, r.Intn(200)), b(16)
			q.call("DeriveEncryptionKey", func() (interface{}, error) { return encrypt.DeriveEncryptionKey(pw, e, id, false) })
			q.call("ComputeUValue", func() (interface{}, error) { return encrypt.ComputeUValue(b(16), e, id, false) })
			q.call("DeriveOwnerKey", func() (interface{}, error) { return encrypt.DeriveOwnerKey(pw, e, id, false) })
			q.call("DeriveUserKeyFromOwner", func() (interface{}, error) { return encrypt.DeriveUserKeyFromOwner(b(16), e, false) })
			q.call("UnwrapUserKeyV5", func() (interface{}, error) { return encrypt.UnwrapUserKeyV5(b(32), e, false) })
			q.call("UnwrapOwnerKeyV5", func() (interface{}, error) { return encrypt.UnwrapOwnerKeyV5(b(32), e, false) })
			q.call("DecryptObject", func() (interface{}, error) { return encrypt.DecryptObject(mess(), r.Intn(9), 0, e) })
			q.call("DecryptStrings", func() (interface{}, error) { return encrypt.DecryptStrings(mess(), r.Intn(9), 0, e), nil })
			q.call("DecryptStream", func() (interface{}, error) { return encrypt.DecryptStream(mess(), mess(), r.Intn(9), 0, e) })
			q.call("EncryptStrings", func() (interface{}, error) { return encrypt.EncryptStrings(mess(), r.Intn(9), 0, e) })
			q.call("EncryptStream", func() (interface{}, error) { return encrypt.EncryptStream(mess(), mess(), r.Intn(9), 0, e) })
			if e.EncryptKey != nil {
				q.call("HashV5", func() (interface{}, error) { return encrypt.HashV5(pw, b(8), b(48), 5+r.Intn(2)), nil })
			}
		case 7: // anything as a file
			m := mess()
			if r.Intn(2) == 0 {
				m = append([]byte("%PDF-1.7\n"), m...)
			}
			if r.Intn(2) == 0 {
				m = append(m, fmt.Sprintf("\nstartxref\n%d\n%%%%EOF\n", r.Intn(len(m)+3))...)
			}
			c.Save("mess.pdf", m)
			q.readAll(m, nil, r)
		case 8: // validation of anything
			f := &acroform.Field{FT: []string{"Tx", "Btn", "Ch", "Sig", ""}[r.Intn(5)], Ff: r.Intn(1 << 27), MaxLen: r.Intn(5) - 1}
			vals := []interface{}{nil, "", "x", 1, -1.5, true, []string{"a"}, []interface{}{nil, 1}, map[string]interface{}{"a": 1}, struct{}{}, []byte("x"), int64(1) << 62}
			q.call("ValidateField", func() (interface{}, error) { return void, acroform.ValidateField(f, vals[r.Intn(len(vals))]) })
			qu := &types.Question{Name: "q", Type: respTypes[r.Intn(len(respTypes))], Required: r.Intn(2) == 0, Validation: &types.ValidationRules{Pattern: string(mess())}}
			q.call("ValidateFieldValue", func() (interface{}, error) { return void, acroform.ValidateFieldValue(qu, vals[r.Intn(len(vals))]) })
		}
	}
	q.done()
	c.Sample("%d calls, %d refused, at most %d kB allocated", q.calls, q.errs, q.most>>10)
}

// deepCase nests structures far deeper than any document does.
func deepCase(c *rt.C) {
	r := c.R
	depth := 1000 << r.Intn(11)
	open, shut := "[", "]"
	switch r.Intn(4) {
	case 0:
		open, shut = "<</K", ">>"
	case 1:
		open, shut = "(", ")"
	case 2:
		open, shut = "[<</A", ">>]"
	}
	deep := strings.Repeat(open, depth)
	switch r.Intn(3) {
	case 0:
		deep += "0"
	case 1:
		deep += "0" + strings.Repeat(shut, depth)
	case 2:
		deep += "0" + strings.Repeat(shut, depth/2)
	}
	var b bytes.Buffer
	offs := []int{}
	add := func(s string) {
		offs = append(offs, b.Len())
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", len(offs), s)
	}
	where := []string{"catalog", "page", "contents", "fields", "outline", "info", "resources", "object"}[r.Intn(8)]
	at := func(w string) string {
		if w == where {
			return deep
		}
		return "null"
	}
	b.WriteString("%PDF-1.7\n")
	add("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields " + at("fields") + " >> /Outlines " + at("outline") + " /X " + at("catalog") + " >>")
	add("<< /Type /Pages /Kids [3 0 R] /Count 1 >>")
	add("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents 4 0 R /Resources " + at("resources") + " /Annots " + at("page") + " >>")
	body := "BT " + at("contents") + " Tj ET"
	if where == "contents" && r.Intn(3) == 0 {
		body = strings.Repeat("q ", depth) + strings.Repeat("BT ", depth)
	}
	add(fmt.Sprintf("<< /Length %d >>\nstream\n%s\nendstream", len(body), body))
	add(at("object"))
	add("<< /Title " + at("info") + " >>")
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(offs)+1)
	for _, o := range offs {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R /Info 6 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(offs)+1, x)
	in := b.Bytes()
	c.Save("in.pdf", in)
	q := &rob{c: c}
	q.readAll(in, nil, r)
	q.done()
	c.Sample("%d levels of %q in the %s: %d calls, %d refused", depth, open, where, q.calls, q.errs)
}

// sharedCase builds small files whose structures refer to the same parts again
// and again, so that following every path takes time exponential in the depth,
// or in circles, so that it never ends.
func sharedCase(c *rt.C) {
	r := c.R
	depth := []int{1, 2, 12, 28, 40, 60}[r.Intn(6)]
	fan := 1 + r.Intn(3)
	if depth > 2 && fan > 2 {
		fan = 2
	}
	ring := r.Intn(3) == 0 // the last level leads back
	where := []string{"pages", "outline", "fields", "forms", "names", "length", "annots", "prev", "extends", "values", "smask", "contents", "parent", "fonts"}[r.Intn(14)]
	var b bytes.Buffer
	offs := map[int]int{}
	next := 10
	put := func(n int, s string) {
		offs[n] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", n, s)
	}
	// levels numbers one object per level and writes each with references to
	// the next one
	levels := func(first int, node func(self int, kids string, n int) string, leaf func(self int) string) {
		for i := 0; i < depth; i++ {
			self := first + i
			n := 1 + r.Intn(fan)
			if depth > 2 && fan > 1 {
				n = 2
			}
			kid := self + 1
			if i == depth-1 {
				if !ring {
					put(self, leaf(self))
					continue
				}
				kid = first + r.Intn(depth)
			}
			put(self, node(self, strings.TrimSpace(strings.Repeat(fmt.Sprintf("%d 0 R ", kid), n)), n))
		}
		next = first + depth
	}
	stream := func(dict, data string) string {
		return fmt.Sprintf("<< %s /Length %d >>\nstream\n%s\nendstream", dict, len(data), data)
	}
	b.WriteString("%PDF-1.7\n")
	cat, page, trailer := "", "/Contents 4 0 R", ""
	kids := "[3 0 R]"
	content := stream("", "BT /F1 12 Tf 10 10 Td (hi) Tj ET")
	switch where {
	case "pages":
		kids = "[10 0 R]"
		levels(10, func(self int, k string, n int) string {
			return "<< /Type /Pages /Parent 2 0 R /Count 2 /Kids [" + k + "] >>"
		}, func(self int) string { return "<< /Type /Page /MediaBox [0 0 9 9] /Contents 4 0 R >>" })
	case "parent":
		page += " /Parent 10 0 R"
		levels(10, func(self int, k string, n int) string {
			return "<< /Type /Pages /Parent " + strings.Fields(k)[0] + " 0 R >>"
		}, func(self int) string { return "<< /Type /Pages /MediaBox [0 0 9 9] >>" })
	case "outline":
		cat = "/Outlines 10 0 R"
		both := r.Intn(2) == 0
		levels(10, func(self int, k string, n int) string {
			s := "<< /Title (x) /Parent 10 0 R /First " + strings.Fields(k)[0] + " 0 R /Last " + strings.Fields(k)[0] + " 0 R"
			if both {
				s += " /Next " + strings.Fields(k)[0] + " 0 R"
			}
			return s + " >>"
		}, func(self int) string { return "<< /Title (leaf) /Dest [3 0 R /Fit] >>" })
	case "fields":
		cat = "/AcroForm << /Fields [10 0 R 10 0 R] >>"
		levels(10, func(self int, k string, n int) string { return "<< /T (a) /Kids [" + k + "] >>" }, func(self int) string { return "<< /T (b) /FT /Tx /V (x) /Rect [0 0 9 9] /Subtype /Widget >>" })
	case "forms":
		page += " /Resources << /XObject << /X 10 0 R >> >>"
		content = stream("", "/X Do /X Do")
		levels(10, func(self int, k string, n int) string {
			return stream("/Type /XObject /Subtype /Form /BBox [0 0 9 9] /Resources << /XObject << /X "+strings.Fields(k)[0]+" 0 R >> >>", strings.Repeat("/X Do ", n))
		}, func(self int) string {
			return stream("/Type /XObject /Subtype /Form /BBox [0 0 9 9]", "BT (leaf) Tj ET")
		})
	case "names":
		cat = "/Names << /Dests 10 0 R >> /Outlines 5 0 R"
		put(5, "<< /First 6 0 R /Last 6 0 R >>")
		put(6, "<< /Title (t) /Dest (zz) /Parent 5 0 R >>")
		levels(10, func(self int, k string, n int) string { return "<< /Limits [(a) (zzz)] /Kids [" + k + "] >>" }, func(self int) string { return "<< /Limits [(a) (b)] /Names [(a) [3 0 R /Fit]] >>" })
	case "length":
		content = "<< /Length 10 0 R >>\nstream\nBT (x) Tj ET\nendstream"
		levels(10, func(self int, k string, n int) string { return strings.Fields(k)[0] + " 0 R" }, func(self int) string { return "12" })
	case "annots":
		page += " /Annots [10 0 R 10 0 R]"
		levels(10, func(self int, k string, n int) string {
			q := strings.Fields(k)[0] + " 0 R"
			return "<< /Type /Annot /Subtype /Text /Rect [0 0 9 9] /Popup " + q + " /Parent " + q + " /IRT " + q + " /A << /S /URI /URI (u) /Next [" + k + "] >> >>"
		}, func(self int) string { return "<< /Type /Annot /Subtype /Link /Rect [0 0 9 9] /Dest [3 0 R /Fit] >>" })
	case "values":
		page += " /Rotate 10 0 R /MediaBox 10 0 R /Resources 10 0 R"
		cat = "/Lang 10 0 R /AcroForm 10 0 R /Outlines 10 0 R"
		levels(10, func(self int, k string, n int) string {
			if n > 1 {
				return "[" + k + "]"
			}
			return k
		}, func(self int) string { return "[0 0 9 9]" })
	case "smask":
		page += " /Resources << /XObject << /X 10 0 R >> /Pattern << /P 10 0 R >> /ExtGState << /G << /SMask 10 0 R >> >> >>"
		content = stream("", "/X Do")
		levels(10, func(self int, k string, n int) string {
			q := strings.Fields(k)[0] + " 0 R"
			return stream("/Type /XObject /Subtype /Image /Width 1 /Height 1 /BitsPerComponent 8 /ColorSpace [/Indexed "+q+" 0 "+q+"] /SMask "+q+" /Mask "+q+" /DecodeParms << /JBIG2Globals "+q+" >>", "a")
		}, func(self int) string {
			return stream("/Subtype /Image /Width 1 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceGray", "a")
		})
	case "contents":
		page = "/Contents [10 0 R 10 0 R]"
		levels(10, func(self int, k string, n int) string { return "[" + k + "]" }, func(self int) string { return stream("", "BT (leaf) Tj ET") })
	case "fonts":
		page += " /Resources << /Font << /F1 10 0 R >> >>"
		levels(10, func(self int, k string, n int) string {
			return "<< /Type /Font /Subtype /Type0 /BaseFont /F /Encoding " + k + " /ToUnicode " + k + " /DescendantFonts [" + k + "] >>"
		}, func(self int) string { return "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>" })
	}
	put(1, "<< /Type /Catalog /Pages 2 0 R "+cat+" >>")
	put(2, "<< /Type /Pages /Kids "+kids+" /Count 1 >>")
	put(3, "<< /Type /Page /Parent 2 0 R "+page+" >>")
	put(4, content)
	table := func(trailer string) int {
		x := b.Len()
		b.WriteString("xref\n")
		var ns []int
		for n := range offs {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		for _, n := range ns {
			fmt.Fprintf(&b, "%d 1\n%010d 00000 n \n", n, offs[n])
		}
		fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R %s >>\n", next+2, trailer)
		return x
	}
	var x int
	switch where {
	case "prev":
		// a chain of sections, forward or in a circle
		var xs []int
		width := len(fmt.Sprint(b.Len())) + 3
		base := b.Len()
		mark := base
		for i := 0; i <= depth; i++ {
			prev := mark
			if i == 0 {
				prev = base + r.Intn(2000)
			}
			mark = b.Len()
			xs = append(xs, table(fmt.Sprintf("/Prev %0*d", width, prev)))
			fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", xs[len(xs)-1])
		}
		x = xs[len(xs)-1]
		if ring {
			// the oldest section names the newest as its predecessor
			s := b.Bytes()
			at := bytes.Index(s[xs[0]:], []byte("/Prev ")) + xs[0] + 6
			copy(s[at:at+width], fmt.Sprintf("%0*d", width, x))
		}
	case "extends":
		for i := 0; i < depth; i++ {
			k := 10 + (i+1)%depth
			put(10+i, stream(fmt.Sprintf("/Type /ObjStm /N 1 /First 5 /Extends %d 0 R", k), fmt.Sprintf("%-5s%s", fmt.Sprintf("%d 0", k), "<</A 1>>")))
		}
		next = 10 + depth
		x = table("")
	default:
		x = table(trailer)
	}
	fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", x)
	in := b.Bytes()
	c.Save("in.pdf", in)
	q := &rob{c: c}
	q.readAll(in, nil, r)
	q.done()
	c.Sample("%s, %d levels of %d references, ring %v: %d calls, %d refused, at most %d kB allocated", where, depth, fan, ring, q.calls, q.errs, q.most>>10)
}

func init() {
	rt.Register(&rt.Check{ID: "P24", Title: "Damaged input gives an error or a result, never a crash",
		Rule:    "a call on damaged input returned; panics, lost workers, CPU time and allocation were watched",
		HangCPU: 40, MaxAS: 12 << 30,
		Families: []rt.Family{
			{Name: "bytes", Quick: 1200, Thorough: 14400, Run: robustCase("bytes")},
			{Name: "ends", Quick: 800, Thorough: 9600, Run: robustCase("ends")},
			{Name: "objects", Quick: 1600, Thorough: 19200, Run: robustCase("objects")},
			{Name: "encrypted", Quick: 300, Thorough: 3600, Run: robustCase("encrypted")},
			{Name: "encryption", Quick: 400, Thorough: 4800, Run: robustCase("encryption")},
			{Name: "truncated", Quick: 400, Thorough: 4800, Run: robustCase("truncated")},
			{Name: "parts", Quick: 1200, Thorough: 14400, Run: partsCase(1, 3, 4, 5, 6, 7, 8)},
			{Name: "filters", Quick: 2000, Thorough: 24000, Run: partsCase(0)},
			{Name: "fonts", Quick: 1500, Thorough: 18000, Run: partsCase(2)},
			{Name: "shared", Quick: 400, Thorough: 4800, Run: sharedCase},
			{Name: "deep", Quick: 60, Thorough: 720, Run: deepCase},
		}})
}
