package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// entry is a function that reads a document with a password.
type entry struct {
	name string
	form bool // for forms only
	run  func(b, pw []byte) ([]interface{}, error)
}

func entries(other, otherPW []byte, dir string) []entry {
	data := types.FormData{"x": "y"}
	one := func(v interface{}, err error) ([]interface{}, error) { return []interface{}{v}, err }
	return []entry{
		{"OpenWithOptions", false, func(b, pw []byte) ([]interface{}, error) {
			return one(parse.OpenWithOptions(b, parse.ParseOptions{Password: pw}))
		}},
		{"OpenWithOptions, byte-perfect", false, func(b, pw []byte) ([]interface{}, error) {
			return one(parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: true}))
		}},
		{"DecryptPDF", false, func(b, pw []byte) ([]interface{}, error) {
			x, e, err := encrypt.DecryptPDF(b, pw, false)
			return []interface{}{x, e}, err
		}},
		{"ExtractContent", false, func(b, pw []byte) ([]interface{}, error) { return one(extract.ExtractContent(b, pw, false)) }},
		{"ExtractContentToJSON", false, func(b, pw []byte) ([]interface{}, error) {
			return one(extract.ExtractContentToJSON(b, pw, false))
		}},
		{"ExtractAllImages", false, func(b, pw []byte) ([]interface{}, error) { return one(extract.ExtractAllImages(b, pw, false)) }},
		{"ExtractPageImages", false, func(b, pw []byte) ([]interface{}, error) { return one(extract.ExtractPageImages(b, pw, false)) }},
		{"ExtractToDirectory", false, func(b, pw []byte) ([]interface{}, error) {
			return one(extract.ExtractToDirectory(b, pw, dir, false))
		}},
		{"NewPDFManipulator", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.NewPDFManipulator(b, pw, false))
		}},
		{"ExtractPages", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.ExtractPages(b, []int{1}, pw, false))
		}},
		{"SplitPDFByPageCount", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.SplitPDFByPageCount(b, 1, pw, false))
		}},
		{"SplitPDF", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.SplitPDF(b, []manipulate.PageRange{{Start: 1, End: 1}}, pw, false))
		}},
		{"MergePDFs", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.MergePDFs([][]byte{b}, [][]byte{pw}, false))
		}},
		{"MergePDFs, second", false, func(b, pw []byte) ([]interface{}, error) {
			return one(manipulate.MergePDFs([][]byte{other, b}, [][]byte{otherPW, pw}, false))
		}},
		{"ComparePDFs", false, func(b, pw []byte) ([]interface{}, error) {
			return one(compare.ComparePDFs(b, other, pw, otherPW, false))
		}},
		{"ComparePDFs, second", false, func(b, pw []byte) ([]interface{}, error) {
			return one(compare.ComparePDFs(other, b, otherPW, pw, false))
		}},
		{"ExtractAcroForm", true, func(b, pw []byte) ([]interface{}, error) { return one(acroform.ExtractAcroForm(b, pw, false)) }},
		{"FillForm", true, func(b, pw []byte) ([]interface{}, error) { return one(acroform.FillForm(b, data, pw, false)) }},
		{"FillFormFields", true, func(b, pw []byte) ([]interface{}, error) { return one(acroform.FillFormFields(b, data, pw, false)) }},
		{"FlattenForm", true, func(b, pw []byte) ([]interface{}, error) { return one(acroform.FlattenForm(b, pw, false)) }},
		{"forms.Detect", true, func(b, pw []byte) ([]interface{}, error) {
			t, err := forms.Detect(b, pw, false)
			if t == forms.FormTypeUnknown {
				return nil, err
			}
			return one(&t, err)
		}},
		{"forms.Extract", true, func(b, pw []byte) ([]interface{}, error) { return one(forms.Extract(b, pw, false)) }},
		{"forms.ExtractXFA", true, func(b, pw []byte) ([]interface{}, error) {
			x, y, err := forms.ExtractXFA(b, pw, false)
			return []interface{}{x, y}, err
		}},
	}
}

func emptyResult(v interface{}) bool {
	if v == nil {
		return true
	}
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Map, reflect.Slice:
		return x.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return x.IsNil()
	}
	return x.IsZero()
}

// chain lists the errors err is made of, outermost first.
func chain(err error) []error {
	if err == nil {
		return nil
	}
	out := []error{err}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		out = append(out, chain(x.Unwrap())...)
	case interface{ Unwrap() []error }:
		for _, e := range x.Unwrap() {
			out = append(out, chain(e)...)
		}
	}
	return out
}

var sentinels = map[types.PDFErrorCode]error{
	types.ErrCodeInvalidPDF: types.ErrInvalidPDF, types.ErrCodeMalformedPDF: types.ErrMalformedPDF, types.ErrCodeUnsupportedPDF: types.ErrUnsupportedPDF,
	types.ErrCodeObjectNotFound: types.ErrObjectNotFound, types.ErrCodeInvalidObject: types.ErrInvalidObject, types.ErrCodeStreamError: types.ErrStreamError,
	types.ErrCodeXRefError: types.ErrXRefError, types.ErrCodeEncrypted: types.ErrEncrypted, types.ErrCodeDecryptionFailed: types.ErrDecryptionFailed,
	types.ErrCodeWrongPassword: types.ErrWrongPassword, types.ErrCodeUnsupportedCrypto: types.ErrUnsupportedCrypto, types.ErrCodeNoForms: types.ErrNoForms,
	types.ErrCodeInvalidForm: types.ErrInvalidForm, types.ErrCodeFieldNotFound: types.ErrFieldNotFound, types.ErrCodeInvalidValue: types.ErrInvalidValue,
	types.ErrCodeValidationError: types.ErrValidationError, types.ErrCodeNoContent: types.ErrNoContent, types.ErrCodeExtractionError: types.ErrExtractionError,
	types.ErrCodeFontError: types.ErrFontError, types.ErrCodeImageError: types.ErrImageError, types.ErrCodeWriteError: types.ErrWriteError,
	types.ErrCodeInvalidInput: types.ErrInvalidInput, types.ErrCodeIOError: types.ErrIOError,
}

// helpers checks what the package's functions say about an error against
// what it is made of.
func helpers(c *rt.C, what string, err error) {
	codes := map[types.PDFErrorCode]bool{}
	var first *types.PDFError
	for _, e := range chain(err) {
		if p, ok := e.(*types.PDFError); ok {
			codes[p.Code] = true
			if first == nil {
				first = p
			}
		}
	}
	for code, s := range sentinels {
		if errors.Is(err, s) != codes[code] {
			c.Failf("%s: errors.Is(%v, %s) is %v", what, err, code, !codes[code])
		}
	}
	p, ok := types.IsPDFError(err)
	if ok != (first != nil) || ok && p != first {
		c.Failf("%s: IsPDFError(%v) gives %v, %v", what, err, p, ok)
	}
	code, ok := types.GetErrorCode(err)
	if ok != (first != nil) || ok && code != first.Code {
		c.Failf("%s: GetErrorCode(%v) gives %q, %v", what, err, code, ok)
	}
	is := func(l ...types.PDFErrorCode) bool {
		for _, x := range l {
			if first != nil && first.Code == x {
				return true
			}
		}
		return false
	}
	if got, want := types.IsNotFound(err), is(types.ErrCodeObjectNotFound, types.ErrCodeFieldNotFound); got != want {
		c.Failf("%s: IsNotFound(%v) is %v", what, err, got)
	}
	if got, want := types.IsEncryptionError(err), is(types.ErrCodeEncrypted, types.ErrCodeDecryptionFailed, types.ErrCodeWrongPassword, types.ErrCodeUnsupportedCrypto); got != want {
		c.Failf("%s: IsEncryptionError(%v) is %v", what, err, got)
	}
	if got, want := types.IsValidationError(err), is(types.ErrCodeValidationError, types.ErrCodeInvalidValue); got != want {
		c.Failf("%s: IsValidationError(%v) is %v", what, err, got)
	}
}

// refusals runs every entry on a document that must be refused.
func refusals(c *rt.C, what string, b, pw []byte, want error, never ...error) {
	other := genDoc(c.R, docOpts{pages: 1})
	dir := filepath.Join(c.Dir, "out")
	for _, e := range entries(other.B.B, nil, dir) {
		e := e
		in := tight(b)
		var res []interface{}
		var err error
		if !c.Try(what+": "+e.name, func() { res, err = e.run(in, pw) }) {
			continue
		}
		c.Obs("refusals", 1)
		if err == nil {
			c.Failf("%s: %s reports no error", what, e.name)
			continue
		}
		for _, v := range res {
			if !emptyResult(v) {
				c.Failf("%s: %s gives a result beside its error %v", what, e.name, err)
			}
		}
		if want != nil && !errors.Is(err, want) {
			c.Failf("%s: %s reports %q, not %v", what, e.name, err, want)
		}
		for _, n := range never {
			if errors.Is(err, n) {
				c.Failf("%s: %s reports %q", what, e.name, err)
			}
		}
		if want != nil && !types.IsEncryptionError(err) {
			c.Failf("%s: IsEncryptionError does not recognise what %s reports, %q", what, e.name, err)
		}
		helpers(c, e.name, err)
		c.Distinct(what, e.name, err.Error())
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			c.Failf("%s: a refused document leaves the file %s", what, filepath.Base(p))
		}
		return nil
	})
	os.RemoveAll(dir)
}

// wrongPasswordCase tries passwords that do not open a document.
func wrongPasswordCase(c *rt.C) {
	d, kind := richDoc(c, true)
	c.Save("in.pdf", d.B.B)
	n := 0
	for _, pw := range nearMisses(c.R, d.PW) {
		if d.S.Crypt.Auth(pw) != "" || n == 2 {
			continue
		}
		n++
		refusals(c, "wrong password", d.B.B, pw, types.ErrWrongPassword, types.ErrNoForms, types.ErrObjectNotFound)
	}
	c.Sample("%s document, %s: %d passwords refused", kind, d.Enc, n)
}

// unsupportedCase encrypts a document in a way the library does not know.
func unsupportedCase(c *rt.C) {
	r := c.R
	d, kind := richDoc(c, true)
	var want error = types.ErrUnsupportedCrypto
	how := ""
	d.S.Crypt.Alter = func(x *Dict) {
		switch r.Intn(5) {
		case 0:
			how = "a public-key handler"
			x.Set("Filter", Name([]string{"Adobe.PubSec", "FOPN_fLock", "EBX_HANDLER", "Adobe.APS", "standard", "Standard2"}[r.Intn(6)]))
		case 1:
			how = "an unknown version"
			x.Set("V", Int([]int{3, 6, 7, -1, 99}[r.Intn(5)]))
		case 2:
			how = "an unknown revision"
			x.Set("R", Int([]int{1, 7, 8, -2, 255}[r.Intn(5)]))
		case 3:
			how = "an unknown version and revision"
			x.Set("V", Int(6))
			x.Set("R", Int(7))
		case 4:
			if d.S.Crypt.V < 4 {
				how = "an unknown version"
				x.Set("V", Int(6))
				return
			}
			how = "an unknown crypt filter"
			cf := x.Get("CF").(*Dict)
			cf.Get("StdCF").(*Dict).Set("CFM", Name([]string{"AESV4", "Rot13", "aesv2", "V3"}[r.Intn(4)]))
		}
	}
	b := d.S.Build()
	c.Save("in.pdf", b.B)
	refusals(c, how, b.B, d.PW, want, types.ErrWrongPassword, types.ErrNoForms)
	c.Sample("%s document, %s: %s", kind, d.Enc, how)
}

// missingCase asks for what is not there.
func missingCase(c *rt.C) {
	r := c.R
	d, kind := richDoc(c, r.Intn(3) == 0)
	c.Save("in.pdf", d.B.B)
	for _, perfect := range []bool{false, true} {
		p, err := parse.OpenWithOptions(d.B.B, parse.ParseOptions{Password: d.PW, BytePerfect: perfect})
		if err != nil {
			c.Failf("opening: %v", err)
			return
		}
		have := map[int]bool{}
		for _, n := range p.Objects() {
			have[n] = true
		}
		nums := []int{0, -1, -1 << 63, 1 << 31, 1<<63 - 1, 9999999}
		for n := 1; len(nums) < 14 && n < 4000; n += 1 + r.Intn(4) {
			if !have[n] {
				nums = append(nums, n)
			}
		}
		for _, n := range nums {
			if have[n] {
				continue
			}
			what := fmt.Sprintf("object %d", n)
			b, err := p.GetObject(n)
			check := func(name string, none bool, err error) {
				c.Obs("missing objects", 1)
				c.Distinct(name, kind, n)
				if err == nil || !none {
					c.Failf("%s: %s finds what is not there (%v)", what, name, err)
					return
				}
				if !errors.Is(err, types.ErrObjectNotFound) || !types.IsNotFound(err) {
					c.Failf("%s: %s reports %q, not that it is missing", what, name, err)
				}
				for _, w := range []error{types.ErrWrongPassword, types.ErrInvalidPDF, types.ErrMalformedPDF} {
					if errors.Is(err, w) {
						c.Failf("%s: %s reports %q", what, name, err)
					}
				}
				helpers(c, name, err)
			}
			check("PDF.GetObject", b == nil, err)
			var pe *types.PDFError
			if errors.As(err, &pe) && pe.Context["object_number"] != n {
				c.Failf("%s: the error names object %v", what, pe.Context["object_number"])
			}
			if p.HasObject(n) {
				c.Failf("%s: HasObject says yes, GetObject %v", what, err)
			}
			if perfect {
				o, err := p.GetRawObject(n)
				check("PDF.GetRawObject", o == nil, err)
			} else if o, err := p.GetRawObject(n); o != nil || !errors.Is(err, types.ErrInvalidInput) {
				c.Failf("%s: GetRawObject without byte-perfect parsing reports %v", what, err)
			}
			g, err := parse.GetObject(d.B.B, n, p.Encryption(), false)
			check("parse.GetObject", g == nil, err)
		}
		for n := range have {
			if _, err := p.GetObject(n); err != nil {
				c.Failf("object %d is listed, but: %v", n, err)
			}
			c.Obs("objects there", 1)
		}
	}
	c.Sample("%s document", kind)
}

// formlessCase asks for the form of documents without one.
func formlessCase(c *rt.C) {
	r := c.R
	d := genDoc(r, docOpts{pages: 1 + r.Intn(3), crypt: r.Intn(2) == 0})
	c.Save("in.pdf", d.B.B)
	for _, e := range entries(nil, nil, "") {
		if !e.form {
			continue
		}
		e := e
		var res []interface{}
		var err error
		if !c.Try(e.name, func() { res, err = e.run(tight(d.B.B), d.PW) }) {
			continue
		}
		c.Obs("questions", 1)
		c.Distinct(e.name, d.Enc)
		for _, v := range res {
			if !emptyResult(v) {
				c.Failf("%s gives a form of a document without one", e.name)
			}
		}
		if err == nil {
			c.Failf("%s reports no error for a document without a form", e.name)
			continue
		}
		if !errors.Is(err, types.ErrNoForms) {
			c.Failf("%s reports %q, not that there is no form", e.name, err)
		}
		for _, w := range []error{types.ErrWrongPassword, types.ErrInvalidPDF, types.ErrMalformedPDF, types.ErrDecryptionFailed} {
			if errors.Is(err, w) {
				c.Failf("%s reports %q", e.name, err)
			}
		}
		helpers(c, e.name, err)
	}
	c.Sample("%d pages, encryption %q", len(d.Pg), d.Enc)
}

// rubbishCase opens what is no PDF at all.
func rubbishCase(c *rt.C) {
	r := c.R
	var b []byte
	switch r.Intn(4) {
	case 0:
		b = rbytes(r, r.Intn(8))
	case 1:
		b = rbytes(r, 8+r.Intn(400))
	case 2:
		b = []byte(randWords(r, 3+r.Intn(100)))
	case 3:
		b = []byte("%PDF-1.4\n" + randWords(r, r.Intn(100)))
	}
	c.Save("in.pdf", b)
	refusals(c, "no PDF", b, nil, nil, types.ErrWrongPassword, types.ErrUnsupportedCrypto)
	if len(b) < 8 {
		if _, err := parse.Open(b); !errors.Is(err, types.ErrInvalidPDF) {
			c.Failf("%d bytes: %v", len(b), err)
		}
	}
	for _, perfect := range []bool{false, true} {
		_, err := parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: perfect})
		if code, ok := types.GetErrorCode(err); !ok || code != types.ErrCodeInvalidPDF && code != types.ErrCodeMalformedPDF && code != types.ErrCodeXRefError {
			c.Failf("no PDF: code %q, %v: %v", code, ok, err)
		}
	}
	c.Sample("%d bytes", len(b))
}

// chainCase builds errors out of each other.
func chainCase(c *rt.C) {
	r := c.R
	var codes []types.PDFErrorCode
	for k := range sentinels {
		codes = append(codes, k)
	}
	// a fixed order
	for i := range codes {
		for j := i + 1; j < len(codes); j++ {
			if codes[j] < codes[i] {
				codes[i], codes[j] = codes[j], codes[i]
			}
		}
	}
	codes = append(codes, "OTHER", "")
	for n := 0; n < 40; n++ {
		var make func(depth int) (error, string)
		make = func(depth int) (error, string) {
			msg := randWords(r, 1)
			code := codes[r.Intn(len(codes))]
			if depth == 0 {
				switch r.Intn(3) {
				case 0:
					return errors.New(msg), msg
				case 1:
					return types.NewPDFError(code, msg+"%d"), fmt.Sprintf("[%s] %s%%d", code, msg)
				default:
					return types.NewPDFErrorf(code, "%s %d", msg, 3), fmt.Sprintf("[%s] %s 3", code, msg)
				}
			}
			in, text := make(depth - 1)
			switch r.Intn(6) {
			case 0:
				return fmt.Errorf("%s: %w", msg, in), msg + ": " + text
			case 1:
				return types.WrapError(code, msg+"%v", in), fmt.Sprintf("[%s] %s%%v: %s", code, msg, text)
			case 2:
				return types.WrapErrorf(code, in, "%s %d", msg, 4), fmt.Sprintf("[%s] %s 4: %s", code, msg, text)
			case 3:
				in2, text2 := make(r.Intn(depth))
				return errors.Join(in, in2), text + "\n" + text2
			case 4:
				e := types.WrapError(code, msg, in)
				if got := e.WithContext("a", 1).WithContext("b", msg); got != e || len(e.Context) != 2 || e.Context["b"] != msg || e.Context["a"] != 1 {
					c.Failf("WithContext gives %v", e.Context)
				}
				return e, fmt.Sprintf("[%s] %s: %s", code, msg, text)
			default:
				return types.WrapError(code, msg, nil), fmt.Sprintf("[%s] %s", code, msg)
			}
		}
		err, text := make(r.Intn(6))
		if err.Error() != text {
			c.Failf("an error reads %q, not %q", err.Error(), text)
		}
		helpers(c, "made", err)
		c.Obs("errors made", 1)
		c.Distinct(text)
	}
	helpers(c, "nil", nil)
	c.Sample("40 errors")
}

// warningsCase compares a collector with a list.
func warningsCase(c *rt.C) {
	r := c.R
	on := r.Intn(2) == 0
	wc := types.NewWarningCollector(on)
	type w struct {
		level     types.WarningLevel
		code, msg string
	}
	var want []w
	levels := []types.WarningLevel{types.WarningLevelInfo, types.WarningLevelWarning, types.WarningLevelError, "other"}
	codes := []string{"", "A", "B"}
	type held struct {
		list []*types.Warning
		want []w
	}
	var kept []held
	same := func(what string, got []*types.Warning, want []w) {
		c.Obs("lists", 1)
		if len(got) != len(want) {
			c.Failf("%s: %d warnings, not %d", what, len(got), len(want))
			return
		}
		for i := range got {
			g := w{got[i].Level, got[i].Code, got[i].Message}
			if g != want[i] {
				c.Failf("%s: warning %d is %v, not %v", what, i, g, want[i])
			}
			text := fmt.Sprintf("[%s] ", g.level)
			if g.code != "" {
				text += g.code + ": "
			}
			if got[i].Error() != text+g.msg || got[i].Timestamp.IsZero() {
				c.Failf("%s: warning %d reads %q", what, i, got[i].Error())
			}
		}
	}
	filter := func(f func(w) bool) []w {
		var out []w
		for _, x := range want {
			if f(x) {
				out = append(out, x)
			}
		}
		return out
	}
	var steps []string
	for n := 5 + r.Intn(60); n > 0; n-- {
		x := w{levels[r.Intn(4)], codes[r.Intn(3)], randWords(r, 1) + "%d"}
		k := r.Intn(11)
		steps = append(steps, fmt.Sprint(k))
		switch k {
		case 0, 1, 2:
			x.code = ""
			wc.AddWarning(x.level, x.msg)
		case 3:
			x.code = ""
			wc.AddWarningf(x.level, "%s", x.msg)
		case 4, 5:
			wc.AddWarningWithCode(x.level, x.code, x.msg)
		case 6:
			v := types.NewWarningWithCode(x.level, x.code, x.msg)
			if v.WithContext("k", 1) != v || v.Context["k"] != 1 {
				c.Failf("WithContext gives %v", v.Context)
			}
			wc.Add(v)
		case 7:
			wc.Add(nil)
			if r.Intn(2) == 0 {
				wc.Clear()
				want = nil
			}
			k = -1
		case 8:
			wc.Disable()
			on = false
		case 9, 10:
			wc.Enable()
			on = true
		}
		if k >= 0 && k < 7 && on {
			want = append(want, x)
		}
		if wc.IsEnabled() != on || wc.Count() != len(want) || wc.HasWarnings() != (len(want) > 0) {
			c.Failf("enabled %v, count %d, has %v; not %v, %d", wc.IsEnabled(), wc.Count(), wc.HasWarnings(), on, len(want))
		}
		l := wc.Warnings()
		same("Warnings", l, want)
		if r.Intn(4) == 0 {
			kept = append(kept, held{l, append([]w(nil), want...)})
		}
		for _, lv := range levels {
			same("FilterByLevel", wc.FilterByLevel(lv), filter(func(x w) bool { return x.level == lv }))
		}
		for _, cd := range codes {
			same("GetByCode", wc.GetByCode(cd), filter(func(x w) bool { return x.code == cd }))
		}
	}
	for _, k := range kept {
		same("a list given out earlier", k.list, k.want)
	}
	c.Distinct(strings.Join(steps, " "))
	c.Sample("%d steps", len(steps))
}

func init() {
	rt.Register(&rt.Check{ID: "P30", Title: "Errors say what went wrong",
		Rule: "a call that had to fail was made and the kind of its error checked",
		Families: []rt.Family{
			{Name: "wrongpassword", Quick: 240, Thorough: 4000, Run: wrongPasswordCase},
			{Name: "unsupported", Quick: 240, Thorough: 4000, Run: unsupportedCase},
			{Name: "missing", Quick: 240, Thorough: 4000, Run: missingCase},
			{Name: "formless", Quick: 160, Thorough: 3000, Run: formlessCase},
			{Name: "rubbish", Quick: 200, Thorough: 4000, Run: rubbishCase},
			{Name: "chains", Quick: 150, Thorough: 3000, Run: chainCase},
			{Name: "warnings", Quick: 150, Thorough: 3000, Run: warningsCase},
		}})
}
