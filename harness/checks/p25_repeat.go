package checks

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
	"verifharness/rt"
)

// zeroReader stands in for the random source, so that encrypted output can be
// compared byte by byte.
type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0x5a
	}
	return len(p), nil
}

var _ io.Reader = zeroReader{}

// render writes everything reachable from a value, in a fixed order.
func render(w *bytes.Buffer, v reflect.Value, seen map[uintptr]bool, depth int) {
	if !v.IsValid() || depth > 60 {
		w.WriteString("-")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		if p := v.Pointer(); seen[p] {
			w.WriteString("^")
			return
		} else {
			seen[p] = true
			defer delete(seen, p)
		}
		w.WriteByte('&')
		render(w, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "%s:", v.Elem().Type())
		render(w, v.Elem(), seen, depth+1)
	case reflect.Struct:
		fmt.Fprintf(w, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(w, "%s=", v.Type().Field(i).Name)
			render(w, v.Field(i), seen, depth+1)
			w.WriteByte(';')
		}
		w.WriteByte('}')
	case reflect.Map:
		var items []string
		for _, k := range v.MapKeys() {
			var e bytes.Buffer
			render(&e, k, seen, depth+1)
			e.WriteString("->")
			render(&e, v.MapIndex(k), seen, depth+1)
			items = append(items, e.String())
		}
		sort.Strings(items)
		fmt.Fprintf(w, "map%q", items)
	case reflect.Slice:
		if v.IsNil() {
			w.WriteString("[]nil")
			return
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(w, "%q", v.Bytes())
			return
		}
		w.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			render(w, v.Index(i), seen, depth+1)
			w.WriteByte(',')
		}
		w.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(w, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(w, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(w, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(w, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(w, v.Float())
	default:
		fmt.Fprint(w, v.Kind())
	}
}

// outcome is what a caller can see of a call, as text.
func outcome(v interface{}, err error) string {
	var w bytes.Buffer
	if err != nil {
		fmt.Fprintf(&w, "error %q ", err.Error())
	}
	render(&w, reflect.ValueOf(v), map[uintptr]bool{}, 0)
	return w.String()
}

// op is an operation whose outcome depends on its arguments alone.
type op struct {
	name string
	run  func() (interface{}, error)
}

// world is what a group of operations works on. Building it twice from one
// source gives equal worlds that share nothing.
type world struct {
	in, pw []byte
	pdf    *parse.PDF
	raw    *parse.PDF // byte-perfect
	enc    *types.PDFEncryption
	af     *acroform.AcroForm
	form   forms.Form
	xs     *xfa.XFAStreams
	dec    *extract.FontDecoder
	data   types.FormData
	ttf    []byte
	png    []byte
	dir    string
}

type source struct {
	in, pw   []byte
	names    []string
	ttf, png []byte
	seed     int64
	dir      string
}

func newSource(c *rt.C) *source {
	r := c.R
	d, kind := richDoc(c, r.Intn(3) == 0)
	s := &source{in: d.B.B, pw: d.PW, ttf: randTTF(r).b, png: smallPNG(r), seed: r.Int63(), dir: filepath.Join(c.Dir, "out")}
	c.Save("in.pdf", s.in)
	c.Sample("%s document of %d bytes, password %q", kind, len(s.in), s.pw)
	return s
}

// probe finds the names of the document's fields.
func (s *source) probe() {
	if af, err := acroform.ExtractAcroForm(s.in, s.pw, false); err == nil {
		for k := range af.GetFieldValues() {
			s.names = append(s.names, k)
		}
		sort.Strings(s.names)
	}
	if f, err := forms.Extract(s.in, s.pw, false); err == nil && f.Schema() != nil {
		for _, q := range f.Schema().Questions {
			s.names = append(s.names, q.Name)
		}
	}
}

func (s *source) world() (*world, error) {
	r := rand.New(rand.NewSource(s.seed))
	w := &world{in: tight(s.in), pw: append([]byte(nil), s.pw...), ttf: tight(s.ttf), png: tight(s.png), data: types.FormData{}, dir: s.dir}
	if s.pw == nil {
		w.pw = nil
	}
	var err error
	if w.pdf, err = parse.OpenWithOptions(w.in, parse.ParseOptions{Password: w.pw}); err != nil {
		return nil, err
	}
	if w.raw, err = parse.OpenWithOptions(w.in, parse.ParseOptions{Password: w.pw, BytePerfect: true}); err != nil {
		return nil, err
	}
	w.enc = w.pdf.Encryption()
	w.af, _ = acroform.ExtractAcroForm(w.in, w.pw, false)
	w.form, _ = forms.Extract(w.in, w.pw, false)
	w.xs, _ = xfa.ExtractAllXFAStreams(w.in, w.enc, false)
	w.dec = extract.NewFontDecoder("F")
	w.dec.SetBaseEncoding("WinAnsiEncoding")
	w.dec.ParseDifferencesArray("[65 /Aacute 70 /uni20AC]")
	for _, n := range s.names {
		if r.Intn(3) > 0 {
			w.data[n] = "v" + randWords(r, 1)
		}
	}
	for k := r.Intn(6); k > 0; k-- {
		w.data[fmt.Sprintf("none.%d", k)] = k
	}
	return w, nil
}

// ops lists what a program may do with the shared world; the order and the
// arguments follow from the source's seed.
func (s *source) ops(w *world) []op {
	r := rand.New(rand.NewSource(s.seed + 1))
	var l []op
	add := func(name string, run func() (interface{}, error)) { l = append(l, op{name, run}) }
	nums := w.pdf.Objects()
	pages := 1 + r.Intn(3)
	add("PDF.Objects", func() (interface{}, error) {
		return []interface{}{w.pdf.Objects(), w.pdf.ObjectCount(), w.pdf.Version(), w.pdf.Trailer(), w.pdf.RevisionCount(), w.pdf.IsEncrypted(), w.pdf.HasObject(3)}, nil
	})
	add("PDF.GetObject", func() (interface{}, error) {
		var all []interface{}
		for _, n := range nums {
			b, err := w.pdf.GetObject(n)
			all = append(all, b, fmt.Sprint(err))
		}
		return all, nil
	})
	add("PDF.GetRawObject", func() (interface{}, error) {
		var all []interface{}
		for _, n := range nums {
			o, err := w.raw.GetRawObject(n)
			all = append(all, o, fmt.Sprint(err))
		}
		return all, nil
	})
	add("Document", func() (interface{}, error) {
		d := w.raw.Document()
		return []interface{}{d.AllObjects(), d.LatestRevision(), d.Bytes()}, nil
	})
	add("OpenWithOptions", func() (interface{}, error) {
		p, err := parse.OpenWithOptions(w.in, parse.ParseOptions{Password: w.pw, Warnings: types.NewWarningCollector(true)})
		if err != nil {
			return nil, err
		}
		return []interface{}{p.Objects(), p.Trailer(), p.Encryption()}, nil
	})
	add("ParsePDFDocument", func() (interface{}, error) { return parse.ParsePDFDocument(w.in) })
	add("GetRevisionBoundaries", func() (interface{}, error) {
		return []interface{}{parse.GetRevisionBoundaries(w.in), parse.CountRevisions(w.in)}, nil
	})
	n := nums[r.Intn(len(nums))]
	add("parse.GetObject", func() (interface{}, error) { return parse.GetObject(w.in, n, w.enc, false) })
	add("FindObjectLocation", func() (interface{}, error) { return parse.FindObjectLocation(w.in, n, false) })
	add("FindObjectByNumber", func() (interface{}, error) { return parse.FindObjectByNumber(w.in, n, w.enc, false) })
	add("DecryptPDF", func() (interface{}, error) {
		b, e, err := encrypt.DecryptPDF(w.in, w.pw, false)
		return []interface{}{b, e}, err
	})
	add("ExtractContent", func() (interface{}, error) { return extract.ExtractContent(w.in, w.pw, false) })
	add("ExtractContentToJSON", func() (interface{}, error) { return extract.ExtractContentToJSON(w.in, w.pw, false) })
	add("ExtractAllImages", func() (interface{}, error) { return extract.ExtractAllImages(w.in, w.pw, false) })
	add("ExtractPageImages", func() (interface{}, error) { return extract.ExtractPageImages(w.in, w.pw, false) })
	add("ExtractMetadata", func() (interface{}, error) { return extract.ExtractMetadata(w.in, w.pdf, false) })
	add("ExtractBookmarks", func() (interface{}, error) { return extract.ExtractBookmarks(w.in, w.pdf, false) })
	add("extract.ExtractPages", func() (interface{}, error) { return extract.ExtractPages(w.in, w.pdf, false) })
	add("FontDecoder.Decode", func() (interface{}, error) {
		return []interface{}{w.dec.Decode([]byte("ABCF\x80\xe9")), w.dec.DecodeHex("41 46"), w.dec.Decode(w.png)}, nil
	})
	add("forms.Detect", func() (interface{}, error) { return forms.Detect(w.in, w.pw, false) })
	add("forms.Extract", func() (interface{}, error) { return forms.Extract(w.in, w.pw, false) })
	if w.form != nil {
		add("Form", func() (interface{}, error) {
			return []interface{}{w.form.Schema(), w.form.GetValues(), w.form.Validate(w.data)}, nil
		})
		add("Form.Fill", func() (interface{}, error) { return w.form.Fill(w.in, w.data, w.pw, false) })
	}
	if w.af != nil {
		add("AcroForm", func() (interface{}, error) {
			return []interface{}{w.af.ToFormSchema(), w.af.GetFieldValues(), acroform.ValidateFormData(w.af, w.data), w.af.FindFieldByName("x")}, nil
		})
		add("FillForm", func() (interface{}, error) { return acroform.FillForm(w.in, w.data, w.pw, false) })
		add("FillFormFields", func() (interface{}, error) { return acroform.FillFormFields(w.in, w.data, w.pw, false) })
		add("FlattenForm", func() (interface{}, error) { return acroform.FlattenForm(w.in, w.pw, false) })
	}
	if w.xs != nil {
		add("RebuildPDFFromXFAStreams", func() (interface{}, error) { return xfa.RebuildPDFFromXFAStreams(w.in, w.xs, w.enc, false) })
		add("BuildPDFFromXFAStreams", func() (interface{}, error) { return xfa.BuildPDFFromXFAStreams(w.xs, false) })
		add("UpdateXFAInPDF", func() (interface{}, error) { return xfa.UpdateXFAInPDF(w.in, w.data, w.enc, false) })
		add("ExtractXFA", func() (interface{}, error) {
			a, b, err := forms.ExtractXFA(w.in, w.pw, false)
			return []interface{}{a, b}, err
		})
	}
	add("manipulate", func() (interface{}, error) {
		m := manipulate.NewFromPDF(w.pdf, false)
		if err := m.RotateAllPages(90); err != nil {
			return nil, err
		}
		return m.Rebuild()
	})
	add("NewPDFManipulator", func() (interface{}, error) {
		m, err := manipulate.NewPDFManipulator(w.in, w.pw, false)
		if err != nil {
			return nil, err
		}
		if err := m.DeletePage(pages); err != nil {
			return nil, err
		}
		return m.Rebuild()
	})
	add("SplitPDFByPageCount", func() (interface{}, error) { return manipulate.SplitPDFByPageCount(w.in, pages, w.pw, false) })
	add("MergePDFs", func() (interface{}, error) {
		return manipulate.MergePDFs([][]byte{w.in, w.in}, [][]byte{w.pw, w.pw}, false)
	})
	add("ExtractPages", func() (interface{}, error) { return manipulate.ExtractPages(w.in, []int{1}, w.pw, false) })
	add("ComparePDFs", func() (interface{}, error) {
		res, err := compare.ComparePDFs(w.in, w.in, w.pw, w.pw, false)
		if err != nil {
			return nil, err
		}
		j, err := compare.GenerateJSONReport(res)
		return []interface{}{res, compare.GenerateReport(res), j}, err
	})
	add("ParseTTF", func() (interface{}, error) { return font.ParseTTF(w.ttf) })
	seed := r.Int63()
	add("building a document", func() (interface{}, error) { return buildDoc(rand.New(rand.NewSource(seed)), w) })
	for _, k := range settingsKinds {
		k := k
		if r.Intn(3) > 0 {
			continue
		}
		v, _ := k.make(&settingsGen{r: rand.New(rand.NewSource(seed))})
		add("writing "+k.name, func() (interface{}, error) {
			t, err := k.write(v)
			if err != nil {
				return nil, err
			}
			back, err := k.parse(t)
			return []interface{}{t, back}, err
		})
	}
	tmpl := makeTemplate(r).src
	add("ParseXFAForm", func() (interface{}, error) {
		q, err := xfa.ParseXFAForm(tmpl, false)
		if err != nil {
			return nil, err
		}
		t, err := xfa.FormToXFA(q, false)
		return []interface{}{q, t}, err
	})
	_, _, _, ds := makeDatasets(r)
	add("UpdateXFAValues", func() (interface{}, error) { return xfa.UpdateXFAValues(ds, w.data, false) })
	add("ParseXFADatasets", func() (interface{}, error) {
		v, err := xfa.ParseXFADatasets(ds, false)
		if err != nil {
			return nil, err
		}
		t, err := xfa.DatasetsToXFA(v, false)
		return []interface{}{v, t}, err
	})
	return l
}

// buildDoc makes a document from everything the builders offer.
func buildDoc(r *rand.Rand, w *world) (interface{}, error) {
	b := write.NewSimplePDFBuilder()
	pw := b.Writer()
	setMode(pw, []string{"table", "xrefstm", "objstm"}[r.Intn(3)], r)
	info, err := pw.AddImage(w.png, "Logo")
	if err != nil {
		return nil, err
	}
	f, err := font.NewFont("Deja", w.ttf)
	if err != nil {
		return nil, err
	}
	f.AddString("Hello World")
	n := 1 + r.Intn(3)
	var marks []types.Bookmark
	for i := 1; i <= n; i++ {
		p := b.AddPage(write.PageSizeA4)
		name := p.AddStandardFont("Helvetica")
		p.AddStandardFont("Times-Roman")
		p.AddStandardFont("Courier")
		emb, err := p.AddEmbeddedFont(f)
		if err != nil {
			return nil, err
		}
		p.AddImage(info)
		p.Content().BeginText().SetFont(name, 12).SetTextPosition(10, 10).ShowText(randWords(r, 3)).SetFont(emb, 10).ShowText("Hello").EndText()
		if err := p.AddTextWatermark("DRAFT", 40, 45); err != nil {
			return nil, err
		}
		b.FinalizePage(p)
		marks = append(marks, types.Bookmark{Title: randWords(r, 2), PageNumber: i})
	}
	md := &types.DocumentMetadata{Title: "T", CreationDate: "2024-05-06T07:08:09Z", ModDate: "2024-05-06T07:08:09Z", Custom: map[string]string{}}
	for k := 0; k < 8; k++ {
		md.Custom[fmt.Sprintf("Key%d", k)] = randWords(r, 1)
	}
	pw.SetMetadata(md)
	if err := b.SetBookmarks(marks); err != nil {
		return nil, err
	}
	if r.Intn(2) == 0 {
		fb := acroform.NewFormBuilder(b)
		fb.AddTextField("a", []float64{1, 2, 30, 40}, 1).SetValue("x").SetMaxLength(9)
		fb.AddCheckbox("b", []float64{1, 2, 30, 40}, 1).SetValue(true)
		fb.AddChoiceField("c", []float64{1, 2, 30, 40}, 1, []string{"x", "y"}).SetRequired(true)
		if _, err := fb.BuildForm(); err != nil {
			return nil, err
		}
	}
	d := write.Dictionary{}
	for k := 0; k < 12; k++ {
		d[fmt.Sprintf("K%d", k)] = k
	}
	d["Sub"] = map[string]interface{}{"A": 1, "B": "two", "C": []interface{}{1, 2}, "D": true, "E": nil, "F": 1.5}
	pw.AddStreamObject(d, []byte(randWords(r, 30)), true)
	if r.Intn(3) == 0 {
		if _, err := pw.SetupEncryptionWithPasswords([]byte("u"), []byte("o"), -4, true); err != nil {
			return nil, err
		}
	}
	return b.Bytes()
}

func sum(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// firstDiff shows where two outcomes part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(len(s), i-60)):min(len(s), i+100)] }
	return fmt.Sprintf("at %d of %d and %d bytes: …%s… against …%s…", i, len(a), len(b), cut(a), cut(b))
}

// repeatCase performs operations again, on the same and on equal arguments,
// with others in between.
func repeatCase(c *rt.C) {
	r := c.R
	old := crand.Reader
	crand.Reader = zeroReader{}
	defer func() { crand.Reader = old }()
	s := newSource(c)
	s.probe()
	var ws [2]*world
	for i := range ws {
		w, err := s.world()
		if err != nil {
			c.Failf("opening: %v", err)
			return
		}
		ws[i] = w
	}
	l, l2 := s.ops(ws[0]), s.ops(ws[1])
	want := map[string]string{}
	do := func(o op, where string) {
		got := ""
		if !c.Try(o.name, func() { got = outcome(o.run()) }) {
			return
		}
		had, ok := want[o.name]
		if !ok {
			want[o.name] = got
			c.Distinct(o.name, sum(got))
			return
		}
		c.Obs("repetitions", 1)
		if had != got {
			c.Failf("%s: another outcome %s: %s", o.name, where, firstDiff(had, got))
		}
	}
	for _, i := range r.Perm(len(l)) {
		do(l[i], "")
	}
	for k := 0; k < 2; k++ {
		for _, i := range r.Perm(len(l)) {
			do(l[i], "when repeated")
			if r.Intn(3) == 0 {
				do(l[i], "when repeated at once")
			}
			do(l2[i], "for an equal document")
		}
	}
	if r.Intn(3) == 0 {
		// the directory written twice
		var trees [2]string
		for i := range trees {
			os.RemoveAll(s.dir)
			if _, err := extract.ExtractToDirectory(s.in, s.pw, s.dir, false); err != nil {
				trees[i] = err.Error()
			}
			var b strings.Builder
			filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					x, _ := os.ReadFile(p)
					fmt.Fprintf(&b, "%s %q\n", p, x)
				}
				return nil
			})
			trees[i] += b.String()
		}
		os.RemoveAll(s.dir)
		c.Obs("directories", 1)
		if trees[0] != trees[1] {
			c.Failf("ExtractToDirectory writes other files when repeated: %s", firstDiff(trees[0], trees[1]))
		}
	}
}

// How the goroutines of a case are set to work.
const (
	mixed    = iota // on one document, each doing something else
	together        // on one document, all doing the same at the same time
	apart           // each on documents of its own, in a process that has done nothing yet
)

type call struct {
	op         int
	text       string
	name       string
	begin, end time.Time
}

// concurrentCase lets goroutines use the library at the same time. The race
// detector watches the accesses; the outcomes must be those of single calls.
func concurrentCase(how int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		old := crand.Reader
		crand.Reader = zeroReader{}
		defer func() { crand.Reader = old }()
		s := newSource(c)
		var w *world
		var shared []op
		if how != apart {
			var err error
			s.probe()
			if w, err = s.world(); err != nil {
				c.Failf("opening: %v", err)
				return
			}
			shared = s.ops(w)
		}
		workers := 2 + r.Intn(7)
		rounds := 3 + r.Intn(5)
		runtime.GOMAXPROCS(1 + r.Intn(8))
		seeds := make([]int64, workers)
		for g := range seeds {
			seeds[g] = r.Int63()
		}
		same := r.Int63()
		// Everything a goroutine notes stays its own until all have ended:
		// anything shared would order the calls and hide races.
		mine := make([][]call, workers)
		panics := make([]string, workers)
		failed := make([]error, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seeds[g]))
				var calls []call
				defer func() {
					mine[g] = calls
					if p := recover(); p != nil {
						panics[g] = fmt.Sprint(p)
					}
				}()
				l := shared
				<-start
				if how == apart {
					own := *s
					own.in, own.pw = tight(s.in), append([]byte(nil), s.pw...)
					if s.pw == nil {
						own.pw = nil
					}
					own.dir = fmt.Sprintf("%s%d", s.dir, g)
					own.probe()
					ow, err := own.world()
					if err != nil {
						failed[g] = err
						return
					}
					l = own.ops(ow)
				}
				pick := rand.New(rand.NewSource(same)).Perm(len(l))
				for k := 0; k < rounds; k++ {
					i := r.Intn(len(l))
					if how == together || how == apart && k%2 == 0 {
						i = pick[k%len(pick)]
					}
					for y := r.Intn(40); y > 0; y-- {
						runtime.Gosched()
					}
					t0 := time.Now()
					v, err := l[i].run()
					t1 := time.Now()
					calls = append(calls, call{i, outcome(v, err), l[i].name, t0, t1})
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range panics {
			if panics[g] != "" {
				c.Failf("a panic in concurrent use: %s", panics[g])
			}
			if failed[g] != nil {
				c.Failf("opening in concurrent use: %v", failed[g])
			}
		}
		// The log of starts and ends, merged by time.
		type event struct {
			at   time.Time
			g, i int
			end  bool
		}
		var log []event
		n := 0
		for g, l := range mine {
			for _, x := range l {
				log = append(log, event{x.begin, g, x.op, false}, event{x.end, g, x.op, true})
				n++
			}
		}
		sort.SliceStable(log, func(a, b int) bool { return log[a].at.Before(log[b].at) })
		var trace strings.Builder
		active, most := 0, 0
		running := map[int]int{}
		pairs := map[[2]int]bool{}
		for _, e := range log {
			fmt.Fprintf(&trace, "%d.%d.%v ", e.g, e.i, e.end)
			if e.end {
				active--
				delete(running, e.g)
				continue
			}
			for _, j := range running {
				pairs[[2]int{min(e.i, j), max(e.i, j)}] = true
			}
			running[e.g] = e.i
			active++
			most = max(most, active)
		}
		c.Distinct(trace.String())
		for p := range pairs {
			c.Distinct("pair", p[0], p[1])
		}
		c.Obs(fmt.Sprintf("cases with %d calls at once", most), 1)
		c.Obs("concurrent calls", n)
		c.Obs("overlapping pairs of calls", len(pairs))
		// What each call gives on its own, on a world of its own.
		if how == apart {
			s.probe()
		}
		alone, err := s.world()
		if err != nil {
			c.Failf("opening: %v", err)
			return
		}
		single := s.ops(alone)
		want := map[int]string{}
		for _, l := range mine {
			for _, x := range l {
				if _, ok := want[x.op]; !ok {
					c.Try(x.name, func() { want[x.op] = outcome(single[x.op].run()) })
				}
				if want[x.op] != x.text {
					c.Failf("%s: another outcome in concurrent use: %s", x.name, firstDiff(want[x.op], x.text))
				}
			}
		}
		if w != nil && !bytes.Equal(w.in, s.in) {
			c.Failf("the shared document was changed")
		}
	}
}

func init() {
	rt.Register(&rt.Check{ID: "P06", Title: "The outcome of a call depends on its arguments alone",
		Rule: "a call was repeated on the same or equal arguments, after other calls, and its whole outcome compared",
		Families: []rt.Family{
			{Name: "repeat", Quick: 500, Thorough: 8000, Run: repeatCase},
		}})
	rt.Register(&rt.Check{ID: "P25", Title: "Documents can be used from several goroutines at once",
		Rule:    "concurrent calls on one document were watched by the race detector and their outcomes compared with single calls",
		HangCPU: 300, Race: true,
		Families: []rt.Family{
			{Name: "mixed", Quick: 160, Thorough: 5000, Run: concurrentCase(mixed)},
			{Name: "together", Quick: 120, Thorough: 4000, Run: concurrentCase(together)},
			{Name: "apart", Quick: 100, Thorough: 3000, Run: concurrentCase(apart), Fresh: true},
		}})
}
