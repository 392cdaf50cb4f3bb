package checks

import (
	"bytes"
	"errors"
	"fmt"

	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	. "verifharness/ref"
	"verifharness/rt"
)

// writerModel is the sequential model of a PDFWriter: what the file must hold.
type writerModel struct {
	objs   map[int]Obj    // plain values; streams hold decoded data in Raw
	comp   map[int]bool   // stream asked to be compressed
	names  map[int][]byte // unused
	next   int
	root   int
	info   int
	ver    string
	mode   string
	pinned map[int]bool
	enc    int    // object number of the encryption dictionary
	pw     []byte // password to read the file with
	id     []byte // file identifier, if one was set
	gap    int    // how far object numbers may be apart
}

// goValue turns a reference object into what a caller passes to the writer's
// dictionaries, in one of its accepted spellings.
func goValue(r *rand.Rand, o Obj) interface{} {
	switch v := o.(type) {
	case Null:
		return nil
	case Bool:
		return bool(v)
	case Int:
		if r.Intn(3) == 0 {
			return int64(v)
		}
		return int(v)
	case Real:
		if x := float32(v); float64(x) == float64(v) && r.Intn(2) == 0 {
			return x
		}
		return float64(v)
	case Name:
		return string(Ser(v, Style{}))
	case Ref:
		return fmt.Sprintf("%d %d R", v.N, v.G)
	case Str:
		if r.Intn(2) == 0 && len(v) > 0 && v[0] != '/' {
			plain := true
			for _, c := range v {
				if c == '(' || c == ')' || c == '\\' || c == '\r' {
					plain = false
				}
			}
			if plain {
				return string(v)
			}
		}
		return []byte(v)
	case Arr:
		a := []interface{}{}
		for _, e := range v {
			a = append(a, goValue(r, e))
		}
		return a
	case *Dict:
		return goDict(r, v)
	}
	panic("goValue")
}

func goDict(r *rand.Rand, d *Dict) write.Dictionary {
	m := write.Dictionary{}
	for _, k := range d.Keys {
		// keys are given in PDF syntax, with or without the slash
		s := string(Ser(Name(k), Style{}))
		if !strings.Contains(k, "#") && r.Intn(2) == 0 {
			s = "/" + k // or as they are
		}
		if r.Intn(2) == 0 {
			s = s[1:]
		}
		m[s] = goValue(r, d.M[k])
	}
	return m
}

// plainKeys keeps dictionaries to keys the writer documents (regular characters).
func (m *writerModel) randStreamDict(g *objGen) *Dict {
	d := NewDict()
	for i, n := 0, g.r.Intn(5); i < n; i++ {
		d.Set(fmt.Sprintf("K%c%d", 'a'+rune(g.r.Intn(26)), g.r.Intn(30)), g.obj(2))
	}
	if g.r.Intn(3) == 0 {
		// numbers at the ends of their range and strings that look like other values
		d.Set("N", []Obj{Real(1e-9), Real(123456.789012345), Real(-0.1), Real(float64(float32(0.1))), Real(16777216.5), Real(5e-324), Real(float64(float32(1e-9))), Real(float64(float32(1)/3)), Int(1<<31 - 1), Int(-1 << 31), Int(1 << 40)}[g.r.Intn(11)])
		d.Set("S", Str([]string{"1 0 R ", "12 0 R and more", "see 1 0 R", "1 0 R\n", "null", "true", "12", "<41>", "[1 2]", "<</A 1>>", "1 0  R"}[g.r.Intn(11)]))
	}
	if g.r.Intn(4) == 0 {
		d.Set([]string{"A B", "{}", "a{b", "x}", "(", "Gr\xf6\xdfe", "tab\t", "\x7f", "50%", "a/b", "<<>>"}[g.r.Intn(11)], Int(7))
	}
	if g.r.Intn(3) == 0 {
		d.Set("Type", Name("XObject"))
	}
	return d
}

func copyDict(m write.Dictionary) write.Dictionary {
	o := write.Dictionary{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m *writerModel) step(c *rt.C, w *write.PDFWriter, g *objGen) {
	r := c.R
	g.refs = nil
	for n := range m.objs {
		g.refs = append(g.refs, Ref{n, 0})
	}
	sort.Slice(g.refs, func(i, j int) bool { return g.refs[i].N < g.refs[j].N })
	if len(g.refs) == 0 {
		g.refs = []Ref{{1, 0}}
	}
	body := func(o Obj) []byte {
		st := Style{R: r}
		if r.Intn(3) == 0 {
			st.Tight = true
		}
		b := Ser(o, st)
		// white space and comments around an object are the caller's business
		for k := r.Intn(4); k == 0; k = r.Intn(2) {
			b = append(b, []string{" ", "\n", "\r\n", "   ", "\t", "\n\n", "% comment\n", "%\r\n"}[r.Intn(8)]...)
		}
		for k := r.Intn(5); k == 0; k = r.Intn(2) {
			b = append([]byte([]string{" ", "\n", "\r\n", "\t ", "% comment\n"}[r.Intn(5)]), b...)
		}
		return b
	}
	value := func() Obj {
		if r.Intn(3) == 0 {
			return g.obj(3)
		}
		return g.dict(3)
	}
	pick := func() int {
		switch r.Intn(3) {
		case 0:
			if m.gap > 0 && m.next < m.gap && r.Intn(4) == 0 {
				return m.next + r.Intn(m.gap)
			}
			return m.next + r.Intn(6)
		default:
			n := 1 + r.Intn(m.next)
			if m.pinned[n] {
				return m.next + r.Intn(2)
			}
			return n
		}
	}
	bump := func(n int) {
		if n >= m.next {
			m.next = n + 1
		}
	}
	switch r.Intn(5) {
	case 0, 1:
		o := value()
		n := w.AddObject(body(o))
		if n != m.next {
			c.Failf("AddObject returned %d, next free number is %d", n, m.next)
		}
		m.objs[n] = o
		bump(n)
	case 2:
		n := pick()
		o := value()
		w.SetObject(n, body(o))
		m.objs[n] = o
		bump(n)
	default:
		d := m.randStreamDict(g)
		data := g.streamData()
		comp := r.Intn(2) == 0
		gd := goDict(r, d)
		if r.Intn(5) == 0 {
			gd["Length"] = r.Intn(999)
		} else if r.Intn(5) == 0 {
			gd["/Length"] = r.Intn(999)
		}
		if len(data) == 0 && r.Intn(2) == 0 {
			data = nil
		}
		keepD, keep := fmt.Sprint(gd), append([]byte{}, data...)
		var n int
		if r.Intn(2) == 0 {
			n = w.AddStreamObject(gd, data, comp)
			if n != m.next {
				c.Failf("AddStreamObject returned %d, next free number is %d", n, m.next)
			}
			if r.Intn(3) == 0 {
				// the caller goes on using the same dictionary
				data2 := append(append([]byte{}, data...), "second"...)
				n2 := w.AddStreamObject(gd, data2, comp)
				m.objs[n2] = &Stream{D: d.Copy(), Raw: data2}
				m.comp[n2] = comp
				bump(n2)
			}
		} else {
			n = pick()
			w.SetStreamObject(n, gd, data, comp)
		}
		if fmt.Sprint(gd) != keepD || !bytes.Equal(keep, data) {
			c.Failf("adding a stream changed the caller's dictionary or data")
		}
		m.objs[n] = &Stream{D: d, Raw: append([]byte{}, data...)}
		m.comp[n] = comp
		bump(n)
	}
	if w.NextObjectNumber() != m.next {
		c.Failf("NextObjectNumber() = %d, want %d", w.NextObjectNumber(), m.next)
	}
}

// sameAsModel compares a stream or value found in a file with the model.
func (m *writerModel) cmp(n int, got Obj) string {
	want := m.objs[n]
	ws, isS := want.(*Stream)
	gs, gotS := got.(*Stream)
	if isS != gotS {
		return fmt.Sprintf("stream: %v, want stream: %v", gotS, isS)
	}
	if !isS {
		return Diff(got, want)
	}
	data, err := DecodeStream(gs)
	if err != nil {
		return "stream does not decode: " + err.Error()
	}
	if !bytes.Equal(data, ws.Raw) {
		return fmt.Sprintf("stream data differs: %d bytes, want %d", len(data), len(ws.Raw))
	}
	if gs.D.Int("Length", -1) != len(gs.Raw) {
		return fmt.Sprintf("/Length %v for %d bytes", gs.D.Get("Length"), len(gs.Raw))
	}
	f := gs.D.Get("Filter")
	if m.comp[n] && len(ws.Raw) > 0 {
		if f != Name("FlateDecode") {
			return fmt.Sprintf("/Filter %v on a compressed stream", f)
		}
	} else if f != nil {
		return fmt.Sprintf("/Filter %v on an uncompressed stream", f)
	}
	d := gs.D.Copy()
	d.Del("Length")
	d.Del("Filter")
	return Diff(d, ws.D)
}

func (m *writerModel) check(c *rt.C, out []byte, what string) {
	f, err := OpenStrict(out, m.pw)
	if err != nil {
		c.Failf("%s: written file is not valid: %v", what, err)
		return
	}
	if f.Version != m.ver {
		c.Failf("%s: version %q, want %q", what, f.Version, m.ver)
	}
	if f.XRefStm != (m.mode != "table") {
		c.Failf("%s: cross-reference stream: %v, mode %s", what, f.XRefStm, m.mode)
	}
	if m.id != nil {
		a, _ := f.Trailer.Get("ID").(Arr)
		if len(a) != 2 || !Equal(a[0], Str(m.id)) || !Equal(a[1], Str(m.id)) {
			c.Failf("%s: trailer /ID is %s, want %x twice", what, Short(f.Trailer.Get("ID")), m.id)
		}
	}
	if m.root > 0 && f.Trailer.Get("Root") != (Ref{N: m.root}) {
		c.Failf("%s: trailer /Root is %v, want %d", what, f.Trailer.Get("Root"), m.root)
	}
	if m.info > 0 && f.Trailer.Get("Info") != (Ref{N: m.info}) {
		c.Failf("%s: trailer /Info is %v, want %d", what, f.Trailer.Get("Info"), m.info)
	}
	instm := 0
	for n := range m.objs {
		e, ok := f.Entries[n]
		if !ok || e.Free {
			c.Failf("%s: object %d was added but is not in the file", what, n)
			return
		}
		if e.InStm != 0 {
			instm++
		}
		got, err := f.Get(n)
		if err != nil {
			c.Failf("%s: object %d: %v", what, n, err)
			return
		}
		if d := m.cmp(n, got); d != "" {
			c.Failf("%s: object %d: %s", what, n, d)
			return
		}
		c.Obs("written_objects", 1)
	}
	if m.mode != "objstm" && instm > 0 {
		c.Failf("%s: %d objects in object streams although they are off", what, instm)
	}
	c.Obs("objects_in_object_streams", instm)
	for _, n := range f.Nums() {
		if _, ok := m.objs[n]; ok || n == m.enc {
			continue
		}
		o, err := f.Get(n)
		s, isS := o.(*Stream)
		if err != nil || !isS || (s.D.Name("Type") != "XRef" && s.D.Name("Type") != "ObjStm") {
			c.Failf("%s: file holds object %d which was never added", what, n)
			return
		}
	}
	// the library reads back what it wrote
	pdf, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: m.pw})
	if err != nil {
		c.Failf("%s: the library cannot open its own output: %v", what, err)
		return
	}
	for n := range m.objs {
		raw, err := pdf.GetObject(n)
		if err != nil {
			c.Failf("%s: reading back object %d: %v", what, n, err)
			return
		}
		ln := -1
		if s, ok := m.objs[n].(*Stream); ok {
			ln = len(s.Raw)
			if m.comp[n] && len(s.Raw) > 0 {
				ln = -1
				if g, err := f.Get(n); err == nil {
					ln = len(g.(*Stream).Raw)
				}
			}
		}
		got, err := objValueLen(raw, ln)
		if err != nil {
			c.Failf("%s: object %d read back as %q: %v", what, n, clipB(raw), err)
			return
		}
		if d := m.cmp(n, got); d != "" {
			c.Failf("%s: object %d read back: %s", what, n, d)
			return
		}
		c.Obs("objects_read_back", 1)
	}
}

type failWriter struct {
	n   int
	err error
	got int
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.got+len(p) > f.n {
		k := f.n - f.got
		f.got = f.n
		return k, f.err
	}
	f.got += len(p)
	return len(p), nil
}

func setMode(w *write.PDFWriter, mode string, r *rand.Rand) {
	switch mode {
	case "table":
		switch r.Intn(3) {
		case 0:
			w.UseXRefStream(false)
		case 1:
			w.UseObjectStream(true)
			w.UseObjectStream(false)
			w.UseXRefStream(false)
		}
	case "xrefstm":
		w.UseXRefStream(true)
	case "objstm":
		w.UseObjectStream(true)
	}
}

func writerCase(mode string, maxObj, gap int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		w := write.NewPDFWriter()
		m := &writerModel{objs: map[int]Obj{}, comp: map[int]bool{}, next: 1, ver: "1.7", mode: mode, pinned: map[int]bool{}, gap: gap}
		setMode(w, mode, r)
		if r.Intn(2) == 0 {
			m.ver = []string{"1.4", "1.5", "1.6", "2.0"}[r.Intn(4)]
			w.SetVersion(m.ver)
		}
		if r.Intn(3) == 0 {
			m.id = rbytes(r, 1+r.Intn(32))
			w.SetEncryption(nil, append([]byte{}, m.id...))
		}
		g := &objGen{r: r, mild: r.Intn(3) == 0}
		n := 1 + r.Intn(maxObj)
		for i := 0; i < n && !c.Failed(); i++ {
			m.step(c, w, g)
		}
		cat := NewDict("Type", Name("Catalog"), "Pages", Ref{m.next + 1, 0})
		m.root = w.AddObject(Ser(cat, Style{}))
		m.objs[m.root] = cat
		pg := NewDict("Type", Name("Pages"), "Kids", Arr{}, "Count", Int(0))
		p := w.AddObject(Ser(pg, Style{}))
		m.objs[p] = pg
		m.next = p + 1
		m.pinned[m.root], m.pinned[p] = true, true
		w.SetRoot(m.root)
		if r.Intn(2) == 0 {
			in := NewDict("Title", Str("t"))
			m.info = w.AddObject(Ser(in, Style{}))
			m.objs[m.info] = in
			m.next = m.info + 1
			m.pinned[m.info] = true
			w.SetInfo(m.info)
		}
		rounds := 1 + r.Intn(3)
		for k := 0; k < rounds && !c.Failed(); k++ {
			out, err := w.Bytes()
			if err != nil {
				c.Failf("Bytes: %v", err)
				return
			}
			c.Save(fmt.Sprintf("out%d.pdf", k), out)
			m.check(c, out, "write "+strconv.Itoa(k+1))
			var b2 bytes.Buffer
			if err := w.Write(&b2); err != nil || !bytes.Equal(b2.Bytes(), out) {
				c.Failf("writing the same document again gives a different file (%d / %d bytes, %v)", b2.Len(), len(out), err)
			}
			if w.NextObjectNumber() != m.next {
				c.Failf("writing changed the next object number from %d to %d", m.next, w.NextObjectNumber())
			}
			c.Obs("files", 1)
			if r.Intn(3) == 0 {
				fw := &failWriter{n: r.Intn(len(out)), err: errors.New("disk full")}
				if err := w.Write(fw); err == nil {
					c.Failf("write error of the destination was swallowed")
				}
				c.Obs("failed_writes", 1)
			}
			for i := r.Intn(4); i >= 0 && k+1 < rounds && !c.Failed(); i-- {
				m.step(c, w, g)
			}
			c.Distinct(len(out), len(m.objs), mode)
			c.Sample("%s: %d objects, %d bytes, version %s, %d writes", mode, len(m.objs), len(out), m.ver, rounds)
		}
	}
}

// limitCase writes the highest object number readers accept, and one more.
func limitCase(c *rt.C) {
	w := write.NewPDFWriter()
	w.UseXRefStream(true)
	w.SetRoot(w.AddObject([]byte("<</Type/Catalog/Pages 2 0 R>>")))
	w.AddObject([]byte("<</Type/Pages/Kids[]/Count 0>>"))
	last := 8388607
	stm := c.R.Intn(2) == 0
	w.SetObject(last-1-c.R.Intn(9), []byte("(x)"))
	if c.Idx%2 == 0 {
		w.UseObjectStream(stm)
		n := last
		if stm {
			n--
		}
		w.SetObject(n, []byte("(y)"))
		if out, err := w.Bytes(); err != nil || len(out) < 100 {
			c.Failf("object number %d is not written: %v", n, err)
		}
	} else {
		w.SetObject(last+1, []byte("(y)"))
		if out, err := w.Bytes(); err == nil {
			c.Failf("object number %d, which no reader accepts, was written (%d bytes)", last+1, len(out))
		}
	}
	c.Obs("limits", 1)
	c.Distinct(c.Idx)
}

func init() {
	rt.Register(&rt.Check{
		ID: "P05", Title: "Written files are valid and hold exactly what was added",
		Rule: "distinct_nontrivial = cases with a distinct set of (file size, object count, mode) files that were read back object by object by the strict reader and by the library",
		Families: []rt.Family{
			{Name: "table", Quick: 1200, Thorough: 20000, Run: writerCase("table", 25, 0)},
			{Name: "xrefstm", Quick: 1200, Thorough: 20000, Run: writerCase("xrefstm", 25, 0)},
			{Name: "objstm", Quick: 1200, Thorough: 20000, Run: writerCase("objstm", 25, 0)},
			{Name: "table-large", Quick: 20, Thorough: 200, Run: writerCase("table", 700, 0)},
			{Name: "xrefstm-large", Quick: 20, Thorough: 200, Run: writerCase("xrefstm", 700, 0)},
			{Name: "objstm-large", Quick: 20, Thorough: 200, Run: writerCase("objstm", 700, 0)},
			{Name: "limit", Quick: 2, Thorough: 4, Run: limitCase},
			{Name: "table-gaps", Quick: 30, Thorough: 300, Run: writerCase("table", 6, 100000)},
			{Name: "xrefstm-gaps", Quick: 60, Thorough: 600, Run: writerCase("xrefstm", 6, 100000)},
			{Name: "objstm-gaps", Quick: 100, Thorough: 1000, Run: writerCase("objstm", 6, 100000)},
		},
	})
}
