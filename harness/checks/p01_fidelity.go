package checks

import (
	"bytes"
	"math/rand"
	"sort"

	"github.com/benedoc-inc/pdfer/core/parse"
	. "verifharness/ref"
	"verifharness/rt"
)

// randFile builds a random single-revision file of n objects.
func randFile(c *rt.C, n int, xstm bool, mod func(*Spec)) (*Spec, *Built) {
	r := c.R
	s := &Spec{}
	layout(r, s)
	var refs []Ref
	nums := r.Perm(n)
	for _, k := range nums {
		refs = append(refs, Ref{k + 1, 0})
	}
	g := &objGen{r: r, refs: refs}
	rev := Rev{XRefStm: xstm}
	root := refs[0]
	for i, ref := range refs {
		var o Obj
		if i == 0 {
			o = NewDict("Type", Name("Catalog"), "Pages", refs[len(refs)-1])
		} else if i == len(refs)-1 {
			o = NewDict("Type", Name("Pages"), "Kids", Arr{}, "Count", Int(0))
		} else {
			o = g.val()
		}
		gen := 0
		if r.Intn(15) == 0 && i > 0 {
			gen = []int{r.Intn(3), r.Intn(300), r.Intn(65535)}[r.Intn(3)]
		}
		rev.Objs = append(rev.Objs, FObj{N: ref.N, G: gen, O: o, InStm: r.Intn(4) != 0})
	}
	s.Root = Ref{root.N, 0}
	s.Revs = []Rev{rev}
	if r.Intn(6) == 0 {
		spread(r, s)
	}
	if mod != nil {
		mod(s)
	}
	return s, s.Build()
}

// checkLive verifies that pdf exposes exactly the objects in live.
func checkLive(c *rt.C, pdf *parse.PDF, b *Built, live map[int]Placed, infra map[int]bool, what string) {
	nums := append([]int{}, pdf.Objects()...)
	sort.Ints(nums)
	have := map[int]bool{}
	for _, n := range nums {
		have[n] = true
		if _, ok := live[n]; !ok && !infra[n] {
			c.Failf("%s: object %d listed but it is not in use in this file", what, n)
		}
	}
	c.Obs("object_sets", 1)
	for _, n := range sortedInts(live) {
		p := live[n]
		if p.O == nil {
			continue
		}
		if !have[n] || !pdf.HasObject(n) {
			c.Failf("%s: in-use object %d not listed (of %d objects, listed %d)", what, n, len(live), len(nums))
			return
		}
		got, err := pdf.GetObject(n)
		if err != nil {
			c.Failf("%s: GetObject(%d): %v", what, n, err)
			return
		}
		checkVal(c, got, p, what)
		if c.Failed() {
			return
		}
	}
}

func checkVal(c *rt.C, got []byte, p Placed, what string) {
	n := -1
	if s, ok := p.O.(*Stream); ok {
		n = len(s.Raw)
	}
	v, err := objValueLen(got, n)
	if err != nil {
		c.Failf("%s: object %d: returned bytes do not parse: %v; body %q", what, p.N, err, clipB(p.Body))
		return
	}
	want := p.O
	if s, ok := want.(*Stream); ok {
		gs, ok := v.(*Stream)
		if !ok {
			c.Failf("%s: object %d: stream returned without its data: %q", what, p.N, clipB(got))
			return
		}
		if !bytes.Equal(gs.Raw, s.Raw) {
			c.Failf("%s: object %d: stream data differs: got %d bytes %q, want %d bytes %q", what, p.N, len(gs.Raw), clipB(gs.Raw), len(s.Raw), clipB(s.Raw))
			return
		}
		a, b := gs.D.Copy(), s.D.Copy()
		a.Del("Length")
		b.Del("Length")
		if d := Diff(a, b); d != "" {
			c.Failf("%s: object %d dictionary: %s", what, p.N, d)
		}
	} else if d := Diff(v, want); d != "" {
		c.Failf("%s: object %d: got vs want: %s; body %q", what, p.N, d, clipB(p.Body))
	}
	c.Obs("object_values", 1)
}

func r0(c *rt.C, n int) int { return c.R.Intn(n) }

func clipB(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func init() {
	one := func(xstm bool, size func(c *rt.C) int, mod func(c *rt.C, s *Spec)) func(c *rt.C) {
		return func(c *rt.C) {
			n := size(c)
			s, b := randFile(c, n, xstm, func(s *Spec) {
				if mod != nil {
					mod(c, s)
				}
			})
			c.Save("in.pdf", b.B)
			selfCheck(b)
			keep := append([]byte{}, b.B...)
			pdf, err := parse.Open(b.B)
			if err != nil {
				c.Failf("Open rejects a well-formed file: %v", err)
				return
			}
			checkLive(c, pdf, b, b.Live, b.Infra, "Open")
			if pdf.Version() != s.Version {
				c.Failf("Version() = %q, want %q", pdf.Version(), s.Version)
			}
			c.Obs("versions", 1)
			if tr := pdf.Trailer(); tr == nil || !refIs(tr.RootRef, s.Root.N) {
				c.Failf("trailer root is %+v, want %d", tr, s.Root.N)
			}
			if n := pdf.RevisionCount(); n != 1 {
				c.Failf("RevisionCount() = %d", n)
			}
			if got := pdf.ObjectCount(); got != len(pdf.Objects()) || got < len(b.Live) {
				c.Failf("ObjectCount() = %d, %d listed, %d in use", got, len(pdf.Objects()), len(b.Live))
			}
			if pdf.IsEncrypted() || pdf.Encryption() != nil {
				c.Failf("unencrypted file reported as encrypted")
			}
			// the byte-preserving mode and the package-level lookups agree
			bp, err := parse.OpenWithOptions(b.B, parse.ParseOptions{BytePerfect: true})
			if err != nil {
				c.Failf("byte-preserving open: %v", err)
				return
			}
			checkLive(c, bp, b, b.Live, b.Infra, "byte-preserving")
			for i := 0; i < 4; i++ {
				num := 1 + r0(c, n)
				p, ok := b.Live[num]
				if !ok || p.O == nil || c.Failed() {
					continue
				}
				got, err := parse.GetObject(b.B, num, nil, false)
				if err != nil {
					c.Failf("package-level GetObject(%d): %v", num, err)
					return
				}
				checkVal(c, got, p, "package-level GetObject")
				if p.InStm == 0 {
					at, err := parse.FindObjectByNumber(b.B, num, nil, false)
					if err != nil || at != p.Off {
						c.Failf("FindObjectByNumber(%d) = %d, %v; object is at %d", num, at, err, p.Off)
						return
					}
					got, err := parse.GetDirectObject(b.B, num, int64(p.Off), nil, false)
					if err != nil {
						c.Failf("GetDirectObject(%d): %v", num, err)
						return
					}
					checkVal(c, got, p, "GetDirectObject")
				} else {
					got, err := parse.GetObjectFromStream(b.B, num, p.InStm, p.Idx, nil, false)
					if err != nil {
						c.Failf("GetObjectFromStream(%d in %d): %v", num, p.InStm, err)
						return
					}
					checkVal(c, got, p, "GetObjectFromStream")
				}
				c.Obs("lookups", 1)
			}
			table, err := parse.ParseCrossReferenceTable(b.B, int64(b.StartX[0]))
			if err != nil {
				c.Failf("ParseCrossReferenceTable: %v", err)
				return
			}
			if b.Second != 0 {
				second, err := parse.ParseCrossReferenceTable(b.B, int64(b.Second))
				if err != nil {
					c.Failf("ParseCrossReferenceTable: second section: %v", err)
					return
				}
				for num, off := range second {
					if _, ok := table[num]; ok {
						c.Failf("ParseCrossReferenceTable: object %d in both sections", num)
						return
					}
					table[num] = off
				}
				c.Obs("linearized", 1)
			}
			for _, num := range sortedInts(b.Live) {
				p := b.Live[num]
				if off, ok := table[num]; p.O != nil && (p.InStm == 0) != ok || ok && p.O != nil && off != int64(p.Off) {
					c.Failf("ParseCrossReferenceTable: object %d at %d (%v), want %d (in stream: %v)", num, off, ok, p.Off, p.InStm != 0)
					return
				}
			}
			c.Obs("xref_tables", 1)
			if _, err := pdf.GetObject(b.MaxN + 50); err == nil {
				c.Failf("GetObject of a number outside the file succeeded")
			}
			c.Obs("absent", 1)
			if !bytes.Equal(keep, b.B) {
				c.Failf("input bytes were modified")
			}
			c.Distinct(len(b.B), n, s.St.Tight, s.St.Comments, xstm)
			c.Sample("%d objects, %d bytes, xref stream %v, object streams of <=%d, predictor %d/%d, xref CRLF %v", n, len(b.B), xstm, s.ObjStmMax, s.Predictor, s.PNGType, s.CRLFXref)
		}
	}
	rawmod := func(c *rt.C, s *Spec) {
		s.ObjStmRaw = c.R.Intn(2) == 0
		s.XRefRaw = c.R.Intn(2) == 0
		if s.XRefRaw {
			s.Predictor = 1
		}
	}
	indmod := func(c *rt.C, s *Spec) {
		s.IndirectLen = true
	}
	bulkmod := func(c *rt.C, s *Spec) {
		g := &objGen{r: c.R}
		ex := NewDict()
		for i := 0; i < c.R.Intn(600); i++ {
			ex.Set(randWordKey(c.R, i), g.obj(1))
		}
		s.Revs[0].Extra = ex
		for i := range s.Revs[0].Objs {
			o := &s.Revs[0].Objs[i]
			if i < 1 || i == len(s.Revs[0].Objs)-1 {
				continue
			}
			switch c.R.Intn(6) {
			case 0:
				a := Arr{}
				for k := 0; k < 200+c.R.Intn(3000); k++ {
					a = append(a, g.obj(0))
				}
				o.O = a
			case 1:
				var v Obj = Int(1)
				for k := 0; k < 20+c.R.Intn(60); k++ {
					if c.R.Intn(2) == 0 {
						v = Arr{v, g.obj(0)}
					} else {
						v = NewDict("A", g.obj(0), "B", v)
					}
				}
				o.O = v
			case 2:
				o.O = &Stream{D: g.dict(2), Raw: rbytes(c.R, 1000+c.R.Intn(300000))}
				o.O.(*Stream).D.Del("Length")
				o.O.(*Stream).D.Del("Filter")
			case 3:
				o.O = Str(rbytes(c.R, c.R.Intn(20000)))
			}
		}
	}
	small := func(c *rt.C) int { return 3 + c.R.Intn(30) }
	medium := func(c *rt.C) int { return 250 + c.R.Intn(300) }
	large := func(c *rt.C) int { return 480 + c.R.Intn(2500) }
	rt.Register(&rt.Check{
		ID: "P01", Title: "Every in-use object of a well-formed file is returned intact",
		Rule:   "distinct_nontrivial = cases with a distinct set of (file size, object count, syntax, xref kind) fingerprints of files whose whole object set was compared value by value",
		Assume: []string{"generated files are valid per the independent strict reader (asserted for every case)"},
		Families: []rt.Family{
			{Name: "table-small", Quick: 1200, Thorough: 6000, Run: one(false, small, nil)},
			{Name: "xrefstm-small", Quick: 1200, Thorough: 6000, Run: one(true, small, nil)},
			{Name: "table-indirect-length", Quick: 400, Thorough: 2000, Run: one(false, small, indmod)},
			{Name: "xrefstm-indirect-length", Quick: 400, Thorough: 2000, Run: one(true, small, indmod)},
			{Name: "xrefstm-unfiltered", Quick: 400, Thorough: 2000, Run: one(true, small, rawmod)},
			{Name: "table-bulk", Quick: 160, Thorough: 600, Run: one(false, small, bulkmod)},
			{Name: "xrefstm-bulk", Quick: 160, Thorough: 600, Run: one(true, small, bulkmod)},
			{Name: "table-medium", Quick: 48, Thorough: 150, Run: one(false, medium, nil)},
			{Name: "xrefstm-medium", Quick: 96, Thorough: 300, Run: one(true, medium, nil)},
			{Name: "table-large", Quick: 16, Thorough: 40, Run: one(false, large, nil)},
			{Name: "xrefstm-large", Quick: 16, Thorough: 40, Run: one(true, large, nil)},
		},
	})
}

func randWordKey(r *rand.Rand, i int) string {
	return "Priv" + string(rune('A'+i%26)) + string(rune('a'+(i/26)%26)) + string(rune('a'+r.Intn(26)))
}
