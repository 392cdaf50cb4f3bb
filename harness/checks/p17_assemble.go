package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	. "verifharness/ref"
	"verifharness/rt"
)

// want describes one page an assembled document must hold.
type wantPage struct {
	d *doc
	i int
}

// checkAssembled verifies an extracted, merged or split document.
func checkAssembled(c *rt.C, out []byte, want []wantPage, what string) {
	f, err := OpenStrict(out, nil)
	if err != nil {
		c.Failf("%s: result is not a well-formed document: %v", what, err)
		return
	}
	if f.Crypt != nil {
		c.Failf("%s: result is encrypted", what)
		return
	}
	pages, err := f.Pages()
	if err != nil {
		c.Failf("%s: %v", what, err)
		return
	}
	if len(pages) != len(want) {
		c.Failf("%s: %d pages, want %d", what, len(pages), len(want))
		return
	}
	if dg := f.Dangling(); len(dg) > 0 {
		c.Failf("%s: reference to missing object %d", what, dg[0].N)
		return
	}
	outIdx := map[int]int{}
	for i, p := range pages {
		outIdx[p.Num] = i
	}
	ver := ""
	for i, w := range want {
		d := w.d
		srcIdx := map[int]int{}
		for j, p := range d.Pg {
			srcIdx[p.Num] = j
		}
		included := map[int]bool{}
		for _, x := range want {
			if x.d == d {
				included[x.i] = true
			}
		}
		q := &iso{src: d.File, dst: f, seen: map[[2]int]bool{}}
		q.page = func(a Ref, b Obj) (bool, string) {
			j, isPage := srcIdx[a.N]
			node := false
			for _, n := range d.nodes {
				node = node || n == a.N
			}
			if !isPage && !node {
				return false, ""
			}
			rb, ok := b.(Ref)
			if node || !included[j] {
				if b == nil {
					return true, ""
				}
				if _, isNull := b.(Null); isNull {
					return true, ""
				}
				return true, fmt.Sprintf("reference to object %d of the page tree, which is not part of the result, became %s", a.N, Short(b))
			}
			if !ok {
				return true, fmt.Sprintf("reference to page %d became %s", j+1, Short(b))
			}
			k, ok := outIdx[rb.N]
			if !ok || want[k].d != d || want[k].i != j {
				return true, fmt.Sprintf("reference to source page %d leads to object %d, which is not its copy", j+1, rb.N)
			}
			return true, ""
		}
		if s := q.pageDiff(d.Pg[w.i], pages[i], d.Pg[w.i].Rotate); s != "" {
			c.Failf("%s: page %d (source page %d): %s", what, i+1, w.i+1, s)
			return
		}
		c.Obs("pages", 1)
		c.Obs("values", q.n)
		if d.S.Version > ver {
			ver = d.S.Version
		}
	}
	if !bytes.HasPrefix(out, []byte("%PDF-")) || string(out[5:8]) < ver {
		c.Failf("%s: header %q although a source is version %s", what, out[:8], ver)
	}
	// nothing of the pages left out comes along
	reach := map[int]bool{}
	var visit func(o Obj)
	visit = func(o Obj) {
		switch v := o.(type) {
		case Ref:
			if !reach[v.N] {
				reach[v.N] = true
				o, _ := f.Get(v.N)
				visit(o)
			}
		case Arr:
			for _, e := range v {
				visit(e)
			}
		case *Dict:
			for _, k := range v.Keys {
				visit(v.M[k])
			}
		case *Stream:
			visit(v.D)
		}
	}
	visit(f.Trailer.Get("Root"))
	for _, n := range f.Nums() {
		o, err := f.Get(n)
		if err != nil {
			c.Failf("%s: object %d: %v", what, n, err)
			return
		}
		dd := f.Dict(o)
		if t := dd.Name("Type"); t == "XRef" || t == "ObjStm" {
			continue
		}
		if _, ok := o.(Int); ok {
			continue // the length of a stream, now stored with it
		}
		if !reach[n] {
			if rf, ok := f.Trailer.Get("Info").(Ref); ok && rf.N == n {
				continue
			}
			c.Failf("%s: object %d (%s) is not part of any selected page", what, n, Short(o))
			return
		}
	}
	c.Obs("files", 1)
}

func extractPick(r *rand.Rand, n int) ([]int, bool) {
	var ps []int
	ok := true
	switch r.Intn(4) {
	case 0: // ascending subset
		for i := 1; i <= n; i++ {
			if r.Intn(2) == 0 {
				ps = append(ps, i)
			}
		}
	case 1: // everything, shuffled
		for _, k := range r.Perm(n) {
			ps = append(ps, k+1)
		}
	default: // any list, repetitions allowed
		for k := 1 + r.Intn(5); k > 0; k-- {
			ps = append(ps, 1+r.Intn(n))
		}
	}
	if r.Intn(10) == 0 {
		ps = append(ps, []int{0, -1, n + 1}[r.Intn(3)])
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		ok = false
	}
	if len(ps) == 0 {
		ok = false
	}
	return ps, ok
}

func srcDoc(c *rt.C, max int) *doc {
	r := c.R
	d := genDoc(r, docOpts{pages: 1 + r.Intn(max), crypt: r.Intn(4) == 0})
	c.Save(fmt.Sprintf("in%d.pdf", len(c.Files)), d.B.B)
	return d
}

func extractCase(max int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		d := srcDoc(c, max)
		in := append([]byte{}, d.B.B...)
		ps, ok := extractPick(r, len(d.Pg))
		out, err := manipulate.ExtractPages(d.B.B, ps, d.PW, false)
		if ok != (err == nil) {
			c.Failf("ExtractPages(%v) of %d pages (%s): error %v", ps, len(d.Pg), d.Enc, err)
			return
		}
		c.Distinct(ps, len(d.Pg), d.Enc, len(in))
		c.Sample("extract %v of %d pages, %s, %d bytes", ps, len(d.Pg), d.Enc, len(in))
		if !ok {
			c.Obs("refusals", 1)
			return
		}
		c.Save("out.pdf", out)
		var want []wantPage
		for _, p := range ps {
			want = append(want, wantPage{d, p - 1})
		}
		checkAssembled(c, out, want, fmt.Sprintf("extract %v", ps))
		if !bytes.Equal(in, d.B.B) {
			c.Failf("the caller's document was modified")
		}
	}
}

func splitCase(c *rt.C) {
	r := c.R
	d := srcDoc(c, 12)
	n := len(d.Pg)
	var ranges [][2]int
	var outs [][]byte
	var err error
	ok := true
	what := ""
	if r.Intn(2) == 0 {
		k := r.Intn(n + 3)
		what = fmt.Sprintf("split of %d pages by %d", n, k)
		ok = k > 0
		outs, err = manipulate.SplitPDFByPageCount(d.B.B, k, d.PW, false)
		if ok {
			for s := 1; s <= n; s += k {
				e := s + k - 1
				if e > n {
					e = n
				}
				ranges = append(ranges, [2]int{s, e})
			}
		}
	} else {
		var prs []manipulate.PageRange
		for k := r.Intn(4); k >= 0; k-- {
			s := 1 + r.Intn(n)
			e := s + r.Intn(n-s+1)
			if r.Intn(12) == 0 {
				s, e = []int{0, n + 1, 2, s}[r.Intn(4)], []int{1, n + 1, 1, n + 1}[r.Intn(4)]
				if !(s >= 1 && e >= s && e <= n) {
					ok = false
				}
			}
			prs = append(prs, manipulate.PageRange{Start: s, End: e})
			ranges = append(ranges, [2]int{s, e})
		}
		what = fmt.Sprintf("split of %d pages into %v", n, ranges)
		outs, err = manipulate.SplitPDF(d.B.B, prs, d.PW, false)
	}
	if ok != (err == nil) {
		c.Failf("%s: error %v", what, err)
		return
	}
	c.Distinct(what, len(d.B.B))
	c.Sample("%s", what)
	if !ok {
		c.Obs("refusals", 1)
		return
	}
	if len(outs) != len(ranges) {
		c.Failf("%s: %d documents, want %d", what, len(outs), len(ranges))
		return
	}
	for k, rg := range ranges {
		var want []wantPage
		for p := rg[0]; p <= rg[1]; p++ {
			want = append(want, wantPage{d, p - 1})
		}
		c.Save(fmt.Sprintf("out%d.pdf", k), outs[k])
		checkAssembled(c, outs[k], want, fmt.Sprintf("%s, part %d", what, k+1))
	}
}

func mergeCase(max int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		var docs [][]byte
		var pws [][]byte
		var want []wantPage
		what := "merge of"
		var ds []*doc
		for k := 1 + r.Intn(4); k > 0; k-- {
			var d *doc
			if len(ds) > 0 && r.Intn(5) == 0 {
				// the same document again: a separate copy
				o := ds[r.Intn(len(ds))]
				cp := *o
				d = &cp
			} else {
				d = srcDoc(c, max)
			}
			ds = append(ds, d)
			docs = append(docs, d.B.B)
			pws = append(pws, d.PW)
			what += fmt.Sprintf(" %d%s", len(d.Pg), d.Enc)
			for i := range d.Pg {
				want = append(want, wantPage{d, i})
			}
		}
		need := false
		for _, p := range pws {
			if len(p) > 0 {
				need = true
			}
		}
		if !need && r.Intn(2) == 0 {
			pws = nil
		} else {
			for len(pws) > 0 && len(pws[len(pws)-1]) == 0 && r.Intn(2) == 0 {
				pws = pws[:len(pws)-1]
			}
		}
		out, err := manipulate.MergePDFs(docs, pws, false)
		if err != nil {
			c.Failf("%s pages: %v", what, err)
			return
		}
		c.Save("out.pdf", out)
		checkAssembled(c, out, want, what)
		c.Distinct(what, len(out))
		c.Sample("%s -> %d pages, %d bytes", what, len(want), len(out))
	}
}

// pipeline chains the operations on their own results.
func assembleChain(c *rt.C) {
	r := c.R
	d := srcDoc(c, 6)
	var want []wantPage
	for i := range d.Pg {
		want = append(want, wantPage{d, i})
	}
	cur, pw := d.B.B, d.PW
	log := ""
	for k := 2 + r.Intn(3); k > 0 && !c.Failed(); k-- {
		switch r.Intn(3) {
		case 0:
			var ps []int
			var w []wantPage
			for j := 1 + r.Intn(len(want)+1); j > 0; j-- {
				p := 1 + r.Intn(len(want))
				ps = append(ps, p)
				w = append(w, want[p-1])
			}
			log += fmt.Sprintf(" extract%v", ps)
			out, err := manipulate.ExtractPages(cur, ps, pw, false)
			if err != nil {
				c.Failf("%s: %v", log, err)
				return
			}
			cur, pw, want = out, nil, w
		case 1:
			e := srcDoc(c, 4)
			log += fmt.Sprintf(" merge+%d", len(e.Pg))
			out, err := manipulate.MergePDFs([][]byte{cur, e.B.B}, [][]byte{pw, e.PW}, false)
			if err != nil {
				c.Failf("%s: %v", log, err)
				return
			}
			cur, pw = out, nil
			for i := range e.Pg {
				want = append(want, wantPage{e, i})
			}
		case 2:
			n := 1 + r.Intn(len(want))
			log += fmt.Sprintf(" split%d", n)
			outs, err := manipulate.SplitPDFByPageCount(cur, n, pw, false)
			if err != nil || len(outs) == 0 {
				c.Failf("%s: %v", log, err)
				return
			}
			out, err := manipulate.MergePDFs(outs, nil, false)
			if err != nil {
				c.Failf("%s: %v", log, err)
				return
			}
			cur, pw = out, nil
		}
	}
	c.Save("out.pdf", cur)
	if log == "" {
		return
	}
	checkChain(c, cur, want, log)
	c.Distinct(log, len(cur))
	c.Sample("%s -> %d pages", log, len(want))
}

// checkChain compares the pages only: references between pages that were split
// apart in between are gone, so annotations and extra entries are left out.
func checkChain(c *rt.C, out []byte, want []wantPage, what string) {
	f, err := OpenStrict(out, nil)
	if err != nil {
		c.Failf("%s: result is not a well-formed document: %v", what, err)
		return
	}
	pages, err := f.Pages()
	if err != nil || len(pages) != len(want) {
		c.Failf("%s: %d pages, want %d (%v)", what, len(pages), len(want), err)
		return
	}
	for i, w := range want {
		a, b := w.d.Pg[w.i], pages[i]
		q := &iso{src: w.d.File, dst: f, seen: map[[2]int]bool{}}
		strip := func(p Page) Page {
			p.D = p.D.Copy()
			p.D.Del("Annots")
			return p
		}
		if s := q.pageDiff(strip(a), strip(b), a.Rotate); s != "" {
			c.Failf("%s: page %d: %s", what, i+1, s)
			return
		}
		c.Obs("pages", 1)
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P17", Title: "Extracted, merged and split documents hold complete pages in order",
		Rule: "distinct_nontrivial = cases with a distinct (request, source sizes, encryption) whose result was compared object graph by object graph with the source pages",
		Families: []rt.Family{
			{Name: "extract", Quick: 900, Thorough: 15000, Run: extractCase(8)},
			{Name: "extract-large", Quick: 30, Thorough: 400, Run: extractCase(120)},
			{Name: "split", Quick: 400, Thorough: 6000, Run: splitCase},
			{Name: "merge", Quick: 600, Thorough: 10000, Run: mergeCase(5)},
			{Name: "merge-large", Quick: 20, Thorough: 300, Run: mergeCase(60)},
			{Name: "chain", Quick: 400, Thorough: 6000, Run: assembleChain},
		},
	})
}
