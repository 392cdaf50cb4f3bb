package checks

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	. "verifharness/ref"
	"verifharness/rt"
)

// opPage is a page of the model: a page of the source or an inserted one.
type opPage struct {
	src int // index into the source pages, -1 when inserted
	num int
	rot int
	dic *Dict // inserted page
}

func pageOpsCase(crypt bool, many bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		np := 1 + r.Intn(9)
		if many {
			np = 30 + r.Intn(60)
		}
		d := genDoc(r, docOpts{pages: np, crypt: crypt})
		c.Save("in.pdf", d.B.B)
		in := append([]byte{}, d.B.B...)
		m, err := manipulate.NewPDFManipulator(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("NewPDFManipulator rejects a well-formed document (%s): %v", d.Enc, err)
			return
		}
		var model []opPage
		for i, p := range d.Pg {
			model = append(model, opPage{src: i, num: p.Num, rot: p.Rotate})
		}
		log := ""
		free := d.B.MaxN + 500
		rebuilds := 0
		check := func() {
			out, err := m.Rebuild()
			if err != nil {
				c.Failf("Rebuild after%s: %v", log, err)
				return
			}
			rebuilds++
			c.Save("out.pdf", out)
			checkPageOps(c, d, model, out, log)
		}
		n := r.Intn(7)
		if many {
			n = 10 + r.Intn(20)
		}
		for i := 0; i < n && !c.Failed(); i++ {
			switch k := r.Intn(11); {
			case k <= 2:
				pn := r.Intn(len(model)+3) - 1
				ang := []int{90, 180, 270, 90, 180, 270, 0, 45, 360, -90}[r.Intn(10)]
				log += fmt.Sprintf(" rotate(%d,%d)", pn, ang)
				err := m.RotatePage(pn, ang)
				ok := pn >= 1 && pn <= len(model) && (ang == 90 || ang == 180 || ang == 270)
				if ok != (err == nil) {
					c.Failf("%s: error %v with %d pages", log, err, len(model))
				}
				if ok {
					model[pn-1].rot += ang
				}
			case k == 3:
				ang := []int{90, 180, 270, 30}[r.Intn(4)]
				log += fmt.Sprintf(" rotateAll(%d)", ang)
				err := m.RotateAllPages(ang)
				if (ang != 30) != (err == nil) {
					c.Failf("%s: error %v", log, err)
				}
				if ang != 30 {
					for j := range model {
						model[j].rot += ang
					}
				}
			case k <= 5:
				pn := r.Intn(len(model)+3) - 1
				log += fmt.Sprintf(" delete(%d)", pn)
				err := m.DeletePage(pn)
				ok := pn >= 1 && pn <= len(model) && len(model) > 1
				if ok != (err == nil) {
					c.Failf("%s: error %v with %d pages", log, err, len(model))
				}
				if ok {
					model = append(append([]opPage{}, model[:pn-1]...), model[pn:]...)
				}
			case k <= 7:
				var ns []int
				seen := map[int]bool{}
				ok := true
				for j := r.Intn(4); j >= 0; j-- {
					pn := 1 + r.Intn(len(model))
					if r.Intn(12) == 0 {
						pn = len(model) + 1
						ok = false
					}
					ns = append(ns, pn)
					seen[pn] = true
				}
				if len(seen) >= len(model) {
					ok = false
				}
				if r.Intn(2) == 0 {
					sort.Ints(ns)
				}
				log += fmt.Sprintf(" deletePages(%v)", ns)
				keep := append([]int{}, ns...)
				err := m.DeletePages(ns)
				if ok != (err == nil) {
					c.Failf("%s: error %v with %d pages", log, err, len(model))
				}
				if fmt.Sprint(keep) != fmt.Sprint(ns) {
					c.Failf("%s changed the caller's list to %v", log, ns)
				}
				if ok {
					var left []opPage
					for j := range model {
						if !seen[j+1] {
							left = append(left, model[j])
						}
					}
					model = left
				}
			case k <= 9:
				pn := r.Intn(len(model)+4) - 1
				pg := NewDict("Type", Name("Page"), "MediaBox", Arr{Int(0), Int(0), Int(100 + r.Intn(100)), Int(100)}, "Resources", NewDict("Font", NewDict()), "CropBox", Arr{Int(0), Int(0), Int(50), Int(60)}, "Rotate", Int(90*r.Intn(4)), "Mark", Str(d.g.str()))
				if r.Intn(2) == 0 {
					pg.Set("Parent", Ref{d.rootNum, 0}) // to be corrected
				}
				if r.Intn(2) == 0 {
					pg.Set("Keep", d.misc[r.Intn(len(d.misc))])
				}
				free++
				num := free
				used := false
				if r.Intn(8) == 0 {
					// a number the document needs, or none at all
					num, used = []int{0, -1, -free, d.rootNum, d.pages[0], d.nodes[0]}[r.Intn(6)], true
				}
				log += fmt.Sprintf(" insert(%d,%d)", pn, num)
				body := Ser(pg, d.S.St)
				if r.Intn(3) == 0 {
					body = []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj\n", num, body))
				}
				err := m.InsertPage(pn, num, body)
				ok := pn >= 0 && pn <= len(model)+1 && !used
				if ok != (err == nil) {
					c.Failf("%s: error %v with %d pages", log, err, len(model))
				}
				if ok {
					np := opPage{src: -1, num: free, rot: pg.Int("Rotate", 0), dic: pg}
					at := pn - 1
					if pn == 0 || at > len(model) {
						at = len(model)
					}
					model = append(model[:at:at], append([]opPage{np}, model[at:]...)...)
				}
			default:
				log += " rebuild"
				check()
			}
			c.Obs("operations", 1)
		}
		if !c.Failed() {
			check()
		}
		if !bytes.Equal(in, d.B.B) {
			c.Failf("the caller's document was modified")
		}
		c.Distinct(log, len(model), d.Enc)
		c.Sample("%d pages, %s:%s -> %d pages", np, d.Enc, log, len(model))
	}
}

func checkPageOps(c *rt.C, d *doc, model []opPage, out []byte, log string) {
	f, err := OpenStrict(out, d.PW)
	if err != nil {
		c.Failf("after%s the document is not well-formed: %v", log, err)
		return
	}
	pages, err := f.Pages()
	if err != nil {
		c.Failf("after%s: %v", log, err)
		return
	}
	if len(pages) != len(model) {
		c.Failf("after%s: %d pages, want %d", log, len(pages), len(model))
		return
	}
	if (f.Crypt != nil) != (d.File.Crypt != nil) {
		c.Failf("after%s: encrypted %v, source encrypted %v", log, f.Crypt != nil, d.File.Crypt != nil)
	}
	if f.Version != d.File.Version {
		c.Failf("after%s: version %s became %s", log, d.File.Version, f.Version)
	}
	// cross-reference and object streams of the source describe a file that is
	// no more
	for n := range d.B.Infra {
		o, err := f.Get(n)
		if err != nil || n == d.B.EncNum {
			continue
		}
		if st, ok := o.(*Stream); ok {
			if t := st.D.Name("Type"); (t == "XRef" || t == "ObjStm") && !f.Uses(n) {
				c.Failf("after%s: %s stream %d of the source is still there", log, t, n)
			}
		}
	}
	tree := map[int]bool{}
	for _, n := range d.nodes {
		tree[n] = true
	}
	for _, n := range d.pages {
		tree[n] = true
	}
	// object numbers are kept, so references must come back as they were
	same := func(a Ref, b Obj) (bool, string) {
		if rb, ok := b.(Ref); !ok || rb.N != a.N {
			return true, fmt.Sprintf("reference to object %d became %s", a.N, Short(b))
		}
		return true, ""
	}
	q := &iso{src: d.File, dst: f, seen: map[[2]int]bool{}, page: same}
	for i, mp := range model {
		pg := pages[i]
		if pg.Num != mp.num {
			c.Failf("after%s: page %d is object %d, want object %d", log, i+1, pg.Num, mp.num)
			return
		}
		s := ""
		if mp.src >= 0 {
			s = q.pageDiff(d.Pg[mp.src], pg, mp.rot)
		} else {
			inh := map[string]Obj{}
			for _, k := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
				inh[k] = mp.dic.Get(k)
			}
			s = q.pageDiff(Page{D: mp.dic, Inh: inh}, pg, mp.rot)
		}
		if s != "" {
			c.Failf("after%s: page %d: %s", log, i+1, s)
			return
		}
		c.Obs("pages", 1)
	}
	// everything that is not part of the page tree is as it was
	for _, n := range d.File.Nums() {
		if tree[n] || d.B.Infra[n] || n == d.B.EncNum {
			continue
		}
		want, err := d.File.Get(n)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if _, isNull := want.(Null); isNull {
			continue
		}
		if s := q.kids(n, d); s {
			continue
		}
		got, err := f.Get(n)
		if err != nil {
			c.Failf("after%s: object %d is gone: %v", log, n, err)
			return
		}
		if s := q.diff(want, got, fmt.Sprintf("object %d", n), 0); s != "" {
			c.Failf("after%s: %s", log, s)
			return
		}
		c.Obs("objects", 1)
	}
	if rr, ok := f.Trailer.Get("Root").(Ref); !ok || rr.N != d.rootNum {
		c.Failf("after%s: trailer /Root is %s", log, Short(f.Trailer.Get("Root")))
	}
	if d.infoNum != 0 {
		if rr, ok := f.Trailer.Get("Info").(Ref); !ok || rr.N != d.infoNum {
			c.Failf("after%s: trailer /Info is %s", log, Short(f.Trailer.Get("Info")))
		}
	}
}

// kids reports whether object n only holds the Kids or the Count of a page tree node.
func (q *iso) kids(n int, d *doc) bool {
	for _, t := range d.nodes {
		for _, k := range []string{"Kids", "Count"} {
			if rf, ok := d.objs[t].(*Dict).Get(k).(Ref); ok && rf.N == n {
				return true
			}
		}
	}
	return false
}

func init() {
	rt.Register(&rt.Check{
		ID: "P16", Title: "Rotating, deleting and inserting pages changes exactly those pages",
		Rule: "distinct_nontrivial = cases with a distinct (operation sequence, resulting page count, encryption) whose rebuilt file was read back page by page and object by object",
		Families: []rt.Family{
			{Name: "ops", Quick: 1200, Thorough: 20000, Run: pageOpsCase(false, false)},
			{Name: "ops-encrypted", Quick: 400, Thorough: 6000, Run: pageOpsCase(true, false)},
			{Name: "ops-many", Quick: 60, Thorough: 800, Run: pageOpsCase(false, true)},
		},
	})
}
