package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// the parts of a document that comparison looks at
type cText struct {
	s, font    string
	x, y, size float64
}
type cBox struct {
	rect       bool
	x, y, w, h float64
}
type cImg struct {
	name       string
	x, y, w, h float64
	data       []byte // w and h in pixels are the first two bytes
}
type cAnn struct {
	sub        string
	x, y, w, h float64
}
type cPage struct {
	w, h   float64
	rot    int
	texts  []cText
	boxes  []cBox
	imgs   []cImg
	anns   []cAnn
	unused []int // cells nothing stands in
}
type cDoc struct {
	pages []*cPage
	info  map[string]string
	marks []types.Bookmark
	crypt bool
	form  *cForm
	ver   string // of the rendered file
	enc   bool
}

// page cells: 10 columns of 60 by 20 rows of 40 points
func cell(i int) (float64, float64) { return float64(i%10) * 60, float64(i/10) * 40 }

type cGen struct {
	r   *rand.Rand
	uid int
	dup bool // repeat texts and images
}

func (g *cGen) text() string {
	g.uid++
	if g.dup && g.uid > 3 && g.r.Intn(2) == 0 {
		return fmt.Sprintf("text %d", g.r.Intn(3))
	}
	return fmt.Sprintf("%s ~%d~ %s", randWords(g.r, 1+g.r.Intn(3)), g.uid, randWords(g.r, 1+g.r.Intn(4)))
}

func (g *cGen) pixels() []byte {
	r := g.r
	if g.dup && r.Intn(2) == 0 {
		return []byte{1, 2, 7, 7}
	}
	g.uid++
	w, h := 1+r.Intn(5), 7+r.Intn(5)
	b := append([]byte{byte(w), byte(h)}, rbytes(r, w*h)...)
	b[2], b[3], b[4] = byte(g.uid), byte(g.uid>>8), byte(g.uid>>16)
	return b
}

func (g *cGen) place(p *cPage) (float64, float64) {
	k := g.r.Intn(len(p.unused))
	c := p.unused[k]
	p.unused = append(p.unused[:k:k], p.unused[k+1:]...)
	x, y := cell(c)
	return x + float64(g.r.Intn(800))/100, y + float64(g.r.Intn(800))/100
}

func (g *cGen) newText(p *cPage) cText {
	x, y := g.place(p)
	return cText{s: g.text(), font: fmt.Sprintf("F%d", 1+g.r.Intn(3)), x: x, y: y, size: float64(4 + g.r.Intn(30))}
}

func (g *cGen) newBox(p *cPage) cBox {
	x, y := g.place(p)
	return cBox{rect: g.r.Intn(2) == 0, x: x, y: y, w: 1 + float64(g.r.Intn(200))/10, h: 1 + float64(g.r.Intn(150))/10}
}

func (g *cGen) newImg(p *cPage, name string) cImg {
	x, y := g.place(p)
	return cImg{name: name, x: x, y: y, w: 10 + float64(g.r.Intn(100))/10, h: 10 + float64(g.r.Intn(100))/10, data: g.pixels()}
}

func (g *cGen) newAnn(p *cPage) cAnn {
	x, y := g.place(p)
	return cAnn{sub: []string{"Link", "Text", "Square", "Highlight", "Stamp"}[g.r.Intn(5)], x: x, y: y, w: 5 + float64(g.r.Intn(20)), h: 5 + float64(g.r.Intn(20))}
}

func (g *cGen) page() *cPage {
	r := g.r
	p := &cPage{w: float64(300 + r.Intn(900)), h: float64(300 + r.Intn(900)), rot: 90 * r.Intn(4), unused: r.Perm(200)}
	for n := r.Intn(12); n > 0; n-- {
		p.texts = append(p.texts, g.newText(p))
	}
	for n := r.Intn(6); n > 0; n-- {
		p.boxes = append(p.boxes, g.newBox(p))
	}
	for n := r.Intn(4); n > 0; n-- {
		p.imgs = append(p.imgs, g.newImg(p, fmt.Sprintf("Im%d", n)))
	}
	for n := r.Intn(4); n > 0; n-- {
		p.anns = append(p.anns, g.newAnn(p))
	}
	if g.dup {
		for i := len(p.texts); i > 0; i-- {
			if r.Intn(2) == 0 {
				t := p.texts[r.Intn(len(p.texts))]
				t.x += float64(r.Intn(7))
				p.texts = append(p.texts, t)
			}
		}
		for i := len(p.boxes); i > 0; i-- {
			if r.Intn(2) == 0 {
				p.boxes = append(p.boxes, p.boxes[r.Intn(len(p.boxes))])
			}
		}
		for i := len(p.imgs); i > 0; i-- {
			m := p.imgs[r.Intn(len(p.imgs))]
			m.x += float64(r.Intn(3))
			p.imgs = append(p.imgs, m)
		}
		for i := len(p.anns); i > 0; i-- {
			p.anns = append(p.anns, p.anns[r.Intn(len(p.anns))])
		}
	}
	return p
}

func (g *cGen) doc() *cDoc {
	r := g.r
	d := &cDoc{info: map[string]string{}}
	for n := 1 + r.Intn(4); n > 0; n-- {
		d.pages = append(d.pages, g.page())
	}
	for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer"} {
		if r.Intn(2) == 0 {
			d.info[k] = randWords(r, 1+r.Intn(3))
		}
	}
	for _, k := range []string{"CreationDate", "ModDate"} {
		if r.Intn(2) == 0 {
			d.info[k] = fmt.Sprintf("D:20%02d0102030405Z", r.Intn(100))
		}
	}
	if r.Intn(2) == 0 {
		d.marks = bmTree(r, len(d.pages), 1+r.Intn(4), r.Intn(3), func(b *types.Bookmark) {})
		var fill func(l []types.Bookmark)
		fill = func(l []types.Bookmark) {
			for i := range l {
				l[i].PageNumber = 1 + r.Intn(len(d.pages))
				fill(l[i].Children)
			}
		}
		fill(d.marks)
	}
	return d
}

func (d *cDoc) clone() *cDoc {
	n := &cDoc{info: map[string]string{}, crypt: d.crypt, form: d.form.clone()}
	for k, v := range d.info {
		n.info[k] = v
	}
	for _, p := range d.pages {
		q := *p
		q.texts = append([]cText{}, p.texts...)
		q.boxes = append([]cBox{}, p.boxes...)
		q.imgs = append([]cImg{}, p.imgs...)
		q.anns = append([]cAnn{}, p.anns...)
		q.unused = append([]int{}, p.unused...)
		n.pages = append(n.pages, &q)
	}
	var cp func(l []types.Bookmark) []types.Bookmark
	cp = func(l []types.Bookmark) []types.Bookmark {
		var out []types.Bookmark
		for _, b := range l {
			b.Children = cp(b.Children)
			out = append(out, b)
		}
		return out
	}
	n.marks = cp(d.marks)
	return n
}

// render writes the document in a layout of its own.
func (cd *cDoc) render(r *rand.Rand) ([]byte, []byte) {
	d := genDoc(r, docOpts{pages: len(cd.pages), mild: true, crypt: cd.crypt, content: func(int) []byte { return nil }, setup: func(d *docGen) {
		for i, n := range d.pages {
			pg := d.objs[n].(*Dict)
			p := cd.pages[i]
			pg.Set("MediaBox", d.maybe(Arr{Int(0), Int(0), Real(p.w), Real(p.h)}))
			pg.Set("Rotate", Int(p.rot))
			fonts := NewDict()
			for k, b := range []string{"Helvetica", "Times-Roman", "Courier"} {
				fonts.Set(fmt.Sprintf("F%d", k+1), d.maybe(NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name(b), "Encoding", Name("WinAnsiEncoding"))))
			}
			xo := NewDict()
			for _, m := range p.imgs {
				if xo.Get(m.name) == nil {
					xo.Set(m.name, d.add(&Stream{D: NewDict("Filter", Name("FlateDecode"), "Type", Name("XObject"), "Subtype", Name("Image"), "Width", Int(m.data[0]), "Height", Int(m.data[1]), "BitsPerComponent", Int(8), "ColorSpace", Name("DeviceGray")), Raw: Zlib(m.data[2:], 1+r.Intn(9))}))
				}
			}
			pg.Set("Resources", d.maybe(NewDict("Font", d.maybe(fonts), "XObject", xo)))
			// the elements of one kind keep their order, kinds are interleaved
			var buf bytes.Buffer
			num := func(v float64) string { return string(Ser(Real(v), Style{})) }
			var parts [][]string
			var ts, bs, is []string
			for _, t := range p.texts {
				ts = append(ts, fmt.Sprintf("BT /%s %s Tf %s %s Td %s Tj ET\n", t.font, num(t.size), num(t.x), num(t.y), Ser(Str(t.s), Style{R: r, HexStr: 30})))
			}
			for _, b := range p.boxes {
				if b.rect {
					bs = append(bs, fmt.Sprintf("%s %s %s %s re %s\n", num(b.x), num(b.y), num(b.w), num(b.h), []string{"S", "f", "B"}[r.Intn(3)]))
				} else {
					bs = append(bs, fmt.Sprintf("%s %s m %s %s l S\n", num(b.x), num(b.y), num(b.x+b.w), num(b.y+b.h)))
				}
			}
			for _, m := range p.imgs {
				is = append(is, fmt.Sprintf("q %s 0 0 %s %s %s cm /%s Do Q\n", num(m.w), num(m.h), num(m.x), num(m.y), m.name))
			}
			parts = [][]string{ts, bs, is}
			for {
				k := r.Intn(3)
				if len(parts[0])+len(parts[1])+len(parts[2]) == 0 {
					break
				}
				if len(parts[k]) > 0 {
					buf.WriteString(parts[k][0])
					parts[k] = parts[k][1:]
				}
			}
			pg.Set("Contents", d.stream(NewDict(), buf.Bytes()))
			pg.Del("Annots")
			var as Arr
			for _, a := range p.anns {
				as = append(as, d.maybe(NewDict("Type", Name("Annot"), "Subtype", Name(a.sub), "Rect", Arr{Real(a.x), Real(a.y), Real(a.x + a.w), Real(a.y + a.h)})))
			}
			if as != nil {
				pg.Set("Annots", d.maybe(as))
			}
		}
		info := NewDict()
		for _, k := range sortedInfo(cd.info) {
			info.Set(k, d.maybe(Str(cd.info[k])))
		}
		d.infoNum = d.add(info).N
		if cd.marks != nil {
			d.catalog.Set("Outlines", d.cOutline(cd.marks))
		}
		if cd.form != nil {
			cd.form.render(d)
		}
	}})
	cd.ver = d.S.Version
	cd.enc = d.Enc != ""
	return d.B.B, d.PW
}

func sortedInfo(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (d *docGen) cOutline(bm []types.Bookmark) Ref {
	var build func(parent Ref, l []types.Bookmark) (Ref, Ref)
	build = func(parent Ref, l []types.Bookmark) (Ref, Ref) {
		refs := make([]Ref, len(l))
		for i := range l {
			refs[i] = d.ref(d.alloc())
		}
		for i, b := range l {
			it := NewDict("Title", textStr(d.r, b.Title), "Parent", parent, "Dest", Arr{d.ref(d.pages[b.PageNumber-1]), Name("Fit")})
			if i > 0 {
				it.Set("Prev", refs[i-1])
			}
			if i+1 < len(l) {
				it.Set("Next", refs[i+1])
			}
			if len(b.Children) > 0 {
				f, la := build(refs[i], b.Children)
				it.Set("First", f)
				it.Set("Last", la)
				it.Set("Count", Int(bmCount(b.Children)))
			}
			d.objs[refs[i].N] = it
		}
		return refs[0], refs[len(refs)-1]
	}
	root := d.ref(d.alloc())
	f, l := build(root, bm)
	d.objs[root.N] = NewDict("Type", Name("Outlines"), "First", f, "Last", l, "Count", Int(bmCount(bm)))
	return root
}

func randOpts(r *rand.Rand) compare.CompareOptions {
	o := compare.DefaultCompareOptions()
	if r.Intn(3) > 0 {
		o = compare.CompareOptions{
			IgnoreMetadata: r.Intn(6) == 0, IgnoreProducer: r.Intn(2) == 0, IgnoreDates: r.Intn(2) == 0,
			TextTolerance: []float64{0, 0.5, 5, 8}[r.Intn(4)], GraphicTolerance: []float64{0, 0.5, 5, 8}[r.Intn(4)],
			TextGranularity: []compare.TextGranularity{"", compare.GranularityElement, compare.GranularityWord, compare.GranularityChar}[r.Intn(4)],
			DiffSensitivity: []compare.DiffSensitivity{"", compare.SensitivityStrict, compare.SensitivityNormal, compare.SensitivityRelaxed}[r.Intn(4)],
			DetectMoves:     r.Intn(2) == 0, MoveTolerance: []float64{0, 20, 1000}[r.Intn(3)],
			MinChangeThreshold: []float64{0, 0, 0, 0.3}[r.Intn(4)],
			IgnoreWhitespace:   r.Intn(3) == 0, IgnoreCase: r.Intn(3) == 0,
		}
	}
	return o
}

func tKey(s string, x, y, size float64, font string) string {
	return fmt.Sprintf("%q %s %.1f at %.2f,%.2f", s, font, size, x, y)
}
func bKey(rect bool, x, y, w, h float64) string {
	return fmt.Sprintf("rect=%v %.2f,%.2f %.2fx%.2f", rect, x, y, w, h)
}

// cEdit is one change and how it must be reported: "add", "rem", "mod"
// (as modified), "mov" (as moved), "pair" (as removed and added) or
// "either" (as modified or as a pair).
type cEdit struct {
	how, old, new string
	optional      bool
}

func (e cEdit) swap() cEdit {
	e.old, e.new = e.new, e.old
	switch e.how {
	case "add":
		e.how = "rem"
	case "rem":
		e.how = "add"
	}
	return e
}

type cLists struct {
	added, removed []string
	modified       [][2]string
	moved          [][2]string
}

func checkEdits(c *rt.C, what string, want []cEdit, got cLists) {
	find := func(l []string, k string) int {
		for i, s := range l {
			if s == k {
				return i
			}
		}
		return -1
	}
	usedA, usedR, usedM, usedV := make([]bool, len(got.added)), make([]bool, len(got.removed)), make([]bool, len(got.modified)), make([]bool, len(got.moved))
	for _, e := range want {
		a, rm, m, v := -1, -1, -1, -1
		if e.how != "rem" {
			a = find(got.added, e.new)
		}
		if e.how != "add" {
			rm = find(got.removed, e.old)
		}
		for i, p := range got.modified {
			if p == [2]string{e.old, e.new} {
				m = i
			}
		}
		for i, p := range got.moved {
			if p == [2]string{e.old, e.new} {
				v = i
			}
		}
		ok := false
		switch e.how {
		case "add":
			ok = a >= 0
		case "rem":
			ok = rm >= 0
		case "mod":
			ok, a, rm, v = m >= 0, -1, -1, -1
		case "mov":
			ok, a, rm, m = v >= 0, -1, -1, -1
		case "pair":
			ok, m, v = a >= 0 && rm >= 0, -1, -1
		case "either":
			ok, v = (m >= 0) != (a >= 0 && rm >= 0), -1
		}
		if !ok && !e.optional {
			c.Failf("%s: change %q => %q (%s) is not reported as such: %+v", what, e.old, e.new, e.how, got)
			return
		}
		if e.optional && (a >= 0) != (rm >= 0) {
			c.Failf("%s: change %q => %q is half reported: %+v", what, e.old, e.new, got)
		}
		if a >= 0 {
			usedA[a] = true
		}
		if rm >= 0 {
			usedR[rm] = true
		}
		if m >= 0 {
			usedM[m] = true
		}
		if v >= 0 {
			usedV[v] = true
		}
	}
	for i, u := range usedA {
		if !u {
			c.Failf("%s: %s is reported as added, which it is not (or twice)", what, got.added[i])
		}
	}
	for i, u := range usedR {
		if !u {
			c.Failf("%s: %s is reported as removed, which it is not (or twice)", what, got.removed[i])
		}
	}
	for i, u := range usedM {
		if !u {
			c.Failf("%s: %v is reported as modified, which it is not (or twice)", what, got.modified[i])
		}
	}
	for i, u := range usedV {
		if !u {
			c.Failf("%s: %v is reported as moved, which it is not (or twice)", what, got.moved[i])
		}
	}
	c.Obs("changes compared", len(want))
}

type pageEdits struct {
	text, box, img, ann []cEdit
	dims, rot           bool
	gone                string // "added" or "removed" page
}

func (p *pageEdits) any() bool {
	return len(p.text)+len(p.box)+len(p.img)+len(p.ann) > 0 || p.dims || p.rot || p.gone != ""
}

// must tells whether the page has to be reported at all.
func (p *pageEdits) must() bool {
	for _, e := range p.text {
		if !e.optional {
			return true
		}
	}
	return len(p.box)+len(p.img)+len(p.ann) > 0 || p.dims || p.rot || p.gone != ""
}

func (p *pageEdits) swap() *pageEdits {
	q := &pageEdits{dims: p.dims, rot: p.rot, gone: map[string]string{"added": "removed", "removed": "added"}[p.gone]}
	for i, l := range [][]cEdit{p.text, p.box, p.img, p.ann} {
		for _, e := range l {
			t := []*[]cEdit{&q.text, &q.box, &q.img, &q.ann}[i]
			*t = append(*t, e.swap())
		}
	}
	return q
}

// edit changes the page and records what the comparison must say.
func (g *cGen) edit(p *cPage, o compare.CompareOptions, c *rt.C) *pageEdits {
	r := g.r
	w := &pageEdits{}
	tk := func(t cText) string { return tKey(t.s, t.x, t.y, t.size, t.font) }
	filtered := o.DiffSensitivity == compare.SensitivityRelaxed || o.MinChangeThreshold > 0
	jit := func(tol float64) float64 { return math.Round((r.Float64()*2-1)*0.9*tol*100) / 100 }
	var out []cText
	for _, t := range p.texts {
		n := t
		say := func(kind, how string, optional bool) {
			w.text = append(w.text, cEdit{how, tk(t), tk(n), optional})
			c.Obs("edit:text "+kind, 1)
		}
		switch r.Intn(14) {
		case 0:
			w.text = append(w.text, cEdit{"rem", tk(t), "", false})
			c.Obs("edit:text removed", 1)
			continue
		case 1:
			g.uid++
			n.s = strings.Repeat("#", len(t.s)/2+1) + fmt.Sprint(g.uid)
			say("replaced", "mod", false)
		case 2:
			// the digits tell texts apart: only other characters change
			k := strings.IndexByte(t.s, '~')
			for try := 0; try < 20; try++ {
				if j := r.Intn(len(t.s)); t.s[j] >= 'A' {
					k = j
					break
				}
			}
			n.s = t.s[:k] + "$" + t.s[k+1:]
			say("one character", "mod", filtered)
		case 3, 4:
			n.x, n.y = g.place(p)
			tol := o.MoveTolerance
			if tol == 0 {
				tol = 10 * o.TextTolerance
			}
			near := math.Abs(n.x-t.x) < tol-0.1 && math.Abs(n.y-t.y) < tol-0.1
			if o.DetectMoves && near {
				say("moved near", "mod", filtered)
			} else {
				say("moved", "either", filtered)
			}
		case 5:
			n.font = "F" + string("231"[t.font[1]-'1'])
			say("font", "either", filtered)
		case 6:
			n.size += 1 + float64(r.Intn(5))
			say("size", "either", filtered)
		case 7:
			n.s = strings.ToUpper(t.s)
			if n.s != t.s && !o.IgnoreCase {
				say("case", "mod", filtered)
			} else {
				c.Obs("edit:text case ignored", 1)
			}
		case 8:
			n.s = strings.Replace(t.s, " ", "   ", 1+r.Intn(3))
			if !o.IgnoreWhitespace {
				say("space", "mod", filtered)
			} else {
				c.Obs("edit:text space ignored", 1)
			}
		case 9:
			n.x += jit(o.TextTolerance)
			n.y += jit(o.TextTolerance)
			c.Obs("edit:text jitter", 1)
		}
		out = append(out, n)
	}
	p.texts = out
	for k := r.Intn(3); k > 0; k-- {
		n := g.newText(p)
		at := r.Intn(len(p.texts) + 1)
		p.texts = append(p.texts[:at:at], append([]cText{n}, p.texts[at:]...)...)
		w.text = append(w.text, cEdit{"add", "", tk(n), false})
		c.Obs("edit:text added", 1)
	}
	if r.Intn(4) == 0 { // drawn in another order: nothing moved on the page
		r.Shuffle(len(p.texts), func(i, j int) { p.texts[i], p.texts[j] = p.texts[j], p.texts[i] })
		c.Obs("edit:drawing order", 1)
	}

	bk := func(b cBox) string { return bKey(b.rect, b.x, b.y, b.w, b.h) }
	gt := o.GraphicTolerance
	var bo []cBox
	for _, b := range p.boxes {
		n := b
		switch k := r.Intn(8); k {
		case 0:
			w.box = append(w.box, cEdit{"rem", bk(b), "", false})
			c.Obs("edit:graphic removed", 1)
			continue
		case 1, 2, 3:
			switch k {
			case 1:
				n.x, n.y = g.place(p)
			case 2:
				n.w += gt + 0.3
			case 3:
				n.rect = !n.rect
			}
			w.box = append(w.box, cEdit{"pair", bk(b), bk(n), false})
			c.Obs("edit:graphic changed", 1)
		case 4:
			n.x += jit(gt)
			n.y += jit(gt)
			c.Obs("edit:graphic jitter", 1)
		}
		bo = append(bo, n)
	}
	p.boxes = bo
	if r.Intn(3) == 0 {
		n := g.newBox(p)
		p.boxes = append(p.boxes, n)
		w.box = append(w.box, cEdit{"add", "", bk(n), false})
		c.Obs("edit:graphic added", 1)
	}

	ik := func(m cImg) string { return iKey("/"+m.name, m.x, m.y, m.w, m.h) }
	var io []cImg
	for _, m := range p.imgs {
		n := m
		say := func(kind, how string) {
			w.img = append(w.img, cEdit{how, ik(m), ik(n), false})
			c.Obs("edit:image "+kind, 1)
		}
		switch r.Intn(9) {
		case 0:
			w.img = append(w.img, cEdit{"rem", ik(m), "", false})
			c.Obs("edit:image removed", 1)
			continue
		case 1:
			n.x, n.y = g.place(p)
			say("moved", "mov")
		case 2:
			n.w += gt + 1
			say("resized", "mov")
		case 3:
			n.data = append([]byte{}, m.data...)
			n.data[2+r.Intn(len(n.data)-2)] ^= byte(1 + r.Intn(255))
			say("one sample", "mod")
		case 4:
			n.x += jit(gt)
			n.y += jit(gt)
			c.Obs("edit:image jitter", 1)
		case 5:
			n.name = "Other" + m.name
			c.Obs("edit:image renamed", 1)
		case 6:
			if m.data[0] != m.data[1] {
				n.data = append([]byte{}, m.data...)
				n.data[0], n.data[1] = m.data[1], m.data[0]
				say("reshaped", "mod")
			}
		}
		io = append(io, n)
	}
	p.imgs = io
	if r.Intn(4) == 0 {
		n := g.newImg(p, "New")
		p.imgs = append(p.imgs, n)
		w.img = append(w.img, cEdit{"add", "", ik(n), false})
		c.Obs("edit:image added", 1)
	}

	ak := func(a cAnn) string { return aKey(annotTypes[a.sub], a.x, a.y, a.x+a.w, a.y+a.h) }
	var ao []cAnn
	for _, a := range p.anns {
		n := a
		switch k := r.Intn(6); k {
		case 0:
			w.ann = append(w.ann, cEdit{"rem", ak(a), "", false})
			c.Obs("edit:annotation removed", 1)
			continue
		case 1, 2:
			if k == 1 {
				n.x += 1 + float64(r.Intn(5))
			} else {
				n.sub = map[string]string{"Link": "Text", "Text": "Link", "Square": "Stamp", "Stamp": "Highlight", "Highlight": "Square"}[a.sub]
			}
			w.ann = append(w.ann, cEdit{"pair", ak(a), ak(n), false})
			c.Obs("edit:annotation changed", 1)
		}
		ao = append(ao, n)
	}
	p.anns = ao
	if r.Intn(4) == 0 {
		n := g.newAnn(p)
		p.anns = append(p.anns, n)
		w.ann = append(w.ann, cEdit{"add", "", ak(n), false})
		c.Obs("edit:annotation added", 1)
	}
	if r.Intn(6) == 0 {
		switch r.Intn(3) {
		case 0:
			p.h++
		case 1:
			p.w--
		default:
			p.w, p.h = p.h+1, p.w+1
		}
		w.dims = true
		c.Obs("edit:page size", 1)
	}
	if r.Intn(6) == 0 {
		p.rot = (p.rot + 90*(1+r.Intn(3))) % 360
		w.rot = true
		c.Obs("edit:page rotation", 1)
	}
	return w
}

func iKey(id string, x, y, w, h float64) string {
	return fmt.Sprintf("%s %.2f,%.2f %.2fx%.2f", id, x, y, w, h)
}
func aKey(t types.AnnotationType, x, y, x2, y2 float64) string {
	return fmt.Sprintf("%s %.2f,%.2f %.2f,%.2f", t, x, y, x2, y2)
}

// what a comparison of two documents must say
type cWant struct {
	pages    map[int]*pageEdits // by page number
	old, new *cDoc
}

func sameMarks(a, b []types.Bookmark) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return len(a) == len(b) && (len(a) == 0 || string(x) == string(y))
}

func (w cWant) check(c *rt.C, what string, res *compare.ComparisonResult, o compare.CompareOptions) {
	total := 0
	// metadata
	fields := map[string][2]string{}
	if !o.IgnoreMetadata {
		for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"} {
			if k == "Producer" && o.IgnoreProducer || strings.HasSuffix(k, "Date") && o.IgnoreDates {
				continue
			}
			if w.old.info[k] != w.new.info[k] {
				fields[k] = [2]string{w.old.info[k], w.new.info[k]}
			}
		}
		for k, v := range map[string][2]string{
			"PDFVersion": {w.old.ver, w.new.ver},
			"PageCount":  {fmt.Sprint(len(w.old.pages)), fmt.Sprint(len(w.new.pages))},
			"Encrypted":  {fmt.Sprint(w.old.enc), fmt.Sprint(w.new.enc)},
		} {
			if v[0] != v[1] {
				fields[k] = v
			}
		}
	}
	got := map[string][2]string{}
	if m := res.MetadataDiff; m != nil {
		for k, f := range map[string]*compare.FieldDiff{"Title": m.Title, "Author": m.Author, "Subject": m.Subject, "Keywords": m.Keywords, "Creator": m.Creator,
			"Producer": m.Producer, "CreationDate": m.CreationDate, "ModDate": m.ModDate, "PDFVersion": m.PDFVersion, "PageCount": m.PageCount, "Encrypted": m.Encrypted} {
			if f != nil {
				got[k] = [2]string{fmt.Sprint(f.OldValue), fmt.Sprint(f.NewValue)}
			}
		}
		total++
	}
	if fmt.Sprint(got) != fmt.Sprint(fields) {
		c.Failf("%s: metadata differences %q, want %q", what, got, fields)
	}
	if (res.MetadataDiff != nil) != (len(fields) > 0) || res.Summary.MetadataChanged != (len(fields) > 0) {
		c.Failf("%s: metadata differ in %d fields, but MetadataDiff is %v and Summary.MetadataChanged %v", what, len(fields), res.MetadataDiff, res.Summary.MetadataChanged)
	}
	// page count
	pc := len(w.old.pages) != len(w.new.pages)
	if pc != (res.StructureDiff != nil && res.StructureDiff.PageCountDiff != nil) || pc != res.Summary.StructureChanged {
		c.Failf("%s: page counts %d and %d, StructureDiff %+v, Summary %+v", what, len(w.old.pages), len(w.new.pages), res.StructureDiff, res.Summary)
	} else if pc {
		f := res.StructureDiff.PageCountDiff
		if f.OldValue != len(w.old.pages) || f.NewValue != len(w.new.pages) {
			c.Failf("%s: page count %v => %v reported, want %d => %d", what, f.OldValue, f.NewValue, len(w.old.pages), len(w.new.pages))
		}
		total++
	}
	// bookmarks
	bm, fm := false, false
	for _, d := range res.Differences {
		if d.Type == compare.DifferenceTypeBookmark {
			if bm {
				c.Failf("%s: two bookmark differences", what)
			}
			bm = true
			total++
		} else if d.Type == compare.DifferenceTypeForm && res.FormDiff != nil && !fm {
			fm = true
			total++
			if w := fmt.Sprintf("%d added, %d removed, %d modified", len(res.FormDiff.Added), len(res.FormDiff.Removed), len(res.FormDiff.Modified)); !strings.Contains(d.Description, w) {
				c.Failf("%s: form difference described as %q, want %q", what, d.Description, w)
			}
		} else {
			c.Failf("%s: unexpected difference %+v", what, d)
		}
	}
	if bm == sameMarks(w.old.marks, w.new.marks) {
		c.Failf("%s: bookmarks reported as different: %v, want %v", what, bm, !bm)
	}
	text := compare.GenerateReport(res)
	w.checkForms(c, what, res.FormDiff, text)
	if fm != (res.FormDiff != nil) {
		c.Failf("%s: FormDiff is %v, a difference of the forms is listed: %v", what, res.FormDiff, fm)
	}
	// pages
	seen := map[int]bool{}
	for _, pd := range res.PageDiffs {
		if seen[pd.PageNumber] {
			c.Failf("%s: page %d is reported twice", what, pd.PageNumber)
		}
		seen[pd.PageNumber] = true
		total += len(pd.Differences)
		if len(pd.Differences) == 0 {
			c.Failf("%s: page %d is reported without a difference", what, pd.PageNumber)
		}
		pe := w.pages[pd.PageNumber]
		if pe == nil {
			pe = &pageEdits{}
		}
		where := fmt.Sprintf("%s, page %d", what, pd.PageNumber)
		byType := map[compare.DifferenceType]int{}
		dims, rot, gone := false, false, ""
		for _, d := range pd.Differences {
			byType[d.Type]++
			if d.Type == compare.DifferenceTypePageContent {
				switch {
				case d.Category != "modified":
					gone = d.Category
				case strings.Contains(d.Description, "dimensions"):
					dims = true
				case strings.Contains(d.Description, "rotation"):
					rot = true
				}
			}
		}
		if gone != pe.gone || dims != pe.dims || rot != pe.rot {
			c.Failf("%s: reported as %q, size changed %v, rotation changed %v; want %q %v %v", where, gone, dims, rot, pe.gone, pe.dims, pe.rot)
		}
		txt := func(t types.TextElement) string {
			return tKey(t.Text, t.X, t.Y, t.FontSize, strings.TrimPrefix(t.FontName, "/"))
		}
		var l cLists
		if d := pd.TextDiff; d != nil {
			for _, t := range d.Added {
				l.added = append(l.added, txt(t))
			}
			for _, t := range d.Removed {
				l.removed = append(l.removed, txt(t))
			}
			for _, t := range d.Modified {
				l.modified = append(l.modified, [2]string{txt(t.Old), txt(t.New)})
			}
		}
		checkEdits(c, where+", text", pe.text, l)
		box := func(b types.Graphic) string {
			if b.BoundingBox == nil {
				return "no box"
			}
			return bKey(b.Type == types.GraphicTypeRectangle, b.BoundingBox.LowerX, b.BoundingBox.LowerY, b.BoundingBox.UpperX-b.BoundingBox.LowerX, b.BoundingBox.UpperY-b.BoundingBox.LowerY)
		}
		l = cLists{}
		if d := pd.GraphicDiff; d != nil {
			for _, t := range d.Added {
				l.added = append(l.added, box(t))
			}
			for _, t := range d.Removed {
				l.removed = append(l.removed, box(t))
			}
		}
		checkEdits(c, where+", graphics", pe.box, l)
		img := func(m types.ImageRef) string { return iKey(m.ImageID, m.X, m.Y, m.Width, m.Height) }
		l = cLists{}
		if d := pd.ImageDiff; d != nil {
			for _, t := range d.Added {
				l.added = append(l.added, img(t))
			}
			for _, t := range d.Removed {
				l.removed = append(l.removed, img(t))
			}
			for _, t := range d.Modified {
				l.modified = append(l.modified, [2]string{img(t.Old), img(t.New)})
			}
			for _, t := range d.Moved {
				l.moved = append(l.moved, [2]string{img(t.Old), img(t.New)})
			}
		}
		checkEdits(c, where+", images", pe.img, l)
		ann := func(a types.Annotation) string {
			if a.Rect == nil {
				return "no rect"
			}
			return aKey(a.Type, a.Rect.LowerX, a.Rect.LowerY, a.Rect.UpperX, a.Rect.UpperY)
		}
		l = cLists{}
		if d := pd.AnnotationDiff; d != nil {
			for _, t := range d.Added {
				l.added = append(l.added, ann(t))
			}
			for _, t := range d.Removed {
				l.removed = append(l.removed, ann(t))
			}
		}
		checkEdits(c, where+", annotations", pe.ann, l)
		for _, k := range []struct {
			t   compare.DifferenceType
			has bool
		}{{compare.DifferenceTypeText, pd.TextDiff != nil}, {compare.DifferenceTypeGraphic, pd.GraphicDiff != nil}, {compare.DifferenceTypeImage, pd.ImageDiff != nil}, {compare.DifferenceTypeAnnotation, pd.AnnotationDiff != nil}} {
			if (byType[k.t] == 1) != k.has || byType[k.t] > 1 {
				c.Failf("%s: %d entries for %s, detail present: %v", where, byType[k.t], k.t, k.has)
			}
		}
	}
	for n, pe := range w.pages {
		if pe.must() && !seen[n] {
			c.Failf("%s: page %d changed (%+v) but is not reported", what, n, pe)
		}
	}
	if res.Summary.PagesChanged != (len(res.PageDiffs) > 0) || res.Summary.ContentChanged != (len(res.PageDiffs) > 0 || fm) {
		c.Failf("%s: %d pages differ, Summary %+v", what, len(res.PageDiffs), res.Summary)
	}
	if res.Summary.TotalDifferences != total {
		c.Failf("%s: TotalDifferences is %d, the report holds %d", what, res.Summary.TotalDifferences, total)
	}
	if res.Identical != (total == 0) {
		c.Failf("%s: Identical is %v with %d differences", what, res.Identical, total)
	}
	// reports
	if strings.Contains(text, "IDENTICAL") != res.Identical || strings.Contains(text, "DIFFERENT") == res.Identical {
		c.Failf("%s: the text report does not say whether the documents are identical (%v): %q", what, res.Identical, text)
	}
	for _, pd := range res.PageDiffs {
		if !strings.Contains(text, fmt.Sprintf("\nPage %d:\n", pd.PageNumber)) {
			c.Failf("%s: the text report leaves out page %d", what, pd.PageNumber)
		}
		for _, d := range pd.Differences {
			if !strings.Contains(text, d.Description) {
				c.Failf("%s: the text report leaves out %q", what, d.Description)
			}
		}
	}
	for _, v := range fields {
		if !strings.Contains(text, v[0]+" -> "+v[1]) {
			c.Failf("%s: the text report leaves out %q", what, v)
		}
	}
	js, err := compare.GenerateJSONReport(res)
	if err != nil {
		c.Failf("%s: JSON report: %v", what, err)
		return
	}
	var back compare.ComparisonResult
	if err := json.Unmarshal([]byte(js), &back); err != nil {
		c.Failf("%s: JSON report does not parse: %v", what, err)
		return
	}
	again, _ := compare.GenerateJSONReport(&back)
	if again != js {
		c.Failf("%s: JSON report does not read back to the same result", what)
	}
	if back.Identical != res.Identical || back.Summary != res.Summary || len(back.PageDiffs) != len(res.PageDiffs) {
		c.Failf("%s: JSON report says %+v, result %+v", what, back.Summary, res.Summary)
	}
	c.Obs("comparisons checked", 1)
	if res.Identical {
		c.Obs("verdict:identical", 1)
	} else {
		c.Obs("verdict:different", 1)
	}
}

func cCompare(c *rt.C, what string, a, b, pa, pb []byte, o compare.CompareOptions) *compare.ComparisonResult {
	sa, sb := append([]byte{}, a...), append([]byte{}, b...)
	res, err := compare.ComparePDFsWithOptions(a, b, pa, pb, o)
	if err != nil {
		c.Failf("%s: comparison of well-formed documents fails: %v", what, err)
		return nil
	}
	if !bytes.Equal(a, sa) || !bytes.Equal(b, sb) {
		c.Failf("%s: comparison changed its input", what)
	}
	return res
}

func compareSame(dup bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		g := &cGen{r: r, dup: dup}
		d := g.doc()
		d.crypt = r.Intn(4) == 0
		if r.Intn(3) == 0 {
			d.form = newCForm(r)
		}
		e := d.clone()
		e.crypt = r.Intn(4) == 0
		a, pa := d.render(r)
		b, pb := e.render(r)
		c.Save("a.pdf", a)
		c.Save("b.pdf", b)
		o := randOpts(r)
		if res := cCompare(c, fmt.Sprintf("a document with itself (%+v)", o), a, a, pa, pa, o); res != nil {
			cWant{nil, d, d}.check(c, "a document with itself", res, o)
		}
		if res := cCompare(c, "the same document laid out again", a, b, pa, pb, o); res != nil {
			cWant{nil, d, e}.check(c, fmt.Sprintf("the same document laid out again (%+v)", o), res, o)
		}
	}
}

func compareEdits(c *rt.C) {
	r := c.R
	g := &cGen{r: r}
	d := g.doc()
	d.crypt = r.Intn(5) == 0
	if r.Intn(6) == 0 {
		d.form = newCForm(r)
	}
	e := d.clone()
	e.crypt = r.Intn(5) == 0
	if r.Intn(6) == 0 {
		e.form = d.form.edit(r, c)
	}
	o := randOpts(r)
	w := cWant{map[int]*pageEdits{}, d, e}
	for i, p := range e.pages {
		if r.Intn(4) > 0 {
			w.pages[i+1] = g.edit(p, o, c)
		}
	}
	switch r.Intn(6) {
	case 0:
		e.pages = append(e.pages, g.page())
		w.pages[len(e.pages)] = &pageEdits{gone: "added"}
		c.Obs("edit:page added", 1)
	case 1:
		if n := len(e.pages); n > 1 {
			e.pages = e.pages[:n-1]
			w.pages[n] = &pageEdits{gone: "removed"}
			var fix func(l []types.Bookmark)
			fix = func(l []types.Bookmark) {
				for i := range l {
					if l[i].PageNumber == n {
						l[i].PageNumber = 1
					}
					fix(l[i].Children)
				}
			}
			fix(e.marks)
			c.Obs("edit:page removed", 1)
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		f := []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate"}[r.Intn(8)]
		switch {
		case strings.HasSuffix(f, "Date"):
			e.info[f] = fmt.Sprintf("D:19%02d0102030405Z", r.Intn(100))
		case r.Intn(3) == 0:
			delete(e.info, f)
		default:
			e.info[f] = randWords(r, 1+r.Intn(3)) + "!"
		}
		c.Obs("edit:metadata", 1)
	}
	if e.marks != nil {
		var all []*types.Bookmark
		var walk func(l []types.Bookmark)
		walk = func(l []types.Bookmark) {
			for i := range l {
				all = append(all, &l[i])
				walk(l[i].Children)
			}
		}
		walk(e.marks)
		b := all[r.Intn(len(all))]
		switch r.Intn(8) {
		case 0:
			b.Title += "!"
			c.Obs("edit:bookmark title", 1)
		case 1:
			b.PageNumber = 1 + b.PageNumber%len(e.pages)
			c.Obs("edit:bookmark target", 1)
		case 2:
			b.Children = append(b.Children, types.Bookmark{Title: "new child", PageNumber: 1})
			c.Obs("edit:bookmark added", 1)
		case 3:
			e.marks = nil
			c.Obs("edit:bookmarks dropped", 1)
		}
	}
	a, pa := d.render(r)
	b, pb := e.render(r)
	c.Save("a.pdf", a)
	c.Save("b.pdf", b)
	what := fmt.Sprintf("edited copy (%+v)", o)
	res := cCompare(c, what, a, b, pa, pb, o)
	if res == nil {
		return
	}
	w.check(c, what, res, o)
	c.Distinct(fmt.Sprint(o), fmt.Sprint(w.pages))
	if c.Failed() {
		return
	}
	// the other way round
	back := cWant{map[int]*pageEdits{}, e, d}
	for n, p := range w.pages {
		back.pages[n] = p.swap()
	}
	what = "swapped " + what
	if res2 := cCompare(c, what, b, a, pb, pa, o); res2 != nil {
		back.check(c, what, res2, o)
	}
	j1, _ := compare.GenerateJSONReport(res)
	if res3 := cCompare(c, what, a, b, pa, pb, o); res3 != nil {
		if j3, _ := compare.GenerateJSONReport(res3); j1 != j3 {
			c.Failf("%s: the same comparison reports something else the second time", what)
		}
	}
	if o == compare.DefaultCompareOptions() {
		res4, err := compare.ComparePDFs(a, b, pa, pb, false)
		if err != nil {
			c.Failf("ComparePDFs: %v", err)
		} else if j4, _ := compare.GenerateJSONReport(res4); j1 != j4 {
			c.Failf("ComparePDFs differs from ComparePDFsWithOptions with the default options")
		}
	}
	if len(pb) > 0 {
		if _, err := compare.ComparePDFsWithOptions(a, b, pa, append([]byte("no"), pb...), o); err == nil {
			c.Failf("comparison with a wrong password gives a result")
		}
	}
}

func init() {
	rt.Register(&rt.Check{ID: "P18", Title: "Comparison reports exactly the differences between two documents",
		Rule: "distinct_nontrivial = cases with a distinct (options, set of edits) whose whole comparison result was checked against the edits made, in both directions",
		Families: []rt.Family{
			{Name: "same", Quick: 250, Thorough: 6000, Run: compareSame(false)},
			{Name: "repeats", Quick: 150, Thorough: 4000, Run: compareSame(true)},
			{Name: "edits", Quick: 700, Thorough: 20000, Run: compareEdits},
			{Name: "forms", Quick: 500, Thorough: 15000, Run: compareFormEdits},
		}})
}
