package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	. "verifharness/ref"
)

// docGen builds documents with a page tree of any shape: nested nodes,
// inherited and overridden attributes, direct and indirect values, shared
// resources, annotations that refer to their page and to other pages.
type docGen struct {
	r       *rand.Rand
	objs    map[int]Obj
	gens    map[int]int
	perm    []int
	pages   []int // page object numbers in document order
	nodes   []int // page tree nodes
	misc    []Ref
	catalog *Dict
	rootNum int
	infoNum int
	content func(i int) []byte // page content, nil for random data
	g       *objGen
	fonts   map[*Dict]*fontModel // when set, fonts with known meaning are made
}

func (d *docGen) alloc() int {
	n := d.perm[0]
	d.perm = d.perm[1:]
	if d.r.Intn(12) == 0 {
		d.gens[n] = 1 + d.r.Intn(3)
	}
	return n
}

func (d *docGen) ref(n int) Ref { return Ref{n, d.gens[n]} }

// add stores an object and returns its reference.
func (d *docGen) add(o Obj) Ref {
	n := d.alloc()
	d.objs[n] = o
	return d.ref(n)
}

// maybe stores the value indirectly now and then.
func (d *docGen) maybe(o Obj) Obj {
	if d.r.Intn(5) == 0 {
		return d.add(o)
	}
	return o
}

func (d *docGen) box() Obj {
	r := d.r
	x, y := float64(r.Intn(200)-100), float64(r.Intn(200)-100)
	a := Arr{Real(x), Real(y), Real(x + 100 + float64(r.Intn(60000))/100), Real(y + 100 + float64(r.Intn(60000))/100)}
	if r.Intn(6) == 0 {
		k := r.Intn(4)
		a[k] = d.add(a[k])
	}
	return d.maybe(a)
}

func (d *docGen) resources() Obj {
	r := d.r
	res := NewDict()
	fonts := NewDict()
	for i := 0; i < 1+r.Intn(3); i++ {
		f := NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name(std14[r.Intn(12)]))
		if r.Intn(2) == 0 {
			f.Set("Encoding", Name("WinAnsiEncoding"))
		}
		if d.fonts != nil {
			var m *fontModel
			f, m = d.richFont()
			d.fonts[f] = m
		}
		if r.Intn(2) == 0 {
			fonts.Set(fmt.Sprintf("F%d", i+1), d.add(f))
		} else {
			fonts.Set(fmt.Sprintf("F%d", i+1), f)
		}
	}
	res.Set("Font", d.maybe(fonts))
	if r.Intn(2) == 0 {
		xo := NewDict()
		for i := 0; i < 1+r.Intn(2); i++ {
			w, h := 1+r.Intn(4), 1+r.Intn(4)
			xo.Set(fmt.Sprintf("Im%d", i+1), d.stream(NewDict("Type", Name("XObject"), "Subtype", Name("Image"), "Width", Int(w), "Height", Int(h), "BitsPerComponent", Int(8), "ColorSpace", Name("DeviceGray")), rbytes(r, w*h)))
		}
		res.Set("XObject", d.maybe(xo))
	}
	if r.Intn(3) == 0 {
		res.Set("ExtGState", NewDict("GS1", NewDict("CA", Real(0.5)), "Tricky#", d.g.obj(2)))
	}
	if len(d.misc) > 0 && r.Intn(3) == 0 {
		res.Set("Properties", NewDict("MC0", d.misc[r.Intn(len(d.misc))]))
	}
	return d.maybe(res)
}

// stream adds a stream object; its length may be stored indirectly.
func (d *docGen) stream(dict *Dict, data []byte) Ref {
	r := d.r
	dict = dict.Copy()
	switch r.Intn(4) {
	case 0, 1:
		data = Zlib(data, 6)
		dict.Set("Filter", Name("FlateDecode"))
	case 2:
		data = AHxEncode(data)
		dict.Set("Filter", Arr{Name("ASCIIHexDecode")})
	}
	if dict.Get("Filter") != nil && r.Intn(5) == 0 {
		// end-of-line bytes at the end belong to the data
		data = append(append([]byte{}, data...), []string{"\n", "\r", "\r\n"}[r.Intn(3)]...)
	}
	return d.add(&Stream{D: dict, Raw: data})
}

func (d *docGen) attrs(n *Dict, p int) {
	r := d.r
	if r.Intn(100) < p {
		n.Set("Resources", d.resources())
	}
	if r.Intn(100) < p {
		n.Set("MediaBox", d.box())
	}
	if r.Intn(100) < p/2 {
		n.Set("CropBox", d.box())
	}
	if r.Intn(100) < p {
		n.Set("Rotate", d.maybe(Int([]int{0, 90, 180, 270, -90, -180, -270, 360, 450, -630}[r.Intn(10)])))
	}
}

// nulls sets attributes a node lacks to null, which says the same as leaving
// them out.
func (d *docGen) nulls(n *Dict) {
	for _, k := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
		if n.Get(k) == nil && d.r.Intn(16) == 0 {
			n.Set(k, d.maybe(Null{}))
		}
	}
}

func (d *docGen) page(parent, i int) int {
	r := d.r
	n := d.alloc()
	pg := NewDict("Type", Name("Page"), "Parent", d.ref(parent))
	if r.Intn(2) == 0 {
		pg = NewDict("Parent", d.ref(parent), "Type", Name("Page"))
	}
	d.attrs(pg, 40)
	d.nulls(pg)
	one := func() Obj {
		var data []byte
		if d.content != nil {
			data = d.content(i)
		} else {
			data = []byte(fmt.Sprintf("BT /F1 12 Tf (page %d) Tj ET %% %s", i, d.g.streamData()))
		}
		return d.stream(NewDict(), data)
	}
	if d.content == nil {
		switch r.Intn(6) {
		case 0:
		case 1:
			pg.Set("Contents", Arr{one(), one()})
		case 2:
			pg.Set("Contents", d.add(Arr{one(), one(), one()}))
		default:
			pg.Set("Contents", one())
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		key := d.g.name()
		switch key {
		case "Type", "Parent", "Kids", "Resources", "MediaBox", "CropBox", "Rotate", "Contents", "Annots", "Count":
		default:
			pg.Set(key, d.g.obj(3))
		}
	}
	d.objs[n] = pg
	d.pages = append(d.pages, n)
	return n
}

// tree builds a page tree node with n pages below it.
func (d *docGen) tree(parent, n, depth int) int {
	r := d.r
	num := d.alloc()
	nd := NewDict("Type", Name("Pages"))
	if parent != 0 {
		nd.Set("Parent", d.ref(parent))
	}
	d.objs[num] = nd
	d.nodes = append(d.nodes, num)
	kids := Arr{}
	for left := n; left > 0; {
		if depth > 0 && r.Intn(3) == 0 {
			k := 1 + r.Intn(left)
			if k == n && depth < 2 {
				k = 1
			}
			kids = append(kids, d.ref(d.tree(num, k, depth-1)))
			left -= k
		} else {
			kids = append(kids, d.ref(d.page(num, len(d.pages))))
			left--
		}
	}
	nd.Set("Count", d.maybe(Int(n)))
	nd.Set("Kids", d.maybe(kids))
	d.attrs(nd, 30)
	if parent == 0 {
		nd.Set("MediaBox", d.box())
		if r.Intn(2) == 0 {
			nd.Set("Resources", d.resources())
		}
	}
	d.nulls(nd)
	return num
}

func (d *docGen) annots() {
	r := d.r
	for i, n := range d.pages {
		if r.Intn(3) != 0 {
			continue
		}
		var as Arr
		for k := 0; k < 1+r.Intn(3); k++ {
			a := NewDict("Type", Name("Annot"), "Subtype", Name([]string{"Link", "Text", "Square"}[r.Intn(3)]), "Rect", Arr{Int(1), Int(2), Int(30 + r.Intn(50)), Int(40)}, "Contents", Str(d.g.str()))
			if r.Intn(2) == 0 {
				a.Set("P", d.ref(n))
			}
			if r.Intn(3) == 0 {
				a.Set("Dest", Arr{d.ref(d.pages[r.Intn(len(d.pages))]), Name("Fit")})
			}
			if r.Intn(4) == 0 {
				a.Set("AP", NewDict("N", d.stream(NewDict("Type", Name("XObject"), "Subtype", Name("Form"), "BBox", Arr{Int(0), Int(0), Int(9), Int(9)}), []byte(fmt.Sprintf("q %d w Q", i)))))
			}
			if r.Intn(6) == 0 {
				// the tree above the pages, which is no part of any page
				a.Set("Tree", d.ref(d.nodes[r.Intn(len(d.nodes))]))
			}
			if r.Intn(3) == 0 {
				as = append(as, a)
				continue
			}
			ar := d.add(a)
			as = append(as, ar)
			if r.Intn(3) == 0 {
				// a pair of annotations that refer to each other
				pop := NewDict("Type", Name("Annot"), "Subtype", Name("Popup"), "Rect", Arr{Int(0), Int(0), Int(5), Int(5)}, "Parent", ar)
				pr := d.add(pop)
				a.Set("Popup", pr)
				as = append(as, pr)
			}
		}
		pg := d.objs[n].(*Dict)
		pg.Set("Annots", d.maybe(as))
	}
}

type docOpts struct {
	pages   int
	content func(i int) []byte
	mild    bool
	crypt   bool
	fonts   bool
	extra   int             // more object numbers than the pages need
	setup   func(d *docGen) // last changes before the file is laid out
}

type doc struct {
	*docGen
	S    *Spec
	B    *Built
	PW   []byte // password that opens it (nil when not needed)
	Enc  string
	File *File
	Pg   []Page
}

func genDoc(r *rand.Rand, o docOpts) *doc {
	d := &docGen{r: r, objs: map[int]Obj{}, gens: map[int]int{}, content: o.content}
	if o.fonts {
		d.fonts = map[*Dict]*fontModel{}
	}
	max := 60 + o.pages*40 + o.extra
	for _, k := range r.Perm(max) {
		d.perm = append(d.perm, k+1)
	}
	base := 0
	if r.Intn(8) == 0 {
		// numbers of four and five digits, most of them unused
		base = []int{900, 9950, 11000, 65500}[r.Intn(4)]
	}
	if r.Intn(2) == 0 || base > 0 {
		// compact numbering, but in random order
		d.perm = d.perm[:0]
		blk := 0
		for blk < max {
			for _, k := range r.Perm(16) {
				d.perm = append(d.perm, base+blk+k+1)
			}
			blk += 16
		}
	}
	d.g = &objGen{r: r, mild: o.mild}
	for i := 2 + r.Intn(6); i > 0; i-- {
		d.misc = append(d.misc, d.ref(d.alloc()))
	}
	d.g.refs = d.misc
	for _, m := range d.misc {
		d.objs[m.N] = d.g.val()
	}
	d.rootNum = d.alloc()
	d.catalog = NewDict("Type", Name("Catalog"))
	d.objs[d.rootNum] = d.catalog
	d.catalog.Set("Pages", d.ref(d.tree(0, o.pages, 3)))
	d.annots()
	if o.setup != nil {
		o.setup(d)
	}
	if r.Intn(2) == 0 {
		d.catalog.Set("PageMode", Name("UseNone"))
	}
	if r.Intn(3) == 0 {
		d.catalog.Set("Extra", d.g.obj(2))
	}
	s := &Spec{}
	layout(r, s)
	s.Root = d.ref(d.rootNum)
	if d.infoNum != 0 {
		s.Info = d.ref(d.infoNum)
	} else if r.Intn(2) == 0 {
		s.Info = d.add(NewDict("Title", Str(d.g.str()), "Producer", Str("gen")))
		d.infoNum = s.Info.N
	}
	kind := r.Intn(2) == 0
	revs := make([]Rev, 1)
	if r.Intn(3) == 0 {
		revs = make([]Rev, 2)
		revs[1].XRefStm = kind
	}
	revs[0].XRefStm = kind
	for n := 1; n <= base+max+64; n++ {
		ob, ok := d.objs[n]
		if !ok {
			continue
		}
		f := FObj{N: n, G: d.gens[n], O: ob, InStm: d.gens[n] == 0 && r.Intn(3) != 0}
		if len(revs) == 2 && r.Intn(4) == 0 {
			old := f
			if _, ok := ob.(*Stream); !ok {
				old.O = NewDict("Old", Int(1))
			}
			revs[0].Objs = append(revs[0].Objs, old)
			revs[1].Objs = append(revs[1].Objs, f)
			continue
		}
		revs[0].Objs = append(revs[0].Objs, f)
	}
	if len(revs) == 2 && len(revs[1].Objs) == 0 {
		revs = revs[:1]
	}
	s.Revs = revs
	out := &doc{docGen: d, S: s}
	if o.crypt {
		s.ID = [2][]byte{rbytes(r, 16), rbytes(r, 16)}
		user := []byte{}
		if r.Intn(2) == 0 {
			user = []byte(randWords(r, 1+r.Intn(2)))
		}
		owner := []byte(randWords(r, 2))
		perm := int32(-4)
		switch r.Intn(4) {
		case 0:
			s.Crypt, out.Enc = NewCrypt(1, 2, 40, false, user, owner, perm, true, s.ID[0], r), "rc4-40"
		case 1:
			s.Crypt, out.Enc = NewCrypt(2, 3, 128, false, user, owner, perm, true, s.ID[0], r), "rc4-128"
		case 2:
			s.Crypt, out.Enc = NewCrypt(4, 4, 128, true, user, owner, perm, true, s.ID[0], r), "aes-128"
		case 3:
			s.Crypt, out.Enc = NewCrypt(5, 6, 256, true, user, owner, perm, true, s.ID[0], r), "aes-256"
		}
		s.EncDirect = r.Intn(3) == 0
		out.PW = user
		if r.Intn(3) == 0 {
			out.PW = owner
		}
	}
	out.B = s.Build()
	f, err := OpenStrict(out.B.B, out.PW)
	if err != nil {
		panic("harness: generated document unreadable: " + err.Error())
	}
	out.File = f
	if out.Pg, err = f.Pages(); err != nil {
		panic("harness: generated page tree invalid: " + err.Error())
	}
	if len(out.Pg) != o.pages {
		panic("harness: page count")
	}
	return out
}

// iso compares object graphs of two files: what is reachable from a, read in
// src, with what is reachable from b, read in dst.
type iso struct {
	src, dst *File
	seen     map[[2]int]bool
	// page decides references to page tree nodes: handled, difference
	page func(a Ref, b Obj) (bool, string)
	n    int
}

func (q *iso) diff(a, b Obj, path string, depth int) string {
	if len(path) > 300 {
		path = "..." + path[len(path)-200:]
	}
	q.n++
	if ra, ok := a.(Ref); ok {
		if q.page != nil {
			if done, d := q.page(ra, b); done {
				if d != "" {
					return path + ": " + d
				}
				return ""
			}
		}
		if rb, ok := b.(Ref); ok {
			k := [2]int{ra.N, rb.N}
			if q.seen[k] {
				return ""
			}
			q.seen[k] = true
			b = q.dst.Resolve(rb)
		}
		return q.diff(q.src.Resolve(ra), b, fmt.Sprintf("%s(%d)", path, ra.N), depth+1)
	}
	if rb, ok := b.(Ref); ok {
		b = q.dst.Resolve(rb)
	}
	if a == nil {
		a = Null{}
	}
	if b == nil {
		b = Null{}
	}
	switch x := a.(type) {
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: %s vs %s", path, Short(a), Short(b))
		}
		for i := range x {
			if s := q.diff(x[i], y[i], fmt.Sprintf("%s[%d]", path, i), depth); s != "" {
				return s
			}
		}
		return ""
	case *Dict:
		y, ok := b.(*Dict)
		if !ok {
			return fmt.Sprintf("%s: %s vs %s", path, Short(a), Short(b))
		}
		return q.dict(x, y, path, depth)
	case *Stream:
		y, ok := b.(*Stream)
		if !ok {
			return fmt.Sprintf("%s: stream vs %s", path, Short(b))
		}
		dx, ex := q.decode(q.src, x)
		dy, ey := q.decode(q.dst, y)
		skip := []string{"Length"}
		if ex == nil && ey == nil {
			skip = []string{"Length", "Filter", "DecodeParms"}
		} else {
			dx, dy = x.Raw, y.Raw
		}
		if !bytes.Equal(dx, dy) {
			return fmt.Sprintf("%s: stream data differs (%d bytes, want %d)", path, len(dy), len(dx))
		}
		return q.dict(x.D, y.D, path, depth, skip...)
	}
	return diffAt(path, a, b)
}

func diffAt(path string, a, b Obj) string {
	if d := Diff(a, b); d != "" {
		return path + d
	}
	return ""
}

func (q *iso) decode(f *File, s *Stream) ([]byte, error) {
	d := s.D.Copy()
	for _, k := range []string{"Filter", "DecodeParms"} {
		if v := d.Get(k); v != nil {
			d.Set(k, f.Resolve(v))
		}
	}
	return DecodeStream(&Stream{D: d, Raw: s.Raw})
}

func (q *iso) dict(x, y *Dict, path string, depth int, skip ...string) string {
	out := map[string]bool{}
	for _, k := range skip {
		out[k] = true
	}
	for _, k := range x.Keys {
		if out[k] {
			continue
		}
		if s := q.diff(x.M[k], y.Get(k), path+"/"+k, depth); s != "" {
			return s
		}
	}
	for _, k := range y.Keys {
		if _, ok := x.M[k]; !ok && !out[k] {
			if _, isNull := q.dst.Resolve(y.M[k]).(Null); !isNull {
				return fmt.Sprintf("%s: extra key /%s = %s", path, k, Short(y.M[k]))
			}
		}
	}
	return ""
}

// pageDiff compares a page with its counterpart: own entries, the effective
// inherited attributes, and everything they lead to. rot is the expected
// rotation, in degrees.
func (q *iso) pageDiff(a, b Page, rot int) string {
	inh := []string{"Resources", "MediaBox", "CropBox", "Rotate"}
	if s := q.dict(a.D, b.D, "page", 0, append([]string{"Parent"}, inh...)...); s != "" {
		return s
	}
	for _, k := range inh[:3] {
		if s := q.diff(a.Inh[k], b.Inh[k], "page/"+k, 0); s != "" {
			return s
		}
	}
	if norm360(b.Rotate) != norm360(rot) {
		return fmt.Sprintf("page rotated by %d, want %d", b.Rotate, rot)
	}
	return ""
}

func norm360(a int) int { return ((a % 360) + 360) % 360 }
