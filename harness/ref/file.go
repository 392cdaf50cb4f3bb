package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
)

type Entry struct {
	N, G  int
	Free  bool
	Off   int
	InStm int // containing object stream (0: none)
	Idx   int
}

// File is the strict view of a PDF.
type File struct {
	B        []byte
	Version  string
	Entries  map[int]Entry
	Trailer  *Dict // newest
	Sections int
	XRefStm  bool // newest section is an xref stream
	Crypt    *Crypt
	AuthAs   string
	used     map[int]bool // cross-reference streams
	encNum   int
	cache    map[int]Obj
	stm      map[int][]stmObj
	busy     map[int]bool
}

type stmObj struct {
	n   int
	o   Obj
	raw []byte
}

// OpenStrict reads b according to the standard, refusing what the standard
// does not allow.  pw is used when the file is encrypted.
func OpenStrict(b []byte, pw []byte) (*File, error) {
	f := &File{B: b, used: map[int]bool{}, Entries: map[int]Entry{}, cache: map[int]Obj{}, stm: map[int][]stmObj{}, busy: map[int]bool{}}
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, fmt.Errorf("no %%PDF- header")
	}
	i := 5
	for i < len(b) && b[i] != '\n' && b[i] != '\r' {
		i++
	}
	f.Version = string(b[5:i])
	if len(f.Version) != 3 || f.Version[1] != '.' {
		return nil, fmt.Errorf("bad version %q", f.Version)
	}
	t := bytes.TrimRight(b, "\r\n \x00\t\f")
	if !bytes.HasSuffix(t, []byte("%%EOF")) {
		return nil, fmt.Errorf("file does not end with %%%%EOF")
	}
	sx := bytes.LastIndex(b, []byte("startxref"))
	if sx < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	p := NewP(b, sx+9)
	// startxref is followed by an integer on its own line
	off, err := p.Uint()
	if err != nil {
		return nil, err
	}
	rest := bytes.TrimLeft(b[p.I:], "\r\n \t")
	if !bytes.HasPrefix(rest, []byte("%%EOF")) {
		return nil, fmt.Errorf("startxref value not followed by %%%%EOF")
	}
	seen := map[int]bool{}
	for first := true; ; first = false {
		if seen[off] {
			return nil, fmt.Errorf("xref /Prev loop at %d", off)
		}
		seen[off] = true
		tr, isStm, err := f.section(off)
		if err != nil {
			return nil, fmt.Errorf("xref section at %d: %w", off, err)
		}
		f.Sections++
		if first {
			f.Trailer = tr
			f.XRefStm = isStm
		}
		if !isStm {
			if xs, ok := tr.Get("XRefStm").(Int); ok {
				if _, _, err := f.section(int(xs)); err != nil {
					return nil, fmt.Errorf("XRefStm at %d: %w", xs, err)
				}
			}
		}
		pv, ok := tr.Get("Prev").(Int)
		if !ok {
			if tr.Get("Prev") != nil {
				return nil, fmt.Errorf("bad /Prev")
			}
			break
		}
		off = int(pv)
	}
	size := f.Trailer.Int("Size", -1)
	maxN := 0
	for n := range f.Entries {
		if n > maxN {
			maxN = n
		}
	}
	if size != maxN+1 {
		// Size is one greater than the highest object number; entries beyond
		// it are ignored by readers, so it must not be smaller.
		if size <= maxN {
			return nil, fmt.Errorf("/Size %d not greater than highest object number %d", size, maxN)
		}
	}
	if _, ok := f.Trailer.Get("Root").(Ref); !ok {
		return nil, fmt.Errorf("trailer has no /Root reference")
	}
	if enc := f.Trailer.Get("Encrypt"); enc != nil {
		var ed *Dict
		switch e := enc.(type) {
		case Ref:
			o, err := f.raw(e.N)
			if err != nil {
				return nil, fmt.Errorf("encryption dictionary: %w", err)
			}
			if f.Entries[e.N].InStm != 0 {
				return nil, fmt.Errorf("encryption dictionary stored in an object stream")
			}
			ed, _ = o.(*Dict)
			f.encNum = e.N
		case *Dict:
			ed = e
		}
		if ed == nil {
			return nil, fmt.Errorf("encryption dictionary is not a dictionary")
		}
		ids, _ := f.Trailer.Get("ID").(Arr)
		if len(ids) != 2 {
			return nil, fmt.Errorf("encrypted file without /ID")
		}
		id0, _ := ids[0].(Str)
		c, err := CryptFromDict(ed, id0)
		if err != nil {
			return nil, err
		}
		f.AuthAs = c.Auth(pw)
		if f.AuthAs == "" {
			return nil, fmt.Errorf("password rejected")
		}
		f.Crypt = c
	}
	// every in-use object must parse
	for _, n := range f.Nums() {
		if _, err := f.Get(n); err != nil {
			return nil, fmt.Errorf("object %d: %w", n, err)
		}
	}
	if _, ok := f.Resolve(f.Trailer.Get("Root")).(*Dict); !ok {
		return nil, fmt.Errorf("/Root is not a dictionary")
	}
	return f, nil
}

func (f *File) add(e Entry) {
	if _, ok := f.Entries[e.N]; !ok {
		f.Entries[e.N] = e
	}
}

func (f *File) section(off int) (*Dict, bool, error) {
	if off <= 0 || off >= len(f.B) {
		return nil, false, fmt.Errorf("offset outside file")
	}
	if bytes.HasPrefix(f.B[off:], []byte("xref")) {
		tr, err := f.table(off)
		return tr, false, err
	}
	p := NewP(f.B, off)
	if off < len(f.B) && (f.B[off] < '0' || f.B[off] > '9') {
		return nil, false, fmt.Errorf("neither 'xref' nor an object: %q", clip(f.B[off:]))
	}
	num, _, o, err := p.Indirect()
	if err != nil {
		return nil, false, err
	}
	s, ok := o.(*Stream)
	if !ok || s.D.Name("Type") != "XRef" {
		return nil, false, fmt.Errorf("not a cross-reference stream")
	}
	f.used[num] = true
	data, err := DecodeStream(s)
	if err != nil {
		return nil, false, err
	}
	wa, _ := s.D.Get("W").(Arr)
	if len(wa) != 3 {
		return nil, false, fmt.Errorf("bad /W")
	}
	var w [3]int
	for i := range w {
		n, ok := wa[i].(Int)
		if !ok || n < 0 || n > 8 {
			return nil, false, fmt.Errorf("bad /W")
		}
		w[i] = int(n)
	}
	size := s.D.Int("Size", -1)
	if size < 0 {
		return nil, false, fmt.Errorf("no /Size")
	}
	idx := []int{0, size}
	if ia, ok := s.D.Get("Index").(Arr); ok {
		idx = nil
		for _, e := range ia {
			n, ok := e.(Int)
			if !ok {
				return nil, false, fmt.Errorf("bad /Index")
			}
			idx = append(idx, int(n))
		}
		if len(idx)%2 != 0 {
			return nil, false, fmt.Errorf("odd /Index")
		}
	}
	es := w[0] + w[1] + w[2]
	total := 0
	for i := 1; i < len(idx); i += 2 {
		total += idx[i]
	}
	if es == 0 || total*es != len(data) {
		return nil, false, fmt.Errorf("xref stream data is %d bytes, expected %d entries of %d", len(data), total, es)
	}
	pos := 0
	for i := 0; i < len(idx); i += 2 {
		for k := 0; k < idx[i+1]; k++ {
			var v [3]int
			for j := 0; j < 3; j++ {
				for q := 0; q < w[j]; q++ {
					v[j] = v[j]<<8 | int(data[pos])
					pos++
				}
			}
			if w[0] == 0 {
				v[0] = 1
			}
			n := idx[i] + k
			if n >= size {
				return nil, false, fmt.Errorf("xref stream entry for object %d but /Size %d", n, size)
			}
			switch v[0] {
			case 0:
				f.add(Entry{N: n, G: v[2], Free: true})
			case 1:
				f.add(Entry{N: n, G: v[2], Off: v[1]})
			case 2:
				f.add(Entry{N: n, InStm: v[1], Idx: v[2]})
			default:
				return nil, false, fmt.Errorf("xref entry type %d", v[0])
			}
		}
	}
	return s.D, true, nil
}

// Uses reports whether object n stores part of the file: a cross-reference
// stream of one of its sections or a stream that holds objects.
func (f *File) Uses(n int) bool {
	if f.used[n] {
		return true
	}
	for _, e := range f.Entries {
		if !e.Free && e.InStm == n {
			return true
		}
	}
	return false
}

func (f *File) table(off int) (*Dict, error) {
	p := NewP(f.B, off+4)
	nsub := 0
	for {
		p.SkipWS()
		if bytes.HasPrefix(f.B[p.I:], []byte("trailer")) {
			p.I += 7
			break
		}
		first, err := p.Uint()
		if err != nil {
			return nil, err
		}
		cnt, err := p.Uint()
		if err != nil {
			return nil, err
		}
		nsub++
		// end of line
		for p.I < len(f.B) && (f.B[p.I] == ' ' || f.B[p.I] == '\r') {
			p.I++
		}
		if p.I < len(f.B) && f.B[p.I] == '\n' {
			p.I++
		}
		for k := 0; k < cnt; k++ {
			if p.I+20 > len(f.B) {
				return nil, fmt.Errorf("xref table truncated")
			}
			l := f.B[p.I : p.I+20]
			p.I += 20
			eol := string(l[18:20])
			if eol != " \n" && eol != "\r\n" && eol != " \r" {
				return nil, fmt.Errorf("xref entry not 20 bytes: %q", l)
			}
			if l[10] != ' ' || l[16] != ' ' || !allDigits(string(l[:10])) || !allDigits(string(l[11:16])) {
				return nil, fmt.Errorf("malformed xref entry %q", l)
			}
			o, _ := strconv.Atoi(string(l[:10]))
			g, _ := strconv.Atoi(string(l[11:16]))
			switch l[17] {
			case 'n':
				f.add(Entry{N: first + k, G: g, Off: o})
			case 'f':
				f.add(Entry{N: first + k, G: g, Free: true})
			default:
				return nil, fmt.Errorf("malformed xref entry %q", l)
			}
		}
	}
	if nsub == 0 {
		return nil, fmt.Errorf("empty xref table")
	}
	o, err := p.Object()
	if err != nil {
		return nil, err
	}
	d, ok := o.(*Dict)
	if !ok {
		return nil, fmt.Errorf("trailer is not a dictionary")
	}
	return d, nil
}

// Nums lists in-use object numbers.
func (f *File) Nums() []int {
	var ns []int
	for n, e := range f.Entries {
		if !e.Free && n != 0 {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	return ns
}

func (f *File) raw(n int) (Obj, error) {
	e, ok := f.Entries[n]
	if !ok || e.Free {
		return Null{}, nil
	}
	if e.InStm != 0 {
		objs, err := f.objstm(e.InStm)
		if err != nil {
			return nil, err
		}
		if e.Idx >= len(objs) || objs[e.Idx].n != n {
			return nil, fmt.Errorf("object stream %d index %d does not hold it", e.InStm, e.Idx)
		}
		return objs[e.Idx].o, nil
	}
	if e.Off <= 0 || e.Off >= len(f.B) {
		return nil, fmt.Errorf("offset %d outside file", e.Off)
	}
	if c := f.B[e.Off]; c < '0' || c > '9' {
		return nil, fmt.Errorf("offset %d does not point at an object: %q", e.Off, clip(f.B[e.Off:]))
	}
	if prev := f.B[e.Off-1]; !isWS(prev) && !isDelim(prev) && prev != 'j' {
		return nil, fmt.Errorf("offset %d points into the middle of a token", e.Off)
	}
	p := NewP(f.B, e.Off)
	p.Len = func(r Ref) (int, error) {
		if f.busy[r.N] {
			return 0, fmt.Errorf("length loop")
		}
		f.busy[r.N] = true
		defer delete(f.busy, r.N)
		o, err := f.raw(r.N)
		if err != nil {
			return 0, err
		}
		i, ok := o.(Int)
		if !ok {
			return 0, fmt.Errorf("indirect /Length is not an integer")
		}
		return int(i), nil
	}
	on, og, o, err := p.Indirect()
	if err != nil {
		return nil, err
	}
	if on != n || og != e.G {
		return nil, fmt.Errorf("offset %d holds object %d %d, xref says %d %d", e.Off, on, og, n, e.G)
	}
	return o, nil
}

func (f *File) objstm(n int) ([]stmObj, error) {
	if s, ok := f.stm[n]; ok {
		return s, nil
	}
	if f.busy[n] {
		return nil, fmt.Errorf("object stream loop")
	}
	f.busy[n] = true
	defer delete(f.busy, n)
	if f.Entries[n].InStm != 0 {
		return nil, fmt.Errorf("object stream %d inside an object stream", n)
	}
	o, err := f.Get(n)
	if err != nil {
		return nil, err
	}
	s, ok := o.(*Stream)
	if !ok || s.D.Name("Type") != "ObjStm" {
		return nil, fmt.Errorf("object %d is not an object stream", n)
	}
	data, err := DecodeStream(s)
	if err != nil {
		return nil, err
	}
	cnt, first := s.D.Int("N", -1), s.D.Int("First", -1)
	if cnt < 0 || first < 0 || first > len(data) {
		return nil, fmt.Errorf("object stream %d: bad /N or /First", n)
	}
	hp := NewP(data[:first], 0)
	var nums, offs []int
	for i := 0; i < cnt; i++ {
		a, err := hp.Uint()
		if err != nil {
			return nil, err
		}
		b, err := hp.Uint()
		if err != nil {
			return nil, err
		}
		nums = append(nums, a)
		offs = append(offs, b)
	}
	var out []stmObj
	for i := range nums {
		if first+offs[i] > len(data) {
			return nil, fmt.Errorf("object stream %d: offset of object %d outside stream", n, nums[i])
		}
		p := NewP(data, first+offs[i])
		v, err := p.Object()
		if err != nil {
			return nil, fmt.Errorf("object stream %d, object %d: %w", n, nums[i], err)
		}
		if i+1 < len(nums) && p.I > first+offs[i+1] {
			return nil, fmt.Errorf("object stream %d: object %d overlaps the next", n, nums[i])
		}
		out = append(out, stmObj{nums[i], v, data[first+offs[i] : p.I]})
	}
	f.stm[n] = out
	return out, nil
}

// Get returns the decrypted object.
func (f *File) Get(n int) (Obj, error) {
	if o, ok := f.cache[n]; ok {
		return o, nil
	}
	o, err := f.raw(n)
	if err != nil {
		return nil, err
	}
	if f.Crypt != nil && n != f.encNum && f.Entries[n].InStm == 0 {
		if o, err = f.Crypt.DecObj(n, f.Entries[n].G, o); err != nil {
			return nil, err
		}
	}
	f.cache[n] = o
	return o, nil
}

// Resolve follows references.
func (f *File) Resolve(o Obj) Obj {
	for i := 0; i < 32; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		v, err := f.Get(r.N)
		if err != nil {
			return Null{}
		}
		o = v
	}
	return Null{}
}

func (f *File) Dict(o Obj) *Dict {
	switch v := f.Resolve(o).(type) {
	case *Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}

func (f *File) Catalog() *Dict { return f.Dict(f.Trailer.Get("Root")) }

// Page is a leaf of the page tree with inherited attributes resolved.
type Page struct {
	Num       int
	D         *Dict
	MediaBox  []float64
	CropBox   []float64
	Rotate    int
	Resources *Dict
	Inh       map[string]Obj // effective inheritable attributes as written
}

// Pages walks the page tree strictly: /Type, /Parent, /Count are verified.
func (f *File) Pages() ([]Page, error) {
	cat := f.Catalog()
	if cat.Name("Type") != "Catalog" {
		return nil, fmt.Errorf("catalog /Type is %q", cat.Name("Type"))
	}
	root, ok := cat.Get("Pages").(Ref)
	if !ok {
		return nil, fmt.Errorf("catalog has no /Pages reference")
	}
	var out []Page
	seen := map[int]bool{}
	_, err := f.walk(root, Ref{}, map[string]Obj{}, seen, &out)
	return out, err
}

func (f *File) walk(r, parent Ref, inh map[string]Obj, seen map[int]bool, out *[]Page) (int, error) {
	if seen[r.N] {
		return 0, fmt.Errorf("page tree node %d appears twice", r.N)
	}
	seen[r.N] = true
	d, ok := f.Resolve(r).(*Dict)
	if !ok {
		return 0, fmt.Errorf("page tree node %d is not a dictionary", r.N)
	}
	if parent.N != 0 {
		if pr, ok := d.Get("Parent").(Ref); !ok || pr.N != parent.N {
			return 0, fmt.Errorf("page tree node %d: /Parent is %s, expected %d", r.N, Short(d.Get("Parent")), parent.N)
		}
	}
	my := map[string]Obj{}
	for k, v := range inh {
		my[k] = v
	}
	for _, k := range []string{"MediaBox", "CropBox", "Rotate", "Resources"} {
		if v := d.Get(k); v != nil {
			// an attribute that is null is an attribute that is absent
			if _, isNull := f.Resolve(v).(Null); !isNull {
				my[k] = v
			}
		}
	}
	switch d.Name("Type") {
	case "Pages":
		kids, ok := f.Resolve(d.Get("Kids")).(Arr)
		if !ok {
			return 0, fmt.Errorf("page tree node %d has no /Kids", r.N)
		}
		n := 0
		for _, k := range kids {
			kr, ok := k.(Ref)
			if !ok {
				return 0, fmt.Errorf("page tree node %d: kid is not a reference", r.N)
			}
			c, err := f.walk(kr, r, my, seen, out)
			if err != nil {
				return 0, err
			}
			n += c
		}
		if c, ok := f.Resolve(d.Get("Count")).(Int); !ok || int(c) != n {
			return 0, fmt.Errorf("page tree node %d: /Count %s but %d leaf pages", r.N, Short(d.Get("Count")), n)
		}
		return n, nil
	case "Page":
		pg := Page{Num: r.N, D: d, Inh: my}
		pg.MediaBox = f.nums(my["MediaBox"])
		pg.CropBox = f.nums(my["CropBox"])
		if x, ok := f.Resolve(my["Rotate"]).(Int); ok {
			pg.Rotate = int(x)
		}
		pg.Resources = f.Dict(my["Resources"])
		if len(pg.MediaBox) != 4 {
			return 0, fmt.Errorf("page %d has no /MediaBox", r.N)
		}
		*out = append(*out, pg)
		return 1, nil
	}
	return 0, fmt.Errorf("page tree node %d: /Type is %q", r.N, d.Name("Type"))
}

func (f *File) nums(o Obj) []float64 {
	a, ok := f.Resolve(o).(Arr)
	if !ok {
		return nil
	}
	var out []float64
	for _, e := range a {
		if x, ok := Num(f.Resolve(e)); ok {
			out = append(out, x)
		}
	}
	return out
}

// Contents returns the concatenated decoded content of a page.
func (f *File) Contents(pg Page) ([]byte, error) {
	var parts [][]byte
	var one func(o Obj) error
	one = func(o Obj) error {
		switch v := f.Resolve(o).(type) {
		case *Stream:
			d, err := DecodeStream(v)
			if err != nil {
				return err
			}
			parts = append(parts, d)
		case Arr:
			for _, e := range v {
				if err := one(e); err != nil {
					return err
				}
			}
		case nil, Null:
		default:
			return fmt.Errorf("bad /Contents")
		}
		return nil
	}
	if err := one(pg.D.Get("Contents")); err != nil {
		return nil, err
	}
	return bytes.Join(parts, []byte("\n")), nil
}

// Dangling returns references to objects that do not exist, reachable from
// the trailer.
func (f *File) Dangling() []Ref {
	var bad []Ref
	seen := map[int]bool{}
	var visit func(o Obj)
	visit = func(o Obj) {
		switch v := o.(type) {
		case Ref:
			if e, ok := f.Entries[v.N]; !ok || e.Free || e.G != v.G {
				bad = append(bad, v)
				return
			}
			if seen[v.N] {
				return
			}
			seen[v.N] = true
			x, err := f.Get(v.N)
			if err == nil {
				visit(x)
			}
		case Arr:
			for _, e := range v {
				visit(e)
			}
		case *Dict:
			for _, k := range v.Keys {
				visit(v.M[k])
			}
		case *Stream:
			visit(v.D)
		}
	}
	for _, k := range []string{"Root", "Info", "Encrypt"} {
		if o := f.Trailer.Get(k); o != nil {
			visit(o)
		}
	}
	return bad
}

// GetRaw returns the object as stored, without decrypting it.
func (f *File) GetRaw(n int) (Obj, error) { return f.raw(n) }
