package ref

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
)

// FObj is one object of a revision.
type FObj struct {
	N, G  int
	O     Obj
	InStm bool   // store in an object stream (xref-stream revisions only)
	Body  []byte // exact body text; overrides O's serialisation
}

type Rev struct {
	Objs    []FObj
	Free    []int
	XRefStm bool
	Extra   *Dict // extra trailer keys
}

// Spec describes a file to build.
type Spec struct {
	Version string
	Revs    []Rev
	Root    Ref
	Info    Ref // optional
	ID      [2][]byte
	R       *rand.Rand
	St      Style
	// layout
	CRLFXref    bool // xref entries end CR LF instead of SP LF
	EOL         string
	BinComment  bool
	Junk        bool // comments / blank lines between objects
	Shuffle     bool // write objects in random order
	SplitSub    bool // split xref subsections at random
	Predictor   int  // for xref streams: 0/1 none, 12 etc.
	PNGType     int  // row filter for xref streams (<0: random)
	ObjStmMax   int  // max objects per object stream
	ObjStmRaw   bool // object streams without a filter
	XRefRaw     bool // xref streams without a filter
	IndirectLen bool
	Crypt       *Crypt
	EncDirect   bool // encryption dictionary inside the trailer
	Level       int
	EncDecoy    bool // something like the encryption dictionary precedes it
	SpacedHdr   bool // extra white space in object headers
	CRXref      bool // xref entries end SP CR
	FreeChain   bool // free entries of a table form a linked list
	NoFinalEOL  bool // nothing after the last end-of-file marker
	Stacked     bool // object and xref streams with filter arrays, text filters and predictors
	SameLine    bool // trailer dictionary and keyword on one line
	Linear      bool // first revision laid out as a linearized file
	Sparse      bool // numbers that are not used have no entries
	Decoy       bool // private entries of structural dictionaries look like the real ones
	TinyUpdates bool // updates that change nothing have an empty table
	Loose       bool // spare white space in object streams and tables, dictionary keys in any order
}

// Placed records where things went.
type Placed struct {
	N, G     int
	Rev      int
	Off, End int    // byte range "N G obj ... endobj" (direct objects)
	Body     []byte // exact serialised body
	O        Obj    // plaintext value
	InStm    int
	Idx      int
}

type Built struct {
	B       []byte
	Live    map[int]Placed // newest state
	RevLive []map[int]Placed
	RevNew  [][]Placed // objects written by each revision (excluding xref/objstm infrastructure)
	Infra   map[int]bool
	RevEnd  []int
	StartX  []int
	Second  int // where the second section of a linearized first revision is
	Free    map[int]bool
	MaxN    int
	EncNum  int
}

func (s *Spec) eol() string {
	if s.EOL == "" {
		return "\n"
	}
	return s.EOL
}

// Build lays the file out.
func (s *Spec) Build() *Built {
	if s.R == nil {
		s.R = rand.New(rand.NewSource(1))
	}
	if s.ObjStmMax == 0 {
		s.ObjStmMax = 100
	}
	if s.Level == 0 {
		s.Level = 6
	}
	out := &Built{Live: map[int]Placed{}, Infra: map[int]bool{}, Free: map[int]bool{}}
	var b bytes.Buffer
	v := s.Version
	if v == "" {
		v = "1.7"
	}
	b.WriteString("%PDF-" + v + s.eol())
	if s.BinComment {
		b.WriteString("%\xe2\xe3\xcf\xd3" + s.eol())
	}
	maxN := 0
	for _, r := range s.Revs {
		for _, o := range r.Objs {
			if o.N > maxN {
				maxN = o.N
			}
		}
		for _, n := range r.Free {
			if n > maxN {
				maxN = n
			}
		}
	}
	next := maxN + 1
	if s.Crypt != nil && !s.EncDirect {
		out.EncNum = next
		next++
		out.Infra[out.EncNum] = true
		revs := append([]Rev{}, s.Revs...)
		revs[0].Objs = append(append([]FObj{}, revs[0].Objs...), FObj{N: out.EncNum, O: s.Crypt.Dict()})
		s.Revs = revs
	}
	hdrEnd := b.Len()
	if s.EncDecoy && out.EncNum != 0 {
		decoy := []string{"<< /Type /Catalog >>", "<< /V 1 /R 2 /Length 40 /P 0 >>", "[ << /O (x) /U (y) >> ]", "<< /Filter /FlateDecode /Length 3 >>"}
		fmt.Fprintf(&b, "%% %d 0 obj %s%s", out.EncNum, decoy[s.R.Intn(len(decoy))], s.eol())
	}
	prev := -1
	cur := map[int]Placed{}
	freeGen := map[int]int{}
	for ri, r := range s.Revs {
		ents := map[int]Entry{}
		var fresh []Placed
		var direct []FObj
		var inStm []FObj
		for _, o := range r.Objs {
			if o.InStm && r.XRefStm {
				if _, isS := o.O.(*Stream); !isS && o.G == 0 {
					inStm = append(inStm, o)
					continue
				}
			}
			direct = append(direct, o)
		}
		if s.Shuffle {
			s.R.Shuffle(len(direct), func(i, j int) { direct[i], direct[j] = direct[j], direct[i] })
			s.R.Shuffle(len(inStm), func(i, j int) { inStm[i], inStm[j] = inStm[j], inStm[i] })
		}
		// object streams
		for i := 0; i < len(inStm); i += s.ObjStmMax {
			e := i + s.ObjStmMax
			if e > len(inStm) {
				e = len(inStm)
			}
			num := next
			next++
			var hdr, body bytes.Buffer
			for k, o := range inStm[i:e] {
				txt := o.Body
				if txt == nil {
					txt = Ser(o.O, s.St)
				}
				if s.Loose {
					body.WriteString(s.space(0))
				}
				fmt.Fprintf(&hdr, "%d %d ", o.N, body.Len())
				body.Write(txt)
				body.WriteByte("\n "[s.R.Intn(2)])
				if s.Loose {
					hdr.WriteString(s.space(0))
					body.WriteString(s.space(0))
				}
				p := Placed{N: o.N, Rev: ri, Body: txt, O: o.O, InStm: num, Idx: k}
				fresh = append(fresh, p)
				ents[o.N] = Entry{N: o.N, InStm: num, Idx: k}
			}
			data := append(append([]byte{}, hdr.Bytes()...), body.Bytes()...)
			d := NewDict()
			s.decoy(d)
			d.Set("Type", Name("ObjStm"))
			d.Set("N", Int(e-i))
			d.Set("First", Int(hdr.Len()))
			if s.Stacked {
				data = s.stack(d, data, 0)
			} else if !s.ObjStmRaw {
				data = Zlib(data, s.Level)
				d.Set("Filter", Name("FlateDecode"))
			}
			d.Set("Length", Int(len(data)))
			if s.Loose {
				s.R.Shuffle(len(d.Keys), func(i, j int) { d.Keys[i], d.Keys[j] = d.Keys[j], d.Keys[i] })
			}
			direct = append(direct, FObj{N: num, O: &Stream{D: d, Raw: data}})
			out.Infra[num] = true
		}
		var extraLen []FObj
		for i := 0; i < len(direct); i++ {
			o := direct[i]
			if s.Junk && s.R.Intn(3) == 0 {
				j := []string{"% a comment" + s.eol(), s.eol() + s.eol(), "%% 12 0 obj" + s.eol(), "   " + s.eol()}
				b.WriteString(j[s.R.Intn(len(j))])
			}
			off := b.Len()
			if s.SpacedHdr && s.R.Intn(3) == 0 {
				fmt.Fprintf(&b, "%d  %d\tobj", o.N, o.G)
			} else {
				fmt.Fprintf(&b, "%d %d obj", o.N, o.G)
			}
			val := o.O
			if s.Crypt != nil && o.N != out.EncNum && !(out.Infra[o.N] && isXRef(val)) {
				val = s.Crypt.EncObj(o.N, o.G, val, s.R)
			}
			switch s.R.Intn(3) {
			case 0:
				b.WriteString(s.eol())
			case 1:
				b.WriteString(" ")
			case 2:
				if s.St.R != nil && s.St.Tight {
					if !selfDelim(val) {
						if _, ok := val.(*Stream); !ok {
							b.WriteString(" ")
						}
					}
				} else {
					b.WriteString(s.eol())
				}
			}
			body := o.Body
			if body == nil || s.Crypt != nil {
				if st, ok := val.(*Stream); ok {
					d := st.D.Copy()
					if s.IndirectLen && !out.Infra[o.N] && s.R.Intn(2) == 0 {
						ln := next
						next++
						d.Set("Length", Ref{ln, 0})
						extraLen = append(extraLen, FObj{N: ln, O: Int(len(st.Raw))})
						direct = append(direct, FObj{N: ln, O: Int(len(st.Raw))})
						out.Infra[ln] = true
					} else {
						d.Set("Length", Int(len(st.Raw)))
					}
					var sb bytes.Buffer
					ser(&sb, d, s.St)
					if s.R.Intn(4) != 0 {
						sb.WriteString(s.eol())
					}
					sb.WriteString("stream")
					if s.R.Intn(2) == 0 {
						sb.WriteString("\r\n")
					} else {
						sb.WriteString("\n")
					}
					sb.Write(st.Raw)
					sb.WriteString([]string{"\n", "\r\n", "\n"}[s.R.Intn(3)])
					sb.WriteString("endstream")
					body = sb.Bytes()
				} else {
					body = Ser(val, s.St)
				}
			}
			b.Write(body)
			b.WriteString(s.eol() + "endobj")
			end := b.Len()
			b.WriteString(s.eol())
			ents[o.N] = Entry{N: o.N, G: o.G, Off: off}
			p := Placed{N: o.N, G: o.G, Rev: ri, Off: off, End: end, Body: append([]byte{}, body...), O: o.O}
			if !out.Infra[o.N] {
				fresh = append(fresh, p)
			} else {
				cur[o.N] = p
			}
		}
		for _, p := range fresh {
			cur[p.N] = p
			delete(out.Free, p.N)
		}
		for _, n := range r.Free {
			g := cur[n].G + 1
			freeGen[n] = g
			ents[n] = Entry{N: n, Free: true, G: g}
			delete(cur, n)
			out.Free[n] = true
		}
		if ri == 0 {
			ents[0] = Entry{N: 0, Free: true, G: 65535}
			// gaps in the first revision are free
			for n := 1; n < next && !s.Sparse; n++ {
				if _, ok := ents[n]; !ok {
					ents[n] = Entry{N: n, Free: true, G: 0}
				}
			}
		}
		if len(ents) == 0 && !s.TinyUpdates {
			ents[0] = Entry{N: 0, Free: true, G: 65535}
		}
		sx := b.Len()
		tr := NewDict()
		s.decoy(tr)
		if s.Root.N != 0 {
			tr.Set("Root", s.Root)
		}
		if s.Info.N != 0 {
			tr.Set("Info", s.Info)
		}
		if s.ID[0] != nil {
			tr.Set("ID", Arr{Str(s.ID[0]), Str(s.ID[1])})
		}
		if out.EncNum != 0 {
			tr.Set("Encrypt", Ref{out.EncNum, 0})
		} else if s.Crypt != nil {
			tr.Set("Encrypt", s.Crypt.Dict())
		}
		if prev >= 0 {
			tr.Set("Prev", Int(prev))
		}
		if r.Extra != nil {
			for _, k := range r.Extra.Keys {
				tr.Set(k, r.Extra.M[k])
			}
		}
		var nums []int
		if s.Linear && ri == 0 {
			lin := next
			next++
			out.Infra[lin] = true
			delta, text, off := s.linear(b.Bytes(), hdrEnd, lin, &next, ents, tr, r.XRefStm, out)
			for n, p := range cur {
				if p.InStm == 0 {
					p.Off, p.End = p.Off+delta, p.End+delta
					cur[n] = p
				}
			}
			for i := range fresh {
				if fresh[i].InStm == 0 {
					fresh[i] = cur[fresh[i].N]
				}
			}
			for _, n := range []int{lin, lin + 1, lin + 2} {
				if n < next {
					cur[n] = Placed{N: n, Off: ents[n].Off}
				}
			}
			b.Reset()
			b.Write(text)
			sx = off
		} else if r.XRefStm {
			xn := next
			next++
			out.Infra[xn] = true
			ents[xn] = Entry{N: xn, Off: sx}
			for n := range ents {
				nums = append(nums, n)
			}
			sort.Ints(nums)
			s.xrefStream(&b, xn, ents, nums, next, tr)
			cur[xn] = Placed{N: xn, Rev: ri, Off: sx}
		} else {
			for n := range ents {
				nums = append(nums, n)
			}
			sort.Ints(nums)
			tr.Set("Size", Int(next))
			s.xrefTable(&b, ents, nums)
			if s.Loose {
				s.R.Shuffle(len(tr.Keys), func(i, j int) { tr.Keys[i], tr.Keys[j] = tr.Keys[j], tr.Keys[i] })
			}
			if b.WriteString("trailer"); s.SameLine {
				b.WriteString(s.space(0))
			} else {
				b.WriteString(s.eol())
			}
			b.Write(Ser(tr, s.St))
			b.WriteString(s.eol())
		}
		b.WriteString("startxref" + s.eol())
		fmt.Fprintf(&b, "%d%s", sx, s.eol())
		b.WriteString("%%EOF")
		if !s.NoFinalEOL || ri < len(s.Revs)-1 {
			b.WriteString(s.eol())
		}
		prev = sx
		out.StartX = append(out.StartX, sx)
		out.RevEnd = append(out.RevEnd, b.Len())
		snap := map[int]Placed{}
		for n, p := range cur {
			snap[n] = p
		}
		out.RevLive = append(out.RevLive, snap)
		out.RevNew = append(out.RevNew, fresh)
	}
	out.B = b.Bytes()
	out.Live = cur
	out.MaxN = next - 1
	return out
}

func (s *Spec) groups(nums []int) [][]int {
	var gs [][]int
	for i := 0; i < len(nums); {
		j := i + 1
		for j < len(nums) && nums[j] == nums[j-1]+1 {
			if s.SplitSub && s.R.Intn(5) == 0 {
				break
			}
			j++
		}
		gs = append(gs, nums[i:j])
		i = j
	}
	return gs
}

func (s *Spec) xrefTable(b *bytes.Buffer, ents map[int]Entry, nums []int) {
	b.WriteString("xref" + s.eol())
	eol := " \n"
	if s.CRLFXref {
		eol = "\r\n"
	} else if s.CRXref {
		eol = " \r"
	}
	nextFree := map[int]int{}
	if s.FreeChain {
		last := 0
		for i := len(nums) - 1; i >= 0; i-- {
			if ents[nums[i]].Free {
				nextFree[nums[i]] = last
				last = nums[i]
			}
		}
	}
	if len(nums) == 0 {
		b.WriteString("0 0" + s.eol())
		return
	}
	gs := s.groups(nums)
	if s.SplitSub && nums[0] != 0 && s.R.Intn(2) == 0 {
		// updates may list their subsections in any order
		s.R.Shuffle(len(gs), func(i, j int) { gs[i], gs[j] = gs[j], gs[i] })
	}
	for _, g := range gs {
		fmt.Fprintf(b, "%d %d", g[0], len(g))
		if s.Loose && s.R.Intn(2) == 0 {
			b.WriteString(" ")
		}
		b.WriteString(s.eol())
		for _, n := range g {
			e := ents[n]
			if e.Free {
				fmt.Fprintf(b, "%010d %05d f%s", nextFree[n], e.G, eol)
			} else {
				fmt.Fprintf(b, "%010d %05d n%s", e.Off, e.G, eol)
			}
		}
	}
}

func width(v int) int {
	w := 1
	for v > 255 {
		v >>= 8
		w++
	}
	return w
}

func (s *Spec) xrefStream(b *bytes.Buffer, xn int, ents map[int]Entry, nums []int, size int, tr *Dict) {
	m2, m3 := 0, 0
	all1 := true
	for _, e := range ents {
		f2, f3 := e.Off, e.G
		if e.InStm != 0 {
			f2, f3 = e.InStm, e.Idx
		}
		if e.Free {
			f2 = 0
		}
		if e.Free || e.InStm != 0 {
			all1 = false
		}
		if f2 > m2 {
			m2 = f2
		}
		if f3 > m3 {
			m3 = f3
		}
	}
	w := [3]int{1, width(m2) + s.R.Intn(2), width(m3)}
	if m3 == 0 && s.R.Intn(3) == 0 {
		w[2] = 0
	}
	if all1 && s.R.Intn(3) == 0 {
		w[0] = 0
	}
	if s.Loose {
		// wider fields than the values need
		for i := range w {
			if w[i] > 0 && s.R.Intn(3) == 0 {
				w[i] += s.R.Intn(9 - w[i])
			}
		}
	}
	var data []byte
	put := func(v, n int) {
		for i := n - 1; i >= 0; i-- {
			data = append(data, byte(v>>(8*uint(i))))
		}
	}
	var idx Arr
	for _, g := range s.groups(nums) {
		idx = append(idx, Int(g[0]), Int(len(g)))
		for _, n := range g {
			e := ents[n]
			switch {
			case e.Free:
				put(0, w[0])
				put(0, w[1])
				put(e.G, w[2])
			case e.InStm != 0:
				put(2, w[0])
				put(e.InStm, w[1])
				put(e.Idx, w[2])
			default:
				put(1, w[0])
				put(e.Off, w[1])
				put(e.G, w[2])
			}
		}
	}
	d := NewDict()
	s.decoy(d)
	d.Set("Type", Name("XRef"))
	d.Set("Size", Int(size))
	d.Set("W", Arr{Int(w[0]), Int(w[1]), Int(w[2])})
	if !(len(idx) == 2 && idx[0] == Int(0) && idx[1] == Int(size) && s.R.Intn(2) == 0) {
		d.Set("Index", idx)
	}
	for _, k := range tr.Keys {
		d.Set(k, tr.M[k])
	}
	col := w[0] + w[1] + w[2]
	if s.Stacked {
		data = s.stack(d, data, col)
	} else if s.Predictor >= 10 {
		data = PNGEncode(data, col, 1, s.PNGType, s.R)
		d.Set("DecodeParms", NewDict("Predictor", Int(s.Predictor), "Columns", Int(col)))
	}
	if !s.Stacked && (!s.XRefRaw || s.Predictor >= 10) {
		data = Zlib(data, s.Level)
		d.Set("Filter", Name("FlateDecode"))
	}
	d.Set("Length", Int(len(data)))
	if s.Loose {
		s.R.Shuffle(len(d.Keys), func(i, j int) { d.Keys[i], d.Keys[j] = d.Keys[j], d.Keys[i] })
	}
	fmt.Fprintf(b, "%d 0 obj%s", xn, s.eol())
	b.Write(Ser(d, s.St))
	b.WriteString(s.eol() + "stream\r\n")
	b.Write(data)
	b.WriteString("\nendstream" + s.eol() + "endobj" + s.eol())
}

// space is a little white space, at least n characters of it.
func (s *Spec) space(n int) string {
	out := ""
	for len(out) < n || s.R.Intn(3) == 0 {
		out += []string{" ", "\n", "\r", "\t", "\r\n"}[s.R.Intn(5)]
	}
	return out
}

// stack encodes data with a random pile of filters.
func (s *Spec) stack(d *Dict, data []byte, col int) []byte {
	var f, parms Arr
	text := func() {
		switch s.R.Intn(3) {
		case 0:
			data = AHxEncode(data)
			f, parms = append(Arr{Name("ASCIIHexDecode")}, f...), append(Arr{Null{}}, parms...)
		case 1:
			data = A85Encode(data, true)
			f, parms = append(Arr{Name("ASCII85Decode")}, f...), append(Arr{Null{}}, parms...)
		default:
			data = RLEncode(data, s.R)
			f, parms = append(Arr{Name("RunLengthDecode")}, f...), append(Arr{Null{}}, parms...)
		}
	}
	if s.R.Intn(4) != 0 {
		var parm Obj = Null{}
		if s.R.Intn(2) == 0 {
			if col == 0 {
				col = 1 + s.R.Intn(40)
				for len(data)%col != 0 {
					data = append(data, ' ')
				}
			} else if k := 1 + s.R.Intn(40); len(data)%k == 0 {
				col = k
			}
			bpp := 1
			pd := NewDict("Predictor", Int(10+s.R.Intn(6)))
			if col%3 == 0 && s.R.Intn(2) == 0 {
				bpp = 3
				pd.Set("Colors", Int(3))
				pd.Set("Columns", Int(col/3))
			} else {
				pd.Set("Columns", Int(col))
			}
			if s.R.Intn(3) == 0 {
				pd.Set("BitsPerComponent", Int(8))
			}
			data = PNGEncode(data, col, bpp, s.PNGType, s.R)
			parm = pd
		} else if s.R.Intn(4) == 0 {
			parm = NewDict("Predictor", Int(1))
		}
		data = Zlib(data, s.Level)
		f, parms = Arr{Name("FlateDecode")}, Arr{parm}
	}
	for len(f) == 0 || len(f) < 3 && s.R.Intn(3) == 0 {
		text()
	}
	if len(f) == 1 && s.R.Intn(2) == 0 {
		d.Set("Filter", f[0])
		if _, ok := parms[0].(Null); !ok {
			d.Set("DecodeParms", parms[0])
		}
		return data
	}
	d.Set("Filter", f)
	for _, x := range parms {
		if _, ok := x.(Null); !ok || s.R.Intn(4) == 0 {
			d.Set("DecodeParms", parms)
			break
		}
	}
	return data
}

// linear lays out a linearized file from the objects in b[hdr:]: header,
// linearization dictionary, cross-references of the first part, first part,
// second part, cross-references of the second part. It returns by how much
// the objects moved and the position of the first cross-reference section.
func (s *Spec) linear(b []byte, hdr, lin int, next *int, ents map[int]Entry, tr *Dict, xstm bool, out *Built) (delta int, text []byte, xa int) {
	var offs, nums []int
	for n, e := range ents {
		nums = append(nums, n)
		if !e.Free && e.InStm == 0 {
			offs = append(offs, e.Off)
		}
	}
	sort.Ints(nums)
	sort.Ints(offs)
	split := offs[s.R.Intn(len(offs))]
	na, nb := *next, *next+1
	if xstm {
		*next += 2
		out.Infra[na], out.Infra[nb] = true, true
	}
	size := *next
	var partA, partB []int
	for _, n := range nums {
		e := ents[n]
		if e.InStm != 0 && s.R.Intn(2) == 0 || e.InStm == 0 && !e.Free && e.Off < split {
			partA = append(partA, n)
		} else {
			partB = append(partB, n)
		}
	}
	partA = append(partA, lin)
	if xstm {
		partA = append(partA, na)
		partB = append(partB, nb)
	}
	raw, stacked, pred, r := s.XRefRaw, s.Stacked, s.Predictor, s.R
	s.XRefRaw, s.Stacked, s.Predictor = true, false, 1
	defer func() { s.XRefRaw, s.Stacked, s.Predictor, s.R, s.St.R = raw, stacked, pred, r, r }()
	seed := s.R.Int63()
	own := s.St.R != nil
	xb, total := 0, 0
	for try := 0; ; try++ {
		rr := rand.New(rand.NewSource(seed))
		s.R = rr
		if own {
			s.St.R = rr
		}
		section := func(w *bytes.Buffer, part []int, xn int, d *Dict) {
			m := map[int]Entry{}
			for _, n := range part {
				e := ents[n]
				switch {
				case n == lin:
					e = Entry{N: lin, Off: hdr}
				case xstm && n == na:
					e = Entry{N: na, Off: xa}
				case xstm && n == nb:
					e = Entry{N: nb, Off: xb}
				case !e.Free && e.InStm == 0:
					e.Off += delta
				}
				m[n] = e
			}
			if xstm {
				s.xrefStream(w, xn, m, part, size, d)
				return
			}
			d = d.Copy()
			d.Set("Size", Int(size))
			s.xrefTable(w, m, part)
			w.WriteString("trailer" + s.eol())
			w.Write(Ser(d, s.St))
			w.WriteString(s.eol())
		}
		var w bytes.Buffer
		w.Write(b[:hdr])
		fmt.Fprintf(&w, "%d 0 obj%s<< /Linearized 1 /L %d /H [ %d 50 ] /O %d /E %d /N 1 /T %d >>%sendobj%s", lin, s.eol(), total, hdr, partA[0], split+delta, xb, s.eol(), s.eol())
		nxa := w.Len()
		da := tr.Copy()
		da.Set("Prev", Int(xb))
		section(&w, partA, na, da)
		fmt.Fprintf(&w, "startxref%s0%s%%%%EOF%s", s.eol(), s.eol(), s.eol())
		nd := w.Len() - hdr
		w.Write(b[hdr:])
		nxb := w.Len()
		db := tr
		if !xstm && seed%2 == 0 {
			db = NewDict()
		}
		section(&w, partB, nb, db)
		same := nxa == xa && nd == delta && nxb == xb && w.Len() == total
		out.Second = nxb
		xa, delta, xb, total, text = nxa, nd, nxb, w.Len(), w.Bytes()
		if same {
			break
		}
		if try%12 == 11 {
			seed += 2 // going round in circles
		}
		if try > 200 {
			panic("linearized layout does not settle")
		}
	}
	for n, e := range ents {
		if !e.Free && e.InStm == 0 {
			e.Off += delta
			ents[n] = e
		}
	}
	ents[lin] = Entry{N: lin, Off: hdr}
	if xstm {
		ents[na], ents[nb] = Entry{N: na, Off: xa}, Entry{N: nb, Off: xb}
	}
	return
}

// decoy adds private entries that resemble those of a trailer, an object
// stream or a cross-reference stream.
func (s *Spec) decoy(d *Dict) {
	if !s.Decoy {
		return
	}
	in := NewDict("Type", Name("XRef"), "Root", Ref{1, 0}, "Info", Ref{2, 0}, "Encrypt", Ref{1, 0}, "Prev", Int(7), "Size", Int(2), "W", Arr{Int(1), Int(1), Int(1)}, "Index", Arr{Int(0), Int(1)}, "N", Int(1), "First", Int(3), "Length", Int(2), "Filter", Name("ASCIIHexDecode"), "ID", Arr{Str("a"), Str("b")})
	switch s.R.Intn(4) {
	case 0:
		d.Set("PrivDecoy", in)
	case 1:
		d.Set("PrivDecoy", Arr{in})
	case 2:
		d.Set("PrivDecoy", Str(Ser(in, Style{})))
	case 3:
		d.Set("PrivDecoy", Str("stream startxref 3 endstream trailer << /Root 1 0 R /Prev 3 >> endobj"))
	}
}

func isXRef(o Obj) bool {
	s, ok := o.(*Stream)
	return ok && s.D.Name("Type") == "XRef"
}
