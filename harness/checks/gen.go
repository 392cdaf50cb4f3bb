package checks

import (
	"fmt"
	"math/rand"
	"sort"

	. "verifharness/ref"
)

var trickyStr = []string{
	"endobj", "endstream", "stream\n", "1 0 obj", "xref", "trailer", "startxref 3", "%%EOF", "% not a comment", "<<", ">>", "/Type /Page",
	"((", "))", "\\", "\\)", "(a)", ")(", "a\\(b", "\r\n", "\x00\x01\xff", "obj", "R", " 5 0 R", "[1 2", "]", "$1 $&", "\xfe\xff\x00A",
	"(a (b ) c)", " ( ) ( ( ) ) ", "\xef\xbb\xbf", "\xff\xfeA\x00", "#41", "<41>", "stream\r\n", "\nendstream\nendobj\n", "/Length 5", "\\r", "\\053", "(\\)",
}

var trickyName = []string{"A", "Type", "Name With Space", "Paren(s)", "Hash#", "A#B", "\xc3\xa9", "x/y", "endobj", "stream", "Length1", "F1", "Kids2", "a.b-c_d", "%", "Rot<>", "\x01\x7f", "A{}", "N#41", "true", "null", "0", "-1", "R", "\xff", "Name(", "a b  c"}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randString(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		return rbytes(r, r.Intn(40))
	case 2:
		var s []byte
		for i := 0; i <= r.Intn(4); i++ {
			s = append(s, trickyStr[r.Intn(len(trickyStr))]...)
		}
		return s
	default:
		return []byte(randWords(r, 1+r.Intn(5)))
	}
}

var words = []string{"alpha", "beta", "gamma", "delta", "report", "page", "total", "Invoice", "Summary", "north", "x", "Q3", "2024", "42", "the", "Zeta-9", "omega"}

func randWords(r *rand.Rand, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " "
		}
		s += words[r.Intn(len(words))]
	}
	return s
}

func randName(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return trickyName[r.Intn(len(trickyName))]
	}
	return fmt.Sprintf("%c%d", 'A'+rune(r.Intn(26)), r.Intn(50))
}

type objGen struct {
	r    *rand.Rand
	refs []Ref
	mild bool // no tricky strings / names
}

func (g *objGen) str() []byte {
	if g.mild {
		return []byte(randWords(g.r, 1+g.r.Intn(4)))
	}
	return randString(g.r)
}

func (g *objGen) name() string {
	if g.mild {
		return fmt.Sprintf("%c%d", 'A'+rune(g.r.Intn(26)), g.r.Intn(50))
	}
	return randName(g.r)
}

func (g *objGen) obj(depth int) Obj {
	r := g.r
	k := r.Intn(12)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0:
		return Null{}
	case 1:
		return Bool(r.Intn(2) == 0)
	case 2:
		return Int(r.Intn(100000) - 50000)
	case 3:
		return Real(float64(r.Intn(2000000)-1000000) / 1000)
	case 4:
		return Name(g.name())
	case 5, 6:
		return Str(g.str())
	case 7:
		if len(g.refs) > 0 {
			return g.refs[r.Intn(len(g.refs))]
		}
		return Int(r.Intn(10))
	case 8, 9:
		a := Arr{}
		for i, n := 0, r.Intn(6); i < n; i++ {
			a = append(a, g.obj(depth-1))
		}
		return a
	default:
		return g.dict(depth - 1)
	}
}

func (g *objGen) dict(depth int) *Dict {
	d := NewDict()
	for i, n := 0, g.r.Intn(6); i < n; i++ {
		d.Set(g.name(), g.obj(depth))
	}
	return d
}

func (g *objGen) streamData() []byte {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		return rbytes(r, r.Intn(300))
	case 2:
		if g.mild {
			return []byte(randWords(r, 20))
		}
		var s []byte
		for i := 0; i <= r.Intn(5); i++ {
			s = append(s, trickyStr[r.Intn(len(trickyStr))]...)
			s = append(s, "\nendstream\nendobj\n"[:r.Intn(18)]...)
		}
		return s
	case 3:
		// ends or begins with end-of-line bytes
		e := []string{"\n", "\r", "\r\n", "\n\n", " ", "\r\r"}
		return []byte(e[r.Intn(len(e))] + randWords(r, 6) + e[r.Intn(len(e))])
	default:
		return []byte(randWords(r, r.Intn(60)))
	}
}

func (g *objGen) stream() *Stream {
	d := g.dict(1)
	d.Del("Length")
	d.Del("Filter")
	d.Del("Type")
	data := g.streamData()
	if !g.mild && g.r.Intn(3) == 0 {
		// decoys: /Length inside a nested dictionary, a string or an array
		switch g.r.Intn(4) {
		case 0:
			d.Set("Decoy", NewDict("Length", Int(g.r.Intn(40))))
		case 1:
			d.Set("Decoy", Str("/Length 3 endstream"))
		case 2:
			d.Set("Decoy", Arr{Name("Length"), Int(g.r.Intn(9))})
		case 3:
			d.Set("Lengthy", Int(g.r.Intn(9)))
		}
	}
	if g.r.Intn(3) == 0 {
		// the writer fills in the real value; only the position matters
		keys := d.Keys
		n := NewDict()
		n.Set("Length", Int(len(data)))
		for _, k := range keys {
			n.Set(k, d.M[k])
		}
		d = n
	}
	if g.r.Intn(3) == 0 {
		data = Zlib(data, 6)
		d.Set("Filter", Name("FlateDecode"))
	}
	return &Stream{D: d, Raw: data}
}

// val generates an indirect object value.
func (g *objGen) val() Obj {
	switch g.r.Intn(5) {
	case 0:
		return g.stream()
	case 1, 2:
		return g.dict(3)
	default:
		return g.obj(3)
	}
}

// spread gives some objects of s numbers far from the others.
func spread(r *rand.Rand, s *Spec) {
	to := map[int]int{}
	used := map[int]bool{}
	max := 0
	var nums []int
	for _, rev := range s.Revs {
		for _, o := range rev.Objs {
			if !used[o.N] {
				nums = append(nums, o.N)
			}
			used[o.N] = true
			if o.N > max {
				max = o.N
			}
		}
		for _, n := range rev.Free {
			if n > max {
				max = n
			}
		}
	}
	for _, n := range nums {
		if r.Intn(3) != 0 {
			continue
		}
		k := max + 1 + r.Intn([]int{50, 300, 70000, 300000, 8000000}[r.Intn(5)])
		if !used[k] {
			used[k] = true
			to[n] = k
		}
	}
	num := func(n int) int {
		if k, ok := to[n]; ok {
			return k
		}
		return n
	}
	var obj func(o Obj) Obj
	dict := func(d *Dict) *Dict {
		out := NewDict()
		for _, k := range d.Keys {
			out.Set(k, obj(d.M[k]))
		}
		return out
	}
	obj = func(o Obj) Obj {
		switch v := o.(type) {
		case Ref:
			return Ref{num(v.N), v.G}
		case Arr:
			out := make(Arr, len(v))
			for i, e := range v {
				out[i] = obj(e)
			}
			return out
		case *Dict:
			return dict(v)
		case *Stream:
			return &Stream{D: dict(v.D), Raw: v.Raw}
		}
		return o
	}
	for i := range s.Revs {
		for j := range s.Revs[i].Objs {
			o := &s.Revs[i].Objs[j]
			o.N, o.O = num(o.N), obj(o.O)
		}
		for j, n := range s.Revs[i].Free {
			s.Revs[i].Free[j] = num(n)
		}
	}
	s.Root.N, s.Info.N = num(s.Root.N), num(s.Info.N)
	s.Sparse, s.Linear = true, false
}

// layout fills in random syntax and layout choices.
func layout(r *rand.Rand, s *Spec) {
	s.R = r
	s.Version = []string{"1.4", "1.5", "1.6", "1.7", "2.0"}[r.Intn(5)]
	s.St = Style{R: r, Comments: r.Intn(4) == 0, Tight: r.Intn(3) == 0, HexStr: []int{0, 30, 100}[r.Intn(3)], EscName: []int{0, 0, 10}[r.Intn(3)], WildWS: r.Intn(3) == 0, OctStr: r.Intn(2) == 0}
	s.CRLFXref = r.Intn(2) == 0
	s.IndirectLen = r.Intn(6) == 0
	s.EOL = []string{"\n", "\n", "\r\n", "\r"}[r.Intn(4)]
	s.CRXref = r.Intn(3) == 0
	s.FreeChain = r.Intn(2) == 0
	s.NoFinalEOL = r.Intn(4) == 0
	s.Stacked = r.Intn(4) == 0
	s.SameLine = r.Intn(4) == 0
	s.Loose = r.Intn(3) == 0
	s.Linear = r.Intn(6) == 0
	s.TinyUpdates = r.Intn(2) == 0
	s.Decoy = r.Intn(4) == 0
	s.BinComment = r.Intn(3) != 0
	s.Junk = r.Intn(3) == 0
	s.Shuffle = r.Intn(2) == 0
	s.SplitSub = r.Intn(2) == 0
	s.Predictor = []int{1, 12, 10, 11, 13, 14, 15}[r.Intn(7)]
	s.PNGType = r.Intn(6) - 1
	if s.PNGType < 0 {
		s.PNGType = -1
	}
	s.ObjStmMax = []int{1, 3, 10, 100}[r.Intn(4)]
	s.Level = []int{1, 6, 9}[r.Intn(3)]
	s.SpacedHdr = r.Intn(3) == 0
}

func sortedInts(m map[int]Placed) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// objValue parses what a GetObject-style call returned: either the bare value
// or "N G obj ... endobj".
func objValue(got []byte) (Obj, error) { return objValueLen(got, -1) }

// objValueLen is objValue for streams whose length is stored elsewhere.
func objValueLen(got []byte, n int) (Obj, error) {
	p := NewP(got, 0)
	p.Len = func(Ref) (int, error) {
		if n < 0 {
			return 0, fmt.Errorf("indirect length")
		}
		return n, nil
	}
	if _, _, o, err := p.Indirect(); err == nil && p.EOF() {
		return o, nil
	}
	return ParseValue(got)
}
