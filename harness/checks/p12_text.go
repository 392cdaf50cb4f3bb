package checks

import (
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	. "verifharness/ref"
	"verifharness/rt"
)

// showAll shows every code of every font of the scene: alone, all together,
// and in groups through each text-showing operator.
func (s *scene) showAll() {
	r := s.r
	var names []string
	for n := range s.fonts {
		names = append(names, n)
	}
	sortStrings(names)
	s.op("BT")
	step := func() {
		s.op("Td", 0.0, -1.0)
		s.move(0, -1)
	}
	for _, n := range names {
		f := s.fonts[n]
		s.op("Tf", Obj(Name(n)), 12.0)
		s.gs.font, s.gs.fm, s.gs.size = n, f, 12
		enc := func(codes []int) (Str, string) {
			var b []byte
			t := ""
			for _, c := range codes {
				if f.size == 2 {
					b = append(b, byte(c>>8))
				}
				b = append(b, byte(c))
				t += f.text[c]
			}
			return Str(b), t
		}
		for i := range f.codes {
			o, t := enc(f.codes[i : i+1])
			s.op("Tj", Obj(o))
			s.shown(t)
			step()
		}
		perm := make([]int, len(f.codes))
		for i, j := range r.Perm(len(perm)) {
			perm[i] = f.codes[j]
		}
		o, t := enc(perm)
		s.op("Tj", Obj(o))
		s.shown(t)
		step()
		for i := 0; i < len(perm); {
			j := i + 1 + r.Intn(9)
			if j > len(perm) {
				j = len(perm)
			}
			switch r.Intn(3) {
			case 0:
				o, t := enc(perm[i:j])
				s.op("'", Obj(o))
				s.move(0, -s.gs.tl)
				s.shown(t)
			case 1:
				o, t := enc(perm[i:j])
				s.gs.tw, s.gs.tc = 1, 2
				s.op("\"", 1.0, 2.0, Obj(o))
				s.move(0, -s.gs.tl)
				s.shown(t)
			case 2:
				a := Arr{}
				t := ""
				for k := i; k < j; k++ {
					o, x := enc(perm[k : k+1])
					if r.Intn(2) == 0 {
						a = append(a, Int(r.Intn(4000)-2000))
					}
					a = append(a, o)
					t += x
				}
				s.op("TJ", Obj(a))
				s.shown(t)
			}
			step()
			i = j
		}
	}
	s.op("ET")
}

func textCase(fonts func(d *docGen, i int) (*Dict, *fontModel), max int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		var sc *scene
		kinds := map[string]bool{}
		d := genDoc(r, docOpts{pages: 1, mild: true, content: func(int) []byte { return nil }, setup: func(d *docGen) {
			s := &scene{r: r, fonts: map[string]*fontModel{}, tm: unit, lm: unit, st: Style{R: r, HexStr: r.Intn(101), OctStr: true}}
			s.gs = gs{ctm: unit, lw: 1}
			fd := NewDict()
			for i := 1 + r.Intn(max); i > 0; i-- {
				f, m := fonts(d, i)
				n := fmt.Sprintf("F%d", i)
				if r.Intn(3) == 0 {
					n = fmt.Sprintf("Font+%d_x", i)
				}
				fd.Set(n, d.maybe(f))
				s.fonts[n] = m
				kinds[m.kind] = true
				c.Obs("font:"+m.kind, 1)
				c.Obs("codes", len(m.codes))
			}
			pg := d.objs[d.pages[0]].(*Dict)
			pg.Set("Resources", NewDict("Font", d.maybe(fd)))
			s.showAll()
			a := Arr{}
			for _, p := range s.join(s.tok, 1 + r.Intn(3)) {
				a = append(a, d.stream(NewDict(), p))
			}
			pg.Set("Contents", a)
			sc = s
		}})
		c.Save("in.pdf", d.B.B)
		doc, err := extract.ExtractContent(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContent: %v", err)
			return
		}
		if len(doc.Pages) != 1 {
			c.Failf("%d pages extracted, want 1", len(doc.Pages))
			return
		}
		checkScene(c, sc, doc.Pages[0], "page 1")
		c.Distinct(len(sc.text), fmt.Sprint(kinds), len(d.B.B))
		c.Sample("%d strings shown in %d fonts (%v)", len(sc.text), len(sc.fonts), kinds)
	}
}

// tableFont makes a simple font with one of the named encodings and nothing else.
func tableFont(enc string) func(d *docGen, i int) (*Dict, *fontModel) {
	return func(d *docGen, i int) (*Dict, *fontModel) {
		m := &fontModel{size: 1, kind: enc, text: map[int]string{}}
		f := NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name("Helvetica"))
		if i%2 == 0 {
			f.Set("Encoding", d.maybe(Name(enc)))
		} else {
			f.Set("Encoding", d.maybe(NewDict("Type", Name("Encoding"), "BaseEncoding", Name(enc))))
		}
		for c, u := range encTable(enc) {
			m.text[c] = string(u)
		}
		m.fix()
		return f, m
	}
}

// namesFont covers the glyph names in turn.
func namesFont(d *docGen, i int) (*Dict, *fontModel) {
	m := &fontModel{size: 1, kind: "glyph names", text: map[int]string{}}
	diff := Arr{Int(0)}
	p := d.r.Perm(len(glyphNames))
	for c := 0; c < 256; c++ {
		n := glyphNames[p[c%len(p)]]
		if c == 128 && d.r.Intn(2) == 0 {
			diff = append(diff, Int(128))
		}
		diff = append(diff, Name(n))
		m.text[c] = string(glyphName[n])
	}
	m.fix()
	return NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name("ABCDEF+Any"), "Encoding", NewDict("Differences", diff)), m
}

func richCodeFont(d *docGen, i int) (*Dict, *fontModel) { return d.richFont() }

// decoderCase drives the decoder without a document around it.
func decoderCase(c *rt.C) {
	r := c.R
	d := &docGen{r: r}
	fd := extract.NewFontDecoder("F")
	size := 1 + r.Intn(2)
	want := map[int]string{}
	enc := ""
	if size == 1 {
		enc = []string{"WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding"}[r.Intn(3)]
		fd.SetBaseEncoding(pick(r.Intn(2) == 0, "/", "") + enc)
		for k, u := range encTable(enc) {
			want[k] = string(u)
		}
		if r.Intn(2) == 0 {
			var b strings.Builder
			code := r.Intn(200)
			fmt.Fprintf(&b, "%d", code)
			for n := 1 + r.Intn(30); n > 0 && code < 256; n-- {
				if r.Intn(8) == 0 {
					code = r.Intn(256)
					fmt.Fprintf(&b, " %d", code)
				}
				g := glyphNames[r.Intn(len(glyphNames))]
				b.WriteString([]string{"/", " /", "\n/"}[r.Intn(3)] + g)
				want[code] = string(glyphName[g])
				code++
			}
			s := b.String()
			if r.Intn(2) == 0 {
				s = "[" + s + "]"
			}
			fd.ParseDifferencesArray(s)
		}
	}
	tu := map[int]string{}
	if size == 2 || r.Intn(2) == 0 {
		max := 255
		start := r.Intn(200)
		if size == 2 {
			max = 0xffff
			start = r.Intn(0xfe00)
		}
		d.mapRun(tu, start, 1+r.Intn(60), max)
		if size == 2 {
			tu[0x100+r.Intn(0xfe00)] = "q"
		}
		fd.ParseToUnicodeCMap(string(d.cmap(tu, size)))
		for k, t := range tu {
			want[k] = t
		}
	}
	m := &fontModel{size: size, text: want}
	m.fix()
	for k := 0; k < 20; k++ {
		b, t := m.show(r, r.Intn(20))
		if got := fd.Decode(b); got != t {
			c.Failf("%s, %d ToUnicode mappings: Decode(%x) = %q, want %q", enc, len(tu), b, got, t)
			return
		}
		hex := fmt.Sprintf([]string{"%x", "%X", "<%x>", "<%X>"}[r.Intn(4)], b)
		if got := fd.DecodeHex(hex); got != t {
			c.Failf("%s, %d ToUnicode mappings: DecodeHex(%s) = %q, want %q", enc, len(tu), hex, got, t)
			return
		}
		c.Obs("decoded", 2)
	}
	c.Distinct(enc, len(tu), len(want), r.Int63())
}

func init() {
	rt.Register(&rt.Check{
		ID: "P12", Title: "Text is decoded to the characters its font says",
		Rule: "distinct_nontrivial = cases with a distinct (strings shown, font kinds, file size) in which every code of every font was shown and compared with the font's model",
		Families: []rt.Family{
			{Name: "fonts", Quick: 500, Thorough: 12000, Run: textCase(richCodeFont, 4)},
			{Name: "WinAnsi", Quick: 12, Thorough: 60, Run: textCase(tableFont("WinAnsiEncoding"), 2)},
			{Name: "MacRoman", Quick: 12, Thorough: 60, Run: textCase(tableFont("MacRomanEncoding"), 2)},
			{Name: "Standard", Quick: 12, Thorough: 60, Run: textCase(tableFont("StandardEncoding"), 2)},
			{Name: "names", Quick: 20, Thorough: 200, Run: textCase(namesFont, 2)},
			{Name: "decoder", Quick: 1500, Thorough: 40000, Run: decoderCase},
		},
	})
}
