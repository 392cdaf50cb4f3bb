package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/resources/font"
	. "verifharness/ref"
	"verifharness/rt"
)

// ttfModel is a generated TrueType font with its ground truth.
type ttfModel struct {
	b         []byte
	end       int // of the last table
	cmap      map[rune]int
	adv       []int // advance per glyph, font units
	upem      int
	asc, desc int
	capH, xH  int
	os2       int // version of the OS/2 table, -1 for none
	bbox      [4]int
	cff       bool // OpenType with CFF outlines
	italic    float64
	upos, uth int
	fixed     bool
	ps, full  string
	family    string
	name      string // the PostScript name, or else the full name, or else the family
	format    int
}

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func randFontName(r *rand.Rand) string {
	s := ""
	for i := 1 + r.Intn(12); i > 0; i-- {
		s += string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"[r.Intn(63)])
	}
	return s
}

// cmap4 and cmap12 encode the map with segments cut and represented at random.
func cmap4(r *rand.Rand, m map[rune]int) []byte {
	var cs []int
	for c := range m {
		if c < 0xffff {
			cs = append(cs, int(c))
		}
	}
	sort.Ints(cs)
	type seg struct{ a, b int }
	var segs []seg
	for i := 0; i < len(cs); {
		j := i + 1
		for j < len(cs) && r.Intn(12) > 0 && (cs[j] == cs[j-1]+1 || cs[j] < cs[j-1]+4 && r.Intn(2) == 0) {
			j++
		}
		segs = append(segs, seg{cs[i], cs[j-1]})
		i = j
	}
	segs = append(segs, seg{0xffff, 0xffff})
	n := len(segs)
	var end, start, delta, off, ids []byte
	for i, s := range segs {
		end = append(end, be16(s.b)...)
		start = append(start, be16(s.a)...)
		if s.a == 0xffff {
			delta = append(delta, be16(1)...)
			off = append(off, be16(0)...)
			continue
		}
		d := m[rune(s.a)] - s.a
		same := true
		for c := s.a; c <= s.b; c++ {
			if g, ok := m[rune(c)]; !ok || g-c != d {
				same = false
			}
		}
		if same && r.Intn(4) > 0 {
			delta = append(delta, be16(d&0xffff)...)
			off = append(off, be16(0)...)
			continue
		}
		d = 0
		if r.Intn(2) == 0 {
			d = r.Intn(65536)
			for c := s.a; c <= s.b; c++ {
				// a stored 0 means "missing", so no glyph may be stored as 0
				if g, ok := m[rune(c)]; ok && (g-d)&0xffff == 0 {
					d = 0
				}
			}
		}
		delta = append(delta, be16(d)...)
		off = append(off, be16(2*(n-i)+len(ids))...)
		for c := s.a; c <= s.b; c++ {
			v := 0
			if g, ok := m[rune(c)]; ok {
				v = (g - d) & 0xffff
			}
			ids = append(ids, be16(v)...)
		}
	}
	body := bytes.Join([][]byte{end, {0, 0}, start, delta, off, ids}, nil)
	e := 0
	for 1<<(e+1) <= n {
		e++
	}
	out := bytes.Join([][]byte{be16(4), be16(14 + len(body)), be16(0), be16(2 * n), be16(2 << e), be16(e), be16(2*n - 2<<e)}, nil)
	return append(out, body...)
}

func cmap12(r *rand.Rand, m map[rune]int) []byte {
	var cs []int
	for c := range m {
		cs = append(cs, int(c))
	}
	sort.Ints(cs)
	var g []byte
	n := 0
	for i := 0; i < len(cs); {
		j := i + 1
		for j < len(cs) && r.Intn(12) > 0 && cs[j] == cs[j-1]+1 && m[rune(cs[j])] == m[rune(cs[j-1])]+1 {
			j++
		}
		g = append(g, be32(cs[i])...)
		g = append(g, be32(cs[j-1])...)
		g = append(g, be32(m[rune(cs[i])])...)
		n++
		i = j
	}
	return bytes.Join([][]byte{be16(12), be16(0), be32(16 + len(g)), be32(0), be32(n), g}, nil)
}

func randTTF(r *rand.Rand) *ttfModel {
	t := &ttfModel{cmap: map[rune]int{}, upem: []int{1000, 2048, 1024, 512, 64, 16384, 16 + r.Intn(16000)}[r.Intn(7)]}
	nGlyphs := 2 + r.Intn(300)
	if r.Intn(8) == 0 {
		nGlyphs = 17000 + r.Intn(3000) // glyph*4 needs more than 16 bits
	}
	// characters: runs of codes mapping to runs of glyphs, with gaps
	for k := 1 + r.Intn(6); k > 0; k-- {
		c := []int{0x20, 0x41, 0x61, 0xa1, 0xc0, 0x2010, 0x20ac, 0x3b1, 0x4e00, 0x152, 0x30, r.Intn(0xd000) + 32}[r.Intn(12)] + r.Intn(10)
		g := 1 + r.Intn(nGlyphs)
		for n := r.Intn(60); n >= 0; n-- {
			if r.Intn(6) == 0 {
				c += r.Intn(4)
			}
			if r.Intn(6) == 0 {
				g = 1 + r.Intn(nGlyphs)
			}
			if g < nGlyphs && c < 0xfff0 && (c < 0xd800 || c > 0xdfff) {
				t.cmap[rune(c)] = g
			}
			c++
			g++
		}
	}
	for code := 0x20; code < 256; code++ { // most of WinAnsi outside the ASCII letters
		if c, ok := winTable[code]; ok && r.Intn(10) == 0 {
			t.cmap[c] = 1 + r.Intn(nGlyphs-1)
		}
	}
	t.format = 4
	if r.Intn(2) == 0 {
		t.format = 12
		for n := r.Intn(8); n > 0; n-- {
			t.cmap[rune(0x1f600+r.Intn(50))] = 1 + r.Intn(nGlyphs-1)
		}
	}
	if len(t.cmap) == 0 {
		t.cmap['x'] = 1
	}
	nMetrics := nGlyphs
	if r.Intn(2) == 0 {
		nMetrics = 1 + r.Intn(nGlyphs) // the rest repeats the last advance
	}
	for i := 0; i < nGlyphs; i++ {
		if i >= nMetrics {
			t.adv = append(t.adv, t.adv[nMetrics-1])
			continue
		}
		t.adv = append(t.adv, r.Intn(2*t.upem))
	}
	t.asc, t.desc = r.Intn(2*t.upem), -r.Intn(t.upem)
	head := make([]byte, 54)
	copy(head, be32(0x10000))
	copy(head[12:], be32(0x5f0f3cf5))
	copy(head[18:], be16(t.upem))
	t.bbox = [4]int{-r.Intn(t.upem), -r.Intn(t.upem), r.Intn(2 * t.upem), r.Intn(2 * t.upem)}
	for i, v := range t.bbox {
		copy(head[36+2*i:], be16(v&0xffff))
	}
	hhea := make([]byte, 36)
	copy(hhea, be32(0x10000))
	copy(hhea[4:], be16(t.asc))
	copy(hhea[6:], be16(t.desc&0xffff))
	copy(hhea[34:], be16(nMetrics))
	maxp := append(be32(0x10000), be16(nGlyphs)...)
	maxp = append(maxp, make([]byte, 26)...)
	var hmtx []byte
	for i := 0; i < nMetrics; i++ {
		hmtx = append(hmtx, be16(t.adv[i])...)
		hmtx = append(hmtx, be16(r.Intn(65536))...)
	}
	for i := nMetrics; i < nGlyphs; i++ {
		hmtx = append(hmtx, be16(r.Intn(65536))...) // left side bearings only
	}

	// cmap: the Unicode subtable among decoys for other platforms
	type sub struct {
		p, e int
		b    []byte
	}
	var subs []sub
	uni := cmap4(r, t.cmap)
	ue := 1
	if t.format == 12 {
		uni, ue = cmap12(r, t.cmap), 10
	}
	only0 := t.format == 4 && r.Intn(4) == 0
	if only0 {
		subs = append(subs, sub{0, 3, uni})
	} else {
		subs = append(subs, sub{3, ue, uni})
		if ue == 10 && r.Intn(2) == 0 {
			bmp := map[rune]int{}
			for k, v := range t.cmap {
				if k < 0x10000 {
					bmp[k] = v
				}
			}
			if len(bmp) > 0 {
				subs = append(subs, sub{3, 1, cmap4(r, bmp)})
			}
		}
	}
	if r.Intn(2) == 0 { // Macintosh Roman, format 0
		b := append(bytes.Join([][]byte{be16(0), be16(262), be16(0)}, nil), make([]byte, 256)...)
		for i := 6; i < len(b); i++ {
			b[i] = byte(r.Intn(256))
		}
		subs = append(subs, sub{1, 0, b})
	}
	sort.SliceStable(subs, func(i, j int) bool {
		return subs[i].p < subs[j].p || subs[i].p == subs[j].p && subs[i].e < subs[j].e
	})
	cm := append(be16(0), be16(len(subs))...)
	at := 4 + 8*len(subs)
	var body []byte
	for _, s := range subs {
		cm = append(cm, be16(s.p)...)
		cm = append(cm, be16(s.e)...)
		cm = append(cm, be32(at+len(body))...)
		body = append(body, s.b...)
	}
	cm = append(cm, body...)

	// name records, in UTF-16 on both Unicode platforms
	t.family = randFontName(r)
	if r.Intn(3) == 0 {
		t.family += " " + []string{"Ünïcode", "日本", "Sans 😀"}[r.Intn(3)]
	}
	t.full = t.family + " Regular"
	t.ps = randFontName(r)
	plat := []int{3, 0}[r.Intn(2)]
	type rec struct {
		p, id int
		s     []byte
	}
	u16 := func(s string) []byte {
		var b []byte
		for _, u := range utf16.Encode([]rune(s)) {
			b = append(b, be16(int(u))...)
		}
		return b
	}
	var recs []rec
	if r.Intn(2) == 0 {
		recs = append(recs, rec{1, 6, []byte("MacName")}, rec{1, 1, []byte("MacFamily")})
	}
	recs = append(recs, rec{plat, 0, u16(strings.Repeat("Copyright ", r.Intn(2500)))},
		rec{plat, 1, u16(t.family)}, rec{plat, 2, u16("Regular")})
	t.name = t.family
	if r.Intn(6) == 0 {
		t.full = ""
	} else {
		t.name = t.full
		recs = append(recs, rec{plat, 4, u16(t.full)})
	}
	if r.Intn(6) == 0 {
		t.ps = ""
	} else {
		t.name = t.ps
		recs = append(recs, rec{plat, 6, u16(t.ps)})
	}
	nm := bytes.Join([][]byte{be16(0), be16(len(recs)), be16(6 + 12*len(recs))}, nil)
	var strs []byte
	for _, x := range recs {
		nm = append(nm, bytes.Join([][]byte{be16(x.p), be16(1), be16(0x409), be16(x.id), be16(len(x.s)), be16(len(strs))}, nil)...)
		strs = append(strs, x.s...)
	}
	nm = append(nm, strs...)

	post := make([]byte, 32)
	copy(post, be32(0x30000))
	if r.Intn(2) == 0 {
		t.italic = -float64(r.Intn(40*4)) / 4
	}
	binary.BigEndian.PutUint32(post[4:], uint32(int32(t.italic*65536)))
	t.upos, t.uth = -r.Intn(300), r.Intn(200)
	copy(post[8:], be16(t.upos&0xffff))
	copy(post[10:], be16(t.uth))
	if r.Intn(2) == 0 {
		t.fixed = true
		post[15] = 1
	}
	tabs := map[string][]byte{"head": head, "hhea": hhea, "maxp": maxp, "hmtx": hmtx, "cmap": cm, "name": nm, "post": post,
		"loca": make([]byte, 2*(nGlyphs+1)), "glyf": {}}
	if t.cff = r.Intn(4) == 0; t.cff {
		delete(tabs, "loca")
		delete(tabs, "glyf")
		cff := make([]byte, r.Intn(400))
		r.Read(cff)
		tabs["CFF "] = append([]byte{1, 0, 4, 2}, cff...)
		tabs["maxp"] = append(be32(0x5000), be16(nGlyphs)...)
	}
	t.os2 = -1
	if r.Intn(4) > 0 {
		t.os2 = r.Intn(6)
		os2 := make([]byte, []int{78, 86, 96, 96, 96, 100}[t.os2])
		r.Read(os2)
		copy(os2, be16(t.os2))
		if t.os2 >= 2 {
			t.capH, t.xH = r.Intn(t.upem), r.Intn(t.upem)
			copy(os2[86:], be16(t.xH))
			copy(os2[88:], be16(t.capH))
		}
		tabs["OS/2"] = os2
	}
	var tags []string
	for k := range tabs {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	version := be32(0x10000)
	if t.cff {
		version = []byte("OTTO")
	}
	out := bytes.Join([][]byte{version, be16(len(tags)), be16(128), be16(3), be16(16*len(tags) - 128)}, nil)
	off := 12 + 16*len(tags)
	var data []byte
	for _, k := range tags {
		for len(data)%4 != 0 {
			data = append(data, 0)
		}
		out = append(out, k...)
		out = append(out, be32(r.Intn(1<<31))...)
		out = append(out, be32(off+len(data))...)
		out = append(out, be32(len(tabs[k]))...)
		data = append(data, tabs[k]...)
	}
	t.b = append(out, data...)
	t.end = len(t.b)
	return t
}

var winTable = encTable("WinAnsiEncoding")

func (t *ttfModel) gid(c rune) int { return t.cmap[c] }

func (t *ttfModel) width(c rune) float64 {
	return float64(t.adv[t.gid(c)]) * 1000 / float64(t.upem)
}

// toUnicodeOf reads the single-byte mappings of a ToUnicode CMap.
func toUnicodeOf(b []byte) (map[int]string, error) {
	ops, err := ParseContent(b)
	if err != nil {
		return nil, err
	}
	m := map[int]string{}
	space, n := 0, -1
	for _, op := range ops {
		switch op.Name {
		case "beginbfchar":
			if len(op.Args) != 1 {
				return nil, fmt.Errorf("beginbfchar without a count")
			}
			v, _ := Num(op.Args[0])
			n = int(v)
			if n > 100 {
				return nil, fmt.Errorf("block of %d mappings, the limit is 100", n)
			}
		case "endbfchar":
			if len(op.Args) != 2*n {
				return nil, fmt.Errorf("%d values in a block of %d mappings", len(op.Args), n)
			}
			for i := 0; i < len(op.Args); i += 2 {
				k, ok1 := op.Args[i].(Str)
				v, ok2 := op.Args[i+1].(Str)
				if !ok1 || !ok2 || len(k) != 1 || len(v)%2 != 0 {
					return nil, fmt.Errorf("mapping %s %s", Short(op.Args[i]), Short(op.Args[i+1]))
				}
				var u []uint16
				for j := 0; j < len(v); j += 2 {
					u = append(u, uint16(v[j])<<8|uint16(v[j+1]))
				}
				m[int(k[0])] = string(utf16.Decode(u))
			}
		case "endcodespacerange":
			space++
			if len(op.Args) != 2 || len(op.Args[0].(Str)) != 1 {
				return nil, fmt.Errorf("code space of %d values", len(op.Args))
			}
		case "endbfrange":
			return nil, fmt.Errorf("unexpected range")
		}
	}
	if space != 1 {
		return nil, fmt.Errorf("%d code space ranges", space)
	}
	return m, nil
}

// checkOther: data of another kind is no font.
func checkOther(c *rt.C, t *ttfModel) {
	b := append([]byte{}, t.b...)
	switch c.R.Intn(4) {
	case 0:
		copy(b, []string{"wOFF", "wOF2", "%!PS", "\x80\x01\x00\x00", "\x00\x02\x00\x00", "\x01\x00\x00\x00", "OTTB", "\x00\x01\x00\x01"}[c.R.Intn(8)])
	case 1:
		b[c.R.Intn(4)] ^= 1 << uint(c.R.Intn(8))
	case 2:
		b = b[:c.R.Intn(12)]
	case 3:
		// a directory or a table cut off
		b = b[:12+c.R.Intn(len(b)-12)]
		if _, err := font.ParseTTF(b); err == nil && len(b) < t.end {
			c.Failf("ParseTTF takes a font cut off after %d of %d bytes", len(b), t.end)
		}
		return
	}
	if _, err := font.ParseTTF(b); err == nil {
		c.Failf("ParseTTF takes data starting with %q for a font", b[:min(len(b), 4)])
	}
	if _, err := font.NewFont("F1", b); err == nil {
		c.Failf("NewFont takes data starting with %q for a font", b[:min(len(b), 4)])
	}
	c.Obs("other data refused", 1)
}

func checkFontAPI(c *rt.C, t *ttfModel, f *font.Font, sub []rune) {
	if c.R.Intn(3) == 0 {
		checkOther(c, t)
	}
	p, err := font.ParseTTF(t.b)
	if err != nil {
		c.Failf("ParseTTF: %v", err)
		return
	}
	if int(p.UnitsPerEm) != t.upem || int(p.NumGlyphs) != len(t.adv) || int(p.Ascent) != t.asc || int(p.Descent) != t.desc ||
		p.IsFixedPitch != t.fixed || math.Abs(float64(p.ItalicAngle)-t.italic) > 1e-3 || int(p.UnderlinePosition) != t.upos || int(p.UnderlineThickness) != t.uth {
		c.Failf("parsed metrics em %d glyphs %d asc %d desc %d fixed %v italic %v underline %d/%d, font has em %d glyphs %d asc %d desc %d fixed %v italic %v underline %d/%d",
			p.UnitsPerEm, p.NumGlyphs, p.Ascent, p.Descent, p.IsFixedPitch, p.ItalicAngle, p.UnderlinePosition, p.UnderlineThickness,
			t.upem, len(t.adv), t.asc, t.desc, t.fixed, t.italic, t.upos, t.uth)
	}
	if t.os2 >= 2 && (int(p.CapHeight) != t.capH || int(p.XHeight) != t.xH) {
		c.Failf("parsed cap height %d and x height %d, the font says %d and %d", p.CapHeight, p.XHeight, t.capH, t.xH)
	}
	if p.FontName != t.name || p.PostScriptName != t.ps || p.FullName != t.full || p.FamilyName != t.family {
		c.Failf("parsed names %q %q %q %q, font has %q, %q, %q, %q", p.FontName, p.PostScriptName, p.FullName, p.FamilyName, t.name, t.ps, t.full, t.family)
	}
	want := map[int]bool{0: true}
	for _, u := range sub {
		if g, ok := t.cmap[u]; ok {
			want[g] = true
		}
	}
	var ws []int
	for g := range want {
		ws = append(ws, g)
	}
	sort.Ints(ws)
	gl, err := f.GetSubsetGlyphs()
	if err != nil {
		c.Failf("GetSubsetGlyphs: %v", err)
		return
	}
	var gs []int
	for _, g := range gl {
		gs = append(gs, int(g))
	}
	if fmt.Sprint(gs) != fmt.Sprint(ws) {
		c.Failf("glyphs of %q are %v, want %v (cmap format %d)", string(sub), gs, ws, t.format)
		return
	}
	wd, err := f.GetWidths()
	if err != nil || len(wd) != len(ws) {
		c.Failf("GetWidths: %d widths for %d glyphs, %v", len(wd), len(ws), err)
		return
	}
	for i, g := range ws {
		if wd[i] != t.adv[g] {
			c.Failf("width of glyph %d is %d, the font says %d", g, wd[i], t.adv[g])
		}
	}
	c.Obs("glyphs", len(ws))
}

// checkFontDict compares an embedded font dictionary with the font.
func checkFontDict(c *rt.C, f *File, fo Obj, t *ttfModel, codes []int, encT map[int]rune) {
	d := f.Dict(fo)
	kind, file, other := "TrueType", "FontFile2", "FontFile3"
	if t.cff {
		kind, file, other = "Type1", "FontFile3", "FontFile2"
	}
	if d.Name("Type") != "Font" || d.Name("Subtype") != kind || !strings.HasSuffix(d.Name("BaseFont"), "+"+t.name) && d.Name("BaseFont") != t.name {
		c.Failf("font dictionary %s, font %q", Short(d), t.name)
		return
	}
	desc := f.Dict(d.Get("FontDescriptor"))
	if desc == nil {
		c.Failf("no font descriptor in %s", Short(d))
		return
	}
	// the encoding decides what a code shows
	enc := d.Name("Encoding")
	if enc != "WinAnsiEncoding" {
		c.Failf("the font has encoding %s: its codes do not stand for the text shown", Short(d.Get("Encoding")))
		return
	}
	if desc.Int("Flags", 0)&36 != 32 || (desc.Int("Flags", 0)&1 != 0) != t.fixed || (desc.Int("Flags", 0)&64 != 0) != (t.italic != 0) {
		c.Failf("font flags %d; fixed pitch %v, italic angle %v", desc.Int("Flags", 0), t.fixed, t.italic)
	}
	ws := fnums(f, d.Get("Widths"))
	first, last := d.Int("FirstChar", -1), d.Int("LastChar", -1)
	if first < 0 || last > 255 || len(ws) != last-first+1 {
		c.Failf("%d widths for codes %d to %d", len(ws), first, last)
		return
	}
	near := func(got, want float64) bool { return math.Abs(got-want) <= 1 }
	for _, code := range codes {
		if code < first || code > last {
			c.Failf("code %d has no width: %d to %d", code, first, last)
			continue
		}
		if w := t.width(encT[code]); !near(ws[code-first], w) {
			c.Failf("code %d (%q, glyph %d) has width %v, the font says %d of %d: %.1f", code, encT[code], t.gid(encT[code]), ws[code-first], t.adv[t.gid(encT[code])], t.upem, w)
		}
		c.Obs("widths", 1)
	}
	dims := map[string]int{"Ascent": t.asc, "Descent": t.desc}
	if t.os2 >= 2 {
		dims["CapHeight"] = t.capH
	}
	for k, v := range dims {
		got, _ := Num(desc.Get(k))
		if !near(got, float64(v)*1000/float64(t.upem)) {
			c.Failf("%s %v in the descriptor, the font says %d of %d", k, got, v, t.upem)
		}
	}
	box := fnums(f, desc.Get("FontBBox"))
	for i, v := range t.bbox {
		if len(box) != 4 || !near(box[i], float64(v)*1000/float64(t.upem)) {
			c.Failf("font box %v in the descriptor, the font says %v of %d", box, t.bbox, t.upem)
			break
		}
	}
	if a, _ := Num(desc.Get("ItalicAngle")); math.Abs(a-t.italic) > 1e-3 {
		c.Failf("italic angle %v, the font says %v", a, t.italic)
	}
	if desc.Name("Type") != "FontDescriptor" || !strings.HasSuffix(desc.Name("FontName"), t.name) {
		c.Failf("descriptor %s", Short(desc))
	}
	ff, ok := f.Resolve(desc.Get(file)).(*Stream)
	if !ok || desc.Get(other) != nil || t.cff && ff.D.Name("Subtype") != "OpenType" {
		c.Failf("no font program in %s, or of the wrong kind", file)
		return
	}
	prog, err := DecodeStream(ff)
	if err != nil || !bytes.Equal(prog, t.b) {
		c.Failf("embedded font program has %d bytes, the font %d (%v)", len(prog), len(t.b), err)
	}
	if !t.cff && ff.D.Int("Length1", -1) != len(t.b) {
		c.Failf("Length1 %d for a font of %d bytes", ff.D.Int("Length1", -1), len(t.b))
	}
	tu, ok := f.Resolve(d.Get("ToUnicode")).(*Stream)
	if !ok {
		c.Failf("no ToUnicode map")
		return
	}
	tb, err := DecodeStream(tu)
	if err != nil {
		c.Failf("ToUnicode: %v", err)
		return
	}
	if si := f.Dict(tu.D.Get("CIDSystemInfo")); si != nil {
		_, a := si.Get("Registry").(Str)
		_, b := si.Get("Ordering").(Str)
		if !a || !b {
			c.Failf("CIDSystemInfo %s does not hold strings", Short(si))
		}
	}
	m, err := toUnicodeOf(tb)
	if err != nil {
		c.Failf("ToUnicode map: %v\n%s", err, tb)
		return
	}
	for _, code := range codes {
		if m[code] != string(encT[code]) {
			c.Failf("ToUnicode maps code %d to %q, want %q", code, m[code], encT[code])
		}
	}
	c.Obs("to_unicode", len(codes))
}

func fontCase(c *rt.C) {
	r := c.R
	encT := encTable("WinAnsiEncoding")
	b := write.NewSimplePDFBuilder()
	if r.Intn(2) == 0 {
		setMode(b.Writer(), []string{"table", "xrefstm", "objstm"}[r.Intn(3)], r)
	}
	type use struct {
		t     *ttfModel
		name  string
		codes []int
		text  []string
		page  int
	}
	var uses []*use
	var perPage []int
	for pg, n := 0, 1+r.Intn(2); pg < n; pg++ {
		p := b.AddPage(write.PageSize{Width: 600, Height: 800})
		k := 1 + r.Intn(3)
		total := 0
		var std string
		if r.Intn(3) == 0 {
			std = p.AddStandardFont("Helvetica")
		}
		for i := 0; i < k; i++ {
			t := randTTF(r)
			c.Save(fmt.Sprintf("font%d_%d.ttf", pg, i), t.b)
			keep := append([]byte{}, t.b...)
			f, err := font.NewFont("Font", t.b)
			if err != nil {
				c.Failf("NewFont: %v", err)
				return
			}
			// the subset: characters of WinAnsi, in the font or not, and others
			var codes []int
			for code := range encT {
				codes = append(codes, code)
			}
			sort.Ints(codes)
			max := 1 + r.Intn(20)
			if r.Intn(5) == 0 {
				max = len(codes)
			}
			var pick []int
			for _, j := range r.Perm(len(codes))[:max] {
				if _, ok := t.cmap[encT[codes[j]]]; ok || r.Intn(6) == 0 {
					pick = append(pick, codes[j])
				}
			}
			u := &use{t: t, codes: pick, page: pg}
			var sub []rune
			for _, code := range pick {
				sub = append(sub, encT[code])
			}
			if r.Intn(3) == 0 {
				for x := range t.cmap {
					if x > 0x2fff {
						sub = append(sub, x)
					}
				}
				sort.Slice(sub, func(i, j int) bool { return sub[i] < sub[j] })
				sub = sub[:min(len(sub), 300)]
			}
			if r.Intn(2) == 0 {
				f.AddString(string(sub))
				f.AddString(string(sub))
				for _, x := range sub {
					f.AddRune(x)
				}
			} else {
				for _, x := range sub {
					f.AddRune(x)
				}
				f.AddString(string(sub))
			}
			if len(f.Subset) != len(sub) {
				c.Failf("subset of %d characters after adding %d", len(f.Subset), len(sub))
			}
			checkFontAPI(c, t, f, sub)
			if c.Failed() {
				return
			}
			if u.name, err = p.AddEmbeddedFont(f); err != nil {
				c.Failf("AddEmbeddedFont: %v", err)
				return
			}
			if !bytes.Equal(keep, t.b) {
				c.Failf("embedding changed the caller's font data")
			}
			for _, o := range uses {
				if o.page == pg && o.name == u.name {
					c.Failf("two fonts of one page share the name %s", u.name)
				}
			}
			if u.name == std {
				c.Failf("embedded font took the name %s of a standard font", std)
			}
			for len(pick) > 0 {
				j := 1 + r.Intn(len(pick))
				var raw []byte
				s := ""
				for _, code := range pick[:j] {
					raw = append(raw, byte(code))
					s += string(encT[code])
				}
				p.Content().BeginText().SetFont(u.name, 10).SetTextPosition(20, 20+float64(r.Intn(700))).ShowText(string(raw)).EndText()
				u.text = append(u.text, s)
				total++
				pick = pick[j:]
			}
			uses = append(uses, u)
		}
		perPage = append(perPage, total)
		b.FinalizePage(p)
	}
	out, err := b.Bytes()
	if err != nil {
		c.Failf("Bytes: %v", err)
		return
	}
	c.Save("out.pdf", out)
	f, err := OpenStrict(out, nil)
	if err != nil {
		c.Failf("written file is not valid: %v", err)
		return
	}
	pages, err := f.Pages()
	if err != nil || len(pages) != len(perPage) {
		c.Failf("%d pages, %v", len(pages), err)
		return
	}
	for _, u := range uses {
		fonts := f.Dict(f.Dict(pages[u.page].D.Get("Resources")).Get("Font"))
		fo := fonts.Get(strings.TrimPrefix(u.name, "/"))
		if fo == nil {
			c.Failf("font %s is missing from page %d", u.name, u.page+1)
			return
		}
		checkFontDict(c, f, fo, u.t, u.codes, encT)
		if c.Failed() {
			return
		}
	}
	doc, err := extract.ExtractContent(out, nil, false)
	if err != nil || len(doc.Pages) != len(perPage) {
		c.Failf("ExtractContent: %v", err)
		return
	}
	for pg := range doc.Pages {
		var want []string
		for _, u := range uses {
			if u.page == pg {
				want = append(want, u.text...)
			}
		}
		var got []string
		for _, e := range doc.Pages[pg].Text {
			got = append(got, e.Text)
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Failf("page %d shows %q, extracted %q", pg+1, want, got)
		}
		c.Obs("strings", len(want))
	}
	c.Obs("fonts", len(uses))
	c.Distinct(len(out), len(uses), fmt.Sprint(perPage))
	c.Sample("%d fonts on %d pages, %d bytes", len(uses), len(pages), len(out))
}

func init() {
	rt.Register(&rt.Check{
		ID: "P14", Title: "Embedded fonts show, measure and give back the text",
		Rule: "distinct_nontrivial = cases with a distinct (file size, fonts, strings per page) whose font dictionaries were compared code by code with the generated fonts",
		Families: []rt.Family{
			{Name: "fonts", Quick: 700, Thorough: 12000, Run: fontCase},
		},
	})
}

func fnums(f *File, o Obj) []float64 {
	a, _ := f.Resolve(o).(Arr)
	var out []float64
	for _, e := range a {
		v, ok := Num(f.Resolve(e))
		if !ok {
			return nil
		}
		out = append(out, v)
	}
	return out
}
