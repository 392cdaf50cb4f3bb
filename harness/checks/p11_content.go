package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

type mat [6]float64

var unit = mat{1, 0, 0, 1, 0, 0}

// then returns the matrix applying m first and n next.
func (m mat) then(n mat) mat {
	return mat{
		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
	}
}

func (m mat) at(x, y float64) (float64, float64) {
	return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
}

type gs struct {
	ctm            mat
	lw             float64
	fill, stroke   types.Color
	font           string
	fm             *fontModel
	size           float64
	tc, tw, ts, tl float64
}

type wantGraphic struct {
	kind           string
	x0, y0, x1, y1 float64
	fill, stroke   types.Color
	lw             float64
	raw            mat
}

// scene generates a content stream and, in step, what it draws.
type scene struct {
	r      *rand.Rand
	tok    [][]byte
	gs     gs
	stack  []gs
	tm, lm mat
	fonts  map[string]*fontModel
	images []string
	forms  []string
	text   []types.TextElement
	gfx    []wantGraphic
	refs   []types.ImageRef
	path   []wantGraphic
	st     Style
}

func (s *scene) num() float64 {
	r := s.r
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(1200) - 300)
	case 2:
		return float64(r.Intn(2000)-1000) / 1000
	default:
		return float64(r.Intn(80000)-10000) / 100
	}
}

// fmtNum writes a number in one of the forms the syntax allows.
func (s *scene) fmtNum(x float64) []byte {
	t := strings.TrimRight(strings.TrimRight(fmt.Sprintf("%.4f", x), "0"), ".")
	if t == "" || t == "-" || t == "-0" {
		t = "0"
	}
	switch s.r.Intn(8) {
	case 0:
		t = strings.Replace(t, "0.", ".", 1)
		if strings.Count(t, ".") == 1 && (t[0] == '.' || strings.HasPrefix(t, "-.")) {
			return []byte(t)
		}
		t = strings.TrimRight(strings.TrimRight(fmt.Sprintf("%.4f", x), "0"), ".")
	case 1:
		if !strings.Contains(t, ".") {
			t += "."
		}
	case 2:
		if t[0] != '-' {
			t = "+" + t
		}
	case 3:
		if strings.Contains(t, ".") {
			t += "00"
		} else {
			t += ".0"
		}
	}
	return []byte(t)
}

func (s *scene) op(name string, args ...interface{}) {
	for _, a := range args {
		switch v := a.(type) {
		case float64:
			s.tok = append(s.tok, s.fmtNum(v))
		case []byte:
			s.tok = append(s.tok, v)
		case Obj:
			s.tok = append(s.tok, Ser(v, s.st))
		}
	}
	s.tok = append(s.tok, []byte(name))
}

func (s *scene) nums(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = s.num()
	}
	return v
}

func fl(v []float64) []interface{} {
	var a []interface{}
	for _, x := range v {
		a = append(a, x)
	}
	return a
}

func (s *scene) color(stroke bool) {
	r := s.r
	c := func() float64 { return float64(r.Intn(1001)) / 1000 }
	var col types.Color
	switch r.Intn(3) {
	case 0:
		g := c()
		col = types.Color{Space: types.ColorSpaceGray, R: g, G: g, B: g}
		s.op(pick(stroke, "G", "g"), g)
	case 1:
		col = types.Color{Space: types.ColorSpaceRGB, R: c(), G: c(), B: c()}
		s.op(pick(stroke, "RG", "rg"), col.R, col.G, col.B)
	case 2:
		col = types.Color{Space: types.ColorSpaceCMYK, C: c(), M: c(), Y: c(), K: c()}
		s.op(pick(stroke, "K", "k"), col.C, col.M, col.Y, col.K)
	}
	if stroke {
		s.gs.stroke = col
	} else {
		s.gs.fill = col
	}
}

func pick(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// textState emits an operator allowed both inside and outside text objects.
func (s *scene) textState() {
	r := s.r
	switch r.Intn(6) {
	case 0:
		s.gs.tc = s.num()
		s.op("Tc", s.gs.tc)
	case 1:
		s.gs.tw = s.num()
		s.op("Tw", s.gs.tw)
	case 2:
		s.gs.ts = s.num()
		s.op("Ts", s.gs.ts)
	case 3:
		s.gs.tl = s.num()
		s.op("TL", s.gs.tl)
	case 4:
		s.op([]string{"Tz", "Tr"}[r.Intn(2)], float64(r.Intn(3)))
	default:
		s.setFont()
	}
}

func (s *scene) setFont() {
	if len(s.fonts) == 0 {
		return
	}
	var names []string
	for n := range s.fonts {
		names = append(names, n)
	}
	sortStrings(names)
	n := names[s.r.Intn(len(names))]
	size := float64(1+s.r.Intn(400)) / 10
	s.op("Tf", Obj(Name(n)), size)
	s.gs.font, s.gs.fm, s.gs.size = n, s.fonts[n], size
}

func (s *scene) graphicsOp() {
	r := s.r
	switch r.Intn(12) {
	case 0:
		s.op("q")
		s.stack = append(s.stack, s.gs)
	case 1:
		if len(s.stack) > 0 {
			s.op("Q")
			s.gs = s.stack[len(s.stack)-1]
			s.stack = s.stack[:len(s.stack)-1]
		}
	case 2:
		var m mat
		switch r.Intn(4) {
		case 0:
			m = mat{1, 0, 0, 1, s.num(), s.num()}
		case 1:
			m = mat{float64(r.Intn(40)-20) / 10, 0, 0, float64(r.Intn(40)-20) / 10, 0, 0}
		case 2:
			m = [...]mat{{0, 1, -1, 0, 0, 0}, {-1, 0, 0, -1, 0, 0}, {0.6, 0.8, -0.8, 0.6, 0, 0}}[r.Intn(3)]
		case 3:
			m = mat{float64(r.Intn(40)-20) / 10, float64(r.Intn(40)-20) / 10, float64(r.Intn(40)-20) / 10, float64(r.Intn(40)-20) / 10, s.num(), s.num()}
		}
		s.op("cm", fl(m[:])...)
		s.gs.ctm = m.then(s.gs.ctm)
		for _, x := range s.gs.ctm {
			if math.Abs(x) > 1e7 {
				// keep magnitudes reasonable
				for len(s.stack) > 0 {
					s.op("Q")
					s.gs = s.stack[len(s.stack)-1]
					s.stack = s.stack[:len(s.stack)-1]
				}
				break
			}
		}
	case 3:
		s.gs.lw = math.Abs(s.num())
		s.op("w", s.gs.lw)
	case 4:
		s.color(r.Intn(2) == 0)
	case 5, 6, 7:
		s.drawPath()
	case 8:
		s.textState()
	case 9:
		switch r.Intn(6) {
		case 0:
			s.op("d", Obj(Arr{Int(3), Int(1)}), 0.0)
		case 1:
			s.op("J", 1.0)
		case 2:
			s.op("gs", Obj(Name("GS1")))
		case 3:
			s.op("BDC", Obj(Name("Span")), Obj(NewDict("ActualText", Str("(Tj) 1 0 0 rg"), "MCID", Int(3))))
			s.op("EMC")
		case 4:
			s.op("BMC", Obj(Name("Artifact")))
			s.op("EMC")
		case 5:
			s.op("ri", Obj(Name("Perceptual")))
		}
	case 10:
		if len(s.images) > 0 && r.Intn(4) != 0 {
			n := s.images[r.Intn(len(s.images))]
			s.op("Do", Obj(Name(n)))
			m := s.gs.ctm
			x0, y0, x1, y1 := bboxOf(m, 0, 0, 1, 1)
			s.refs = append(s.refs, types.ImageRef{ImageID: "/" + n, X: m[4], Y: m[5], Width: x1 - x0, Height: y1 - y0, Transform: m})
		} else if len(s.forms) > 0 {
			s.op("Do", Obj(Name(s.forms[r.Intn(len(s.forms))])))
		}
	case 11:
		if r.Intn(3) == 0 {
			// inline image: its data must not be taken for operators
			data := []byte("\x01 (x) Tj 5 5 9 9 re f \xff/Im1 Do q ")
			w := r.Intn(len(data))
			s.tok = append(s.tok, []byte("BI /W "+fmt.Sprint(w+1)+" /H 1 /BPC 8 /CS /G ID "+string(data[:w])+"\nEI"))
		}
	}
}

func bboxOf(m mat, x0, y0, x1, y1 float64) (a, b, c, d float64) {
	a, b, c, d = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, p := range [][2]float64{{x0, y0}, {x0, y1}, {x1, y0}, {x1, y1}} {
		x, y := m.at(p[0], p[1])
		a, b, c, d = math.Min(a, x), math.Min(b, y), math.Max(c, x), math.Max(d, y)
	}
	return
}

func (s *scene) drawPath() {
	r := s.r
	var cx, cy float64
	var path []wantGraphic
	add := func(kind string, x0, y0, x1, y1 float64) {
		g := wantGraphic{kind: kind, fill: s.gs.fill, stroke: s.gs.stroke, lw: s.gs.lw, raw: mat{x0, y0, x1, y1}}
		g.x0, g.y0, g.x1, g.y1 = bboxOf(s.gs.ctm, x0, y0, x1, y1)
		path = append(path, g)
	}
	started := false
	var sx, sy float64
	for n := 1 + r.Intn(5); n > 0; n-- {
		v := s.nums(6)
		switch k := r.Intn(6); {
		case k == 0 || !started && k != 1:
			s.op("m", v[0], v[1])
			cx, cy = v[0], v[1]
			sx, sy = cx, cy
			started = true
		case k == 1:
			s.op("re", v[0], v[1], v[2], v[3])
			add("rectangle", v[0], v[1], v[0]+v[2], v[1]+v[3])
			cx, cy = v[0], v[1]
			sx, sy = cx, cy
			started = true
		case k == 2:
			switch r.Intn(3) {
			case 0:
				s.op("c", fl(v)...)
				cx, cy = v[4], v[5]
			case 1:
				s.op("v", fl(v[:4])...)
				cx, cy = v[2], v[3]
			case 2:
				s.op("y", fl(v[:4])...)
				cx, cy = v[2], v[3]
			}
		case k == 3 && r.Intn(3) == 0:
			s.op("h")
			cx, cy = sx, sy
			// a new subpath must follow
			v := s.nums(2)
			s.op("m", v[0], v[1])
			cx, cy = v[0], v[1]
			sx, sy = cx, cy
		default:
			s.op("l", v[0], v[1])
			add("line", cx, cy, v[0], v[1])
			cx, cy = v[0], v[1]
		}
	}
	if r.Intn(5) == 0 {
		s.op([]string{"W", "W*"}[r.Intn(2)])
	}
	p := []string{"S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "n"}[r.Intn(11)]
	s.op(p)
	if p != "n" {
		s.gfx = append(s.gfx, path...)
	}
}

func (s *scene) showStr() (Obj, string) {
	n := s.r.Intn(12)
	if s.r.Intn(8) == 0 {
		n = 0
	}
	b, t := s.gs.fm.show(s.r, n)
	return Str(b), t
}

func (s *scene) shown(t string) {
	x, y := s.gs.ctm.at(s.tm[4], s.tm[5])
	s.text = append(s.text, types.TextElement{Text: t, X: x, Y: y, FontName: "/" + s.gs.font, FontSize: s.gs.size, CharSpacing: s.gs.tc, WordSpacing: s.gs.tw, TextRise: s.gs.ts, TextMatrix: s.tm})
}

func (s *scene) move(x, y float64) {
	s.lm = mat{1, 0, 0, 1, x, y}.then(s.lm)
	s.tm = s.lm
}

func (s *scene) textObject() {
	r := s.r
	s.op("BT")
	s.tm, s.lm = unit, unit
	if s.gs.fm == nil || r.Intn(2) == 0 {
		s.setFont()
	}
	for n := r.Intn(10); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			s.textState()
		case 1:
			x, y := s.num(), s.num()
			s.op("Td", x, y)
			s.move(x, y)
		case 2:
			x, y := s.num(), s.num()
			s.op("TD", x, y)
			s.gs.tl = -y
			s.move(x, y)
		case 3:
			m := mat{s.num() / 100, s.num() / 100, s.num() / 100, s.num() / 100, s.num(), s.num()}
			for i := range m {
				m[i] = math.Round(m[i]*1e4) / 1e4
			}
			if r.Intn(2) == 0 {
				m = mat{1, 0, 0, 1, m[4], m[5]}
			}
			s.op("Tm", fl(m[:])...)
			s.tm, s.lm = m, m
		case 4:
			s.op("T*")
			s.move(0, -s.gs.tl)
		case 5:
			if s.gs.fm == nil {
				continue
			}
			switch r.Intn(2) {
			case 0:
				o, t := s.showStr()
				s.op("'", o)
				s.move(0, -s.gs.tl)
				s.shown(t)
			case 1:
				o, t := s.showStr()
				s.gs.tw, s.gs.tc = s.num(), s.num()
				s.op("\"", s.gs.tw, s.gs.tc, o)
				s.move(0, -s.gs.tl)
				s.shown(t)
			}
		case 6:
			if r.Intn(3) == 0 {
				s.color(r.Intn(2) == 0)
			}
		default:
			if s.gs.fm == nil {
				continue
			}
			if r.Intn(2) == 0 {
				o, t := s.showStr()
				s.op("Tj", o)
				s.shown(t)
			} else {
				a := Arr{}
				t := ""
				for k := 1 + r.Intn(4); k > 0; k-- {
					if r.Intn(2) == 0 {
						a = append(a, Int(r.Intn(2000)-1000))
					}
					o, x := s.showStr()
					a = append(a, o)
					t += x
					if r.Intn(3) == 0 {
						a = append(a, Real(-12.5))
					}
				}
				s.op("TJ", a)
				s.shown(t)
			}
			// where the next string starts depends on glyph widths, so move
			x, y := s.num(), s.num()
			s.op("Td", x, y)
			s.move(x, y)
		}
	}
	s.op("ET")
}

func (s *scene) run(n int) {
	for ; n > 0; n-- {
		if s.r.Intn(3) == 0 {
			s.textObject()
		} else {
			s.graphicsOp()
		}
	}
}

// join writes the tokens with arbitrary white space between them and cuts
// the result into parts at token boundaries.
func (s *scene) join(tok [][]byte, parts int) [][]byte {
	r := s.r
	out := make([][]byte, 1)
	for i, t := range tok {
		if parts > 1 && r.Intn(len(tok)/parts+1) == 0 {
			out = append(out, nil)
		}
		k := len(out) - 1
		if l := len(out[k]); l > 0 {
			last := out[k][l-1]
			glue := r.Intn(4) == 0 && (strings.IndexByte("()<>[]/", t[0]) >= 0 || strings.IndexByte(")>]", last) >= 0)
			if bytes.HasPrefix(t, []byte("BI")) || i > 0 && bytes.HasPrefix(tok[i-1], []byte("BI")) {
				glue = false
			}
			if !glue {
				ws := []string{" ", "\n", "\r\n", "  ", "\t", " % (comment) Tj 1 0 0 1 5 5 cm\n", "\x00", "\r"}[r.Intn(8)]
				if ws[0] == ' ' && len(ws) > 2 && r.Intn(4) != 0 {
					ws = "\n"
				}
				out[k] = append(out[k], ws...)
			}
		}
		out[k] = append(out[k], t...)
	}
	return out
}

func near9(a, b float64) bool {
	return math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func checkScene(c *rt.C, s *scene, pg types.Page, where string) {
	if len(pg.Text) != len(s.text) {
		c.Failf("%s: %d text elements, want %d", where, len(pg.Text), len(s.text))
	}
	for i := range s.text {
		if i >= len(pg.Text) || c.Failed() {
			break
		}
		g, w := pg.Text[i], s.text[i]
		if g.Text != w.Text {
			c.Failf("%s: text %d is %q, want %q", where, i, g.Text, w.Text)
		}
		if g.FontName != w.FontName || !near9(g.FontSize, w.FontSize) {
			c.Failf("%s: text %d (%q) in %s %g, want %s %g", where, i, w.Text, g.FontName, g.FontSize, w.FontName, w.FontSize)
		}
		if !near9(g.X, w.X) || !near9(g.Y, w.Y) {
			c.Failf("%s: text %d (%q) at %g,%g, want %g,%g", where, i, w.Text, g.X, g.Y, w.X, w.Y)
		}
		for k := range w.TextMatrix {
			if !near9(g.TextMatrix[k], w.TextMatrix[k]) {
				c.Failf("%s: text %d (%q) has text matrix %v, want %v", where, i, w.Text, g.TextMatrix, w.TextMatrix)
				break
			}
		}
		if !near9(g.CharSpacing, w.CharSpacing) || !near9(g.WordSpacing, w.WordSpacing) || !near9(g.TextRise, w.TextRise) {
			c.Failf("%s: text %d has spacing %g/%g rise %g, want %g/%g %g", where, i, g.CharSpacing, g.WordSpacing, g.TextRise, w.CharSpacing, w.WordSpacing, w.TextRise)
		}
		c.Obs("texts", 1)
	}
	if len(pg.Graphics) != len(s.gfx) {
		c.Failf("%s: %d graphics, want %d", where, len(pg.Graphics), len(s.gfx))
	}
	same := func(a *types.Color, b types.Color) bool {
		return a != nil && a.Space == b.Space && near9(a.R, b.R) && near9(a.G, b.G) && near9(a.B, b.B) && near9(a.C, b.C) && near9(a.M, b.M) && near9(a.Y, b.Y) && near9(a.K, b.K)
	}
	for i := range s.gfx {
		if i >= len(pg.Graphics) || c.Failed() {
			break
		}
		g, w := pg.Graphics[i], s.gfx[i]
		if string(g.Type) != w.kind {
			c.Failf("%s: graphic %d is a %s, want %s", where, i, g.Type, w.kind)
			break
		}
		if b := g.BoundingBox; b == nil || !near9(b.LowerX, w.x0) || !near9(b.LowerY, w.y0) || !near9(b.UpperX, w.x1) || !near9(b.UpperY, w.y1) {
			c.Failf("%s: %s %d has bounding box %+v, want [%g %g %g %g]", where, w.kind, i, b, w.x0, w.y0, w.x1, w.y1)
		}
		if !same(g.StrokeColor, w.stroke) || w.kind == "rectangle" && !same(g.FillColor, w.fill) {
			c.Failf("%s: %s %d has colors fill %+v stroke %+v, want %+v %+v", where, w.kind, i, g.FillColor, g.StrokeColor, w.fill, w.stroke)
		}
		if !near9(g.LineWidth, w.lw) {
			c.Failf("%s: %s %d has line width %g, want %g", where, w.kind, i, g.LineWidth, w.lw)
		}
		c.Obs("graphics", 1)
	}
	if len(pg.Images) != len(s.refs) {
		c.Failf("%s: %d images placed, want %d", where, len(pg.Images), len(s.refs))
	}
	for i := range s.refs {
		if i >= len(pg.Images) || c.Failed() {
			break
		}
		g, w := pg.Images[i], s.refs[i]
		ok := g.ImageID == w.ImageID && near9(g.X, w.X) && near9(g.Y, w.Y) && near9(g.Width, w.Width) && near9(g.Height, w.Height)
		for k := range w.Transform {
			ok = ok && near9(g.Transform[k], w.Transform[k])
		}
		if !ok {
			c.Failf("%s: image %d placed as %+v, want %+v", where, i, g, w)
		}
		c.Obs("placements", 1)
	}
}

// pageResources resolves what a page can name, from the model.
func (d *docGen) effective(n int, key string) Obj {
	for n != 0 {
		o := d.objs[n].(*Dict)
		if v := o.Get(key); v != nil {
			return d.deref(v)
		}
		p, ok := o.Get("Parent").(Ref)
		if !ok {
			return nil
		}
		n = p.N
	}
	return nil
}

func (d *docGen) deref(o Obj) Obj {
	for i := 0; i < 10; i++ {
		rf, ok := o.(Ref)
		if !ok {
			return o
		}
		o = d.objs[rf.N]
	}
	return nil
}

func (d *docGen) subdict(o Obj, key string) *Dict {
	x, _ := d.deref(o).(*Dict)
	if x == nil {
		return nil
	}
	y, _ := d.deref(x.Get(key)).(*Dict)
	return y
}

// sceneFor prepares a scene with the resources of page n.
func (d *docGen) sceneFor(n int) *scene {
	s := &scene{r: d.r, fonts: map[string]*fontModel{}, tm: unit, lm: unit, st: Style{R: d.r, HexStr: 30, OctStr: true}}
	s.gs = gs{ctm: unit, lw: 1, fill: types.Color{Space: types.ColorSpaceGray}, stroke: types.Color{Space: types.ColorSpaceGray}}
	res := d.effective(n, "Resources")
	if fd := d.subdict(res, "Font"); fd != nil {
		for _, k := range fd.Keys {
			if f, ok := d.deref(fd.M[k]).(*Dict); ok {
				if m := d.fonts[f]; m != nil {
					s.fonts[k] = m
				}
			}
		}
	}
	if xd := d.subdict(res, "XObject"); xd != nil {
		for _, k := range xd.Keys {
			if x, ok := d.deref(xd.M[k]).(*Stream); ok {
				if x.D.Name("Subtype") == "Image" {
					s.images = append(s.images, k)
				} else {
					s.forms = append(s.forms, k)
				}
			}
		}
	}
	return s
}

func sceneDoc(r *rand.Rand, pages, size int, crypt bool) (*doc, []*scene) {
	var scenes []*scene
	shared := map[string]Ref{}
	seed := r.Int63()
	d := genDoc(r, docOpts{pages: pages, crypt: crypt, fonts: true, content: func(int) []byte { return nil }, setup: func(d *docGen) {
		for _, n := range d.pages {
			s := d.sceneFor(n)
			s.run(r.Intn(size))
			scenes = append(scenes, s)
			pg := d.objs[n].(*Dict)
			if r.Intn(5) == 0 {
				// the same few operations again and again, from one stream
				var a Arr
				from := 0
				cut := func(share bool) {
					tok := s.tok[from:]
					from = len(s.tok)
					key := string(bytes.Join(tok, []byte("\n")))
					x, ok := shared[key]
					if !share || !ok {
						x = d.stream(NewDict(), s.join(tok, 1)[0])
					}
					if share {
						shared[key] = x
					}
					a = append(a, x)
				}
				cut(false)
				for k := 1 + r.Intn(4); k > 0; k-- {
					s.r = rand.New(rand.NewSource(seed))
					s.st.R = s.r
					s.run(1 + s.r.Intn(4))
					s.r, s.st.R = r, r
					cut(true)
					if r.Intn(2) == 0 {
						s.run(r.Intn(4))
						cut(false)
					}
				}
				pg.Set("Contents", d.maybe(a))
				continue
			}
			k := 1
			if r.Intn(3) == 0 {
				k = 1 + r.Intn(5)
			}
			parts := s.join(s.tok, k)
			if len(parts) == 1 && r.Intn(4) != 0 {
				if len(parts[0]) == 0 && r.Intn(2) == 0 {
					continue
				}
				pg.Set("Contents", d.stream(NewDict(), parts[0]))
				continue
			}
			a := Arr{}
			for _, p := range parts {
				a = append(a, d.stream(NewDict(), p))
			}
			pg.Set("Contents", d.maybe(a))
		}
	}})
	return d, scenes
}

func contentCase(maxPages, size int, crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		d, scenes := sceneDoc(r, 1+r.Intn(maxPages), size, crypt)
		c.Save("in.pdf", d.B.B)
		doc, err := extract.ExtractContent(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContent: %v", err)
			return
		}
		if len(doc.Pages) != len(d.Pg) {
			c.Failf("%d pages extracted, want %d", len(doc.Pages), len(d.Pg))
			return
		}
		n := 0
		for i, pg := range doc.Pages {
			w := d.Pg[i]
			where := fmt.Sprintf("page %d", i+1)
			if pg.PageNumber != i+1 {
				c.Failf("%s is numbered %d", where, pg.PageNumber)
			}
			checkBox(c, where+" media box", pg.MediaBox, w.MediaBox)
			checkBox(c, where+" crop box", pg.CropBox, w.CropBox)
			if b := w.MediaBox; !near9(pg.Width, math.Abs(b[2]-b[0])) || !near9(pg.Height, math.Abs(b[3]-b[1])) {
				c.Failf("%s is %g x %g, media box %v", where, pg.Width, pg.Height, b)
			}
			if pg.Rotation != norm360(w.Rotate) {
				c.Failf("%s rotation %d, want %d", where, pg.Rotation, norm360(w.Rotate))
			}
			checkScene(c, scenes[i], pg, where)
			n += len(scenes[i].text) + len(scenes[i].gfx) + len(scenes[i].refs)
			c.Obs("pages", 1)
			if c.Failed() {
				return
			}
		}
		js, err := extract.ExtractContentToJSON(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContentToJSON: %v", err)
			return
		}
		var back types.ContentDocument
		if err := json.Unmarshal([]byte(js), &back); err != nil {
			c.Failf("the JSON form does not parse: %v", err)
			return
		}
		for i := range back.Pages {
			if !reflect.DeepEqual(normText(back.Pages[i].Text), normText(doc.Pages[i].Text)) || len(back.Pages[i].Graphics) != len(doc.Pages[i].Graphics) {
				c.Failf("page %d: the JSON form differs from the extracted content", i+1)
				return
			}
		}
		c.Distinct(n, len(d.B.B), len(doc.Pages))
		c.Sample("%d pages, %d drawn items, %d bytes %s", len(doc.Pages), n, len(d.B.B), d.Enc)
	}
}

func normText(t []types.TextElement) []types.TextElement {
	if len(t) == 0 {
		return nil
	}
	return t
}

func checkBox(c *rt.C, what string, got *types.Rectangle, want []float64) {
	if want == nil {
		if got != nil {
			c.Failf("%s is %+v, want none", what, *got)
		}
		return
	}
	x0, x1 := math.Min(want[0], want[2]), math.Max(want[0], want[2])
	y0, y1 := math.Min(want[1], want[3]), math.Max(want[1], want[3])
	if got == nil || !near9(got.LowerX, x0) || !near9(got.LowerY, y0) || !near9(got.UpperX, x1) || !near9(got.UpperY, y1) {
		c.Failf("%s is %+v, want %v", what, got, want)
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P11", Title: "Extraction reports every page's text, lines and images where they are",
		Rule: "distinct_nontrivial = cases with a distinct (pages, drawn items, file size) whose extracted pages were compared element by element with an interpreter run beside the generator",
		Families: []rt.Family{
			{Name: "content", Quick: 900, Thorough: 15000, Run: contentCase(4, 40, false)},
			{Name: "content-encrypted", Quick: 150, Thorough: 2500, Run: contentCase(2, 30, true)},
			{Name: "content-long", Quick: 40, Thorough: 500, Run: contentCase(2, 1500, false)},
			{Name: "content-many", Quick: 20, Thorough: 200, Run: contentCase(80, 12, false)},
		},
	})
}
