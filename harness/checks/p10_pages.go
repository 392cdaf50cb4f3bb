package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"math/rand"
	"strings"

	"github.com/benedoc-inc/pdfer/core/write"
	. "verifharness/ref"
	"verifharness/rt"
)

var std14 = []string{"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique", "Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic", "Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique", "Symbol", "ZapfDingbats"}

// randNum draws coordinates of every magnitude a page can use.
func randNum(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(2000) - 1000)
	case 2:
		return float64(r.Intn(20000000)-10000000) / 10000
	case 3:
		return r.Float64()*1e-4 - 5e-5
	case 4:
		return (r.Float64() - 0.5) * 2e7
	default:
		return r.Float64() * 800
	}
}

func round4(x float64) float64 { return math.Round(x*1e4) / 1e4 }

func nums(xs ...float64) []Obj {
	var o []Obj
	for _, x := range xs {
		o = append(o, Real(x))
	}
	return o
}

// streamModel mirrors calls on a ContentStream.
type streamModel struct {
	r     *rand.Rand
	cs    *write.ContentStream
	ops   []Op
	fonts []string // resource names usable in Tf
	imgs  []string
}

func (m *streamModel) add(name string, args ...Obj) {
	m.ops = append(m.ops, Op{Name: name, Args: args})
}

func (m *streamModel) text() []byte {
	s := randString(m.r)
	if m.r.Intn(4) == 0 {
		s = append(s, []byte{'\r', '\n', '\\', '(', ')', 0, 8, 12, 0x80, 0xff}[m.r.Intn(10)])
	}
	return s
}

func (m *streamModel) step() {
	r, cs := m.r, m.cs
	v := make([]float64, 6)
	for i := range v {
		v[i] = randNum(r)
	}
	a, b, c, d, e, f := v[0], v[1], v[2], v[3], v[4], v[5]
	switch r.Intn(41) {
	case 0:
		cs.SaveState()
		m.add("q")
	case 1:
		cs.RestoreState()
		m.add("Q")
	case 2:
		cs.SetMatrix(a, b, c, d, e, f)
		m.add("cm", nums(v...)...)
	case 3:
		cs.Translate(a, b)
		m.add("cm", nums(1, 0, 0, 1, a, b)...)
	case 4:
		cs.Scale(a, b)
		m.add("cm", nums(a, 0, 0, b, 0, 0)...)
	case 5:
		cs.SetFillColorRGB(a, b, c)
		m.add("rg", nums(a, b, c)...)
	case 6:
		cs.SetStrokeColorRGB(a, b, c)
		m.add("RG", nums(a, b, c)...)
	case 7:
		cs.SetFillColorGray(a)
		m.add("g", nums(a)...)
	case 8:
		cs.SetStrokeColorGray(a)
		m.add("G", nums(a)...)
	case 9:
		cs.MoveTo(a, b)
		m.add("m", nums(a, b)...)
	case 10:
		cs.LineTo(a, b)
		m.add("l", nums(a, b)...)
	case 11:
		cs.Rectangle(a, b, c, d)
		m.add("re", nums(a, b, c, d)...)
	case 12:
		cs.Stroke()
		m.add("S")
	case 13:
		cs.Fill()
		m.add("f")
	case 14:
		cs.FillStroke()
		m.add("B")
	case 15:
		cs.ClosePath()
		m.add("h")
	case 16:
		cs.ClosePathStroke()
		m.add("s")
	case 17:
		cs.SetLineWidth(a)
		m.add("w", nums(a)...)
	case 18:
		cs.BeginText()
		m.add("BT")
	case 19:
		cs.EndText()
		m.add("ET")
	case 20:
		if len(m.fonts) > 0 {
			n := m.fonts[r.Intn(len(m.fonts))]
			cs.SetFont(n, a)
			m.add("Tf", Name(n[1:]), Real(a))
		}
	case 21:
		cs.SetTextPosition(a, b)
		m.add("Td", nums(a, b)...)
	case 22:
		cs.SetTextMatrix(a, b, c, d, e, f)
		m.add("Tm", nums(v...)...)
	case 23, 24:
		t := m.text()
		cs.ShowText(string(t))
		m.add("Tj", Str(t))
	case 25:
		t := m.text()
		cs.ShowTextNextLine(string(t))
		m.add("'", Str(t))
	case 26, 27:
		var el []interface{}
		arr := Arr{}
		for i, n := 0, r.Intn(7); i < n; i++ {
			switch r.Intn(3) {
			case 0:
				t := m.text()
				el = append(el, string(t))
				arr = append(arr, Str(t))
			case 1:
				k := r.Intn(4000) - 2000
				el = append(el, k)
				arr = append(arr, Int(k))
			default:
				x := randNum(r)
				el = append(el, x)
				arr = append(arr, Real(x))
			}
		}
		cs.ShowTextArray(el)
		m.add("TJ", arr)
	case 28:
		t := m.text()
		h := fmt.Sprintf("%x", t)
		if r.Intn(2) == 0 {
			h = strings.ToUpper(h)
		}
		cs.ShowTextHex(h)
		m.add("Tj", Str(t))
	case 29:
		cs.MoveTextPosition(a, b)
		m.add("TD", nums(a, b)...)
	case 30:
		k := r.Intn(8)
		cs.SetTextRenderMode(k)
		m.add("Tr", Int(k))
	case 31:
		cs.SetTextLeading(a)
		m.add("TL", nums(a)...)
	case 32:
		cs.NextLine()
		m.add("T*")
	case 33:
		cs.SetCharSpacing(a).SetWordSpacing(b).SetTextRise(c)
		m.add("Tc", Real(a))
		m.add("Tw", Real(b))
		m.add("Ts", Real(c))
	case 34:
		if len(m.imgs) > 0 {
			n := m.imgs[r.Intn(len(m.imgs))]
			cs.DrawImage(n)
			m.add("Do", Name(n[1:]))
		}
	case 35:
		if len(m.imgs) > 0 {
			n := m.imgs[r.Intn(len(m.imgs))]
			cs.DrawImageAt(n, a, b, c, d)
			m.add("q")
			m.add("cm", nums(c, 0, 0, d, a, b)...)
			m.add("Do", Name(n[1:]))
			m.add("Q")
		}
	case 36:
		cs.CurveTo(a, b, c, d, e, f)
		m.add("c", nums(v...)...)
	case 37:
		cs.CurveToV(a, b, c, d)
		m.add("v", nums(a, b, c, d)...)
	case 38:
		cs.CurveToY(a, b, c, d)
		m.add("y", nums(a, b, c, d)...)
	case 39:
		k := r.Intn(4)
		da := make([]float64, k)
		arr := Arr{}
		for i := range da {
			da[i] = math.Abs(randNum(r))
			arr = append(arr, Real(da[i]))
		}
		cs.SetLineDash(da, a)
		m.add("d", arr, Real(a))
	case 40:
		raw := []string{"W n", "0 J\n", "1 j\n2 M", "/Perceptual ri", "% comment only\nf*", "b*\n", "n", "f", "W", "\n", "", "S %"}[r.Intn(12)]
		cs.Raw(raw)
		o, _ := ParseContent([]byte(raw))
		m.ops = append(m.ops, o...)
	}
}

func smallPNG(r *rand.Rand) []byte {
	im := image.NewGray(image.Rect(0, 0, 1+r.Intn(5), 1+r.Intn(5)))
	r.Read(im.Pix)
	var b bytes.Buffer
	png.Encode(&b, im)
	return b.Bytes()
}

func smallJPEG(r *rand.Rand) []byte {
	im := image.NewGray(image.Rect(0, 0, 1+r.Intn(20), 1+r.Intn(20)))
	for i := range im.Pix {
		im.Pix[i] = byte(r.Intn(256))
	}
	var b bytes.Buffer
	jpeg.Encode(&b, im, nil)
	return b.Bytes()
}

var _ = color.Gray{}

type pageModel struct {
	sm    *streamModel
	pb    *write.PageBuilder
	size  write.PageSize
	fonts map[string]string // resource -> base font
	imgs  map[string]int    // resource -> object number
	mark  []markModel
}

type markModel struct {
	at   int // index in ops where the watermark's operators belong
	text string
	font string
	img  string
	size float64
	x, y float64
	deg  float64
}

func pagesCase(c *rt.C) {
	r := c.R
	b := write.NewSimplePDFBuilder()
	w := b.Writer()
	mode := []string{"table", "xrefstm", "objstm"}[r.Intn(3)]
	setMode(w, mode, r)
	var pages, done []*pageModel
	type imgObj struct {
		info *write.ImageInfo
	}
	var images []imgObj
	annots := map[int][]int{}
	addAnnot := func() {
		pg := r.Intn(4)
		n := w.AddObject([]byte(fmt.Sprintf("<</Type/Annot/Subtype/Text/Rect[0 0 %d 9]>>", 1+r.Intn(99))))
		b.AddAnnotation(pg, n)
		annots[pg] = append(annots[pg], n)
	}
	newPage := func() {
		sz := []write.PageSize{write.PageSizeLetter, write.PageSizeA4, write.PageSizeLegal, write.PageSizeA3, write.PageSizeA5, {Width: 595.276, Height: 841.89}, {Width: 1 + r.Float64()*3000, Height: 1 + r.Float64()*3000}, {Width: float64(1 + r.Intn(2000)), Height: 0.5}}[r.Intn(8)]
		p := &pageModel{pb: b.AddPage(sz), size: sz, fonts: map[string]string{}, imgs: map[string]int{}}
		p.sm = &streamModel{r: r, cs: p.pb.Content()}
		pages = append(pages, p)
	}
	addFont := func(p *pageModel, base string) string {
		n := p.pb.AddStandardFont(base)
		if !strings.HasPrefix(n, "/") {
			c.Failf("AddStandardFont returned %q", n)
			return ""
		}
		if had, ok := p.fonts[n]; ok && had != base {
			c.Failf("resource %s given to %s and %s on one page", n, had, base)
		}
		for n2, b2 := range p.fonts {
			if b2 == base && n2 != n {
				c.Failf("%s added twice, as %s and %s", base, n2, n)
			}
		}
		p.fonts[n] = base
		p.sm.fonts = append(p.sm.fonts, n)
		return n
	}
	addImage := func(p *pageModel) {
		if len(images) == 0 || r.Intn(2) == 0 {
			name := []string{"/Im1", "Im1", "/Im2", "/Logo", "", "/X", "F1", fmt.Sprintf("Im%d", 1+r.Intn(14)), ""}[r.Intn(9)]
			var info *write.ImageInfo
			var err error
			if r.Intn(2) == 0 {
				info, err = w.AddImage(smallPNG(r), name)
			} else {
				info, err = w.AddJPEGImage(smallJPEG(r), name)
			}
			if err != nil {
				c.Failf("adding an image: %v", err)
				return
			}
			images = append(images, imgObj{info})
		}
		im := images[r.Intn(len(images))].info
		n := p.pb.AddImage(im)
		if !strings.HasPrefix(n, "/") || len(n) < 2 {
			c.Failf("AddImage returned %q", n)
			return
		}
		if had, ok := p.imgs[n]; ok && had != im.ObjectNum {
			c.Failf("resource %s given to images %d and %d on one page", n, had, im.ObjectNum)
		}
		p.imgs[n] = im.ObjectNum
		p.sm.imgs = append(p.sm.imgs, n)
	}
	watermark := func(p *pageModel) {
		before := append([]byte{}, p.pb.Content().Bytes()...)
		mk := markModel{at: len(p.sm.ops), font: "Helvetica-Bold", size: 48}
		o := &write.WatermarkOptions{}
		var err error
		bad := false
		switch r.Intn(6) {
		case 0:
			mk.text = randWords(r, 1+r.Intn(3))
			if r.Intn(2) == 0 {
				mk.text = string(p.sm.text()) + "x"
			}
			fs := float64(r.Intn(3)) * 20
			if fs > 0 {
				mk.size = fs
			}
			deg := float64(r.Intn(720) - 360)
			if mk.deg = deg; deg == 0 {
				mk.deg = 45
			}
			err = p.pb.AddTextWatermark(mk.text, fs, deg)
		case 1:
			bad = true
			if r.Intn(3) == 0 {
				err = p.pb.AddWatermark(nil)
			} else {
				err = p.pb.AddWatermark(o)
			}
		case 2:
			bad = true
			o.ImageName = "/NoSuchImage"
			err = p.pb.AddWatermark(o)
		case 3:
			if len(p.sm.imgs) == 0 {
				return
			}
			mk.img = p.sm.imgs[r.Intn(len(p.sm.imgs))]
			o.ImageName = mk.img
			if r.Intn(2) == 0 {
				o.ImageName = mk.img[1:]
			}
			o.Text = "ignored"
			o.Angle = float64(r.Intn(9)-4) * 30
			mk.deg = o.Angle
			if r.Intn(2) == 0 {
				o.X = 20 + r.Float64()*100
				mk.x = o.X
			}
			err = p.pb.AddWatermark(o)
		default:
			mk.text = string(p.sm.text()) + "w"
			o.Text = mk.text
			if r.Intn(2) == 0 {
				o.FontName = std14[r.Intn(len(std14))]
				mk.font = o.FontName
			}
			if r.Intn(2) == 0 {
				o.FontSize = 1 + r.Float64()*100
				mk.size = o.FontSize
			}
			o.Opacity = float64(r.Intn(3)) / 2
			o.Angle = float64(r.Intn(5)-2) * 37.5
			mk.deg = o.Angle
			if r.Intn(2) == 0 {
				o.Color = &write.Color{R: r.Float64(), G: r.Float64(), B: r.Float64()}
			}
			if r.Intn(2) == 0 {
				o.X, o.Y = 10+r.Float64()*100, 10+r.Float64()*100
				switch r.Intn(4) {
				case 0:
					o.X = 0
				case 1:
					o.Y = 0
				case 2:
					o.X = -o.X
				}
				mk.x, mk.y = o.X, o.Y
			}
			keep := *o
			err = p.pb.AddWatermark(o)
			if *o != keep {
				c.Failf("AddWatermark changed the caller's options")
			}
		}
		if bad {
			if err == nil {
				c.Failf("AddWatermark accepted options without text or with an unknown image")
			}
			if !bytes.Equal(before, p.pb.Content().Bytes()) {
				c.Failf("a refused watermark changed the page content")
			}
			c.Obs("refused_watermarks", 1)
			return
		}
		if err != nil {
			c.Failf("AddWatermark: %v", err)
			return
		}
		after := p.pb.Content().Bytes()
		if !bytes.HasPrefix(after, before) {
			c.Failf("a watermark rewrote earlier page content")
			return
		}
		ops, perr := ParseContent(after[len(before):])
		if perr != nil {
			c.Failf("watermark content: %v", perr)
			return
		}
		if mk.x == 0 && mk.y == 0 {
			mk.x, mk.y = p.size.Width/2, p.size.Height/2
		}
		depth, shows, draws := 0, 0, 0
		inText := false
		font := ""
		ctm := [6]float64{1, 0, 0, 1, 0, 0}
		// where the watermark stands: turned by the angle about its position
		placed := func(x, y float64, scaled bool) {
			px, py := ctm[0]*x+ctm[2]*y+ctm[4], ctm[1]*x+ctm[3]*y+ctm[5]
			if math.Abs(px-mk.x) > 0.5 || math.Abs(py-mk.y) > 0.5 {
				c.Failf("watermark placed at %v %v, want %v %v", px, py, mk.x, mk.y)
			}
			n := math.Hypot(ctm[0], ctm[1])
			sin, cos := math.Sincos(mk.deg * math.Pi / 180)
			if math.Abs(ctm[0]/n-cos) > 1e-3 || math.Abs(ctm[1]/n-sin) > 1e-3 || ctm[0]*ctm[3]-ctm[1]*ctm[2] <= 0 {
				c.Failf("watermark turned by %v %v, want %v degrees", ctm[0]/n, ctm[1]/n, mk.deg)
			}
			if !scaled && math.Abs(n-1) > 1e-3 {
				c.Failf("watermark text scaled by %v", n)
			}
		}
		for i, op := range ops {
			switch op.Name {
			case "q":
				depth++
			case "Q":
				depth--
			case "BT":
				inText = true
			case "ET":
				inText = false
			case "Tf":
				if n, ok := op.Args[0].(Name); ok {
					font = "/" + string(n)
				}
				if x, _ := Num(op.Args[1]); math.Abs(x-mk.size) > 6e-5 {
					c.Failf("watermark font size %v, want %v", x, mk.size)
				}
			case "Tj":
				shows++
				placed(0, 0, false)
				if !inText || mk.img != "" {
					c.Failf("watermark shows text outside a text object or besides an image")
				}
				if s, _ := op.Args[0].(Str); string(s) != mk.text {
					c.Failf("watermark shows %q, want %q", s, mk.text)
				}
			case "Do":
				draws++
				placed(0.5, 0.5, true)
				if n, _ := op.Args[0].(Name); "/"+string(n) != mk.img {
					c.Failf("watermark draws %q, want %q", n, mk.img)
				}
			}
			if depth < 0 || depth == 0 && i != len(ops)-1 {
				c.Failf("watermark is not one q ... Q group: %v", ops)
				return
			}
			if op.Name == "cm" && len(op.Args) == 6 {
				var m [6]float64
				for k := range m {
					m[k], _ = Num(op.Args[k])
				}
				ctm = [6]float64{m[0]*ctm[0] + m[1]*ctm[2], m[0]*ctm[1] + m[1]*ctm[3], m[2]*ctm[0] + m[3]*ctm[2], m[2]*ctm[1] + m[3]*ctm[3], m[4]*ctm[0] + m[5]*ctm[2] + ctm[4], m[4]*ctm[1] + m[5]*ctm[3] + ctm[5]}
			}
		}
		if depth != 0 || inText {
			c.Failf("watermark leaves the graphics state or text object open")
		}
		if mk.img != "" && (draws != 1 || shows != 0) || mk.img == "" && (shows != 1 || draws != 0) {
			c.Failf("watermark: %d text shows, %d image draws", shows, draws)
		}
		if mk.img == "" {
			if had, ok := p.fonts[font]; ok && had != mk.font {
				c.Failf("watermark font %s stands for %s, want %s", font, had, mk.font)
			}
			p.fonts[font] = mk.font
		}
		p.sm.ops = append(p.sm.ops, ops...)
		c.Obs("watermarks", 1)
	}
	check := func(what string, fin bool) {
		out, err := b.Bytes()
		if err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		c.Save("out.pdf", out)
		f, err := OpenStrict(out, nil)
		if err != nil {
			c.Failf("%s: written file is not valid: %v", what, err)
			return
		}
		if d := f.Dangling(); len(d) > 0 {
			c.Failf("%s: dangling references %v", what, d)
		}
		pgs, err := f.Pages()
		if err != nil {
			c.Failf("%s: page tree: %v", what, err)
			return
		}
		if len(pgs) != len(done) {
			c.Failf("%s: %d pages, want %d", what, len(pgs), len(done))
			return
		}
		cats := 0
		for _, n := range f.Nums() {
			if o, err := f.Get(n); err == nil {
				if d, ok := o.(*Dict); ok && d.Name("Type") == "Catalog" {
					cats++
				}
			}
		}
		if cats != 1 {
			c.Failf("%s: %d catalogs", what, cats)
		}
		for i, p := range done {
			pg := pgs[i]
			if pg.Num != b.Pages()[i] {
				c.Failf("%s: page %d is object %d, Pages() says %d", what, i+1, pg.Num, b.Pages()[i])
			}
			mb := pg.MediaBox
			if mb[0] != 0 || mb[1] != 0 || math.Abs(mb[2]-p.size.Width) > 1e-9 || math.Abs(mb[3]-p.size.Height) > 1e-9 {
				c.Failf("%s: page %d MediaBox %v, want %v", what, i+1, mb, p.size)
			}
			data, err := f.Contents(pg)
			if err != nil {
				c.Failf("%s: page %d content: %v", what, i+1, err)
				return
			}
			ops, err := ParseContent(data)
			if err != nil {
				c.Failf("%s: page %d content: %v", what, i+1, err)
				return
			}
			for k := 0; k < len(ops) || k < len(p.sm.ops); k++ {
				if k >= len(ops) || k >= len(p.sm.ops) {
					c.Failf("%s: page %d has %d operators, want %d", what, i+1, len(ops), len(p.sm.ops))
					return
				}
				if d := OpDiff(ops[k], p.sm.ops[k], 5.1e-5); d != "" {
					c.Failf("%s: page %d operator %d: %s", what, i+1, k, d)
					return
				}
			}
			c.Obs("operators", len(ops))
			an, _ := f.Resolve(f.Dict(Ref{pg.Num, 0}).Get("Annots")).(Arr)
			var have []int
			for _, o := range an {
				if rf, ok := o.(Ref); ok {
					have = append(have, rf.N)
				}
			}
			if len(have) != len(an) || fmt.Sprint(have) != fmt.Sprint(annots[i]) {
				c.Failf("%s: page %d has annotations %v, want %v", what, i+1, Short(an), annots[i])
			}
			c.Obs("annotations", len(an))
			fd := f.Dict(pg.Resources.Get("Font"))
			for n, base := range p.fonts {
				d := f.Dict(fd.Get(n[1:]))
				if d == nil || d.Name("Type") != "Font" || d.Name("BaseFont") != base {
					c.Failf("%s: page %d font %s is %s, want %s", what, i+1, n, Short(d), base)
				}
				c.Obs("font_resources", 1)
			}
			bases := map[string]bool{}
			var fontKeys []string
			if fd != nil {
				fontKeys = fd.Keys
			}
			for _, k := range fontKeys {
				base := f.Dict(fd.Get(k)).Name("BaseFont")
				if bases[string(base)] {
					c.Failf("%s: page %d has %s twice", what, i+1, base)
				}
				bases[string(base)] = true
			}
			xd := f.Dict(pg.Resources.Get("XObject"))
			for n, num := range p.imgs {
				if ref, _ := xd.Get(n[1:]).(Ref); ref.N != num {
					c.Failf("%s: page %d image %s is %v, want object %d", what, i+1, n, xd.Get(n[1:]), num)
				}
				c.Obs("image_resources", 1)
			}
		}
		c.Obs("pages", len(done))
		c.Obs("files", 1)
		if fin {
			c.Distinct(len(out), len(done), mode)
			c.Sample("%s: %d pages, %d images, %d bytes", mode, len(done), len(images), len(out))
		}
	}
	finalize := func() {
		if len(pages) == 0 {
			return
		}
		i := r.Intn(len(pages))
		p := pages[i]
		pages = append(pages[:i], pages[i+1:]...)
		b.FinalizePage(p.pb)
		done = append(done, p)
	}
	steps := 5 + r.Intn(120)
	if r.Intn(10) == 0 {
		steps *= 8
	}
	newPage()
	for i := 0; i < steps && !c.Failed(); i++ {
		if len(pages) == 0 {
			newPage()
		}
		p := pages[r.Intn(len(pages))]
		switch k := r.Intn(40); {
		case k == 0:
			newPage()
		case k == 1:
			finalize()
		case k <= 5:
			base := std14[r.Intn(len(std14))]
			addFont(p, base)
		case k <= 8:
			addImage(p)
		case k == 9:
			watermark(p)
			if r.Intn(4) == 0 {
				addAnnot()
			}
		case k == 10 && r.Intn(6) == 0:
			check(fmt.Sprintf("after %d steps", i), false)
		default:
			p.sm.step()
		}
	}
	for r.Intn(4) > 0 && len(pages) > 0 || len(done) == 0 && len(pages) > 0 {
		finalize()
	}
	if c.Failed() {
		return
	}
	check("final", true)
	if r.Intn(2) == 0 && !c.Failed() {
		for r.Intn(2) == 0 {
			addAnnot()
		}
		check("second write", true)
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P10", Title: "Built pages hold exactly what was drawn on them",
		Rule: "distinct_nontrivial = cases with a distinct set of (file size, page count, mode) files whose pages were compared operator by operator and resource by resource with the model of the calls",
		Families: []rt.Family{
			{Name: "pages", Quick: 2500, Thorough: 60000, Run: pagesCase},
		},
	})
}
