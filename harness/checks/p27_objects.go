package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

var annotTypes = map[string]types.AnnotationType{
	"Link": "link", "Text": "text", "Highlight": "highlight", "Underline": "underline", "StrikeOut": "strikeout", "Squiggly": "squiggly",
	"Circle": "circle", "Square": "square", "Line": "line", "Polygon": "polygon", "PolyLine": "polyline", "Ink": "ink", "Stamp": "stamp",
	"Caret": "caret", "FreeText": "freetext", "Popup": "popup", "FileAttachment": "FileAttachment", "Watermark": "Watermark", "Widget": "Widget",
}

func sortedTypes() []string {
	var l []string
	for k := range annotTypes {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var annotNames = sortedTypes()

func (d *docGen) real() Real { return Real(float64(d.r.Intn(200000)-50000) / 100) }

func (d *docGen) numArr(n int) (Arr, []float64) {
	var a Arr
	var v []float64
	for ; n > 0; n-- {
		x := d.real()
		v = append(v, float64(x))
		if d.r.Intn(12) == 0 {
			a = append(a, d.add(x))
		} else {
			a = append(a, x)
		}
	}
	return a, v
}

// annot makes an annotation and what must be reported of it.
func (d *docGen) annot(page, i int) (*Dict, types.Annotation) {
	r := d.r
	sub := annotNames[r.Intn(len(annotNames))]
	w := types.Annotation{Type: annotTypes[sub], PageNumber: i + 1}
	a := NewDict("Subtype", Name(sub))
	if r.Intn(2) == 0 {
		a.Set("Type", Name("Annot"))
	}
	ra, rv := d.numArr(4)
	a.Set("Rect", d.maybe(ra))
	w.Rect = &types.Rectangle{LowerX: min(rv[0], rv[2]), LowerY: min(rv[1], rv[3]), UpperX: max(rv[0], rv[2]), UpperY: max(rv[1], rv[3])}
	text := func(k string, p *string) {
		if r.Intn(2) == 0 {
			*p = metaText(r)
			a.Set(k, d.maybe(textStr(r, *p)))
		}
	}
	text("Contents", &w.Contents)
	text("T", &w.Title)
	text("Subj", &w.Subject)
	comp := func() (Real, float64) { x := float64(r.Intn(1001)) / 1000; return Real(x), x }
	switch r.Intn(6) {
	case 0:
		a.Set("C", Arr{})
	case 1:
		x, f := comp()
		a.Set("C", d.maybe(Arr{x}))
		w.Color = &types.Color{Space: types.ColorSpaceGray, R: f, G: f, B: f}
	case 2:
		x, f := comp()
		y, g := comp()
		z, h := comp()
		a.Set("C", d.maybe(Arr{x, y, z}))
		w.Color = &types.Color{Space: types.ColorSpaceRGB, R: f, G: g, B: h}
	case 3:
		x, f := comp()
		y, g := comp()
		z, h := comp()
		u, k := comp()
		a.Set("C", Arr{x, y, z, u})
		w.Color = &types.Color{Space: types.ColorSpaceCMYK, C: f, M: g, Y: h, K: k}
	}
	switch r.Intn(5) {
	case 0:
		wd := float64(r.Intn(50)) / 10
		b := Arr{Int(1), Int(2), Real(wd)}
		w.Border = &types.Border{Width: wd}
		if r.Intn(2) == 0 {
			b = append(b, Arr{Int(3), Int(2)})
			w.Border.Dash = []float64{3, 2}
		}
		a.Set("Border", d.maybe(b))
	case 1:
		st := r.Intn(6)
		bs := NewDict()
		w.Border = &types.Border{Width: 1, Style: []string{"solid", "dashed", "beveled", "inset", "underline", "solid"}[st]}
		if st < 5 {
			bs.Set("S", Name("SDBIU"[st:st+1]))
		}
		if r.Intn(2) == 0 {
			wd := float64(r.Intn(50)) / 10
			bs.Set("W", Real(wd))
			w.Border.Width = wd
		}
		if r.Intn(2) == 0 {
			bs.Set("D", Arr{Int(4), Real(1.5)})
			w.Border.Dash = []float64{4, 1.5}
		}
		if r.Intn(3) == 0 {
			a.Set("Border", Arr{Int(0), Int(0), Int(9)}) // BS wins
		}
		a.Set("BS", d.maybe(bs))
	}
	if r.Intn(2) == 0 {
		a.Set("P", d.ref(page))
	}
	if r.Intn(2) == 0 {
		a.Set("F", Int(r.Intn(64)))
	}
	if r.Intn(3) == 0 {
		a.Set("NM", Str("(endobj /Subtype /Link)"))
	}
	switch w.Type {
	case "link":
		arr := Arr{d.ref(d.pages[r.Intn(len(d.pages))]), Name("XYZ"), Null{}, Int(r.Intn(800)), Int(0)}
		switch r.Intn(6) {
		case 0:
			w.URI = uri(r)
			a.Set("A", d.maybe(NewDict("S", Name("URI"), "URI", Str(w.URI))))
		case 1:
			a.Set("Dest", d.maybe(arr))
			w.Destination = string(Ser(arr, Style{}))
		case 2:
			a.Set("A", d.maybe(NewDict("Type", Name("Action"), "S", Name("GoTo"), "D", d.maybe(arr))))
			w.Destination = string(Ser(arr, Style{}))
		case 3:
			w.Destination = "chapter." + fmt.Sprint(r.Intn(30))
			a.Set("Dest", d.maybe(Str(w.Destination)))
		case 4:
			w.Destination = "/Chap#" + fmt.Sprint(r.Intn(30))
			a.Set("Dest", Name(w.Destination[1:]))
		}
	case "text":
		if r.Intn(2) == 0 {
			w.Open = r.Intn(2) == 0
			a.Set("Open", Bool(w.Open))
		}
		if r.Intn(2) == 0 {
			n := []string{"Comment", "Note", "Help"}[r.Intn(3)]
			a.Set("Name", Name(n))
			w.Icon = "/" + n
		}
	case "highlight", "underline", "strikeout", "squiggly":
		q, v := d.numArr(8 * r.Intn(4))
		if len(v) > 0 || r.Intn(2) == 0 {
			if q == nil {
				q = Arr{}
			}
			a.Set("QuadPoints", d.maybe(q))
		}
		for k := 0; k < len(v); k += 2 {
			w.QuadPoints = append(w.QuadPoints, types.Point{X: v[k], Y: v[k+1]})
		}
	}
	return a, w
}

type wantImage struct {
	name string
	num  int
	im   types.Image
	raw  []byte // the stream data as stored in the document
}

type pageObjs struct {
	annots []types.Annotation
	fonts  map[string]types.FontInfo
	fnum   map[string]int
	images map[string]*wantImage
	forms  map[string]bool
}

// imageObj makes an image XObject.
func (d *docGen) imageObj(r *rand.Rand) (Ref, *wantImage) {
	w := &wantImage{}
	w.im.Width, w.im.Height = 1+r.Intn(9), 1+r.Intn(9)
	w.im.BitsPerComponent = []int{1, 2, 4, 8, 16}[r.Intn(5)]
	dict := NewDict("Subtype", Name("Image"), "Width", d.maybe(Int(w.im.Width)), "Height", d.maybe(Int(w.im.Height)), "BitsPerComponent", Int(w.im.BitsPerComponent))
	if r.Intn(2) == 0 {
		dict.Set("Type", Name("XObject"))
	}
	cs := []string{"DeviceGray", "DeviceRGB", "DeviceCMYK"}[r.Intn(3)]
	n := map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[cs]
	w.im.ColorSpace = "/" + cs
	switch r.Intn(5) {
	case 0:
		arr := Arr{Name("Indexed"), Name("DeviceRGB"), Int(3), Str("aaabbbcccddd")}
		dict.Set("ColorSpace", d.maybe(arr))
		w.im.ColorSpace = string(Ser(arr, Style{}))
		n = 1
	case 1:
		dict.Set("ColorSpace", d.maybe(Name(cs)))
	default:
		dict.Set("ColorSpace", Name(cs))
	}
	if r.Intn(4) == 0 {
		dict.Set("Interpolate", Bool(true))
	}
	row := (w.im.Width*n*w.im.BitsPerComponent + 7) / 8
	data := rbytes(r, row*w.im.Height)
	w.im.Data = data
	w.im.Format = ""
	var fl Arr
	parms := Obj(nil)
	switch r.Intn(7) {
	case 0: // no filter
	case 1, 2:
		raw := data
		if r.Intn(2) == 0 {
			bpp := (n*w.im.BitsPerComponent + 7) / 8
			raw = PNGEncode(data, row, bpp, -1, r)
			parms = NewDict("Predictor", Int(10+r.Intn(6)), "Colors", Int(n), "BitsPerComponent", Int(w.im.BitsPerComponent), "Columns", Int(w.im.Width))
		}
		data = Zlib(raw, 6)
		fl = Arr{Name("FlateDecode")}
		w.im.Format = "png"
	case 3:
		data = AHxEncode(data)
		fl = Arr{Name("ASCIIHexDecode")}
		w.im.Format = "unknown"
	case 4:
		codec := []string{"DCTDecode", "JPXDecode", "CCITTFaxDecode"}[r.Intn(3)]
		fl = Arr{Name(codec)}
		w.im.Format = map[string]string{"DCTDecode": "jpeg", "JPXDecode": "jpeg2000", "CCITTFaxDecode": "tiff"}[codec]
	case 5:
		data = RLEncode(data, r)
		fl = Arr{Name("RunLengthDecode")}
		w.im.Format = "unknown"
	case 6:
		codec := []string{"DCTDecode", "FlateDecode"}[r.Intn(2)]
		w.im.Format = map[string]string{"DCTDecode": "jpeg", "FlateDecode": "png"}[codec]
		if codec == "FlateDecode" {
			data = Zlib(data, 6)
		}
		data = A85Encode(data, true)
		fl = Arr{Name("ASCII85Decode"), Name(codec)}
	}
	if len(fl) > 0 {
		var names []string
		for _, f := range fl {
			names = append(names, "/"+string(f.(Name)))
		}
		w.im.Filter = names[0]
		if len(fl) == 1 && r.Intn(2) == 0 {
			dict.Set("Filter", d.maybe(fl[0]))
			if parms != nil {
				dict.Set("DecodeParms", d.maybe(parms))
			}
		} else {
			if len(fl) > 1 {
				w.im.Filter = "[" + strings.Join(names, " ") + "]"
			}
			dict.Set("Filter", d.maybe(fl))
			if parms != nil {
				dict.Set("DecodeParms", Arr{d.maybe(parms)})
			}
		}
	}
	rf := d.add(&Stream{D: dict, Raw: data})
	w.num = rf.N
	return rf, w
}

// fontObj makes a font dictionary and the information that must be reported.
func (d *docGen) fontObj() (*Dict, types.FontInfo) {
	r := d.r
	var w types.FontInfo
	base := []string{"Helvetica", "Times-Bold", "ABCDEF+Garamond-Italic", "Odd Name#1", "Courier"}[r.Intn(5)]
	w.Name = "/" + base
	w.Family, _, _ = strings.Cut(base, "-")
	f := NewDict("Type", Name("Font"), "BaseFont", d.maybe(Name(base)))
	desc := NewDict("Type", Name("FontDescriptor"), "FontName", Name(base), "Flags", Int(32))
	if r.Intn(3) == 0 {
		w.Family = randWords(r, 2)
		desc.Set("FontFamily", Str(w.Family))
	}
	hasDesc := r.Intn(2) == 0
	if hasDesc {
		if r.Intn(2) == 0 {
			desc.Set([]string{"FontFile", "FontFile2", "FontFile3"}[r.Intn(3)], d.stream(NewDict("Length1", Int(5)), []byte("fonts")))
			w.Embedded = true
		}
	} else if desc.Get("FontFamily") != nil {
		hasDesc = true
	}
	if r.Intn(3) == 0 {
		w.Subtype = "/Type0"
		f.Set("Encoding", Name("Identity-H"))
		w.Encoding = "/Identity-H"
		cid := NewDict("Type", Name("Font"), "Subtype", Name("CIDFontType2"), "BaseFont", Name(base))
		if hasDesc {
			cid.Set("FontDescriptor", d.add(desc))
		}
		f.Set("DescendantFonts", d.maybe(Arr{d.maybe(cid)}))
	} else {
		w.Subtype = []string{"/Type1", "/TrueType", "/MMType1"}[r.Intn(3)]
		if hasDesc {
			f.Set("FontDescriptor", d.maybe(desc))
		}
		enc := []string{"WinAnsiEncoding", "MacRomanEncoding"}[r.Intn(2)]
		switch r.Intn(3) {
		case 0:
			f.Set("Encoding", d.maybe(Name(enc)))
			w.Encoding = "/" + enc
		case 1:
			f.Set("Encoding", d.maybe(NewDict("BaseEncoding", Name(enc), "Differences", Arr{Int(1), Name("a")})))
			w.Encoding = "/" + enc
		}
	}
	f.Set("Subtype", Name(w.Subtype[1:]))
	if r.Intn(3) == 0 {
		f.Set("ToUnicode", d.stream(NewDict(), d.cmap(map[int]string{65: "A"}, 1)))
		w.ToUnicode = true
	}
	return f, w
}

// pageObjects gives every page annotations and resources of known meaning.
func (d *docGen) pageObjects() []*pageObjs {
	r := d.r
	var out []*pageObjs
	type sharedImg struct {
		rf Ref
		w  *wantImage
	}
	var shared []sharedImg
	for i, n := range d.pages {
		po := &pageObjs{fonts: map[string]types.FontInfo{}, fnum: map[string]int{}, images: map[string]*wantImage{}, forms: map[string]bool{}}
		pg := d.objs[n].(*Dict)
		if r.Intn(3) != 0 {
			var as Arr
			for k := r.Intn(5); k > 0; k-- {
				a, w := d.annot(n, i)
				if r.Intn(2) == 0 {
					as = append(as, a)
				} else {
					rf := d.add(a)
					as = append(as, rf)
					w.ID = fmt.Sprint(rf.N)
				}
				po.annots = append(po.annots, w)
			}
			if as == nil {
				as = Arr{}
			}
			pg.Set("Annots", d.maybe(as))
		} else {
			pg.Del("Annots")
		}
		res := NewDict()
		fd, xd := NewDict(), NewDict()
		for k := r.Intn(4); k > 0; k-- {
			name := fmt.Sprintf("F%d", k)
			if r.Intn(4) == 0 {
				name = fmt.Sprintf("A Font#%d", k)
			}
			f, w := d.fontObj()
			w.ID = "/" + name
			if r.Intn(2) == 0 {
				rf := d.add(f)
				fd.Set(name, rf)
				po.fnum[name] = rf.N
			} else {
				fd.Set(name, f)
			}
			po.fonts[name] = w
		}
		for k := r.Intn(4); k > 0; k-- {
			name := fmt.Sprintf("Im%d", k)
			if r.Intn(4) == 0 {
				name = fmt.Sprintf("X/%d", k)
			}
			if r.Intn(4) == 0 {
				name = "Fm" + name
				xd.Set(name, d.stream(NewDict("Type", Name("XObject"), "Subtype", Name("Form"), "BBox", Arr{Int(0), Int(0), Int(9), Int(9)}), []byte("q Q")))
				po.forms[name] = true
				continue
			}
			if len(shared) > 0 && r.Intn(3) == 0 {
				s := shared[r.Intn(len(shared))]
				xd.Set(name, s.rf)
				c := *s.w
				c.name = name
				po.images[name] = &c
				continue
			}
			rf, w := d.imageObj(r)
			shared = append(shared, sharedImg{rf, w})
			xd.Set(name, rf)
			c := *w
			c.name = name
			po.images[name] = &c
		}
		if len(fd.Keys) > 0 || r.Intn(2) == 0 {
			res.Set("Font", d.maybe(fd))
		}
		if len(xd.Keys) > 0 || r.Intn(2) == 0 {
			res.Set("XObject", d.maybe(xd))
		}
		pg.Set("Resources", d.maybe(res))
		out = append(out, po)
	}
	return out
}

func sameAnnot(g, w types.Annotation) string {
	if g.ID != w.ID || g.Type != w.Type || g.Contents != w.Contents || g.Title != w.Title || g.Subject != w.Subject || g.PageNumber != w.PageNumber {
		return fmt.Sprintf("is %s %q on page %d (contents %q, title %q, subject %q), want %s %q on page %d (%q, %q, %q)", g.Type, g.ID, g.PageNumber, g.Contents, g.Title, g.Subject, w.Type, w.ID, w.PageNumber, w.Contents, w.Title, w.Subject)
	}
	if g.Rect == nil || *g.Rect != *w.Rect {
		return fmt.Sprintf("has rectangle %+v, want %+v", g.Rect, *w.Rect)
	}
	if (g.Color == nil) != (w.Color == nil) || w.Color != nil && *g.Color != *w.Color {
		return fmt.Sprintf("has color %+v, want %+v", g.Color, w.Color)
	}
	if (g.Border == nil) != (w.Border == nil) {
		return fmt.Sprintf("has border %+v, want %+v", g.Border, w.Border)
	}
	if w.Border != nil && (g.Border.Width != w.Border.Width || g.Border.Style != w.Border.Style || fmt.Sprint(g.Border.Dash) != fmt.Sprint(w.Border.Dash)) {
		return fmt.Sprintf("has border %+v, want %+v", *g.Border, *w.Border)
	}
	if g.URI != w.URI {
		return fmt.Sprintf("has URI %q, want %q", g.URI, w.URI)
	}
	if strings.HasPrefix(w.Destination, "[") {
		a, e1 := ParseValue([]byte(g.Destination))
		b, _ := ParseValue([]byte(w.Destination))
		if e1 != nil || !Equal(a, b) {
			return fmt.Sprintf("has destination %q, want %q", g.Destination, w.Destination)
		}
	} else if g.Destination != w.Destination {
		return fmt.Sprintf("has destination %q, want %q", g.Destination, w.Destination)
	}
	if g.Open != w.Open || g.Icon != w.Icon {
		return fmt.Sprintf("has open %v icon %q, want %v %q", g.Open, g.Icon, w.Open, w.Icon)
	}
	if !reflect.DeepEqual(g.QuadPoints, w.QuadPoints) && len(g.QuadPoints)+len(w.QuadPoints) > 0 {
		return fmt.Sprintf("has quad points %v, want %v", g.QuadPoints, w.QuadPoints)
	}
	return ""
}

func sortedKeysOf[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sameCS(g, w string) bool {
	if !strings.HasPrefix(w, "[") {
		return g == w
	}
	a, e := ParseValue([]byte(g))
	b, _ := ParseValue([]byte(w))
	return e == nil && Equal(a, b)
}

func objectsCase(maxPages int, crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		var want []*pageObjs
		d := genDoc(r, docOpts{pages: 1 + r.Intn(maxPages), crypt: crypt, setup: func(d *docGen) { want = d.pageObjects() }})
		c.Save("in.pdf", d.B.B)
		doc, err := extract.ExtractContent(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContent: %v", err)
			return
		}
		if len(doc.Pages) != len(want) {
			c.Failf("%d pages, want %d", len(doc.Pages), len(want))
			return
		}
		var allAnnots []types.Annotation
		var imgs []*wantImage
		var fonts []types.FontInfo
		seen := map[int]bool{}
		for i, w := range want {
			g := doc.Pages[i]
			if len(g.Annotations) != len(w.annots) {
				c.Failf("page %d: %d annotations, want %d", i+1, len(g.Annotations), len(w.annots))
				return
			}
			for k := range w.annots {
				if e := sameAnnot(g.Annotations[k], w.annots[k]); e != "" {
					c.Failf("page %d: annotation %d %s", i+1, k, e)
					return
				}
				c.Obs("annotation:"+string(w.annots[k].Type), 1)
			}
			allAnnots = append(allAnnots, w.annots...)
			res := g.Resources
			if res == nil {
				c.Failf("page %d: no resources", i+1)
				return
			}
			if !reflect.DeepEqual(res.Fonts, w.fonts) {
				c.Failf("page %d: fonts %+v, want %+v", i+1, res.Fonts, w.fonts)
				return
			}
			for _, n := range sortedKeysOf(w.fonts) {
				if k := w.fnum[n]; k != 0 && seen[k] {
					continue
				} else if k != 0 {
					seen[k] = true
				}
				fonts = append(fonts, w.fonts[n])
				c.Obs("fonts", 1)
			}
			if len(res.Images) != len(w.images) || len(res.XObjects) != len(w.images)+len(w.forms) {
				c.Failf("page %d: %d images and %d XObjects, want %d and %d", i+1, len(res.Images), len(res.XObjects), len(w.images), len(w.images)+len(w.forms))
				return
			}
			for _, n := range sortedKeysOf(w.images) {
				wi := w.images[n]
				gi, x := res.Images[n], res.XObjects[n]
				if gi.ID != "/"+n || gi.Width != wi.im.Width || gi.Height != wi.im.Height || x.ID != "/"+n || x.Subtype != "/Image" || x.Width != float64(wi.im.Width) || x.Height != float64(wi.im.Height) {
					c.Failf("page %d: image resource %s is %+v / %+v, want %dx%d", i+1, n, gi, x, wi.im.Width, wi.im.Height)
					return
				}
				if !seen[wi.num] {
					seen[wi.num] = true
					imgs = append(imgs, wi)
				}
			}
			for n := range w.forms {
				if x := res.XObjects[n]; x.Subtype != "/Form" || x.ID != "/"+n {
					c.Failf("page %d: form XObject %s is %+v", i+1, n, x)
				}
			}
		}
		if len(doc.Annotations) != len(allAnnots) {
			c.Failf("document lists %d annotations, want %d", len(doc.Annotations), len(allAnnots))
			return
		}
		for k := range allAnnots {
			if e := sameAnnot(doc.Annotations[k], allAnnots[k]); e != "" {
				c.Failf("document annotation %d %s", k, e)
				return
			}
		}
		if !reflect.DeepEqual(doc.Fonts, fonts) && len(doc.Fonts)+len(fonts) > 0 {
			c.Failf("document lists fonts %+v, want %+v", doc.Fonts, fonts)
		}
		if len(doc.Images) != len(imgs) {
			c.Failf("document lists %d images, want %d", len(doc.Images), len(imgs))
		}
		all, err := extract.ExtractAllImages(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractAllImages: %v", err)
			return
		}
		checkImages(c, all, imgs)
		c.Distinct(len(allAnnots), len(imgs), len(fonts), len(d.B.B))
		c.Sample("%d pages, %d annotations, %d images, %d fonts %s", len(want), len(allAnnots), len(imgs), len(fonts), d.Enc)
	}
}

func checkImages(c *rt.C, all []types.Image, imgs []*wantImage) {
	if len(all) != len(imgs) {
		c.Failf("ExtractAllImages returned %d images, want %d", len(all), len(imgs))
		return
	}
	for k, w := range imgs {
		g := all[k]
		if g.ID != "/"+w.name || g.Width != w.im.Width || g.Height != w.im.Height || g.BitsPerComponent != w.im.BitsPerComponent || !sameCS(g.ColorSpace, w.im.ColorSpace) || g.Filter != w.im.Filter || g.Format != w.im.Format {
			c.Failf("image %d is %s %dx%d/%d %s filter %q format %q, want /%s %dx%d/%d %s %q %q", k, g.ID, g.Width, g.Height, g.BitsPerComponent, g.ColorSpace, g.Filter, g.Format, w.name, w.im.Width, w.im.Height, w.im.BitsPerComponent, w.im.ColorSpace, w.im.Filter, w.im.Format)
			return
		}
		if !bytes.Equal(g.Data, w.im.Data) {
			c.Failf("image %d (%s, filter %q): %d bytes of data, want %d (equal: false)", k, w.name, w.im.Filter, len(g.Data), len(w.im.Data))
			return
		}
		if b, err := base64.StdEncoding.DecodeString(g.DataBase64); err != nil || !bytes.Equal(b, w.im.Data) {
			c.Failf("image %d: base64 form differs from the data", k)
			return
		}
		c.Obs("image:"+w.im.Filter, 1)
	}
}

// exportCase extracts a document to a directory.
func exportCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		var want []*pageObjs
		pages := 1 + r.Intn(5)
		var scenes []*scene
		d := genDoc(r, docOpts{pages: pages, crypt: crypt, content: func(int) []byte { return nil }, setup: func(d *docGen) {
			want = d.pageObjects()
			scan := r.Intn(3) == 0
			for i, n := range d.pages {
				s := &scene{r: r, fonts: map[string]*fontModel{}, tm: unit, lm: unit, st: Style{R: r}}
				s.gs = gs{ctm: unit, lw: 1, fill: types.Color{Space: types.ColorSpaceGray}, stroke: types.Color{Space: types.ColorSpaceGray}}
				if !scan {
					res := d.deref(d.objs[n].(*Dict).Get("Resources")).(*Dict)
					fd := d.subdict(res, "Font")
					if fd == nil {
						fd = NewDict()
						res.Set("Font", fd)
					}
					fd.Set("T1", NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name("Helvetica"), "Encoding", Name("WinAnsiEncoding")))
					m := &fontModel{size: 1, text: map[int]string{}}
					for k, u := range encTable("WinAnsiEncoding") {
						m.text[k] = string(u)
					}
					m.fix()
					s.fonts["T1"] = m
				}
				s.images = sortedKeysOf(want[i].images)
				s.run(r.Intn(25))
				scenes = append(scenes, s)
				d.objs[n].(*Dict).Set("Contents", d.stream(NewDict(), s.join(s.tok, 1)[0]))
			}
			if r.Intn(2) == 0 {
				d.outlines(c)
			}
		}})
		c.Save("in.pdf", d.B.B)
		top := c.Dir
		dir := filepath.Join(top, "a", "b")
		var out *extract.DirectoryOutput
		var err error
		if r.Intn(2) == 0 {
			p := filepath.Join(top, "in.pdf")
			if err := os.WriteFile(p, d.B.B, 0644); err != nil {
				panic(err)
			}
			out, err = extract.ExtractToDirectoryFromFile(p, d.PW, dir, false)
			os.Remove(p)
		} else {
			out, err = extract.ExtractToDirectory(d.B.B, d.PW, dir, false)
		}
		if err != nil {
			c.Failf("ExtractToDirectory: %v", err)
			return
		}
		doc, err := extract.ExtractContent(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContent: %v", err)
			return
		}
		js, err := os.ReadFile(filepath.Join(dir, "content.json"))
		if err != nil || filepath.Clean(out.StructureFile) != filepath.Join(dir, "content.json") {
			c.Failf("structure file %q: %v", out.StructureFile, err)
			return
		}
		var ec extract.ExtractedContent
		if err := json.Unmarshal(js, &ec); err != nil {
			c.Failf("content.json does not parse: %v", err)
			return
		}
		var imgs []*wantImage
		seen := map[int]bool{}
		texts, chars, refs := 0, 0, 0
		for i, w := range want {
			for _, n := range sortedKeysOf(w.images) {
				if wi := w.images[n]; !seen[wi.num] {
					seen[wi.num] = true
					imgs = append(imgs, wi)
				}
			}
			texts += len(scenes[i].text)
			refs += len(scenes[i].refs)
			for _, t := range scenes[i].text {
				chars += len([]rune(t.Text))
			}
		}
		// the directory holds the structure file and one file per image
		files := map[string]bool{}
		filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				files[p] = true
			}
			return nil
		})
		if len(files) != 1+len(imgs) {
			c.Failf("%d files written, want %d", len(files), 1+len(imgs))
			return
		}
		if len(out.ImageFiles) != len(imgs) || len(ec.Images) != len(imgs) {
			c.Failf("%d image files and %d references reported, want %d", len(out.ImageFiles), len(ec.Images), len(imgs))
			return
		}
		for k, w := range imgs {
			b, err := os.ReadFile(out.ImageFiles[k])
			if err != nil || !bytes.Equal(b, w.im.Data) {
				c.Failf("image file %d (%s, %q) holds %d bytes (%v), want %d", k, w.name, w.im.Filter, len(b), err, len(w.im.Data))
				return
			}
			g := ec.Images[k]
			if filepath.Join(dir, g.Filename) != filepath.Clean(out.ImageFiles[k]) || g.ID != "/"+w.name || g.Width != w.im.Width || g.Height != w.im.Height || g.Size != len(w.im.Data) || g.Filter != w.im.Filter || g.Format != w.im.Format || !sameCS(g.ColorSpace, w.im.ColorSpace) {
				c.Failf("image reference %d is %+v (file %s), want %s %dx%d, %d bytes", k, g, out.ImageFiles[k], w.name, w.im.Width, w.im.Height, len(w.im.Data))
				return
			}
			ext := map[string]string{"jpeg": ".jpg", "png": ".png", "tiff": ".tif", "jpeg2000": ".jp2"}[w.im.Format]
			if ext != "" && filepath.Ext(g.Filename) != ext {
				c.Failf("image %d of format %s is in %s", k, w.im.Format, g.Filename)
			}
			c.Obs("files", 1)
		}
		wantSum := extract.ContentSummary{PageCount: pages, TextCharCount: chars, ImageCount: len(imgs), HasText: texts > 0, HasImages: len(imgs) > 0, HasBookmarks: len(doc.Bookmarks) > 0, IsScannedPDF: len(imgs) > 0 && texts == 0}
		if ec.Summary != wantSum {
			c.Failf("summary %+v, want %+v", ec.Summary, wantSum)
		}
		if out.PageCount != pages || out.TextCharCount != chars || out.ImageCount != len(imgs) || out.HasText != (texts > 0) || out.HasImages != (len(imgs) > 0) || out.IsScannedPDF != wantSum.IsScannedPDF {
			c.Failf("output %+v, want %+v", *out, wantSum)
		}
		if ec.IsEncrypted != (d.Enc != "") || ec.PDFVersion != doc.Metadata.PDFVersion {
			c.Failf("encrypted %v version %q", ec.IsEncrypted, ec.PDFVersion)
		}
		// pages and bookmarks are those of the extracted content
		if len(ec.Pages) != len(doc.Pages) {
			c.Failf("%d pages in content.json, want %d", len(ec.Pages), len(doc.Pages))
			return
		}
		for i, p := range doc.Pages {
			g := ec.Pages[i]
			checkScene(c, scenes[i], types.Page{Text: g.Text, Graphics: g.Graphics, Images: p.Images}, fmt.Sprintf("content.json page %d", i+1))
			var ir []types.ImageRef
			for _, x := range g.ImageRefs {
				ir = append(ir, types.ImageRef(x))
			}
			if !reflect.DeepEqual(ir, p.Images) && len(ir)+len(p.Images) > 0 {
				c.Failf("page %d: image placements in content.json %+v, want %+v", i+1, ir, p.Images)
			}
			if g.PageNumber != i+1 || g.Width != p.Width || g.Height != p.Height || g.Rotation != p.Rotation || !reflect.DeepEqual(g.MediaBox, p.MediaBox) || !reflect.DeepEqual(g.CropBox, p.CropBox) {
				c.Failf("page %d: geometry in content.json differs from the extracted page", i+1)
			}
			if len(g.Annotations) != len(want[i].annots) {
				c.Failf("page %d: %d annotations in content.json, want %d", i+1, len(g.Annotations), len(want[i].annots))
				return
			}
			for k := range g.Annotations {
				if e := sameAnnot(g.Annotations[k], want[i].annots[k]); e != "" {
					c.Failf("page %d: annotation %d in content.json %s", i+1, k, e)
				}
			}
		}
		if a, b := js1(ec.Bookmarks), js1(doc.Bookmarks); a != b && len(ec.Bookmarks)+len(doc.Bookmarks) > 0 {
			c.Failf("bookmarks in content.json differ from the extracted bookmarks")
		}
		c.Distinct(texts, refs, len(imgs), chars)
		c.Sample("%d pages, %d texts, %d placements, %d image files %s", pages, texts, refs, len(imgs), d.Enc)
	}
}

func js1(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// exportErrCase asks for what cannot be exported.
func exportErrCase(c *rt.C) {
	r := c.R
	d := genDoc(r, docOpts{pages: 1, crypt: true})
	top := c.Dir
	dir := filepath.Join(top, "out")
	var err error
	var out *extract.DirectoryOutput
	switch k := r.Intn(4); k {
	case 0:
		out, err = extract.ExtractToDirectory(d.B.B, []byte("no such password"), dir, false)
	case 1:
		out, err = extract.ExtractToDirectory(rbytes(r, r.Intn(400)), nil, dir, false)
	case 2:
		out, err = extract.ExtractToDirectoryFromFile(filepath.Join(top, "missing.pdf"), nil, dir, false)
	case 3:
		// a file is in the way
		os.WriteFile(dir, []byte("keep"), 0644)
		out, err = extract.ExtractToDirectory(d.B.B, d.PW, dir, false)
		if b, _ := os.ReadFile(dir); string(b) != "keep" {
			c.Failf("an existing file was replaced")
		}
	}
	if err == nil || out != nil {
		c.Failf("exported %+v, want an error", out)
	}
	if _, e := os.Stat(filepath.Join(dir, "content.json")); e == nil {
		c.Failf("content.json was written though the export failed")
	}
	c.Obs("refusals", 1)
	c.Distinct(r.Int63())
}

func init() {
	rt.Register(&rt.Check{
		ID: "P27", Title: "Annotations, fonts and images are reported as the file defines them",
		Rule: "distinct_nontrivial = cases with a distinct (annotations, images, fonts, file size), each item compared with the generator's model",
		Families: []rt.Family{
			{Name: "objects", Quick: 900, Thorough: 15000, Run: objectsCase(6, false)},
			{Name: "objects-encrypted", Quick: 150, Thorough: 2500, Run: objectsCase(3, true)},
			{Name: "objects-many", Quick: 20, Thorough: 200, Run: objectsCase(60, false)},
		},
	})
	rt.Register(&rt.Check{
		ID: "P28", Title: "Export to a directory writes everything extracted and nothing else",
		Rule: "distinct_nontrivial = cases with a distinct (texts, placements, image files, characters) whose written files were read back and compared",
		Families: []rt.Family{
			{Name: "export", Quick: 500, Thorough: 8000, Run: exportCase(false)},
			{Name: "export-encrypted", Quick: 100, Thorough: 1500, Run: exportCase(true)},
			{Name: "export-errors", Quick: 60, Thorough: 600, Run: exportErrCase},
		},
	})
}
