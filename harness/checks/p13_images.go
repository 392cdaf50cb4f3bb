package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"math/rand"
	"sync"

	"github.com/benedoc-inc/pdfer/core/write"
	. "verifharness/ref"
	"verifharness/rt"
)

// px is the pixel the generator put into an image, straight (not
// premultiplied) at 16 bits.
type px struct{ r, g, b, a uint16 }

// srcImage is an image with its ground truth.
type srcImage struct {
	kind  string
	img   image.Image
	w, h  int
	at    func(x, y int) px
	gray  bool
	alpha bool // some pixel is not opaque
}

func randSrc(r *rand.Rand, maxSide int) *srcImage {
	w, h := 1+r.Intn(maxSide), 1+r.Intn(maxSide)
	s := &srcImage{w: w, h: h}
	rect := image.Rect(0, 0, w, h)
	pal := func(translucent bool) color.Palette {
		var p color.Palette
		for i, n := 0, 2+r.Intn(254); i < n; i++ {
			a := uint8(255)
			if translucent && r.Intn(3) == 0 {
				a = uint8(r.Intn(256))
			}
			p = append(p, color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), a})
		}
		return p
	}
	alphaKind := r.Intn(3)
	a8 := func() uint8 {
		switch alphaKind {
		case 0:
			return 255
		case 1:
			return uint8(r.Intn(2) * 255)
		}
		return uint8(r.Intn(256))
	}
	switch r.Intn(7) {
	case 0:
		s.kind, s.gray = "gray8", true
		im := image.NewGray(rect)
		r.Read(im.Pix)
		s.img = im
		s.at = func(x, y int) px { v := uint16(im.GrayAt(x, y).Y) * 257; return px{v, v, v, 0xffff} }
	case 1:
		s.kind, s.gray = "gray16", true
		im := image.NewGray16(rect)
		r.Read(im.Pix)
		s.img = im
		s.at = func(x, y int) px { v := im.Gray16At(x, y).Y; return px{v, v, v, 0xffff} }
	case 2, 3:
		s.kind = "nrgba"
		im := image.NewNRGBA(rect)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				im.SetNRGBA(x, y, color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), a8()})
			}
		}
		s.img = im
		s.at = func(x, y int) px {
			c := im.NRGBAAt(x, y)
			return px{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(c.A) * 257}
		}
	case 4:
		s.kind = "nrgba64"
		im := image.NewNRGBA64(rect)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				a := uint16(a8()) * 257
				if alphaKind == 2 {
					a = uint16(r.Intn(65536))
				}
				im.SetNRGBA64(x, y, color.NRGBA64{uint16(r.Intn(65536)), uint16(r.Intn(65536)), uint16(r.Intn(65536)), a})
			}
		}
		s.img = im
		s.at = func(x, y int) px { c := im.NRGBA64At(x, y); return px{c.R, c.G, c.B, c.A} }
	case 5:
		s.kind = "paletted"
		p := pal(r.Intn(2) == 0)
		im := image.NewPaletted(rect, p)
		for i := range im.Pix {
			im.Pix[i] = uint8(r.Intn(len(p)))
		}
		s.img = im
		s.at = func(x, y int) px {
			c := p[im.ColorIndexAt(x, y)].(color.NRGBA)
			return px{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(c.A) * 257}
		}
	default:
		s.kind = "rgb-opaque"
		im := image.NewRGBA(rect)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				im.SetRGBA(x, y, color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255})
			}
		}
		s.img = im
		s.at = func(x, y int) px {
			c := im.RGBAAt(x, y)
			return px{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, 0xffff}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if s.at(x, y).a != 0xffff {
				s.alpha = true
			}
		}
	}
	return s
}

// A format of the caller's: decoders may return images whose bounds do not
// start at the origin (GIF frames do).
var ownImages sync.Map

func init() {
	image.RegisterFormat("vimg", "VIMG", func(rd io.Reader) (image.Image, error) {
		b, err := io.ReadAll(rd)
		if v, ok := ownImages.Load(string(b)); ok {
			return v.(image.Image), nil
		}
		return nil, fmt.Errorf("no such image %q %v", b, err)
	}, func(io.Reader) (image.Config, error) { return image.Config{}, nil })
}

// encodeOwn moves the image and encodes it in the format of the caller's.
func encodeOwn(r *rand.Rand, s *srcImage) []byte {
	d := image.Pt(r.Intn(2000)-1000, r.Intn(40)-20)
	switch im := s.img.(type) {
	case *image.Gray:
		im.Rect = im.Rect.Add(d)
	case *image.Gray16:
		im.Rect = im.Rect.Add(d)
	case *image.NRGBA:
		im.Rect = im.Rect.Add(d)
	case *image.NRGBA64:
		im.Rect = im.Rect.Add(d)
	case *image.Paletted:
		im.Rect = im.Rect.Add(d)
	case *image.RGBA:
		im.Rect = im.Rect.Add(d)
	}
	at := s.at
	s.at = func(x, y int) px { return at(x+d.X, y+d.Y) }
	k := fmt.Sprintf("VIMG%x%x", r.Uint64(), r.Uint64())
	ownImages.Store(k, s.img)
	return []byte(k)
}

// encodeSrc encodes losslessly; the ground truth is what was put in.
func encodeSrc(r *rand.Rand, s *srcImage) []byte {
	if r.Intn(6) == 0 {
		return encodeOwn(r, s)
	}
	var b bytes.Buffer
	e := png.Encoder{CompressionLevel: []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed}[r.Intn(3)]}
	e.Encode(&b, s.img)
	return b.Bytes()
}

func close8(got byte, want uint16, tol int) bool {
	d := int(got) - int(want>>8)
	if d < 0 {
		d = -d
	}
	return d <= tol
}

// checkImageObj compares an image XObject with the ground truth.
func checkImageObj(c *rt.C, f *File, n int, s *srcImage, info *write.ImageInfo) {
	o, err := f.Get(n)
	if err != nil {
		c.Failf("image object %d: %v", n, err)
		return
	}
	st, ok := o.(*Stream)
	if !ok || st.D.Name("Subtype") != "Image" || st.D.Name("Type") != "XObject" {
		c.Failf("object %d is not an image XObject: %s", n, Short(o))
		return
	}
	if st.D.Int("Width", -1) != s.w || st.D.Int("Height", -1) != s.h || info.Width != s.w || info.Height != s.h {
		c.Failf("%s image: %sx%s, want %dx%d", s.kind, Short(st.D.Get("Width")), Short(st.D.Get("Height")), s.w, s.h)
		return
	}
	cs := st.D.Name("ColorSpace")
	if "/"+cs != info.ColorSpace {
		c.Failf("%s image: /ColorSpace %s but reported %s", s.kind, cs, info.ColorSpace)
	}
	nc := map[string]int{"DeviceGray": 1, "DeviceRGB": 3}[cs]
	bpc := st.D.Int("BitsPerComponent", 0)
	if nc == 0 || bpc != 8 {
		c.Failf("%s image: color space %s at %d bits", s.kind, cs, bpc)
		return
	}
	data, err := DecodeStream(st)
	if err != nil || len(data) != nc*s.w*s.h {
		c.Failf("%s image: %d bytes of samples for %dx%dx%d (%v)", s.kind, len(data), s.w, s.h, nc, err)
		return
	}
	mask := []byte(nil)
	if m := st.D.Get("SMask"); m != nil {
		ms, ok := f.Resolve(m).(*Stream)
		if !ok || ms.D.Name("Subtype") != "Image" || ms.D.Name("ColorSpace") != "DeviceGray" || ms.D.Int("Width", 0) != s.w || ms.D.Int("Height", 0) != s.h || ms.D.Int("BitsPerComponent", 0) != 8 {
			c.Failf("%s image: bad soft mask %s", s.kind, Short(f.Resolve(m)))
			return
		}
		mask, err = DecodeStream(ms)
		if err != nil || len(mask) != s.w*s.h {
			c.Failf("%s image: soft mask of %d bytes (%v)", s.kind, len(mask), err)
			return
		}
		c.Obs("soft_masks", 1)
	} else if s.alpha {
		c.Failf("%s image has translucent pixels but no soft mask", s.kind)
		return
	}
	tol := 0
	if s.kind == "gray16" || s.kind == "nrgba64" {
		tol = 1
	}
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			p := s.at(x, y)
			i := y*s.w + x
			if mask != nil && !close8(mask[i], p.a, tol) {
				c.Failf("%s image: alpha at %d,%d is %d, want %d", s.kind, x, y, mask[i], p.a>>8)
				return
			}
			if p.a == 0 {
				continue // color of invisible pixels does not matter
			}
			ctol := tol
			if p.a != 0xffff && tol > 0 {
				// 16-bit colors may pass through associated form: the error
				// grows as the alpha shrinks
				ctol += int(0xffff/uint32(p.a)) + 1
			}
			var got [3]byte
			if nc == 1 {
				got = [3]byte{data[i], data[i], data[i]}
			} else {
				copy(got[:], data[3*i:])
			}
			if !close8(got[0], p.r, ctol) || !close8(got[1], p.g, ctol) || !close8(got[2], p.b, ctol) {
				c.Failf("%s image %dx%d: pixel %d,%d is %v, want %d %d %d (alpha %d)", s.kind, s.w, s.h, x, y, got, p.r>>8, p.g>>8, p.b>>8, p.a>>8)
				return
			}
		}
	}
	c.Obs("pixels", s.w*s.h)
	c.Obs("images_"+s.kind, 1)
}

// jpegFile is a JPEG with header decorations; fields are its ground truth.
type jpegFile struct {
	b     []byte
	w, h  int
	nc    int
	sofAt int // offset of the frame header's last needed byte, exclusive
}

func randJPEG(r *rand.Rand) *jpegFile {
	w, h := 1+r.Intn(60), 1+r.Intn(60)
	j := &jpegFile{w: w, h: h}
	var base bytes.Buffer
	switch r.Intn(3) {
	case 0:
		im := image.NewGray(image.Rect(0, 0, w, h))
		r.Read(im.Pix)
		jpeg.Encode(&base, im, &jpeg.Options{Quality: 1 + r.Intn(100)})
		j.nc = 1
	case 1:
		im := image.NewRGBA(image.Rect(0, 0, w, h))
		r.Read(im.Pix)
		jpeg.Encode(&base, im, &jpeg.Options{Quality: 1 + r.Intn(100)})
		j.nc = 3
	default:
		// synthetic frame header: sizes and component counts the encoder
		// cannot produce; the library embeds JPEG data without decoding it
		w, h = 1+r.Intn(65535), 1+r.Intn(65535)
		j.w, j.h = w, h
		j.nc = []int{1, 3, 4}[r.Intn(3)]
		base.Write([]byte{0xff, 0xd8})
		base.Write([]byte{0xff, 0xdb, 0, 67, 0})
		base.Write(rbytes(r, 64))
		sof := []byte{0xff, []byte{0xc0, 0xc1, 0xc2}[r.Intn(3)], 0, byte(8 + 3*j.nc), 8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), byte(j.nc)}
		base.Write(sof)
		base.Write(rbytes(r, 3*j.nc))
		base.Write([]byte{0xff, 0xda, 0, 8, 1, 1, 0, 0, 63, 0})
		for _, x := range rbytes(r, r.Intn(200)) {
			base.WriteByte(x)
			if x == 0xff {
				base.WriteByte(0)
			}
		}
		base.Write([]byte{0xff, 0xd9})
	}
	b := base.Bytes()
	// decorate: application and comment segments after SOI, holding decoys
	out := append([]byte{}, b[:2]...)
	for i := r.Intn(4); i > 0; i-- {
		body := rbytes(r, r.Intn(300))
		switch r.Intn(4) {
		case 0: // a thumbnail: a complete JPEG inside an application segment
			th := image.NewGray(image.Rect(0, 0, 3, 2))
			var tb bytes.Buffer
			jpeg.Encode(&tb, th, nil)
			body = append([]byte("Exif\x00\x00"), tb.Bytes()...)
		case 1:
			body = append(body, 0xff, 0xc0, 0, 11, 8, 0, 9, 0, 9, 1, 1, 17, 0)
		}
		mk := []byte{0xe0, 0xe1, 0xe2, 0xed, 0xee, 0xef, 0xfe}[r.Intn(7)]
		switch r.Intn(8) {
		case 0: // tables may stand anywhere before the frame
			mk, body = 0xc4, append([]byte{byte(r.Intn(2)<<4 | r.Intn(4)), 2}, make([]byte, 15)...)
			body = append(body, rbytes(r, 2)...)
		case 1:
			mk, body = 0xcc, []byte{byte(r.Intn(2)), 0x10, 0x11, 5}[:2+2*r.Intn(2)]
		case 2:
			mk, body = 0xdd, rbytes(r, 2)
		case 3:
			mk, body = 0xdb, append([]byte{byte(r.Intn(4))}, rbytes(r, 64)...)
		}
		for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
			out = append(out, 0xff) // fill bytes
		}
		out = append(out, 0xff, mk, byte((len(body)+2)>>8), byte(len(body)+2))
		out = append(out, body...)
	}
	for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
		out = append(out, 0xff)
	}
	j.b = append(out, b[2:]...)
	// locate the frame header
	for i := 2; i < len(j.b); {
		for j.b[i] == 0xff && j.b[i+1] == 0xff {
			i++
		}
		m := j.b[i+1]
		if m >= 0xc0 && m <= 0xc2 {
			j.sofAt = i + 10
			break
		}
		i += 2 + int(j.b[i+2])<<8 + int(j.b[i+3])
	}
	return j
}

// frameIn: the markers of the file include a frame header.
func frameIn(b []byte) bool {
	for i := 2; i+3 < len(b); {
		for i+1 < len(b) && b[i] == 0xff && b[i+1] == 0xff {
			i++
		}
		if i+3 >= len(b) || b[i] != 0xff || b[i+1] >= 0xd0 && b[i+1] <= 0xda {
			return false
		}
		if m := b[i+1]; m >= 0xc0 && m <= 0xcf && m != 0xc4 && m != 0xc8 && m != 0xcc {
			return true
		}
		i += 2 + int(b[i+2])<<8 + int(b[i+3])
	}
	return false
}

func imagesCase(maxSide int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		w := write.NewPDFWriter()
		mode := []string{"table", "xrefstm", "objstm"}[r.Intn(3)]
		setMode(w, mode, r)
		pagesNum := w.AddObject([]byte("<</Type/Pages/Kids[]/Count 0>>"))
		w.SetRoot(w.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesNum))))
		type put struct {
			s    *srcImage
			j    *jpegFile
			info *write.ImageInfo
		}
		var all []put
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			name := fmt.Sprintf("/Im%d", r.Intn(3))
			if r.Intn(3) > 0 {
				s := randSrc(r, maxSide)
				enc := encodeSrc(r, s)
				keep := append([]byte{}, enc...)
				c.Save(fmt.Sprintf("img%d.png", i), enc)
				info, err := w.AddImage(enc, name)
				if err != nil {
					c.Failf("AddImage refused a %s PNG of %dx%d: %v", s.kind, s.w, s.h, err)
					return
				}
				if !bytes.Equal(keep, enc) {
					c.Failf("AddImage changed the caller's data")
				}
				if info.Name != name {
					c.Failf("AddImage reports name %q, want %q", info.Name, name)
				}
				if r.Intn(3) == 0 {
					// truncated input is refused
					k := r.Intn(len(enc) * 9 / 10)
					if _, err := w.AddImage(enc[:k], name); err == nil {
						if _, _, e2 := image.Decode(bytes.NewReader(enc[:k])); e2 != nil {
							c.Failf("AddImage accepted a PNG cut to %d of %d bytes", k, len(enc))
						}
					}
					c.Obs("truncated_images", 1)
				}
				all = append(all, put{s: s, info: info})
				continue
			}
			j := randJPEG(r)
			c.Save(fmt.Sprintf("img%d.jpg", i), j.b)
			info, err := w.AddJPEGImage(append([]byte{}, j.b...), name)
			if err != nil {
				c.Failf("AddJPEGImage refused a %dx%dx%d JPEG: %v", j.w, j.h, j.nc, err)
				return
			}
			all = append(all, put{j: j, info: info})
			next := w.NextObjectNumber()
			cut := r.Intn(j.sofAt)
			if _, err := w.AddJPEGImage(j.b[:cut], name); err == nil {
				c.Failf("AddJPEGImage accepted a JPEG cut at %d before the end of its frame header at %d", cut, j.sofAt)
			}
			// the same file without its frame header
			at := j.sofAt - 10
			ln := 2 + int(j.b[at+2])<<8 + int(j.b[at+3])
			for at > 2 && j.b[at-1] == 0xff && r.Intn(2) == 0 {
				at--
				ln++
			}
			if nf := append(append([]byte{}, j.b[:at]...), j.b[at+ln:]...); at+ln <= len(j.b) {
				end := bytes.Index(nf[at:], []byte{0xff, 0xda})
				if end >= 0 {
					nf = append(nf[:at+end:at+end], 0xff, 0xd9)
				}
				if _, err := w.AddJPEGImage(nf, name); err == nil && !frameIn(nf) {
					c.Failf("AddJPEGImage accepted a JPEG without a frame header")
				}
			}
			if w.NextObjectNumber() != next {
				c.Failf("a refused JPEG used up an object number")
			}
			c.Obs("truncated_images", 1)
		}
		out, err := w.Bytes()
		if err != nil {
			c.Failf("Bytes: %v", err)
			return
		}
		c.Save("out.pdf", out)
		f, err := OpenStrict(out, nil)
		if err != nil {
			c.Failf("written file is not valid: %v", err)
			return
		}
		for _, p := range all {
			if p.s != nil {
				checkImageObj(c, f, p.info.ObjectNum, p.s, p.info)
				continue
			}
			o, err := f.Get(p.info.ObjectNum)
			st, ok := o.(*Stream)
			if err != nil || !ok {
				c.Failf("JPEG object %d: %v %s", p.info.ObjectNum, err, Short(o))
				return
			}
			cs := map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[p.j.nc]
			if st.D.Name("Type") != "XObject" || st.D.Name("Subtype") != "Image" || st.D.Name("Filter") != "DCTDecode" || st.D.Int("BitsPerComponent", 0) != 8 {
				c.Failf("JPEG object dictionary %s", Short(st.D))
			}
			if st.D.Int("Width", 0) != p.j.w || st.D.Int("Height", 0) != p.j.h || p.info.Width != p.j.w || p.info.Height != p.j.h {
				c.Failf("JPEG of %dx%d recorded as %sx%s", p.j.w, p.j.h, Short(st.D.Get("Width")), Short(st.D.Get("Height")))
			}
			if st.D.Name("ColorSpace") != cs || p.info.ColorSpace != "/"+cs {
				c.Failf("JPEG with %d components recorded as %s", p.j.nc, st.D.Name("ColorSpace"))
			}
			if !bytes.Equal(st.Raw, p.j.b) {
				c.Failf("JPEG data was changed: %d bytes, want %d", len(st.Raw), len(p.j.b))
			}
			c.Obs("jpegs", 1)
		}
		c.Distinct(len(out), len(all), mode)
		c.Sample("%s: %d images, %d bytes", mode, len(all), len(out))
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P13", Title: "Embedded images keep their pixels",
		Rule: "distinct_nontrivial = cases with a distinct set of (file size, image count, mode) files whose images were compared pixel by pixel or byte by byte with the source",
		Families: []rt.Family{
			{Name: "images", Quick: 2000, Thorough: 30000, Run: imagesCase(20)},
			{Name: "images-large", Quick: 60, Thorough: 900, Run: imagesCase(220)},
		},
	})
}
