package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// PDFDocEncoding where it differs from Latin-1 (ISO 32000 annex D)
var pdfDoc = map[byte]rune{0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc, 0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044, 0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c, 0x8e: 0x201d, 0x8f: 0x2018, 0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160, 0x98: 0x178, 0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142, 0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e, 0xa0: 0x20ac, 0x7f: 0xfffd, 0x9f: 0xfffd, 0xad: 0xfffd}

// textOf decodes a text string as the standard says.
func textOf(b []byte) string {
	switch {
	case len(b) >= 2 && b[0] == 0xfe && b[1] == 0xff:
		var u []uint16
		for i := 2; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		return string(utf16.Decode(u))
	case len(b) >= 3 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf:
		return string(b[3:])
	}
	var s []rune
	for _, c := range b {
		if u, ok := pdfDoc[c]; ok {
			s = append(s, u)
		} else {
			s = append(s, rune(c))
		}
	}
	return string(s)
}

// textStr writes s as a text string in one of the forms that can hold it.
func textStr(r *rand.Rand, s string) Str {
	inv := map[rune]byte{}
	for c := 0; c < 256; c++ {
		if c == 0x7f || c == 0x9f || c == 0xad || c < 0x18 && c != 9 && c != 10 && c != 13 {
			continue
		}
		u, ok := pdfDoc[byte(c)]
		if !ok {
			u = rune(c)
		}
		inv[u] = byte(c)
	}
	if r.Intn(3) != 0 {
		var b []byte
		for _, u := range s {
			c, ok := inv[u]
			if !ok {
				b = nil
				break
			}
			b = append(b, c)
		}
		if len(b) == 1 || len(b) > 1 && !(b[0] == 0xfe && b[1] == 0xff) && !(b[0] == 0xef && b[1] == 0xbb) {
			return Str(b)
		}
	}
	if r.Intn(5) == 0 {
		return Str("\xef\xbb\xbf" + s)
	}
	b := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return Str(b)
}

// uniText draws a text of any characters.
func uniText(r *rand.Rand) string {
	s := ""
	mode := r.Intn(5)
	for n := 1 + r.Intn(20); n > 0; n-- {
		k := mode
		if mode == 4 {
			k = r.Intn(4)
		}
		switch k {
		case 0:
			s += string(rune(' ' + r.Intn(95)))
		case 1:
			s += string(rune(0xa0 + r.Intn(0x60)))
		case 2:
			s += []string{"(", ")", "\\", "))", "((", "\n", "\r\n", "\t", "\\(", "<<", ">>", "/", "%", "[", "1 0 R", "endobj", "\r", "/Next ", "$1"}[r.Intn(19)]
		case 3:
			switch r.Intn(5) {
			case 0:
				s += string(rune(0x1f300 + r.Intn(500)))
			case 1:
				s += string(rune(0x4e00 + r.Intn(20000)))
			case 2:
				s += string([]rune{0x2022, 0x201c, 0x152, 0x20ac, 0xfb01, 0x2d8, 0x17d, 0x131, 0x2212}[r.Intn(9)])
			case 3:
				s += string(rune(0x400 + r.Intn(200)))
			case 4:
				s += string([]rune{0x0b, 0x1b, 0x7f, 0x9f, 0xad, 0x28, 0x5c, 0x2829, 0x5c0d, 0xfefe}[r.Intn(10)])
			}
		}
	}
	return s
}

func metaText(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		// a single character that decides the encoding of an otherwise plain text
		all := []rune{0x01, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x17, 0x18, 0x1f, 0x7e, 0x7f, 0x80, 0x9e, 0x9f, 0xa0, 0xa1, 0xac, 0xad, 0xae, 0xfe, 0xff, 0x100, 0x131, 0x2022, 0x20ac, 0xfffd, 0xffff, 0x10000, 0x10ffff}
		w := randWords(r, 1)
		k := r.Intn(len(w) + 1)
		return w[:k] + string(all[r.Intn(len(all))]) + w[k:]
	}
	if r.Intn(4) == 0 {
		return randWords(r, 1+r.Intn(4))
	}
	return uniText(r)
}

type dateIn struct {
	in   string
	want string // exact PDF form, or
	t    time.Time
}

func randDate(r *rand.Rand) dateIn {
	off := (r.Intn(28*4) - 14*4) * 15 * 60
	t := time.Date(1900+r.Intn(300), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.FixedZone("", off))
	switch r.Intn(5) {
	case 0:
		s := t.Format("D:20060102150405") + []string{"", "Z", "+02'00", "-03'30'", "+00'00"}[r.Intn(5)]
		return dateIn{in: s, want: s}
	case 1:
		return dateIn{in: t.Format("2006-01-02T15:04:05"), t: time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)}
	case 2:
		return dateIn{in: t.Format("2006-01-02 15:04:05"), t: time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)}
	case 3:
		return dateIn{in: t.Format("2006-01-02"), t: time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)}
	}
	return dateIn{in: t.Format(time.RFC3339), t: t}
}

// pdfDate parses D:YYYYMMDDHHmmSSOHH'mm strictly.
func pdfDate(s string) (time.Time, error) {
	var v [6]int
	var o byte
	var oh, om int
	s = strings.TrimSuffix(s, "'")
	if n, err := fmt.Sscanf(s, "D:%4d%2d%2d%2d%2d%2d%c%2d'%2d", &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &o, &oh, &om); n != 9 {
		return time.Time{}, err
	}
	off := oh*3600 + om*60
	if o == '-' {
		off = -off
	} else if o != '+' {
		return time.Time{}, fmt.Errorf("offset sign %c", o)
	}
	if len(s) != len("D:20240101000000+00'00") {
		return time.Time{}, fmt.Errorf("length")
	}
	t := time.Date(v[0], time.Month(v[1]), v[2], v[3], v[4], v[5], 0, time.FixedZone("", off))
	if t.Month() != time.Month(v[1]) || t.Day() != v[2] {
		return t, fmt.Errorf("no such day")
	}
	return t, nil
}

func (w dateIn) check(got string) string {
	if w.want != "" {
		if got != w.want {
			return fmt.Sprintf("%q, want %q", got, w.want)
		}
		return ""
	}
	t, err := pdfDate(got)
	if err != nil {
		return fmt.Sprintf("%q is no date: %v", got, err)
	}
	_, o1 := t.Zone()
	_, o2 := w.t.Zone()
	if !t.Equal(w.t) || o1 != o2 {
		return fmt.Sprintf("%q, want %s", got, w.t.Format(time.RFC3339))
	}
	return ""
}

func bmTree(r *rand.Rand, pages, n, depth int, leaf func(b *types.Bookmark)) []types.Bookmark {
	var out []types.Bookmark
	for ; n > 0; n-- {
		b := types.Bookmark{Title: metaText(r)}
		leaf(&b)
		if depth > 0 && r.Intn(3) == 0 {
			b.Children = bmTree(r, pages, 1+r.Intn(4), depth-1, leaf)
		}
		out = append(out, b)
	}
	return out
}

func bmCount(l []types.Bookmark) int {
	n := len(l)
	for _, b := range l {
		n += bmCount(b.Children)
	}
	return n
}

// outline checks the links below item ref and compares with want.
func outline(f *File, parent Ref, want []types.Bookmark, pages []Page, path string) string {
	p := f.Dict(parent)
	if p == nil {
		return path + ": missing"
	}
	next, _ := p.Get("First").(Ref)
	var prev Ref
	for i, w := range want {
		at := fmt.Sprintf("%s/%d", path, i)
		it := f.Dict(next)
		if next.N == 0 || it == nil {
			return at + ": missing item"
		}
		if rf, _ := it.Get("Parent").(Ref); rf != parent {
			return fmt.Sprintf("%s: Parent is %v, want %v", at, it.Get("Parent"), parent)
		}
		pv, has := it.Get("Prev").(Ref)
		if i == 0 && it.Get("Prev") != nil || i > 0 && (!has || pv != prev) {
			return fmt.Sprintf("%s: Prev is %v, want %v", at, it.Get("Prev"), prev)
		}
		t, ok := f.Resolve(it.Get("Title")).(Str)
		if !ok || textOf(t) != w.Title {
			return fmt.Sprintf("%s: title %q, want %q", at, textOf(t), w.Title)
		}
		dest, _ := f.Resolve(it.Get("Dest")).(Arr)
		switch {
		case w.PageNumber > 0:
			if len(dest) < 2 || dest[0] != Obj(Ref{pages[w.PageNumber-1].Num, 0}) {
				return fmt.Sprintf("%s: destination %s, want page %d (%v)", at, Short(dest), w.PageNumber, pages[w.PageNumber-1].Num)
			}
			if n, ok := dest[1].(Name); !ok || n != "XYZ" && n != "Fit" && n != "FitH" || n == "XYZ" && len(dest) != 5 {
				return fmt.Sprintf("%s: destination %s is malformed", at, Short(dest))
			}
		case w.Destination != "":
			o, err := ParseValue([]byte(w.Destination))
			if err != nil || !Equal(o, dest) {
				return fmt.Sprintf("%s: destination %s, want %s", at, Short(dest), w.Destination)
			}
		default:
			if it.Get("Dest") != nil {
				return fmt.Sprintf("%s: destination %s, want none", at, Short(dest))
			}
		}
		a := f.Dict(it.Get("A"))
		if w.URI != "" {
			if a == nil || a.Name("S") != "URI" || !Equal(f.Resolve(a.Get("URI")), Str(w.URI)) {
				return fmt.Sprintf("%s: action %s, want URI %q", at, Short(a), w.URI)
			}
		} else if a != nil {
			return fmt.Sprintf("%s: unexpected action", at)
		}
		if len(w.Children) > 0 {
			if c := it.Int("Count", 0); c != bmCount(w.Children) && c != -bmCount(w.Children) && c != -len(w.Children) {
				return fmt.Sprintf("%s: Count %d with %d descendants", at, c, bmCount(w.Children))
			}
			if d := outline(f, next, w.Children, pages, at); d != "" {
				return d
			}
		} else if it.Get("First") != nil || it.Get("Last") != nil {
			return at + ": has children, want none"
		}
		prev = next
		if it.Get("Next") == nil {
			next = Ref{}
		} else {
			next, _ = it.Get("Next").(Ref)
		}
	}
	if next.N != 0 {
		return path + ": more items than expected"
	}
	if l, _ := p.Get("Last").(Ref); l != prev {
		return fmt.Sprintf("%s: Last is %v, want %v", path, p.Get("Last"), prev)
	}
	return ""
}

// sameBM compares extracted bookmarks with what they must be.
func sameBM(got, want []types.Bookmark, path string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d bookmarks, want %d", path, len(got), len(want))
	}
	for i := range want {
		g, w := got[i], want[i]
		at := fmt.Sprintf("%s/%d", path, i)
		if g.Title != w.Title {
			return fmt.Sprintf("%s: title %q, want %q", at, g.Title, w.Title)
		}
		if g.PageNumber != w.PageNumber {
			return fmt.Sprintf("%s (%q): page %d, want %d", at, w.Title, g.PageNumber, w.PageNumber)
		}
		if g.URI != w.URI {
			return fmt.Sprintf("%s (%q): URI %q, want %q", at, w.Title, g.URI, w.URI)
		}
		if w.Destination != "" {
			if strings.HasPrefix(w.Destination, "[") {
				a, e1 := ParseValue([]byte(g.Destination))
				b, e2 := ParseValue([]byte(w.Destination))
				if e1 != nil || e2 != nil || !Equal(a, b) {
					return fmt.Sprintf("%s (%q): destination %s, want %s", at, w.Title, g.Destination, w.Destination)
				}
			} else if g.Destination != w.Destination {
				return fmt.Sprintf("%s (%q): destination %q, want %q", at, w.Title, g.Destination, w.Destination)
			}
		} else if w.PageNumber == 0 && g.Destination != "" {
			return fmt.Sprintf("%s (%q): destination %q, want none", at, w.Title, g.Destination)
		}
		if d := sameBM(g.Children, w.Children, at); d != "" {
			return d
		}
	}
	return ""
}

func uri(r *rand.Rand) string {
	return "https://example.com/" + []string{"a(b)", "x?y=1&z=2", "p\\q", "%20%28", "", "~u/#f", "a)b", "((", "[1]"}[r.Intn(9)] + fmt.Sprint(r.Intn(1000))
}

var stdInfo = []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer"}

func customKey(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return "Key" + fmt.Sprint(r.Intn(100))
	}
	return "K" + fmt.Sprint(r.Intn(10)) + []string{"Name With Space", "Paren(s)", "Hash#1", "Größe", "x/y", "a.b-c_d", "%", "Rot<>", "[a]", "#41", "Title", "Tab\tbed", "{}"}[r.Intn(13)]
}

// metaWriteCase sets metadata and bookmarks through the writer.
func metaWriteCase(c *rt.C) {
	r := c.R
	b := write.NewSimplePDFBuilder()
	w := b.Writer()
	mode := r.Intn(3)
	w.UseXRefStream(mode >= 1)
	w.UseObjectStream(mode == 2)
	var pw []byte
	setup := func() {
		pw = []byte(randWords(r, 1))
		if _, err := w.SetupEncryptionWithPasswords(pw, []byte("owner"), -4, true); err != nil {
			c.Failf("SetupEncryption: %v", err)
		}
	}
	enc := r.Intn(5) == 0
	encAt := r.Intn(3)
	if enc && encAt == 0 {
		setup()
	}
	pages := 1 + r.Intn(6)
	for i := 0; i < pages; i++ {
		pb := b.AddPage(write.PageSize{Width: 200, Height: 300})
		b.FinalizePage(pb)
	}
	nums := b.Pages()
	if enc && encAt == 1 {
		setup()
	}

	// a catalog of the caller's, with entries that only look like the outline's
	var ownCat *Dict
	if r.Intn(3) == 0 {
		ownCat = NewDict("Type", Name("Catalog"), "Lang", Str([]string{"en", "/Outlines 1 0 R", ">>", "(/Outlines 1 0 R >>"}[r.Intn(4)]))
		if r.Intn(2) == 0 {
			ownCat.Set("PieceInfo", NewDict("X", NewDict("Outlines", Ref{nums[0], 0}, "K", Str(">>"))))
		}
		if r.Intn(2) == 0 {
			ownCat.Set("OutlinesOf", Ref{nums[0], 0})
		}
		if r.Intn(2) == 0 {
			ownCat.Set("PageMode", Name("UseOutlines"))
		}
		if r.Intn(4) == 0 {
			ownCat.Set("Pages", Null{}) // as good as absent
		}
		rm := r.Intn(3)
		if rm == 0 {
			ownCat.Set("Outlines", Ref{nums[0], 0})
		}
		ser := Ser(ownCat, Style{R: r, Tight: r.Intn(2) == 0})
		if r.Intn(3) == 0 {
			ser = append(ser, " % >>\n"...)
		}
		w.SetRoot(w.AddObject(ser))
		if rm == 0 {
			ownCat.Del("Outlines")
		}
	}

	md := &types.DocumentMetadata{Custom: map[string]string{}}
	want := map[string]string{}
	fields := map[string]string{}
	ptr := map[string]*string{"Title": &md.Title, "Author": &md.Author, "Subject": &md.Subject, "Keywords": &md.Keywords, "Creator": &md.Creator, "Producer": &md.Producer}
	for _, k := range stdInfo {
		if r.Intn(3) != 0 {
			t := metaText(r)
			*ptr[k] = t
			fields[[]string{strings.ToLower(k), k, strings.ToUpper(k)}[r.Intn(3)]] = t
			want[k] = t
		}
	}
	dates := map[string]dateIn{}
	if r.Intn(2) == 0 {
		dates["CreationDate"] = randDate(r)
		md.CreationDate = dates["CreationDate"].in
		fields[[]string{"creationdate", "creation_date", "CreationDate"}[r.Intn(3)]] = md.CreationDate
	}
	if r.Intn(2) == 0 {
		dates["ModDate"] = randDate(r)
		md.ModDate = dates["ModDate"].in
		fields[[]string{"moddate", "mod_date", "ModDate"}[r.Intn(3)]] = md.ModDate
	}
	for n := r.Intn(5); n > 0; n-- {
		k, t := customKey(r), metaText(r)
		if _, dup := want[k]; dup {
			continue
		}
		want[k] = t
		if r.Intn(4) == 0 {
			k = "/" + k
		}
		md.Custom[k] = t
		fields[k] = t
	}
	var bm []types.Bookmark
	if r.Intn(4) != 0 {
		bm = bmTree(r, pages, 1+r.Intn(8), r.Intn(4), func(b *types.Bookmark) {
			switch r.Intn(5) {
			case 0:
				b.URI = uri(r)
			case 1:
				b.Destination = fmt.Sprintf("[%d 0 R %s]", nums[r.Intn(pages)], []string{"/Fit", "/FitH 100", "/XYZ 0 700.5 null", "/FitR 1 2 3 4"}[r.Intn(4)])
			case 2:
			default:
				b.PageNumber = 1 + r.Intn(pages)
			}
		})
	}
	setMeta := func() {
		var n int
		switch r.Intn(3) {
		case 0:
			n = w.SetMetadataFields(fields)
		case 1:
			n = w.SetMetadata(write.NewMetadataFromFields(fields))
		default:
			n = w.SetMetadata(md)
		}
		if n == 0 {
			c.Failf("SetMetadata returned no object number")
		}
	}
	var setBM func(bm []types.Bookmark)
	setBM = func(bm []types.Bookmark) {
		if bm == nil {
			return
		}
		if r.Intn(8) == 0 {
			// what is set last counts
			setBM([]types.Bookmark{{Title: "earlier", PageNumber: 1, Children: []types.Bookmark{{Title: "child"}}}})
		}
		if r.Intn(2) == 0 {
			if err := b.SetBookmarks(bm); err != nil {
				c.Failf("SetBookmarks: %v", err)
			}
			return
		}
		m := map[int]int{}
		for i, n := range nums {
			m[i+1] = n
		}
		if _, err := w.SetBookmarks(bm, m); err != nil {
			c.Failf("SetBookmarks: %v", err)
		}
	}
	if r.Intn(2) == 0 {
		setMeta()
		setBM(bm)
	} else {
		setBM(bm)
		setMeta()
	}
	if enc && encAt == 2 {
		setup()
	}
	out, err := b.Bytes()
	if err != nil {
		c.Failf("Bytes: %v", err)
		return
	}
	c.Save("out.pdf", out)
	f, err := OpenStrict(out, pw)
	if err != nil {
		c.Failf("the file written is invalid: %v", err)
		return
	}
	pg, err := f.Pages()
	if err != nil || len(pg) != pages {
		c.Failf("page tree: %d pages, %v", len(pg), err)
		return
	}
	info := f.Dict(f.Trailer.Get("Info"))
	if info == nil {
		c.Failf("no Info dictionary")
		return
	}
	for k, t := range want {
		s, ok := f.Resolve(info.Get(k)).(Str)
		if !ok || textOf(s) != t {
			c.Failf("Info /%s is %q (%s), want %q", k, textOf(s), Short(info.Get(k)), t)
			return
		}
		c.Obs("info values", 1)
	}
	for _, k := range info.Keys {
		if _, ok := want[k]; !ok && k != "CreationDate" && k != "ModDate" {
			c.Failf("Info has an entry /%s nobody set", k)
		}
	}
	for k, d := range dates {
		s, _ := f.Resolve(info.Get(k)).(Str)
		if e := d.check(string(s)); e != "" {
			c.Failf("Info /%s (given as %q) is %s", k, d.in, e)
		}
		c.Obs("dates", 1)
	}
	cat := f.Catalog()
	if ownCat != nil {
		got := cat.Copy()
		got.Del("Outlines")
		got.Del("Pages")
		if d := Diff(got, ownCat); d != "" {
			c.Failf("setting the outline changed the catalog: %s", d)
			return
		}
		c.Obs("caller's catalogs", 1)
	}
	if bm == nil {
		if ownCat == nil && cat.Get("Outlines") != nil {
			c.Failf("outlines nobody set")
		}
	} else {
		root, ok := cat.Get("Outlines").(Ref)
		if !ok {
			c.Failf("the catalog has no Outlines reference: %s", Short(cat))
			return
		}
		if e := outline(f, root, bm, pg, ""); e != "" {
			c.Failf("outline %s", e)
		}
		if n := f.Dict(root).Int("Count", 0); n != bmCount(bm) {
			c.Failf("outline Count %d, want %d", n, bmCount(bm))
		}
		c.Obs("bookmarks", bmCount(bm))
	}
	if c.Failed() {
		return
	}
	doc, err := extract.ExtractContent(out, pw, false)
	if err != nil {
		c.Failf("ExtractContent of the file written: %v", err)
		return
	}
	// an explicit destination also names its page
	var pn func(l []types.Bookmark) []types.Bookmark
	pn = func(l []types.Bookmark) []types.Bookmark {
		o := make([]types.Bookmark, len(l))
		for i, b := range l {
			o[i] = b
			if b.Destination != "" {
				var n int
				fmt.Sscanf(b.Destination, "[%d", &n)
				for k, x := range nums {
					if x == n {
						o[i].PageNumber = k + 1
					}
				}
			}
			o[i].Children = pn(b.Children)
		}
		return o
	}
	if e := sameBM(doc.Bookmarks, pn(bm), ""); e != "" {
		c.Failf("extracted bookmarks: %s", e)
	}
	delete(dates, "")
	checkMeta(c, doc.Metadata, want, dates, pages, enc)
	c.Distinct(len(want), bmCount(bm), pages, len(out))
	c.Sample("%d info values, %d bookmarks, %d pages, mode %d, encrypted %v", len(want), bmCount(bm), pages, mode, enc)
}

func checkMeta(c *rt.C, md *types.DocumentMetadata, want map[string]string, dates map[string]dateIn, pages int, enc bool) {
	if md == nil {
		c.Failf("no metadata extracted")
		return
	}
	got := map[string]string{"Title": md.Title, "Author": md.Author, "Subject": md.Subject, "Keywords": md.Keywords, "Creator": md.Creator, "Producer": md.Producer}
	for k, v := range md.Custom {
		got[k] = v
	}
	for k, v := range got {
		if v != want[k] {
			c.Failf("extracted metadata %s is %q, want %q", k, v, want[k])
			return
		}
	}
	for k, v := range want {
		if got[k] != v {
			c.Failf("extracted metadata %s is %q, want %q", k, got[k], v)
			return
		}
	}
	if d, ok := dates["CreationDate"]; ok {
		if e := d.check(md.CreationDate); e != "" {
			c.Failf("extracted creation date %s", e)
		}
	}
	if d, ok := dates["ModDate"]; ok {
		if e := d.check(md.ModDate); e != "" {
			c.Failf("extracted modification date %s", e)
		}
	}
	if md.PageCount != pages {
		c.Failf("extracted page count %d, want %d", md.PageCount, pages)
	}
	if md.Encrypted != enc {
		c.Failf("extracted metadata says encrypted %v, want %v", md.Encrypted, enc)
	}
}

// metaReadCase extracts metadata and outlines of generated files.
func metaReadCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		pages := 1 + r.Intn(12)
		want := map[string]string{}
		dates := map[string]dateIn{}
		var bm []types.Bookmark
		d := genDoc(r, docOpts{pages: pages, crypt: crypt, setup: func(d *docGen) {
			info := NewDict()
			for _, i := range r.Perm(len(stdInfo)) {
				if r.Intn(3) != 0 {
					t := metaText(r)
					want[stdInfo[i]] = t
					info.Set(stdInfo[i], d.maybe(textStr(r, t)))
				}
			}
			for _, k := range []string{"CreationDate", "ModDate"} {
				if r.Intn(2) == 0 {
					dates[k] = dateIn{want: "D:20240131235959+05'30'"}
					info.Set(k, Str(dates[k].want))
				}
			}
			for n := r.Intn(4); n > 0; n-- {
				k := customKey(r)
				if _, dup := want[k]; !dup {
					want[k] = metaText(r)
					info.Set(k, d.maybe(textStr(r, want[k])))
				}
			}
			if r.Intn(2) == 0 {
				info.Set("Trapped", Name("False"))
			}
			d.infoNum = d.add(info).N
			if r.Intn(5) != 0 {
				bm = d.outlines(c)
			}
		}})
		c.Save("in.pdf", d.B.B)
		doc, err := extract.ExtractContent(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractContent: %v", err)
			return
		}
		checkMeta(c, doc.Metadata, want, dates, pages, d.Enc != "")
		if e := sameBM(doc.Bookmarks, bm, ""); e != "" {
			c.Failf("extracted bookmarks: %s", e)
		}
		c.Obs("info values", len(want))
		c.Obs("bookmarks", bmCount(bm))
		c.Distinct(len(want), bmCount(bm), pages, len(d.B.B))
		c.Sample("%d info values, %d bookmarks, %d pages %s", len(want), bmCount(bm), pages, d.Enc)
	}
}

// outlines gives the document an outline and returns it.
func (d *docGen) outlines(c *rt.C) []types.Bookmark {
	r := d.r
	bm := bmTree(r, len(d.pages), 1+r.Intn(6), r.Intn(4), func(*types.Bookmark) {})
	var build func(parent Ref, l []types.Bookmark) (first, last Ref)
	build = func(parent Ref, l []types.Bookmark) (first, last Ref) {
		refs := make([]Ref, len(l))
		for i := range l {
			refs[i] = d.ref(d.alloc())
		}
		for i := range l {
			b := &l[i]
			it := NewDict("Parent", parent)
			if r.Intn(2) == 0 {
				it.Set("Title", d.maybe(textStr(r, b.Title)))
			}
			k := r.Intn(len(d.pages))
			arr := Arr{d.ref(d.pages[k])}
			switch r.Intn(4) {
			case 0:
				arr = append(arr, Name("Fit"))
			case 1:
				arr = append(arr, Name("XYZ"), Int(0), Real(700.25), Null{})
			case 2:
				arr = append(arr, Name("FitH"), Int(-3))
			case 3:
				arr = append(arr, Name("FitR"), Int(1), Int(2), Int(3), Int(4))
			}
			b.PageNumber = k + 1
			b.Destination = string(Ser(arr, Style{}))
			switch r.Intn(6) {
			case 0:
				b.PageNumber, b.Destination = 0, ""
				b.URI = uri(r)
				it.Set("A", d.maybe(NewDict("Type", Name("Action"), "S", Name("URI"), "URI", d.maybe(Str(b.URI)))))
			case 1, 2:
				it.Set("A", d.maybe(NewDict("S", Name("GoTo"), "D", d.maybe(arr))))
			case 3:
				b.PageNumber, b.Destination = 0, ""
			default:
				it.Set("Dest", d.maybe(arr))
			}
			if it.Get("Title") == nil {
				it.Set("Title", d.maybe(textStr(r, b.Title)))
			}
			if i > 0 {
				it.Set("Prev", refs[i-1])
			}
			if i+1 < len(l) {
				it.Set("Next", refs[i+1])
			}
			if len(b.Children) > 0 {
				f, la := build(refs[i], b.Children)
				it.Set("First", f)
				it.Set("Last", la)
				n := bmCount(b.Children)
				if r.Intn(2) == 0 {
					n = -n
				}
				it.Set("Count", Int(n))
			}
			if r.Intn(4) == 0 {
				it.Set("C", Arr{Int(1), Int(0), Int(0)})
				it.Set("F", Int(3))
			}
			d.objs[refs[i].N] = it
		}
		return refs[0], refs[len(refs)-1]
	}
	root := d.ref(d.alloc())
	f, l := build(root, bm)
	o := NewDict("Type", Name("Outlines"), "First", f, "Last", l, "Count", Int(bmCount(bm)))
	d.objs[root.N] = o
	d.catalog.Set("Outlines", root)
	return bm
}

func init() {
	if !utf8.ValidString(uniText(rand.New(rand.NewSource(1)))) {
		panic("uniText")
	}
	rt.Register(&rt.Check{
		ID: "P15", Title: "Metadata and bookmarks survive writing and reading",
		Rule: "distinct_nontrivial = cases with a distinct (info values, bookmarks, pages, file size) where each value was compared with the model",
		Families: []rt.Family{
			{Name: "write", Quick: 900, Thorough: 15000, Run: metaWriteCase},
			{Name: "read", Quick: 500, Thorough: 8000, Run: metaReadCase(false)},
			{Name: "read-encrypted", Quick: 100, Thorough: 2000, Run: metaReadCase(true)},
		},
	})
}
