package checks

import (
	"fmt"
	"math/rand"
	"unicode/utf16"

	. "verifharness/ref"
)

// encoding tables, independent of the library: code points that differ from
// Latin-1 (cp1252 and Mac OS Roman from the Unicode mapping files, Standard
// from ISO 32000 annex D)
var winDiff = map[int]rune{128: 0x20ac, 130: 0x201a, 131: 0x192, 132: 0x201e, 133: 0x2026, 134: 0x2020, 135: 0x2021, 136: 0x2c6, 137: 0x2030, 138: 0x160, 139: 0x2039, 140: 0x152, 142: 0x17d, 145: 0x2018, 146: 0x2019, 147: 0x201c, 148: 0x201d, 149: 0x2022, 150: 0x2013, 151: 0x2014, 152: 0x2dc, 153: 0x2122, 154: 0x161, 155: 0x203a, 156: 0x153, 158: 0x17e, 159: 0x178}
var macDiff = map[int]rune{128: 0xc4, 129: 0xc5, 130: 0xc7, 131: 0xc9, 132: 0xd1, 133: 0xd6, 134: 0xdc, 135: 0xe1, 136: 0xe0, 137: 0xe2, 138: 0xe4, 139: 0xe3, 140: 0xe5, 141: 0xe7, 142: 0xe9, 143: 0xe8, 144: 0xea, 145: 0xeb, 146: 0xed, 147: 0xec, 148: 0xee, 149: 0xef, 150: 0xf1, 151: 0xf3, 152: 0xf2, 153: 0xf4, 154: 0xf6, 155: 0xf5, 156: 0xfa, 157: 0xf9, 158: 0xfb, 159: 0xfc, 160: 0x2020, 161: 0xb0, 162: 0xa2, 163: 0xa3, 164: 0xa7, 165: 0x2022, 166: 0xb6, 167: 0xdf, 168: 0xae, 169: 0xa9, 170: 0x2122, 171: 0xb4, 172: 0xa8, 174: 0xc6, 175: 0xd8, 177: 0xb1, 180: 0xa5, 181: 0xb5, 187: 0xaa, 188: 0xba, 190: 0xe6, 191: 0xf8, 192: 0xbf, 193: 0xa1, 194: 0xac, 196: 0x192, 199: 0xab, 200: 0xbb, 201: 0x2026, 203: 0xc0, 204: 0xc3, 205: 0xd5, 206: 0x152, 207: 0x153, 208: 0x2013, 209: 0x2014, 210: 0x201c, 211: 0x201d, 212: 0x2018, 213: 0x2019, 214: 0xf7, 216: 0xff, 217: 0x178, 218: 0x2044, 219: 0xa4, 220: 0x2039, 221: 0x203a, 222: 0xfb01, 223: 0xfb02, 224: 0x2021, 225: 0xb7, 226: 0x201a, 227: 0x201e, 228: 0x2030, 229: 0xc2, 230: 0xca, 231: 0xc1, 232: 0xcb, 233: 0xc8, 234: 0xcd, 235: 0xce, 236: 0xcf, 237: 0xcc, 238: 0xd3, 239: 0xd4, 241: 0xd2, 242: 0xda, 243: 0xdb, 244: 0xd9, 245: 0x131, 246: 0x2c6, 247: 0x2dc, 248: 0xaf, 249: 0x2d8, 250: 0x2d9, 251: 0x2da, 252: 0xb8, 253: 0x2dd, 254: 0x2db, 255: 0x2c7}
var stdDiff = map[int]rune{39: 0x2019, 96: 0x2018, 0241: 0xa1, 0242: 0xa2, 0243: 0xa3, 0244: 0x2044, 0245: 0xa5, 0246: 0x192, 0247: 0xa7, 0250: 0xa4, 0251: 0x27, 0252: 0x201c, 0253: 0xab, 0254: 0x2039, 0255: 0x203a, 0256: 0xfb01, 0257: 0xfb02, 0261: 0x2013, 0262: 0x2020, 0263: 0x2021, 0264: 0xb7, 0266: 0xb6, 0267: 0x2022, 0270: 0x201a, 0271: 0x201e, 0272: 0x201d, 0273: 0xbb, 0274: 0x2026, 0275: 0x2030, 0277: 0xbf, 0301: 0x60, 0302: 0xb4, 0303: 0x2c6, 0304: 0x2dc, 0305: 0xaf, 0306: 0x2d8, 0307: 0x2d9, 0310: 0xa8, 0312: 0x2da, 0313: 0xb8, 0315: 0x2dd, 0316: 0x2db, 0317: 0x2c7, 0320: 0x2014, 0341: 0xc6, 0343: 0xaa, 0350: 0x141, 0351: 0xd8, 0352: 0x152, 0353: 0xba, 0361: 0xe6, 0365: 0x131, 0370: 0x142, 0371: 0xf8, 0372: 0x153, 0373: 0xdf}

func encTable(name string) map[int]rune {
	t := map[int]rune{}
	for c := 32; c < 127; c++ {
		t[c] = rune(c)
	}
	switch name {
	case "WinAnsiEncoding":
		for c := 161; c < 256; c++ {
			if c != 173 {
				t[c] = rune(c)
			}
		}
		for c, u := range winDiff {
			t[c] = u
		}
	case "MacRomanEncoding":
		for c, u := range macDiff {
			t[c] = u
		}
	case "StandardEncoding":
		for c, u := range stdDiff {
			t[c] = u
		}
	}
	return t
}

// glyph names of the standard Latin character set
var glyphName = map[string]rune{
	"A": 'A', "z": 'z', "zero": '0', "nine": '9', "five": '5', "space": ' ', "exclam": '!', "quotedbl": '"', "numbersign": '#', "dollar": '$', "percent": '%', "ampersand": '&', "quotesingle": '\'', "parenleft": '(', "parenright": ')', "asterisk": '*', "plus": '+', "comma": ',', "hyphen": '-', "period": '.', "slash": '/', "colon": ':', "semicolon": ';', "less": '<', "equal": '=', "greater": '>', "question": '?', "at": '@', "bracketleft": '[', "backslash": '\\', "bracketright": ']', "asciicircum": '^', "underscore": '_', "grave": '`', "braceleft": '{', "bar": '|', "braceright": '}', "asciitilde": '~',
	"exclamdown": 0xa1, "cent": 0xa2, "sterling": 0xa3, "currency": 0xa4, "yen": 0xa5, "brokenbar": 0xa6, "section": 0xa7, "dieresis": 0xa8, "copyright": 0xa9, "ordfeminine": 0xaa, "guillemotleft": 0xab, "logicalnot": 0xac, "registered": 0xae, "macron": 0xaf, "degree": 0xb0, "plusminus": 0xb1, "acute": 0xb4, "paragraph": 0xb6, "periodcentered": 0xb7, "cedilla": 0xb8, "ordmasculine": 0xba, "guillemotright": 0xbb, "onequarter": 0xbc, "onehalf": 0xbd, "threequarters": 0xbe, "questiondown": 0xbf,
	"Agrave": 0xc0, "Aacute": 0xc1, "Acircumflex": 0xc2, "Atilde": 0xc3, "Adieresis": 0xc4, "Aring": 0xc5, "AE": 0xc6, "Ccedilla": 0xc7, "Egrave": 0xc8, "Eacute": 0xc9, "Ecircumflex": 0xca, "Edieresis": 0xcb, "Igrave": 0xcc, "Iacute": 0xcd, "Icircumflex": 0xce, "Idieresis": 0xcf, "Eth": 0xd0, "Ntilde": 0xd1, "Ograve": 0xd2, "Oacute": 0xd3, "Ocircumflex": 0xd4, "Otilde": 0xd5, "Odieresis": 0xd6, "multiply": 0xd7, "Oslash": 0xd8, "Ugrave": 0xd9, "Uacute": 0xda, "Ucircumflex": 0xdb, "Udieresis": 0xdc, "Yacute": 0xdd, "Thorn": 0xde, "germandbls": 0xdf,
	"agrave": 0xe0, "aacute": 0xe1, "acircumflex": 0xe2, "atilde": 0xe3, "adieresis": 0xe4, "aring": 0xe5, "ae": 0xe6, "ccedilla": 0xe7, "egrave": 0xe8, "eacute": 0xe9, "ecircumflex": 0xea, "edieresis": 0xeb, "igrave": 0xec, "iacute": 0xed, "icircumflex": 0xee, "idieresis": 0xef, "eth": 0xf0, "ntilde": 0xf1, "ograve": 0xf2, "oacute": 0xf3, "ocircumflex": 0xf4, "otilde": 0xf5, "odieresis": 0xf6, "divide": 0xf7, "oslash": 0xf8, "ugrave": 0xf9, "uacute": 0xfa, "ucircumflex": 0xfb, "udieresis": 0xfc, "yacute": 0xfd, "thorn": 0xfe, "ydieresis": 0xff,
	"Euro": 0x20ac, "florin": 0x192, "quotesinglbase": 0x201a, "quotedblbase": 0x201e, "ellipsis": 0x2026, "dagger": 0x2020, "daggerdbl": 0x2021, "circumflex": 0x2c6, "perthousand": 0x2030, "Scaron": 0x160, "scaron": 0x161, "guilsinglleft": 0x2039, "guilsinglright": 0x203a, "OE": 0x152, "oe": 0x153, "Zcaron": 0x17d, "zcaron": 0x17e, "quoteleft": 0x2018, "quoteright": 0x2019, "quotedblleft": 0x201c, "quotedblright": 0x201d, "bullet": 0x2022, "endash": 0x2013, "emdash": 0x2014, "tilde": 0x2dc, "trademark": 0x2122, "Ydieresis": 0x178, "fi": 0xfb01, "fl": 0xfb02, "fraction": 0x2044, "dotlessi": 0x131, "Lslash": 0x141, "lslash": 0x142, "caron": 0x2c7, "breve": 0x2d8, "dotaccent": 0x2d9, "ring": 0x2da, "ogonek": 0x2db, "hungarumlaut": 0x2dd, "minus": 0x2212,
}

var glyphNames []string

func init() {
	for c := rune('a'); c <= 'z'; c++ {
		glyphName[string(c)] = c
		glyphName[string(c-32)] = c - 32
	}
	for i, n := range []string{"zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"} {
		glyphName[n] = rune('0' + i)
	}
	for n, u := range map[string]rune{"onesuperior": 0xb9, "twosuperior": 0xb2, "threesuperior": 0xb3, "mu": 0xb5, "ff": 0xfb00, "ffi": 0xfb03, "ffl": 0xfb04} {
		glyphName[n] = u
	}
	for n := range glyphName {
		glyphNames = append(glyphNames, n)
	}
	sortStrings(glyphNames)
}

// fontModel says what the codes of a font mean.
type fontModel struct {
	kind  string
	size  int
	codes []int
	text  map[int]string
}

// show draws a random string of n codes.
func (f *fontModel) show(r *rand.Rand, n int) ([]byte, string) {
	var b []byte
	s := ""
	for ; n > 0; n-- {
		c := f.codes[r.Intn(len(f.codes))]
		if f.size == 2 {
			b = append(b, byte(c>>8))
		}
		b = append(b, byte(c))
		s += f.text[c]
	}
	return b, s
}

func (f *fontModel) fix() {
	f.codes = f.codes[:0]
	for c := range f.text {
		f.codes = append(f.codes, c)
	}
	sortInts(f.codes)
}

func randText(r *rand.Rand) string {
	n := 1
	if r.Intn(5) == 0 {
		n = 2 + r.Intn(3)
	}
	s := ""
	for ; n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			s += string(rune(0x1f600 + r.Intn(60))) // beyond the BMP
		case 1:
			s += string(rune(0x4e00 + r.Intn(2000)))
		case 2:
			s += string(rune(0x391 + r.Intn(16)))
		case 3:
			s += string(rune(0xc0 + r.Intn(60)))
		default:
			s += string(rune('!' + r.Intn(90)))
		}
	}
	return s
}

func utf16hex(s string) Str {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return Str(b)
}

// cmap writes a ToUnicode CMap for m with codes of the given size, grouping
// the mappings at random into single mappings, ranges and array ranges.
func (d *docGen) cmap(m map[int]string, size int) []byte {
	r := d.r
	var codes []int
	for c := range m {
		codes = append(codes, c)
	}
	sortInts(codes)
	code := func(c int) Str {
		if size == 2 {
			return Str{byte(c >> 8), byte(c)}
		}
		return Str{byte(c)}
	}
	hexStr := func(s Str) string {
		f := "%X"
		if r.Intn(3) == 0 {
			f = "%x"
		}
		h := fmt.Sprintf(f, []byte(s))
		if r.Intn(6) == 0 && len(h) > 2 {
			h = h[:2] + " " + h[2:]
		}
		return "<" + h + ">"
	}
	nl := []string{"\n", "\r\n", "\n"}[r.Intn(3)]
	sp := []string{" ", "", "\t"}[r.Intn(3)]
	var chars, ranges []string
	for i := 0; i < len(codes); {
		// longest run of consecutive codes within the same high byte
		j := i
		for j+1 < len(codes) && codes[j+1] == codes[j]+1 && codes[j+1]>>8 == codes[i]>>8 && j-i < 40 {
			j++
		}
		if j > i && r.Intn(3) != 0 {
			j = i + 1 + r.Intn(j-i)
			counting := true
			base := utf16.Encode([]rune(m[codes[i]]))
			for k := i; k <= j; k++ {
				u := utf16.Encode([]rune(m[codes[k]]))
				want := append([]uint16{}, base...)
				want[len(want)-1] += uint16(k - i)
				if fmt.Sprint(u) != fmt.Sprint(want) || int(base[len(base)-1]&0xff)+k-i > 0xff {
					counting = false
				}
			}
			if counting {
				ranges = append(ranges, hexStr(code(codes[i]))+sp+hexStr(code(codes[j]))+sp+hexStr(utf16hex(m[codes[i]])))
			} else {
				a := "["
				for k := i; k <= j; k++ {
					a += hexStr(utf16hex(m[codes[k]])) + sp
				}
				ranges = append(ranges, hexStr(code(codes[i]))+sp+hexStr(code(codes[j]))+sp+a+"]")
			}
			i = j + 1
			continue
		}
		chars = append(chars, hexStr(code(codes[i]))+sp+hexStr(utf16hex(m[codes[i]])))
		i++
	}
	out := "/CIDInit /ProcSet findresource begin" + nl + "12 dict begin" + nl + "begincmap" + nl +
		"/CIDSystemInfo <</Registry (Adobe) /Ordering (UCS) /Supplement 0>> def" + nl + "/CMapName /Adobe-Identity-UCS def" + nl + "/CMapType 2 def" + nl
	if r.Intn(2) == 0 {
		out += "% a comment with <0041> <0042> and 1 beginbfchar" + nl
	}
	lo, hi := code(0), code(0xffff)
	out += "1 begincodespacerange" + nl + hexStr(lo) + " " + hexStr(hi) + nl + "endcodespacerange" + nl
	emit := func(what string, l []string) {
		for len(l) > 0 {
			n := 1 + r.Intn(100)
			if n > len(l) {
				n = len(l)
			}
			out += fmt.Sprintf("%d begin%s%s", n, what, nl)
			for _, x := range l[:n] {
				out += x
				if r.Intn(8) == 0 {
					out += " "
				} else {
					out += nl
				}
			}
			out += "end" + what + nl
			l = l[n:]
		}
	}
	if r.Intn(2) == 0 {
		emit("bfchar", chars)
		emit("bfrange", ranges)
	} else {
		emit("bfrange", ranges)
		emit("bfchar", chars)
	}
	return []byte(out + "endcmap" + nl + "CMapName currentdict /CMap defineresource pop" + nl + "end" + nl + "end" + nl)
}

// richFont makes a font whose codes need its encoding, differences or
// ToUnicode map to be understood.
func (d *docGen) richFont() (*Dict, *fontModel) {
	r := d.r
	m := &fontModel{size: 1, text: map[int]string{}}
	f := NewDict("Type", Name("Font"))
	if r.Intn(3) == 0 {
		// composite font
		m.kind, m.size = "type0", 2
		f.Set("Subtype", Name("Type0"))
		f.Set("BaseFont", Name("ABCDEF+Some-Font"))
		f.Set("Encoding", Name([]string{"Identity-H", "Identity-V"}[r.Intn(2)]))
		desc := NewDict("Type", Name("Font"), "Subtype", Name("CIDFontType2"), "BaseFont", Name("ABCDEF+Some-Font"), "CIDSystemInfo", NewDict("Registry", Str("Adobe"), "Ordering", Str("Identity"), "Supplement", Int(0)))
		f.Set("DescendantFonts", d.maybe(Arr{d.add(desc)}))
		n := 1 + r.Intn(120)
		start := r.Intn(0xff00)
		if r.Intn(3) == 0 {
			start = r.Intn(100) // all codes below 256
		}
		d.mapRun(m.text, start, n, 0xffff)
		f.Set("ToUnicode", d.stream(NewDict(), d.cmap(m.text, 2)))
		m.fix()
		return f, m
	}
	sub := []string{"Type1", "TrueType"}[r.Intn(2)]
	base := []string{"Helvetica", "Times-Roman", "Courier", "ABCDEF+Other"}[r.Intn(4)]
	f.Set("Subtype", Name(sub))
	f.Set("BaseFont", Name(base))
	enc := []string{"WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding"}[r.Intn(3)]
	tab := encTable(enc)
	m.kind = enc
	switch k := r.Intn(5); {
	case k == 0 && base != "ABCDEF+Other":
		tab = encTable("StandardEncoding") // the font's own encoding
		m.kind = "builtin"
	case k <= 2:
		f.Set("Encoding", d.maybe(Name(enc)))
	default:
		e := NewDict("Type", Name("Encoding"))
		if enc != "StandardEncoding" || r.Intn(2) == 0 {
			e.Set("BaseEncoding", Name(enc))
		} else if base == "ABCDEF+Other" {
			e.Set("BaseEncoding", Name(enc))
		}
		diff := Arr{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			c := r.Intn(250)
			diff = append(diff, Int(c))
			for j := 1 + r.Intn(5); j > 0 && c < 256; j-- {
				switch r.Intn(6) {
				case 0:
					u := rune(0x100 + r.Intn(0x3000))
					diff = append(diff, Name(fmt.Sprintf("uni%04X", u)))
					tab[c] = u
				case 1:
					u := rune(0x1f300 + r.Intn(100))
					diff = append(diff, Name(fmt.Sprintf("u%05X", u)))
					tab[c] = u
				default:
					n := glyphNames[r.Intn(len(glyphNames))]
					diff = append(diff, Name(n))
					tab[c] = glyphName[n]
				}
				c++
			}
		}
		e.Set("Differences", d.maybe(diff))
		f.Set("Encoding", d.maybe(e))
		m.kind += "+diff"
	}
	for c, u := range tab {
		m.text[c] = string(u)
	}
	if r.Intn(3) == 0 {
		// ToUnicode wins over the encoding; it may cover some codes only
		tu := map[int]string{}
		d.mapRun(tu, r.Intn(200), 1+r.Intn(50), 255)
		f.Set("ToUnicode", d.stream(NewDict(), d.cmap(tu, 1)))
		for c, s := range tu {
			m.text[c] = s
		}
		m.kind += "+tounicode"
	}
	m.fix()
	return f, m
}

// mapRun maps about n codes from start on.
func (d *docGen) mapRun(m map[int]string, start, n, max int) {
	r := d.r
	c := start
	for ; n > 0 && c <= max; n-- {
		if r.Intn(3) == 0 {
			// a counting run
			u := []rune{'A', 0x430, 0x4e00, 0x1f600}[r.Intn(4)]
			for k := r.Intn(12); k >= 0 && c <= max; k-- {
				m[c] = string(u)
				u++
				c++
			}
		} else {
			m[c] = randText(r)
			c++
		}
		if r.Intn(4) == 0 {
			c += r.Intn(20)
		}
	}
	if len(m) == 0 {
		m[start] = "x"
	}
}
