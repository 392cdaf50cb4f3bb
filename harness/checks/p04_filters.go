package checks

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"fmt"
	"math/rand"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verifharness/ref"
	"verifharness/rt"
)

// payload draws data with the run structure that trips encoders up.
func payload(r *rand.Rand, max int) []byte {
	n := r.Intn(max + 1)
	if r.Intn(4) == 0 {
		n = r.Intn(12)
	}
	var b []byte
	for len(b) < n {
		switch r.Intn(7) {
		case 0:
			b = append(b, rbytes(r, 1+r.Intn(40))...)
		case 1:
			b = append(b, bytes.Repeat([]byte{byte(r.Intn(256))}, 1+r.Intn(300))...)
		case 2:
			b = append(b, make([]byte, 1+r.Intn(20))...)
		case 3:
			b = append(b, bytes.Repeat([]byte{byte(r.Intn(256))}, []int{126, 127, 128, 129, 130, 255, 256, 257}[r.Intn(8)])...)
		case 4:
			b = append(b, bytes.Repeat([]byte{0xff}, 1+r.Intn(9))...)
		case 5:
			// alternating, no runs
			x := byte(r.Intn(256))
			for i := 0; i < []int{1, 2, 127, 128, 129, 200}[r.Intn(6)]; i++ {
				b = append(b, x+byte(i%2))
			}
		default:
			b = append(b, randWords(r, 1+r.Intn(8))...)
		}
	}
	return b[:n]
}

func sprinkle(r *rand.Rand, b []byte) []byte {
	ws := " \t\r\n\f\x00"
	var o []byte
	for _, c := range b {
		if r.Intn(10) == 0 {
			o = append(o, ws[r.Intn(len(ws))])
		}
		o = append(o, c)
	}
	return o
}

func slash(r *rand.Rand, n string) string {
	if r.Intn(2) == 0 {
		return "/" + n
	}
	return n
}

func zlibVariant(r *rand.Rand, d []byte) []byte {
	var b bytes.Buffer
	lv := []int{flate.NoCompression, flate.BestSpeed, flate.BestCompression, flate.DefaultCompression, flate.HuffmanOnly}[r.Intn(5)]
	w, _ := zlib.NewWriterLevel(&b, lv)
	for len(d) > 0 {
		k := 1 + r.Intn(len(d))
		w.Write(d[:k])
		d = d[k:]
		if r.Intn(3) == 0 {
			w.Flush()
		}
	}
	w.Close()
	return b.Bytes()
}

// decodeCase: what an independent encoder wrote is decoded back exactly.
func decodeCase(max int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		for it := 0; it < 12; it++ {
			d := payload(r, max)
			var name string
			var enc []byte
			switch it % 4 {
			case 0:
				name, enc = "FlateDecode", zlibVariant(r, d)
			case 1:
				name, enc = "ASCIIHexDecode", sprinkle(r, ref.AHxEncode(d))
				if r.Intn(2) == 0 {
					enc = bytes.ToLower(enc)
				}
				if len(d) > 0 && d[len(d)-1]&15 == 0 && r.Intn(2) == 0 {
					// odd number of digits
					if k := bytes.LastIndexByte(enc, '0'); k >= 0 && len(bytes.Trim(enc[k+1:], " \t\r\n\f\x00")) <= 1 {
						enc = append(enc[:k:k], enc[k+1:]...)
					}
				}
				if r.Intn(3) == 0 {
					enc = append(enc, "garbage after the end marker"...)
				}
			case 2:
				name, enc = "ASCII85Decode", sprinkle(r, ref.A85Encode(d, false))
				switch r.Intn(4) {
				case 0:
				case 1:
					enc = append(append(enc, "~>"...), "trailing z garbage"...)
				default:
					enc = append(enc, "~>"...)
				}
				if len(enc) > 1 && enc[0] == '<' && enc[1] == '~' {
					continue
				}
			case 3:
				name, enc = "RunLengthDecode", ref.RLEncode(d, r)
				if r.Intn(3) == 0 {
					enc = append(enc, rbytes(r, 5)...)
				}
			}
			keep := append([]byte{}, enc...)
			got, err := parse.DecodeFilter(enc, slash(r, name))
			if err != nil || !bytes.Equal(got, d) {
				c.Save("encoded", enc)
				c.Save("want", d)
				c.Failf("%s: decoding %d encoded bytes (%q...) gives %d bytes, err %v; want the %d bytes that were encoded", name, len(enc), clipB(enc), len(got), err, len(d))
				return
			}
			if !bytes.Equal(keep, enc) {
				c.Failf("%s: the decoder modified its input", name)
				return
			}
			c.Obs("decoded", 1)
			c.Distinct(name, len(d), fmt.Sprint(ref.Hash(enc)))
			c.Sample("%s: %d bytes encoded to %d, decoded exactly", name, len(d), len(enc))
		}
	}
}

// encodeCase: the library's encoders are read by independent decoders and by
// the library itself.
func encodeCase(max int) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		for it := 0; it < 9; it++ {
			d := payload(r, max)
			keep := append([]byte{}, d...)
			var name string
			var enc, back []byte
			var err error
			switch it % 3 {
			case 0:
				name, enc = "ASCIIHexDecode", parse.EncodeASCIIHex(d)
				back, err = ref.AHxDecode(enc)
			case 1:
				name, enc = "ASCII85Decode", parse.EncodeASCII85(d)
				// documented: wrapped in <~ ~>
				if !bytes.HasPrefix(enc, []byte("<~")) || !bytes.HasSuffix(enc, []byte("~>")) {
					c.Failf("EncodeASCII85 output is not wrapped in <~ ~>: %q", clipB(enc))
					return
				}
				back, err = ref.A85Decode(enc[2:])
			case 2:
				name, enc = "RunLengthDecode", parse.EncodeRunLength(d)
				back, err = ref.RLDecode(enc)
				if err == nil && len(enc) > len(d)*2+2 {
					c.Failf("EncodeRunLength blows %d bytes up to %d", len(d), len(enc))
					return
				}
			}
			if err != nil || !bytes.Equal(back, d) {
				c.Save("data", d)
				c.Failf("%s: an independent decoder reads %d bytes (%v) from the encoding of %d bytes %q", name, len(back), err, len(d), clipB(d))
				return
			}
			own, err := parse.DecodeFilter(enc, slash(r, name))
			if err != nil || !bytes.Equal(own, d) {
				c.Save("data", d)
				c.Failf("%s: own encoding decodes to %d bytes (%v), want %d", name, len(own), err, len(d))
				return
			}
			if !bytes.Equal(keep, d) {
				c.Failf("%s: the encoder modified its input", name)
				return
			}
			c.Obs("encoded", 1)
			c.Distinct("enc", name, len(d), fmt.Sprint(ref.Hash(enc)))
		}
	}
}

// malformedCase: damaged data is refused or decoded as the reference does,
// never turned into other data.
func malformedCase(c *rt.C) {
	r := c.R
	for it := 0; it < 16; it++ {
		d := payload(r, 300)
		var name, why string
		var enc []byte
		switch it % 8 {
		case 0: // truncated deflate
			name, why = "FlateDecode", "truncated"
			d = append(d, rbytes(r, 40)...)
			z := zlibVariant(r, d)
			enc = z[:r.Intn(len(z)-5)]
		case 1: // damaged checksum or header
			name, why = "FlateDecode", "checksum damaged"
			enc = zlibVariant(r, d)
			enc[len(enc)-1-r.Intn(4)] ^= byte(1 + r.Intn(255))
		case 2:
			name, why = "ASCIIHexDecode", "foreign character"
			enc = ref.AHxEncode(append(d, 1))
			enc[r.Intn(len(enc)-1)] = "GgxZ!<(~-"[r.Intn(9)]
		case 3:
			name, why = "ASCII85Decode", "foreign character"
			e := append(ref.A85Encode(append(d, 1, 2, 3, 4, 5), false), "~>"...)
			e[r.Intn(len(e)-2)] = "vwxy{|}\x7f"[r.Intn(8)]
			enc = e
		case 4:
			name, why = "ASCII85Decode", "z inside a group"
			enc = []byte("9jqo^z9jqo^~>")
			enc = append(append([]byte("9jqo^")[:1+r.Intn(4)], 'z'), "9jqo^~>"...)
		case 5:
			name, why = "ASCII85Decode", "group out of range"
			enc = append(ref.A85Encode(d[:len(d)/4*4], false), []string{"uuuuu~>", "s8W-\"~>", "t!!!!~>", "uu~>", "s9!~>", "uuuu"}[r.Intn(6)]...)
		case 6:
			name, why = "RunLengthDecode", "literal run cut short"
			e := ref.RLEncode(d, r)
			k := 1 + r.Intn(127)
			enc = append(append(e[:len(e)-1:len(e)-1], byte(k)), rbytes(r, r.Intn(k+1))...)
		case 7:
			name, why = "RunLengthDecode", "repeat run cut short"
			e := ref.RLEncode(d, r)
			enc = append(e[:len(e)-1:len(e)-1], byte(129+r.Intn(127)))
		}
		got, err := parse.DecodeFilter(enc, slash(r, name))
		if err == nil {
			c.Save("encoded", enc)
			c.Failf("%s (%s): %d bytes %q decode to %d bytes without an error", name, why, len(enc), clipB(enc), len(got))
			return
		}
		c.Obs("refused", 1)
		c.Distinct("bad", name, why, fmt.Sprint(ref.Hash(enc)))
	}
	for _, n := range []string{"", "LZWDecode", "/JPXDecode", "Flate", "flatedecode", "/FlateDecode ", "CCITTFaxDecode", "DCT"} {
		if _, err := parse.DecodeFilter([]byte("abc"), n); err == nil {
			c.Failf("unsupported filter %q accepted", n)
		}
		c.Obs("refused", 1)
	}
	jpg := append([]byte{0xff, 0xd8}, payload(r, 200)...)
	if got, err := parse.DecodeFilter(jpg, slash(r, "DCTDecode")); err != nil || !bytes.Equal(got, jpg) {
		c.Failf("DCTDecode does not pass JPEG data through unchanged (%v)", err)
	}
	bad := payload(r, 20)
	if len(bad) < 2 || bad[0] != 0xff || bad[1] != 0xd8 {
		if _, err := parse.DecodeFilter(bad, "DCTDecode"); err == nil {
			c.Failf("DCTDecode accepts data that is not JPEG: %q", bad)
		}
		if _, err := parse.EncodeDCTDecode(bad); err == nil {
			c.Failf("EncodeDCTDecode accepts data that is not JPEG: %q", bad)
		}
	}
}

func init() {
	rt.Register(&rt.Check{
		ID: "P04", Title: "Stream filters",
		Rule: "distinct_nontrivial = cases with a distinct set of (filter, encoded bytes) inputs whose decoding was compared with independent encoders/decoders or whose refusal was checked",
		Families: []rt.Family{
			{Name: "decode", Quick: 6000, Thorough: 40000, Run: decodeCase(700)},
			{Name: "decode-large", Quick: 240, Thorough: 1200, Run: decodeCase(80000)},
			{Name: "encode", Quick: 6000, Thorough: 40000, Run: encodeCase(700)},
			{Name: "encode-large", Quick: 240, Thorough: 1200, Run: encodeCase(60000)},
			{Name: "malformed", Quick: 2400, Thorough: 20000, Run: malformedCase},
		},
	})
}
