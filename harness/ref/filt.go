package ref

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math/rand"
)

func Zlib(data []byte, level int) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, level)
	w.Write(data)
	w.Close()
	return b.Bytes()
}

func Unzlib(data []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(io.LimitReader(r, 256<<20))
	if err != nil {
		return nil, err
	}
	return out, nil
}

// PNGEncode applies PNG row filters; ft<0 picks a random type for each row.
func PNGEncode(data []byte, columns, bpp int, ft int, r *rand.Rand) []byte {
	var out []byte
	prev := make([]byte, columns)
	for i := 0; i < len(data); i += columns {
		row := make([]byte, columns)
		copy(row, data[i:])
		n := columns
		if i+n > len(data) {
			n = len(data) - i
		}
		f := ft
		if f < 0 {
			f = r.Intn(5)
		}
		out = append(out, byte(f))
		for j := 0; j < n; j++ {
			var a, b, c int
			if j >= bpp {
				a = int(row[j-bpp])
				c = int(prev[j-bpp])
			}
			b = int(prev[j])
			var p int
			switch f {
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = (a + b) / 2
			case 4:
				p = paeth(a, b, c)
			}
			out = append(out, row[j]-byte(p))
		}
		prev = row
	}
	return out
}

func paeth(a, b, c int) int {
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func PNGDecode(data []byte, columns, bpp int) ([]byte, error) {
	var out []byte
	prev := make([]byte, columns)
	for i := 0; i < len(data); i += columns + 1 {
		f := data[i]
		end := i + 1 + columns
		if end > len(data) {
			return nil, fmt.Errorf("partial predictor row")
		}
		row := append([]byte{}, data[i+1:end]...)
		for j := range row {
			var a, b, c int
			if j >= bpp {
				a = int(row[j-bpp])
				c = int(prev[j-bpp])
			}
			b = int(prev[j])
			switch f {
			case 0:
			case 1:
				row[j] += byte(a)
			case 2:
				row[j] += byte(b)
			case 3:
				row[j] += byte((a + b) / 2)
			case 4:
				row[j] += byte(paeth(a, b, c))
			default:
				return nil, fmt.Errorf("bad PNG filter %d", f)
			}
		}
		out = append(out, row...)
		prev = row
	}
	return out, nil
}

func A85Encode(d []byte, eod bool) []byte {
	var b bytes.Buffer
	for i := 0; i < len(d); i += 4 {
		var v uint32
		n := len(d) - i
		if n > 4 {
			n = 4
		}
		for k := 0; k < 4; k++ {
			v <<= 8
			if k < n {
				v |= uint32(d[i+k])
			}
		}
		if n == 4 && v == 0 {
			b.WriteByte('z')
			continue
		}
		var c [5]byte
		for k := 4; k >= 0; k-- {
			c[k] = byte(v%85) + '!'
			v /= 85
		}
		b.Write(c[:n+1])
	}
	if eod {
		b.WriteString("~>")
	}
	return b.Bytes()
}

func A85Decode(s []byte) ([]byte, error) {
	out := []byte{}
	var grp []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isWS(c) {
			continue
		}
		if c == '~' {
			if i+1 >= len(s) || s[i+1] != '>' {
				return nil, fmt.Errorf("bad EOD")
			}
			break
		}
		if c == 'z' {
			if len(grp) != 0 {
				return nil, fmt.Errorf("z inside group")
			}
			out = append(out, 0, 0, 0, 0)
			continue
		}
		if c < '!' || c > 'u' {
			return nil, fmt.Errorf("bad char %q", c)
		}
		grp = append(grp, c-'!')
		if len(grp) == 5 {
			var v uint64
			for _, g := range grp {
				v = v*85 + uint64(g)
			}
			if v > 0xffffffff {
				return nil, fmt.Errorf("overflow")
			}
			out = append(out, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
			grp = grp[:0]
		}
	}
	if len(grp) == 1 {
		return nil, fmt.Errorf("lone final char")
	}
	if len(grp) > 1 {
		n := len(grp) - 1
		for len(grp) < 5 {
			grp = append(grp, 84)
		}
		var v uint64
		for _, g := range grp {
			v = v*85 + uint64(g)
		}
		if v > 0xffffffff {
			return nil, fmt.Errorf("overflow")
		}
		w := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		out = append(out, w[:n]...)
	}
	return out, nil
}

func AHxDecode(s []byte) ([]byte, error) {
	out := []byte{}
	hi := -1
	for _, c := range s {
		if isWS(c) {
			continue
		}
		if c == '>' {
			break
		}
		v := hexVal(c)
		if v < 0 {
			return nil, fmt.Errorf("bad hex %q", c)
		}
		if hi < 0 {
			hi = v
		} else {
			out = append(out, byte(hi<<4|v))
			hi = -1
		}
	}
	if hi >= 0 {
		out = append(out, byte(hi<<4))
	}
	return out, nil
}

func AHxEncode(d []byte) []byte {
	var b bytes.Buffer
	for _, c := range d {
		fmt.Fprintf(&b, "%02X", c)
	}
	b.WriteByte('>')
	return b.Bytes()
}

func RLDecode(s []byte) ([]byte, error) {
	out := []byte{}
	i := 0
	for i < len(s) {
		l := int(s[i])
		i++
		if l == 128 {
			return out, nil
		}
		if l < 128 {
			if i+l+1 > len(s) {
				return nil, fmt.Errorf("literal run past end")
			}
			out = append(out, s[i:i+l+1]...)
			i += l + 1
		} else {
			if i >= len(s) {
				return nil, fmt.Errorf("repeat run past end")
			}
			for k := 0; k < 257-l; k++ {
				out = append(out, s[i])
			}
			i++
		}
	}
	return out, nil
}

// RLEncode picks runs at random so every legal encoding is reachable.
func RLEncode(d []byte, r *rand.Rand) []byte {
	var out []byte
	for i := 0; i < len(d); {
		run := 1
		for i+run < len(d) && d[i+run] == d[i] && run < 128 {
			run++
		}
		if run >= 2 && r.Intn(4) != 0 {
			n := run
			if r.Intn(3) == 0 {
				n = 2 + r.Intn(run-1)
			}
			out = append(out, byte(257-n), d[i])
			i += n
			continue
		}
		n := 1 + r.Intn(128)
		if r.Intn(3) == 0 {
			n = 128
		}
		if i+n > len(d) {
			n = len(d) - i
		}
		out = append(out, byte(n-1))
		out = append(out, d[i:i+n]...)
		i += n
	}
	return append(out, 128)
}

// DecodeStream applies the filter chain of s.
func DecodeStream(s *Stream) ([]byte, error) {
	var fs []string
	switch f := s.D.Get("Filter").(type) {
	case Name:
		fs = []string{string(f)}
	case Arr:
		for _, e := range f {
			n, ok := e.(Name)
			if !ok {
				return nil, fmt.Errorf("bad filter entry")
			}
			fs = append(fs, string(n))
		}
	case nil:
	default:
		return nil, fmt.Errorf("bad /Filter")
	}
	var parms []*Dict
	switch f := s.D.Get("DecodeParms").(type) {
	case *Dict:
		parms = []*Dict{f}
	case Arr:
		for _, e := range f {
			d, _ := e.(*Dict)
			parms = append(parms, d)
		}
	}
	data := s.Raw
	var err error
	for i, f := range fs {
		switch f {
		case "FlateDecode":
			if data, err = Unzlib(data); err != nil {
				return nil, err
			}
			if i < len(parms) && parms[i] != nil {
				pr := parms[i].Int("Predictor", 1)
				col := parms[i].Int("Columns", 1) * parms[i].Int("Colors", 1) * parms[i].Int("BitsPerComponent", 8) / 8
				bpp := parms[i].Int("Colors", 1) * parms[i].Int("BitsPerComponent", 8) / 8
				if bpp < 1 {
					bpp = 1
				}
				if pr >= 10 {
					if data, err = PNGDecode(data, col, bpp); err != nil {
						return nil, err
					}
				} else if pr != 1 {
					return nil, fmt.Errorf("predictor %d", pr)
				}
			}
		case "ASCIIHexDecode":
			if data, err = AHxDecode(data); err != nil {
				return nil, err
			}
		case "ASCII85Decode":
			if data, err = A85Decode(data); err != nil {
				return nil, err
			}
		case "RunLengthDecode":
			if data, err = RLDecode(data); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("filter %s not supported by the reference reader", f)
		}
	}
	return data, nil
}

// Hash is a short content fingerprint.
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
