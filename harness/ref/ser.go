package ref

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
)

// Style controls surface syntax.  The zero Style (Plain) is canonical; with R
// set, whitespace, comments, string notation and name escapes vary.
type Style struct {
	R        *rand.Rand
	Comments bool // insert comments between tokens
	Tight    bool // omit optional whitespace
	HexStr   int  // percent of strings written in hexadecimal
	EscName  int  // percent chance of #xx for any name byte
	WildWS   bool // random white space (incl. NUL-free: space, tab, CR, LF, FF)
	OctStr   bool // use octal escapes & line continuations in literals
	SortKeys bool
}

var Plain = Style{}

func Ser(o Obj, st Style) []byte {
	var b bytes.Buffer
	ser(&b, o, st)
	return b.Bytes()
}

func (st Style) chance(p int) bool { return st.R != nil && st.R.Intn(100) < p }

func (st Style) ws(b *bytes.Buffer, required bool) {
	if st.R == nil {
		b.WriteByte(' ')
		return
	}
	if st.Tight && !required {
		return
	}
	if st.Comments && st.R.Intn(12) == 0 {
		cs := []string{"%c\n", "% endobj stream\n", "% ( << [ unbalanced\r\n", "%%\n", "% >> endstream 1 0 obj\n", "%\r", "% << /A 1 0 R (\r"}
		b.WriteByte('\n')
		b.WriteString(cs[st.R.Intn(len(cs))])
		return
	}
	if st.WildWS {
		w := []string{" ", "  ", "\t", "\n", "\r", "\r\n", "\f", " \n "}
		b.WriteString(w[st.R.Intn(len(w))])
		return
	}
	b.WriteByte(' ')
}

func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}

func isWS(c byte) bool {
	switch c {
	case 0, 9, 10, 12, 13, 32:
		return true
	}
	return false
}

func serName(b *bytes.Buffer, n string, st Style) {
	b.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c < 33 || c > 126 || isDelim(c) || c == '#' || st.chance(st.EscName) {
			if st.chance(50) {
				fmt.Fprintf(b, "#%02x", c)
			} else {
				fmt.Fprintf(b, "#%02X", c)
			}
		} else {
			b.WriteByte(c)
		}
	}
}

func SerString(s []byte, st Style) []byte {
	var b bytes.Buffer
	serStr(&b, s, st)
	return b.Bytes()
}

func serStr(b *bytes.Buffer, s []byte, st Style) {
	if st.chance(st.HexStr) {
		b.WriteByte('<')
		for i, c := range s {
			if st.WildWS && st.chance(5) {
				b.WriteByte('\n')
			}
			if st.chance(50) {
				fmt.Fprintf(b, "%02x", c)
			} else if i == len(s)-1 && c&15 == 0 && st.chance(50) {
				fmt.Fprintf(b, "%X", c>>4) // odd digit count: final 0 implied
			} else {
				fmt.Fprintf(b, "%02X", c)
			}
		}
		b.WriteByte('>')
		return
	}
	// balanced parentheses may be written bare
	balanced := false
	depth, ok := 0, true
	for _, c := range s {
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth < 0 {
				ok = false
			}
		}
	}
	if ok && depth == 0 && st.chance(50) {
		balanced = true
	}
	b.WriteByte('(')
	for i, c := range s {
		if st.OctStr && st.chance(3) {
			e := []string{"\\\n", "\\\r\n", "\\\r"}[st.R.Intn(3)]
			if c == '\n' {
				e = "\\\n"
			}
			b.WriteString(e)
		}
		if st.OctStr && !(balanced && (c == '(' || c == ')')) && st.chance(15) {
			// short octal only when not followed by an octal digit
			if c < 8 && (i+1 == len(s) || s[i+1] < '0' || s[i+1] > '7') && st.chance(50) {
				// the next char may itself be escaped; a short form is fine either way
				fmt.Fprintf(b, "\\%o", c)
			} else {
				fmt.Fprintf(b, "\\%03o", c)
			}
			continue
		}
		switch c {
		case '\\':
			b.WriteString("\\\\")
		case '(', ')':
			if balanced {
				b.WriteByte(c)
			} else {
				b.WriteByte('\\')
				b.WriteByte(c)
			}
		case '\r':
			b.WriteString("\\r")
		case '\n':
			if st.chance(30) {
				// any end-of-line marker inside a string stands for a line feed
				e := []string{"\n", "\r\n", "\r"}[st.R.Intn(3)]
				if i+1 < len(s) && s[i+1] == '\n' {
					e = "\n"
				}
				b.WriteString(e)
			} else {
				b.WriteString("\\n")
			}
		case '\t':
			if st.chance(50) {
				b.WriteByte('\t')
			} else {
				b.WriteString("\\t")
			}
		case 8:
			b.WriteString("\\b")
		case 12:
			b.WriteString("\\f")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(')')
}

func FmtReal(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !bytes.ContainsRune([]byte(s), '.') {
		s += ".0"
	}
	return s
}

// selfDelim: token starts with a delimiter so no whitespace is needed before it.
func selfDelim(o Obj) bool {
	switch o.(type) {
	case Name, Str, Arr, *Dict:
		return true
	}
	return false
}

func endsDelim(o Obj) bool {
	switch o.(type) {
	case Str, Arr, *Dict:
		return true
	}
	return false
}

func ser(b *bytes.Buffer, o Obj, st Style) {
	switch v := o.(type) {
	case nil, Null:
		b.WriteString("null")
	case Bool:
		if v {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case Int:
		if st.R != nil && st.WildWS && v >= 0 && st.chance(5) {
			b.WriteByte('+')
		}
		b.WriteString(strconv.FormatInt(int64(v), 10))
	case Real:
		s := FmtReal(float64(v))
		if st.R != nil && st.chance(30) {
			if len(s) > 2 && s[0] == '0' && s[1] == '.' {
				s = s[1:]
			} else if len(s) > 2 && s[len(s)-2:] == ".0" {
				s = s[:len(s)-1]
			}
		}
		b.WriteString(s)
	case Name:
		serName(b, string(v), st)
	case Str:
		serStr(b, v, st)
	case Ref:
		fmt.Fprintf(b, "%d", v.N)
		st.ws(b, true)
		fmt.Fprintf(b, "%d", v.G)
		st.ws(b, true)
		b.WriteByte('R')
	case Arr:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				req := !(selfDelim(e) || endsDelim(v[i-1]))
				st.ws(b, req)
			} else if st.R != nil && !st.Tight && st.chance(40) {
				st.ws(b, false)
			}
			ser(b, e, st)
		}
		if st.R != nil && !st.Tight && st.chance(40) {
			st.ws(b, false)
		}
		b.WriteByte(']')
	case *Dict:
		b.WriteString("<<")
		for i, k := range v.Keys {
			if i > 0 || !st.Tight {
				st.ws(b, false)
			}
			if structural[k] {
				// keys that drive the file structure keep their usual spelling
				b.WriteString("/" + k + " ")
				ser(b, v.M[k], Plain)
				continue
			}
			serName(b, k, st)
			st.ws(b, !selfDelim(v.M[k]))
			ser(b, v.M[k], st)
		}
		if !st.Tight {
			st.ws(b, false)
		}
		b.WriteString(">>")
	case *Stream:
		ser(b, v.D, st)
		b.WriteString("\nstream\n")
		b.Write(v.Raw)
		b.WriteString("\nendstream")
	default:
		panic(fmt.Sprintf("ser: %T", o))
	}
}

var structural = map[string]bool{"Length": true, "Filter": true, "Type": true, "Root": true, "Size": true, "W": true, "Index": true,
	"Prev": true, "Info": true, "N": true, "First": true, "DecodeParms": true, "Encrypt": true, "ID": true, "Pages": true, "Extends": true}
