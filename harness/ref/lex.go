package ref

import (
	"bytes"
	"fmt"
	"strconv"
)

// P is a strict recursive-descent parser over B starting at I.
type P struct {
	B     []byte
	I     int
	depth int
	// Len resolves an indirect /Length; nil refuses them.
	Len func(Ref) (int, error)
}

func NewP(b []byte, i int) *P { return &P{B: b, I: i} }

func (p *P) errf(f string, a ...interface{}) error {
	return fmt.Errorf("offset %d: "+f, append([]interface{}{p.I}, a...)...)
}

func (p *P) SkipWS() {
	for p.I < len(p.B) {
		c := p.B[p.I]
		if isWS(c) {
			p.I++
		} else if c == '%' {
			for p.I < len(p.B) && p.B[p.I] != '\n' && p.B[p.I] != '\r' {
				p.I++
			}
		} else {
			return
		}
	}
}

func (p *P) EOF() bool { p.SkipWS(); return p.I >= len(p.B) }

// Word reads a run of regular characters.
func (p *P) Word() string {
	s := p.I
	for p.I < len(p.B) && !isWS(p.B[p.I]) && !isDelim(p.B[p.I]) {
		p.I++
	}
	return string(p.B[s:p.I])
}

func (p *P) Keyword(k string) error {
	p.SkipWS()
	s := p.I
	if w := p.Word(); w != k {
		p.I = s
		return p.errf("expected %q, found %q", k, clip(p.B[s:]))
	}
	return nil
}

func clip(b []byte) string {
	if len(b) > 40 {
		b = b[:40]
	}
	return string(b)
}

func (p *P) Uint() (int, error) {
	p.SkipWS()
	s := p.I
	w := p.Word()
	n, err := strconv.ParseUint(w, 10, 40)
	if err != nil {
		p.I = s
		return 0, p.errf("expected unsigned integer, found %q", clip(p.B[s:]))
	}
	return int(n), nil
}

func isNumTok(w string) bool {
	if w == "" {
		return false
	}
	i := 0
	if w[0] == '+' || w[0] == '-' {
		i = 1
	}
	dots, digs := 0, 0
	for ; i < len(w); i++ {
		if w[i] == '.' {
			dots++
		} else if w[i] >= '0' && w[i] <= '9' {
			digs++
		} else {
			return false
		}
	}
	return dots <= 1 && digs > 0
}

// Object parses a direct object (or reference).
func (p *P) Object() (Obj, error) {
	p.SkipWS()
	if p.I >= len(p.B) {
		return nil, p.errf("unexpected end of data")
	}
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 200 {
		return nil, p.errf("nesting too deep")
	}
	switch c := p.B[p.I]; c {
	case '/':
		return p.name()
	case '(':
		return p.litStr()
	case '[':
		p.I++
		a := Arr{}
		for {
			p.SkipWS()
			if p.I >= len(p.B) {
				return nil, p.errf("unterminated array")
			}
			if p.B[p.I] == ']' {
				p.I++
				return a, nil
			}
			e, err := p.Object()
			if err != nil {
				return nil, err
			}
			a = append(a, e)
		}
	case '<':
		if p.I+1 < len(p.B) && p.B[p.I+1] == '<' {
			p.I += 2
			d := NewDict()
			for {
				p.SkipWS()
				if p.I+1 >= len(p.B) {
					return nil, p.errf("unterminated dictionary")
				}
				if p.B[p.I] == '>' && p.B[p.I+1] == '>' {
					p.I += 2
					return d, nil
				}
				if p.B[p.I] != '/' {
					return nil, p.errf("dictionary key expected, found %q", clip(p.B[p.I:]))
				}
				k, err := p.name()
				if err != nil {
					return nil, err
				}
				if _, dup := d.M[string(k.(Name))]; dup {
					return nil, p.errf("duplicate key /%s", k)
				}
				v, err := p.Object()
				if err != nil {
					return nil, err
				}
				d.Set(string(k.(Name)), v)
			}
		}
		return p.hexStr()
	case ')', '>', ']', '{', '}':
		return nil, p.errf("unexpected delimiter %q", c)
	}
	s := p.I
	w := p.Word()
	switch w {
	case "true":
		return Bool(true), nil
	case "false":
		return Bool(false), nil
	case "null":
		return Null{}, nil
	}
	if !isNumTok(w) {
		p.I = s
		return nil, p.errf("unexpected token %q", clip(p.B[s:]))
	}
	if bytes.IndexByte([]byte(w), '.') >= 0 {
		f, err := strconv.ParseFloat(w, 64)
		if err != nil {
			return nil, p.errf("bad real %q", w)
		}
		return Real(f), nil
	}
	n, err := strconv.ParseInt(w, 10, 64)
	if err != nil {
		return nil, p.errf("bad integer %q", w)
	}
	if w[0] != '+' && w[0] != '-' {
		// reference look-ahead
		save := p.I
		p.SkipWS()
		if p.I > save {
			if g := p.Word(); g != "" && len(g) <= 5 && allDigits(g) {
				at := p.I
				p.SkipWS()
				if p.I > at && p.Word() == "R" {
					gi, _ := strconv.Atoi(g)
					return Ref{int(n), gi}, nil
				}
			}
		}
		p.I = save
	}
	return Int(n), nil
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *P) name() (Obj, error) {
	p.I++
	var out []byte
	for p.I < len(p.B) && !isWS(p.B[p.I]) && !isDelim(p.B[p.I]) {
		c := p.B[p.I]
		if c == '#' {
			if p.I+2 >= len(p.B) || hexVal(p.B[p.I+1]) < 0 || hexVal(p.B[p.I+2]) < 0 {
				return nil, p.errf("bad # escape in name")
			}
			out = append(out, byte(hexVal(p.B[p.I+1])<<4|hexVal(p.B[p.I+2])))
			p.I += 3
			continue
		}
		out = append(out, c)
		p.I++
	}
	return Name(out), nil
}

func (p *P) litStr() (Obj, error) {
	p.I++
	out := []byte{}
	depth := 1
	for p.I < len(p.B) {
		c := p.B[p.I]
		p.I++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return Str(out), nil
			}
			out = append(out, c)
		case '\r':
			if p.I < len(p.B) && p.B[p.I] == '\n' {
				p.I++
			}
			out = append(out, '\n')
		case '\\':
			if p.I >= len(p.B) {
				return nil, p.errf("unterminated string")
			}
			e := p.B[p.I]
			p.I++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case '\r':
				if p.I < len(p.B) && p.B[p.I] == '\n' {
					p.I++
				}
			case '\n':
			case '0', '1', '2', '3', '4', '5', '6', '7':
				v := int(e - '0')
				for k := 0; k < 2 && p.I < len(p.B) && p.B[p.I] >= '0' && p.B[p.I] <= '7'; k++ {
					v = v*8 + int(p.B[p.I]-'0')
					p.I++
				}
				out = append(out, byte(v))
			default:
				out = append(out, e)
			}
		default:
			out = append(out, c)
		}
	}
	return nil, p.errf("unterminated string")
}

func (p *P) hexStr() (Obj, error) {
	p.I++
	out := []byte{}
	hi := -1
	for p.I < len(p.B) {
		c := p.B[p.I]
		p.I++
		if c == '>' {
			if hi >= 0 {
				out = append(out, byte(hi<<4))
			}
			return Str(out), nil
		}
		if isWS(c) {
			continue
		}
		v := hexVal(c)
		if v < 0 {
			return nil, p.errf("bad hex digit %q", c)
		}
		if hi < 0 {
			hi = v
		} else {
			out = append(out, byte(hi<<4|v))
			hi = -1
		}
	}
	return nil, p.errf("unterminated hex string")
}

// Body parses the body of an indirect object (value or stream).  It stops
// after the value or after "endstream".
func (p *P) Body() (Obj, error) {
	v, err := p.Object()
	if err != nil {
		return nil, err
	}
	d, ok := v.(*Dict)
	if !ok {
		return v, nil
	}
	save := p.I
	p.SkipWS()
	if p.Word() != "stream" {
		p.I = save
		return v, nil
	}
	if p.I < len(p.B) && p.B[p.I] == '\r' {
		p.I++
		if p.I >= len(p.B) || p.B[p.I] != '\n' {
			return nil, p.errf("stream keyword followed by lone CR")
		}
		p.I++
	} else if p.I < len(p.B) && p.B[p.I] == '\n' {
		p.I++
	} else {
		return nil, p.errf("stream keyword not followed by end of line")
	}
	n := -1
	switch l := d.Get("Length").(type) {
	case Int:
		n = int(l)
	case Ref:
		if p.Len == nil {
			return nil, p.errf("indirect /Length")
		}
		n, err = p.Len(l)
		if err != nil {
			return nil, err
		}
	}
	if n < 0 || p.I+n > len(p.B) {
		return nil, p.errf("bad /Length %s", Short(d.Get("Length")))
	}
	raw := p.B[p.I : p.I+n]
	p.I += n
	// optional EOL then endstream
	q := p.I
	if q < len(p.B) && p.B[q] == '\r' {
		q++
	}
	if q < len(p.B) && p.B[q] == '\n' {
		q++
	}
	if !bytes.HasPrefix(p.B[q:], []byte("endstream")) {
		return nil, p.errf("endstream not found right after /Length %d bytes of data (found %q)", n, clip(p.B[p.I:]))
	}
	p.I = q + 9
	return &Stream{D: d, Raw: append([]byte{}, raw...)}, nil
}

// Indirect parses "N G obj ... endobj" at the current position.
func (p *P) Indirect() (n, g int, o Obj, err error) {
	if n, err = p.Uint(); err != nil {
		return
	}
	if g, err = p.Uint(); err != nil {
		return
	}
	if err = p.Keyword("obj"); err != nil {
		return
	}
	if o, err = p.Body(); err != nil {
		return
	}
	err = p.Keyword("endobj")
	return
}

// ParseValue parses exactly one object covering all of b.
func ParseValue(b []byte) (Obj, error) {
	p := NewP(b, 0)
	v, err := p.Body()
	if err != nil {
		return nil, err
	}
	if !p.EOF() {
		return nil, p.errf("trailing data %q", clip(b[p.I:]))
	}
	return v, nil
}
