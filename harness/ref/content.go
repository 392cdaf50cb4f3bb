package ref

import (
	"fmt"
	"math"
)

// Op is one operator of a content stream with its operands.
type Op struct {
	Name string
	Args []Obj
	Data []byte // inline image data
}

func (o Op) String() string {
	s := ""
	for _, a := range o.Args {
		s += string(Ser(a, Plain)) + " "
	}
	return s + o.Name
}

// ParseContent splits a content stream into operators (strict syntax).
func ParseContent(b []byte) ([]Op, error) {
	p := NewP(b, 0)
	var out []Op
	var args []Obj
	for {
		p.SkipWS()
		if p.I >= len(p.B) {
			if len(args) > 0 {
				return out, fmt.Errorf("%d operands without an operator at the end", len(args))
			}
			return out, nil
		}
		c := p.B[p.I]
		isOp := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '\'' || c == '"'
		if isOp {
			s := p.I
			w := p.Word()
			if w == "true" || w == "false" || w == "null" {
				p.I = s
			} else {
				op := Op{Name: w, Args: args}
				if w == "BI" {
					d := NewDict()
					for {
						p.SkipWS()
						if p.I < len(p.B) && p.B[p.I] == '/' {
							k, err := p.name()
							if err != nil {
								return out, err
							}
							v, err := p.Object()
							if err != nil {
								return out, err
							}
							d.Set(string(k.(Name)), v)
							continue
						}
						break
					}
					if err := p.Keyword("ID"); err != nil {
						return out, err
					}
					p.I++
					s := p.I
					for ; ; p.I++ {
						if p.I+2 > len(p.B) {
							return out, fmt.Errorf("inline image without EI")
						}
						if p.B[p.I] == 'E' && p.B[p.I+1] == 'I' && p.I > s && isWS(p.B[p.I-1]) && (p.I+2 == len(p.B) || isWS(p.B[p.I+2])) {
							break
						}
					}
					op.Data = b[s : p.I-1]
					op.Args = []Obj{d}
					p.I += 2
				}
				out = append(out, op)
				args = nil
				continue
			}
		}
		o, err := p.Object()
		if err != nil {
			return out, err
		}
		if _, isRef := o.(Ref); isRef {
			return out, fmt.Errorf("reference in content stream")
		}
		args = append(args, o)
	}
}

// OpDiff compares operators, numbers within tol.
func OpDiff(got, want Op, tol float64) string {
	if got.Name != want.Name || len(got.Args) != len(want.Args) {
		return fmt.Sprintf("operator %q, want %q", got, want)
	}
	for i := range want.Args {
		if !near(got.Args[i], want.Args[i], tol) {
			return fmt.Sprintf("operator %q, want %q", got, want)
		}
	}
	return ""
}

func near(a, b Obj, tol float64) bool {
	if x, ok := Num(a); ok {
		y, ok := Num(b)
		return ok && math.Abs(x-y) <= tol*math.Max(1, math.Abs(y)*1e-9)
	}
	if x, ok := a.(Arr); ok {
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !near(x[i], y[i], tol) {
				return false
			}
		}
		return true
	}
	return Equal(a, b)
}
