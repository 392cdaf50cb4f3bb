// Package ref is an independent, deliberately strict implementation of the
// parts of ISO 32000 the checks need: object model, lexer, file reader, file
// builder, filters and the standard security handler.  It shares no code with
// the code under test.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
)

type Obj interface{}

type (
	Null struct{}
	Bool bool
	Int  int64
	Real float64
	Name string
	Str  []byte
	Arr  []Obj
	Ref  struct{ N, G int }
)

type Dict struct {
	Keys []string
	M    map[string]Obj
}

type Stream struct {
	D   *Dict
	Raw []byte
}

func NewDict(kv ...interface{}) *Dict {
	d := &Dict{M: map[string]Obj{}}
	for i := 0; i+1 < len(kv); i += 2 {
		d.Set(kv[i].(string), kv[i+1])
	}
	return d
}

func (d *Dict) Set(k string, v Obj) *Dict {
	if _, ok := d.M[k]; !ok {
		d.Keys = append(d.Keys, k)
	}
	d.M[k] = v
	return d
}

func (d *Dict) Del(k string) {
	if _, ok := d.M[k]; !ok {
		return
	}
	delete(d.M, k)
	for i, x := range d.Keys {
		if x == k {
			d.Keys = append(append([]string{}, d.Keys[:i]...), d.Keys[i+1:]...)
			return
		}
	}
}

func (d *Dict) Get(k string) Obj {
	if d == nil {
		return nil
	}
	return d.M[k]
}

func (d *Dict) Name(k string) string {
	if n, ok := d.Get(k).(Name); ok {
		return string(n)
	}
	return ""
}

func (d *Dict) Int(k string, def int) int {
	if n, ok := d.Get(k).(Int); ok {
		return int(n)
	}
	return def
}

func (d *Dict) Copy() *Dict {
	n := NewDict()
	for _, k := range d.Keys {
		n.Set(k, d.M[k])
	}
	return n
}

// Num returns a numeric value.
func Num(o Obj) (float64, bool) {
	switch v := o.(type) {
	case Int:
		return float64(v), true
	case Real:
		return float64(v), true
	}
	return 0, false
}

// Equal compares two object values; dictionary order is irrelevant and Int 1
// equals Real 1.0.  Streams compare dictionary and raw data.
func Equal(a, b Obj) bool { return Diff(a, b) == "" }

// Diff returns "" when equal or a description of the first difference.
func Diff(a, b Obj) string { return diff(a, b, "") }

func diff(a, b Obj, path string) string {
	if a == nil {
		a = Null{}
	}
	if b == nil {
		b = Null{}
	}
	if x, ok := Num(a); ok {
		y, ok2 := Num(b)
		if !ok2 {
			return fmt.Sprintf("%s: %s vs %s", path, Short(a), Short(b))
		}
		if x != y && math.Abs(x-y) > 1e-7*math.Abs(x) {
			return fmt.Sprintf("%s: %v vs %v", path, x, y)
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("%s: %s vs %s", path, Short(a), Short(b)) }
	switch x := a.(type) {
	case Null:
		if _, ok := b.(Null); !ok {
			return bad()
		}
	case Bool:
		if y, ok := b.(Bool); !ok || x != y {
			return bad()
		}
	case Name:
		if y, ok := b.(Name); !ok || x != y {
			return bad()
		}
	case Str:
		if y, ok := b.(Str); !ok || !bytes.Equal(x, y) {
			return bad()
		}
	case Ref:
		if y, ok := b.(Ref); !ok || x != y {
			return bad()
		}
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return bad()
		}
		for i := range x {
			if d := diff(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case *Dict:
		y, ok := b.(*Dict)
		if !ok {
			return bad()
		}
		for _, k := range sortedKeys(x) {
			v := x.M[k]
			w, ok := y.M[k]
			if !ok {
				if _, isNull := v.(Null); isNull {
					continue
				}
				return fmt.Sprintf("%s: key /%s missing", path, k)
			}
			if d := diff(v, w, path+"/"+k); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(y) {
			if _, ok := x.M[k]; !ok {
				if _, isNull := y.M[k].(Null); isNull {
					continue
				}
				return fmt.Sprintf("%s: extra key /%s = %s", path, k, Short(y.M[k]))
			}
		}
	case *Stream:
		y, ok := b.(*Stream)
		if !ok {
			return bad()
		}
		if d := diff(x.D, y.D, path); d != "" {
			return d
		}
		if !bytes.Equal(x.Raw, y.Raw) {
			return fmt.Sprintf("%s: stream data differs (%d vs %d bytes)", path, len(x.Raw), len(y.Raw))
		}
	default:
		return fmt.Sprintf("%s: unknown type %T", path, a)
	}
	return ""
}

func sortedKeys(d *Dict) []string {
	ks := append([]string{}, d.Keys...)
	sort.Strings(ks)
	return ks
}

// Short renders an object for messages.
func Short(o Obj) string {
	s := string(Ser(o, Plain))
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return strconv.Quote(s)
}
