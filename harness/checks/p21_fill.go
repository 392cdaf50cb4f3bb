package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// edits are the expected changes of a document, by object number; the value of
// a nil entry is the original one.
type edits map[int]func(o Obj) Obj

// sameExcept checks that a rewritten document is the source with the edits
// applied: every other object, the trailer, the encryption and the version.
func sameExcept(c *rt.C, what string, d *doc, out []byte, ed edits) *File {
	f, err := OpenStrict(out, d.PW)
	if err != nil {
		c.Failf("%s: the result is not well-formed: %v", what, err)
		return nil
	}
	if _, err := f.Pages(); err != nil {
		c.Failf("%s: the result: %v", what, err)
		return nil
	}
	if (f.Crypt != nil) != (d.File.Crypt != nil) {
		c.Failf("%s: encrypted %v, source encrypted %v", what, f.Crypt != nil, d.File.Crypt != nil)
		return nil
	}
	same := func(a Ref, b Obj) (bool, string) {
		if rb, ok := b.(Ref); !ok || rb.N != a.N {
			return true, fmt.Sprintf("reference to object %d became %s", a.N, Short(b))
		}
		return true, ""
	}
	q := &iso{src: d.File, dst: f, seen: map[[2]int]bool{}, page: same}
	for _, n := range d.File.Nums() {
		if d.B.Infra[n] || n == d.B.EncNum {
			continue
		}
		want, err := d.File.Get(n)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if _, isNull := want.(Null); isNull {
			continue
		}
		if e := ed[n]; e != nil {
			want = e(want)
		}
		got, err := f.Get(n)
		if err != nil {
			c.Failf("%s: object %d is gone: %v", what, n, err)
			return nil
		}
		if s := q.diff(want, got, fmt.Sprintf("object %d", n), 0); s != "" {
			c.Failf("%s: %s", what, s)
			return nil
		}
		c.Obs("objects", 1)
	}
	if rr, ok := f.Trailer.Get("Root").(Ref); !ok || rr.N != d.rootNum {
		c.Failf("%s: trailer /Root is %s", what, Short(f.Trailer.Get("Root")))
	}
	if d.infoNum != 0 {
		if rr, ok := f.Trailer.Get("Info").(Ref); !ok || rr.N != d.infoNum {
			c.Failf("%s: trailer /Info is %s", what, Short(f.Trailer.Get("Info")))
		}
	}
	return f
}

// setKeys returns an edit that sets entries of a dictionary; nil removes.
func setKeys(kv ...interface{}) func(o Obj) Obj {
	return func(o Obj) Obj {
		d := o.(*Dict).Copy()
		for i := 0; i < len(kv); i += 2 {
			if kv[i+1] == nil {
				d.Del(kv[i].(string))
			} else {
				d.Set(kv[i].(string), kv[i+1])
			}
		}
		return d
	}
}

// fillVal is a value to fill in.
type fillVal struct {
	in   interface{}
	want interface{} // as extracted afterwards
}

// anyFloat draws a float of any magnitude a form may hold.
func anyFloat(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return []float64{0, 12500000.5, 0.00001, -0.000001234, 1e6, 1e21, -123456789, 999999.5, 1e7, 4503599627370496.5}[r.Intn(10)]
	case 1:
		return float64(r.Int63n(1<<52)-1<<51) / float64(int64(1)<<uint(r.Intn(30)))
	}
	return float64(r.Intn(1000000)-500000) / 1000
}

// fillValue draws a value for a field.
func fillValue(r *rand.Rand, f *fld) (fillVal, bool) {
	text := func() string {
		if r.Intn(10) == 0 {
			return ""
		}
		return metaText(r)
	}
	switch f.ft {
	case "Tx", "Ch":
		if f.ft == "Ch" && r.Intn(3) == 0 {
			var l []string
			var li, w []interface{}
			for n := r.Intn(4); n > 0; n-- {
				s := metaText(r)
				if len(f.opt) > 0 {
					s = f.opt[r.Intn(len(f.opt))].value
				}
				l = append(l, s)
				li = append(li, s)
				w = append(w, s)
			}
			if w == nil {
				w = []interface{}{}
			}
			if r.Intn(2) == 0 {
				return fillVal{l, w}, true
			}
			return fillVal{li, w}, true
		}
		switch r.Intn(6) {
		case 0:
			n := r.Intn(100000) - 500
			return fillVal{n, strconv.Itoa(n)}, true
		case 1:
			x := anyFloat(r)
			return fillVal{x, strconv.FormatFloat(x, 'f', -1, 64)}, true
		case 2:
			if f.ft == "Tx" {
				b := r.Intn(2) == 0
				return fillVal{b, fmt.Sprint(b)}, true
			}
		}
		s := text()
		return fillVal{s, s}, true
	case "Btn":
		if f.ff&ffPush != 0 {
			return fillVal{}, false
		}
		states := f.states()
		if r.Intn(3) == 0 {
			on := "Yes"
			if len(states) > 1 {
				return fillVal{"Off", "Off"}, true
			}
			if len(states) == 1 {
				on = states[0]
			}
			if r.Intn(2) == 0 {
				return fillVal{true, on}, true
			}
			return fillVal{false, "Off"}, true
		}
		s := "Off"
		if len(states) > 0 && r.Intn(3) != 0 {
			s = states[r.Intn(len(states))]
		} else if len(states) == 0 && r.Intn(2) == 0 {
			s = []string{"Yes", "A B", "x#y", "1"}[r.Intn(4)]
		}
		return fillVal{s, s}, true
	}
	return fillVal{}, false
}

// states lists the distinct states of a button's widgets.
func (f *fld) states() []string {
	var l []string
	seen := map[string]bool{}
	for _, w := range f.widgets {
		for _, s := range w.states {
			if !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
	}
	return l
}

func fillEdits(g *formGen, fill map[*fld]fillVal) (edits, map[int]interface{}) {
	ed := edits{}
	vals := map[int]interface{}{} // object -> value that must be read from /V
	for f, v := range fill {
		f := f
		vals[f.ref.N] = v.want
		if f.ft == "Btn" {
			on := v.want.(string)
			for _, w := range f.widgets {
				as := on
				if len(w.states) > 0 {
					as = "Off"
					for _, s := range w.states {
						if s == on {
							as = on
						}
					}
				}
				ed[w.ref.N] = setKeys("AS", Name(as))
			}
			if prev := ed[f.ref.N]; prev != nil {
				ed[f.ref.N] = func(o Obj) Obj { return setKeys("V", nil)(prev(o)) }
			} else {
				ed[f.ref.N] = setKeys("V", nil)
			}
			continue
		}
		ed[f.ref.N] = setKeys("V", nil, "I", nil, "RV", nil)
	}
	return ed, vals
}

// checkFilled compares a filled document with the source: /V of the given
// fields, the states of their widgets, nothing else.
func checkFilled(c *rt.C, what string, d *doc, g *formGen, fill map[*fld]fillVal, out []byte) {
	ed, vals := fillEdits(g, fill)
	// values are compared apart, as text has more than one form
	f, err := OpenStrict(out, d.PW)
	if err != nil {
		c.Failf("%s: the result is not well-formed: %v", what, err)
		return
	}
	strip := edits{}
	for n, e := range ed {
		n, e := n, e
		strip[n] = func(o Obj) Obj {
			x := e(o).(*Dict)
			if _, ok := vals[n]; ok {
				if got := f.Dict(Ref{n, 0}); got != nil && got.Get("V") != nil {
					x.Set("V", got.Get("V"))
				}
			}
			return x
		}
	}
	na := func(o Obj) Obj { return setKeys("NeedAppearances", Bool(true))(o) }
	if len(fill) == 0 {
		na = func(o Obj) Obj {
			// nothing to draw anew: either way
			x := o.(*Dict).Copy()
			got := f.Dict(f.Catalog().Get("AcroForm"))
			if got == nil {
				return x
			}
			x.Set("NeedAppearances", got.Get("NeedAppearances"))
			return x
		}
	}
	if g.formRef.N != 0 {
		strip[g.formRef.N] = na
	} else {
		strip[d.rootNum] = func(o Obj) Obj {
			x := o.(*Dict).Copy()
			x.Set("AcroForm", na(x.Get("AcroForm")))
			return x
		}
	}
	if sameExcept(c, what, d, out, strip) == nil {
		return
	}
	for n, want := range vals {
		got := plainValue(f, f.Dict(Ref{n, 0}).Get("V"))
		if !reflect.DeepEqual(got, want) {
			c.Failf("%s: /V of object %d is %#v, want %#v", what, n, got, want)
			return
		}
		c.Obs("filled", 1)
	}
	// and the library reads it back
	af, err := acroform.ExtractAcroForm(out, d.PW, false)
	if err != nil {
		c.Failf("%s: ExtractAcroForm of the result: %v", what, err)
		return
	}
	got := af.GetFieldValues()
	for _, t := range g.terminal() {
		want := t.v
		if v, ok := fill[t]; ok {
			want = v.want
		}
		if !reflect.DeepEqual(got[t.full], want) {
			c.Failf("%s: value of %q reads back as %#v, want %#v", what, t.full, got[t.full], want)
			return
		}
		c.Obs("read back", 1)
	}
}

// plainValue turns a stored value into what extraction reports.
func plainValue(f *File, o Obj) interface{} {
	switch x := f.Resolve(o).(type) {
	case Str:
		return textOf([]byte(x))
	case Name:
		return string(x)
	case Arr:
		l := []interface{}{}
		for _, e := range x {
			l = append(l, plainValue(f, e))
		}
		return l
	}
	return nil
}

func fillCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		d, g := formDoc(r, crypt)
		c.Save("in.pdf", d.B.B)
		in := append([]byte{}, d.B.B...)
		cnt := map[string]int{}
		full := map[string]bool{}
		for _, f := range g.all {
			cnt[f.t]++
			full[f.full] = true
		}
		data := types.FormData{}
		fill := map[*fld]fillVal{}
		for _, f := range g.terminal() {
			if r.Intn(2) == 0 {
				continue
			}
			name := f.full
			if cnt[f.t] == 1 && !full[f.t] && r.Intn(3) == 0 {
				name = f.t // the partial name is enough
			}
			v, ok := fillValue(r, f)
			if !ok {
				data[name] = "has no value" // signatures and push buttons
				continue
			}
			data[name] = v.in
			fill[f] = v
		}
		if r.Intn(3) == 0 {
			data["no such field"] = "x"
		}
		keep := fmt.Sprintf("%#v", data)
		var out []byte
		var err error
		what := ""
		switch k := r.Intn(7); k {
		case 0:
			what = "FillForm"
			out, err = acroform.FillForm(d.B.B, data, d.PW, false)
		case 1:
			what = "FillFormFields"
			out, err = acroform.FillFormFields(d.B.B, data, d.PW, false)
		case 2:
			what = "FillFormFieldsWithStreams"
			out, err = acroform.FillFormFieldsWithStreams(d.B.B, data, d.PW, false)
		case 3:
			what = "FillFormFromSchema"
			var s *types.FormSchema
			if s, err = acroform.ExtractFormSchema(d.B.B, d.PW, false); err == nil {
				out, err = acroform.FillFormFromSchema(d.B.B, s, data, d.PW, false)
			}
		case 4:
			what = "ExtractAndFill"
			out, err = acroform.ExtractAndFill(d.B.B, data, d.PW, false)
		case 5:
			what = "forms.Extract + Fill"
			var fm forms.Form
			if fm, err = forms.Extract(d.B.B, d.PW, false); err == nil {
				out, err = fm.Fill(d.B.B, data, d.PW, false)
			}
		case 6:
			// one field at a time
			what = "FillFieldValue"
			pdf, e := parse.OpenWithOptions(d.B.B, parse.ParseOptions{Password: d.PW})
			if e != nil {
				c.Failf("OpenWithOptions: %v", e)
				return
			}
			af, e := acroform.ExtractAcroForm(d.B.B, d.PW, false)
			if e != nil {
				c.Failf("ExtractAcroForm: %v", e)
				return
			}
			var only *fld
			for _, f := range g.terminal() {
				if _, ok := fill[f]; ok {
					only = f
				}
			}
			if only == nil {
				return
			}
			fill = map[*fld]fillVal{only: fill[only]}
			out, err = acroform.FillFieldValue(d.B.B, af.FindFieldByName(only.full), fill[only].in, pdf.Encryption(), false)
		}
		if err != nil {
			c.Failf("%s (%s): %v", what, d.Enc, err)
			return
		}
		c.Save("out.pdf", out)
		checkFilled(c, what, d, g, fill, out)
		if !c.Failed() && len(fill) > 0 && r.Intn(4) == 0 {
			// filling the result again with the same data changes nothing more
			out2, err := acroform.FillFormFields(out, data, d.PW, false)
			if what == "FillFieldValue" {
				out2, err = out, nil
			}
			if err != nil {
				c.Failf("filling the result of %s again: %v", what, err)
				return
			}
			checkFilled(c, what+", again", d, g, fill, out2)
		}
		if !bytes.Equal(in, d.B.B) {
			c.Failf("%s modified the caller's document", what)
		}
		if fmt.Sprintf("%#v", data) != keep {
			c.Failf("%s modified the caller's data", what)
		}
		c.Distinct(what, len(g.all), len(fill), d.Enc, len(d.B.B))
		c.Sample("%s: %d of %d fields %s", what, len(fill), len(g.all), d.Enc)
	}
}

// flattenCase removes the form from the catalog.
func flattenCase(c *rt.C) {
	r := c.R
	d, g := formDoc(r, r.Intn(3) == 0)
	c.Save("in.pdf", d.B.B)
	in := append([]byte{}, d.B.B...)
	out, err := acroform.FlattenForm(d.B.B, d.PW, false)
	if err != nil {
		c.Failf("FlattenForm (%s): %v", d.Enc, err)
		return
	}
	c.Save("out.pdf", out)
	sameExcept(c, "FlattenForm", d, out, edits{d.rootNum: setKeys("AcroForm", nil)})
	if _, err := acroform.ExtractAcroForm(out, d.PW, false); err == nil {
		c.Failf("the flattened document still has a form")
	}
	if !bytes.Equal(in, d.B.B) {
		c.Failf("FlattenForm modified the caller's document")
	}
	c.Distinct(len(g.all), d.Enc, len(d.B.B))
	c.Sample("%d fields %s", len(g.all), d.Enc)
}

// replaceCase replaces objects of a form by others.
func replaceCase(c *rt.C) {
	r := c.R
	d, g := formDoc(r, r.Intn(3) == 0)
	c.Save("in.pdf", d.B.B)
	pdf, err := parse.OpenWithOptions(d.B.B, parse.ParseOptions{Password: d.PW})
	if err != nil {
		c.Failf("OpenWithOptions: %v", err)
		return
	}
	pick := func() (*fld, Obj, []byte) {
		f := g.all[r.Intn(len(g.all))]
		nd := f.d.Copy()
		nd.Set("TU", Str(d.g.str()))
		nd.Set("New"+d.g.name(), d.g.obj(2))
		b := Ser(nd, d.S.St)
		if r.Intn(3) == 0 {
			b = []byte(fmt.Sprintf("%d %d obj\n%s\nendobj\n", f.ref.N, f.ref.G, b))
		}
		return f, nd, b
	}
	ed := edits{}
	var out []byte
	what := ""
	if r.Intn(2) == 0 {
		what = "ReplaceFieldObject"
		f, nd, b := pick()
		keep := append([]byte{}, b...)
		ed[f.ref.N] = func(Obj) Obj { return nd }
		out, err = acroform.ReplaceFieldObject(d.B.B, f.ref.N, f.ref.G, b, pdf.Encryption(), false)
		if !bytes.Equal(keep, b) {
			c.Failf("%s modified the caller's object", what)
		}
	} else {
		what = "RebuildObjectStream"
		// the objects of one object stream
		by := map[int][]*fld{}
		var stms []int
		for _, f := range g.all {
			if s := d.B.Live[f.ref.N].InStm; s != 0 {
				if by[s] == nil {
					stms = append(stms, s)
				}
				by[s] = append(by[s], f)
			}
		}
		if len(stms) == 0 {
			return
		}
		s := stms[r.Intn(len(stms))]
		var up []acroform.StreamObjectUpdate
		for _, f := range by[s] {
			if r.Intn(3) == 0 {
				continue
			}
			nd := f.d.Copy().Set("TU", Str(d.g.str()))
			ed[f.ref.N] = func(Obj) Obj { return nd }
			up = append(up, acroform.StreamObjectUpdate{ObjNum: f.ref.N, Index: d.B.Live[f.ref.N].Idx, NewContent: Ser(nd, d.S.St)})
		}
		out, err = acroform.RebuildObjectStream(d.B.B, s, up, pdf.Encryption(), false)
	}
	if err != nil {
		c.Failf("%s (%s): %v", what, d.Enc, err)
		return
	}
	c.Save("out.pdf", out)
	sameExcept(c, what, d, out, ed)
	c.Distinct(what, len(ed), d.Enc, len(d.B.B))
	c.Sample("%s: %d objects %s", what, len(ed), d.Enc)
}

func init() {
	rt.Register(&rt.Check{
		ID: "P21", Title: "Filling a form sets the given fields and changes nothing else",
		Rule: "distinct_nontrivial = cases with a distinct (entry point, fields, fields filled, encryption, file size) whose result was compared object by object with the source",
		Families: []rt.Family{
			{Name: "fill", Quick: 1000, Thorough: 16000, Run: fillCase(false)},
			{Name: "fill-encrypted", Quick: 400, Thorough: 6000, Run: fillCase(true)},
			{Name: "flatten", Quick: 250, Thorough: 4000, Run: flattenCase},
			{Name: "replace", Quick: 250, Thorough: 4000, Run: replaceCase},
		},
	})
}
