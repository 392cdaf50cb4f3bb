package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/compare"
	. "verifharness/ref"
	"verifharness/rt"
)

// cForm is the form of a document: its fields and their values.
type cForm struct {
	xfa  bool
	vals map[string]interface{} // by full name; nil: a field without a value
}

func (f *cForm) clone() *cForm {
	if f == nil {
		return nil
	}
	n := &cForm{f.xfa, map[string]interface{}{}}
	for k, v := range f.vals {
		n.vals[k] = v
	}
	return n
}

func (f *cForm) names() []string {
	var l []string
	for k := range f.vals {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// values are those of the fields that have one.
func (f *cForm) values() map[string]interface{} {
	m := map[string]interface{}{}
	if f != nil {
		for k, v := range f.vals {
			if v != nil {
				m[k] = v
			}
		}
	}
	return m
}

func (f *cForm) kind() string {
	if f.xfa {
		return "xfa"
	}
	return "acroform"
}

// fieldName draws a name no field has, and that neither is nor has an ancestor
// among them.
func (f *cForm) fieldName(r *rand.Rand) string {
next:
	for {
		s := fmt.Sprintf("f%s%d", words[r.Intn(len(words))], r.Intn(30))
		if !f.xfa {
			for r.Intn(3) == 0 {
				s = []string{"g1.", "g2.", "g é."}[r.Intn(3)] + s
			}
		}
		for k := range f.vals {
			if k == s || strings.HasPrefix(k, s+".") || strings.HasPrefix(s, k+".") {
				continue next
			}
		}
		return s
	}
}

func (f *cForm) value(r *rand.Rand) interface{} {
	if f.xfa {
		s := []string{"true", "1", "1.0", "1.5", "01", "x", "False", "a b", "-3"}[r.Intn(9)]
		if r.Intn(2) == 0 {
			s = randWords(r, 1+r.Intn(3))
		}
		return dsValue(s)
	}
	one := func() string {
		if r.Intn(2) == 0 {
			return []string{"a", "b", "a b", "[a b]", "1", "1.0", "Yes", "yes", "[]", "<nil>"}[r.Intn(10)]
		}
		return metaText(r)
	}
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		l := []interface{}{}
		for n := 1 + r.Intn(3); n > 0; n-- {
			l = append(l, one())
		}
		return l
	case 2:
		return ""
	}
	return one()
}

func newCForm(r *rand.Rand) *cForm {
	f := &cForm{r.Intn(3) == 0, map[string]interface{}{}}
	for n := 1 + r.Intn(8); n > 0; n-- {
		k := f.fieldName(r)
		f.vals[k] = f.value(r)
	}
	return f
}

// edit returns another form made from it.
func (f *cForm) edit(r *rand.Rand, c *rt.C) *cForm {
	if f == nil {
		c.Obs("edit:form appears", 1)
		return newCForm(r)
	}
	n := f.clone()
	switch r.Intn(10) {
	case 0:
		c.Obs("edit:form dropped", 1)
		return nil
	case 1:
		c.Obs("edit:other kind of form", 1)
		n = &cForm{!f.xfa, map[string]interface{}{}}
		for _, k := range f.names() {
			if !strings.ContainsAny(k, ". ") {
				n.vals[k] = n.value(r)
			}
		}
		if len(n.vals) == 0 {
			n.vals["fone"] = n.value(r)
		}
		return n
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		l := n.names()
		at := l[r.Intn(len(l))]
		switch r.Intn(6) {
		case 0:
			n.vals[n.fieldName(r)] = n.value(r)
			c.Obs("edit:field added", 1)
		case 1:
			if len(l) > 1 {
				delete(n.vals, at)
				c.Obs("edit:field removed", 1)
			}
		case 2:
			if len(l) > 1 {
				to := n.fieldName(r)
				n.vals[to] = n.vals[at]
				delete(n.vals, at)
				c.Obs("edit:field renamed", 1)
			}
		case 3:
			// a value that prints like the old one
			switch v := n.vals[at].(type) {
			case string:
				if !f.xfa {
					n.vals[at] = []interface{}{v}
					c.Obs("edit:value to list", 1)
				}
			case []interface{}:
				var p []string
				for _, x := range v {
					p = append(p, x.(string))
				}
				if r.Intn(2) == 0 {
					n.vals[at] = []interface{}{strings.Join(p, " ")}
				} else {
					n.vals[at] = fmt.Sprint(v)
				}
				c.Obs("edit:list to like value", 1)
			}
		default:
			n.vals[at] = n.value(r)
			c.Obs("edit:field value", 1)
		}
	}
	return n
}

// render gives the document the form.
func (f *cForm) render(d *docGen) {
	r := d.r
	form := NewDict()
	l := f.names()
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if f.xfa {
		data := el("xfa:data")
		root := el("xfa:datasets", data).attr("xmlns:xfa", "http://www.xfa.org/schema/xfa-data/1.0/")
		top := data
		if r.Intn(2) == 0 {
			top = el("form1")
			data.add(top)
		}
		for _, k := range l {
			t := fmt.Sprint(f.vals[k])
			top.add(el(k, t))
		}
		t, _ := d.xfaStream([]byte(`<template xmlns="http://www.xfa.org/schema/xfa-template/3.0/"><subform name="form1"><field name="` + l[0] + `"/></subform></template>`))
		s, _ := d.xfaStream([]byte(writeXML(r, root)))
		arr := Arr{Str("template"), t, Str("datasets"), s}
		if r.Intn(2) == 0 {
			arr = Arr{Str("datasets"), s, Str("template"), t}
		}
		form.Set("XFA", d.maybe(arr))
		if r.Intn(2) == 0 {
			form.Set("Fields", Arr{})
		}
		d.catalog.Set("AcroForm", d.maybe(form))
		return
	}
	kids := map[string]Arr{}
	refs := map[string]Ref{}
	var order []string
	var node func(name string) Ref
	node = func(name string) Ref {
		if rf, ok := refs[name]; ok {
			return rf
		}
		dict := NewDict()
		rf := d.ref(d.alloc())
		d.objs[rf.N] = dict
		refs[name] = rf
		parent, last := "", name
		if i := strings.LastIndexByte(name, '.'); i >= 0 {
			parent, last = name[:i], name[i+1:]
			dict.Set("Parent", node(parent))
		}
		dict.Set("T", d.maybe(textStr(r, last)))
		kids[parent] = append(kids[parent], rf)
		order = append(order, name)
		return rf
	}
	for _, k := range l {
		dict := d.objs[node(k).N].(*Dict)
		switch v := f.vals[k].(type) {
		case nil:
			dict.Set("FT", Name([]string{"Tx", "Ch", "Btn"}[r.Intn(3)]))
		case string:
			if v != "" && r.Intn(4) == 0 && isPlainName(v) {
				dict.Set("FT", Name("Btn"))
				dict.Set("V", d.maybe(Name(v)))
				break
			}
			dict.Set("FT", d.maybe(Name([]string{"Tx", "Ch"}[r.Intn(2)])))
			dict.Set("V", d.maybe(textStr(r, v)))
		case []interface{}:
			dict.Set("FT", d.maybe(Name("Ch")))
			dict.Set("Ff", Int(ffMulti))
			a := Arr{}
			for _, x := range v {
				a = append(a, d.maybe(textStr(r, x.(string))))
			}
			dict.Set("V", d.maybe(a))
		}
		if r.Intn(3) == 0 {
			dict.Set("DV", Str("default"))
		}
		if r.Intn(3) == 0 {
			dict.Set("TU", textStr(r, metaText(r)))
		}
	}
	for _, n := range order {
		if len(kids[n]) > 0 {
			d.objs[refs[n].N].(*Dict).Set("Kids", d.maybe(kids[n]))
		}
	}
	form.Set("Fields", d.maybe(kids[""]))
	if r.Intn(2) == 0 {
		form.Set("DA", Str("/Helv 0 Tf 0 g"))
	}
	d.catalog.Set("AcroForm", d.maybe(form))
}

func isPlainName(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// checkForms checks what is said about the forms.
func (w cWant) checkForms(c *rt.C, what string, got *compare.FormDiff, report string) {
	a, b := w.old.form, w.new.form
	var add, rem, mod []compare.FormFieldChange
	typ := [2]string{}
	va, vb := a.values(), b.values()
	apart := (a == nil) != (b == nil)
	if a != nil && b != nil && a.xfa != b.xfa {
		apart = true
		typ = [2]string{a.kind(), b.kind()}
	}
	for _, k := range (&cForm{vals: va}).names() {
		if v, ok := vb[k]; !ok || apart {
			rem = append(rem, compare.FormFieldChange{FieldName: k, OldValue: va[k]})
		} else if !reflect.DeepEqual(v, va[k]) {
			mod = append(mod, compare.FormFieldChange{FieldName: k, OldValue: va[k], NewValue: v})
		}
	}
	for _, k := range (&cForm{vals: vb}).names() {
		if _, ok := va[k]; !ok || apart {
			add = append(add, compare.FormFieldChange{FieldName: k, NewValue: vb[k]})
		}
	}
	differ := typ[0] != "" || len(add)+len(rem)+len(mod) > 0
	if differ != (got != nil) {
		c.Failf("%s: forms differ: %v (added %v, removed %v, modified %v), but FormDiff is %+v", what, differ, add, rem, mod, got)
		return
	}
	if a != nil || b != nil {
		c.Obs("forms compared", 1)
	}
	if got == nil {
		if strings.Contains(report, "Form ") {
			c.Failf("%s: the text report speaks of form differences", what)
		}
		return
	}
	for _, k := range []struct {
		what, line string
		got, want  []compare.FormFieldChange
	}{{"added", "Fields Added", got.Added, add}, {"removed", "Fields Removed", got.Removed, rem}, {"modified", "Fields Modified", got.Modified, mod}} {
		if len(k.got) != len(k.want) || len(k.got) > 0 && !reflect.DeepEqual(k.got, k.want) {
			c.Failf("%s: form fields %s are %#v, want %#v", what, k.what, k.got, k.want)
			return
		}
		if n := fmt.Sprintf("  %s: %d\n", k.line, len(k.want)); strings.Contains(report, n) != (len(k.want) > 0) {
			c.Failf("%s: the text report says %q: %v, with %d fields", what, n, !(len(k.want) > 0), len(k.want))
		}
		for _, f := range k.want {
			line := f.FieldName + ": "
			switch k.what {
			case "added":
				line += fmt.Sprint(f.NewValue)
			case "removed":
				line += fmt.Sprint(f.OldValue)
			default:
				line += fmt.Sprint(f.OldValue) + " -> " + fmt.Sprint(f.NewValue)
			}
			if !strings.Contains(report, "- "+line+"\n") {
				c.Failf("%s: the text report leaves out %q", what, line)
			}
			c.Obs("form field "+k.what, 1)
		}
	}
	if typ[0] != "" {
		if got.FormType == nil || fmt.Sprint(got.FormType.OldValue) != typ[0] || fmt.Sprint(got.FormType.NewValue) != typ[1] {
			c.Failf("%s: kinds of form %v, reported %+v", what, typ, got.FormType)
		}
		if !strings.Contains(report, typ[0]+" -> "+typ[1]) {
			c.Failf("%s: the text report leaves out the kinds of form %v", what, typ)
		}
	} else if got.FormType != nil {
		c.Failf("%s: the kind of form is the same, but reported as %+v", what, got.FormType)
	}
}

// compareFormEdits compares documents whose forms differ.
func compareFormEdits(c *rt.C) {
	r := c.R
	g := &cGen{r: r}
	d := &cDoc{info: map[string]string{}}
	for n := 1 + r.Intn(2); n > 0; n-- {
		d.pages = append(d.pages, g.page())
	}
	d.crypt = r.Intn(4) == 0
	if r.Intn(8) > 0 {
		d.form = newCForm(r)
	}
	e := d.clone()
	e.crypt = r.Intn(4) == 0
	if r.Intn(6) > 0 {
		e.form = d.form.edit(r, c)
	}
	o := randOpts(r)
	a, pa := d.render(r)
	b, pb := e.render(r)
	c.Save("a.pdf", a)
	c.Save("b.pdf", b)
	what := fmt.Sprintf("forms (%+v)", o)
	res := cCompare(c, what, a, b, pa, pb, o)
	if res == nil {
		return
	}
	cWant{nil, d, e}.check(c, what, res, o)
	if c.Failed() {
		return
	}
	if res := cCompare(c, "swapped "+what, b, a, pb, pa, o); res != nil {
		cWant{nil, e, d}.check(c, "swapped "+what, res, o)
	}
	c.Distinct(fmt.Sprint(d.form, e.form))
}
