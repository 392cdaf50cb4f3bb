package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// textsOf lists the texts a value consists of.
func textsOf(v interface{}) []string {
	switch x := v.(type) {
	case nil:
		return nil
	case string:
		return []string{x}
	case int:
		return []string{strconv.Itoa(x)}
	case float64:
		return []string{strconv.FormatFloat(x, 'f', -1, 64)}
	case bool:
		return []string{fmt.Sprint(x)}
	case []string:
		return x
	case []interface{}:
		var l []string
		for _, e := range x {
			l = append(l, textsOf(e)...)
		}
		return l
	}
	panic("harness: value")
}

func isBlank(v interface{}) bool { return len(textsOf(v)) == 0 || v == "" }

// accepts says whether a field takes a value, by its type, flags and options.
func (f *fld) accepts(v interface{}) bool {
	l := textsOf(v)
	if isBlank(v) {
		return f.ff&ffRequired == 0
	}
	known := func(s string) bool {
		for _, o := range f.opt {
			if o.value == s {
				return true
			}
		}
		return false
	}
	switch f.ft {
	case "Tx":
		return f.maxLen == 0 || utf8.RuneCountInString(l[0]) <= f.maxLen
	case "Btn":
		if f.ff&ffRadio != 0 && len(f.opt) > 0 {
			return l[0] == "Off" || known(l[0])
		}
	case "Ch":
		if len(f.opt) == 0 || f.ff&ffCombo != 0 && f.ff&ffEdit != 0 {
			return true
		}
		if len(l) > 1 && f.ff&ffMulti == 0 {
			return false
		}
		for _, s := range l {
			if !known(s) {
				return false
			}
		}
	}
	return true
}

// candidate draws a value that may or may not suit the field.
func (f *fld) candidate(r *rand.Rand) interface{} {
	if r.Intn(8) == 0 {
		n := 2
		if f.ft == "Ch" {
			n = 4
		}
		return []interface{}{nil, "", []string{}, []interface{}{}}[r.Intn(n)]
	}
	switch f.ft {
	case "Tx":
		switch r.Intn(6) {
		case 0:
			return r.Intn(1000000) - 1000
		case 1:
			return float64(r.Intn(1000000)) / 64
		case 2:
			if f.maxLen > 0 {
				// right at the limit, in characters of several bytes
				n := f.maxLen + r.Intn(3) - 1
				if n > 0 {
					return strings.Repeat([]string{"a", "é", "語", "😀"}[r.Intn(4)], n)
				}
			}
		}
		return metaText(r)
	case "Ch", "Btn":
		one := func() string {
			if len(f.opt) > 0 && r.Intn(4) != 0 {
				o := f.opt[r.Intn(len(f.opt))]
				if r.Intn(6) == 0 {
					return o.label
				}
				return o.value
			}
			if f.ft == "Btn" && r.Intn(2) == 0 {
				return []string{"Off", "Yes", "On"}[r.Intn(3)]
			}
			return metaText(r)
		}
		if f.ft == "Ch" && r.Intn(3) == 0 {
			var l []string
			var li []interface{}
			for n := 1 + r.Intn(3); n > 0; n-- {
				s := one()
				l, li = append(l, s), append(li, s)
			}
			if len(l) == 1 && l[0] == "" {
				return ""
			}
			if r.Intn(2) == 0 {
				return l
			}
			return li
		}
		if f.ft == "Ch" && r.Intn(8) == 0 {
			return r.Intn(40)
		}
		return one()
	}
	return "x"
}

// constrain makes constraints frequent and adds those formGen leaves out.
func (g *formGen) constrain() {
	r := g.r
	for _, f := range g.all {
		if len(f.kids) > 0 {
			continue
		}
		if r.Intn(3) == 0 {
			f.ff |= ffRequired
		}
		if f.ft == "Tx" && r.Intn(2) == 0 {
			f.maxLen = 1 + r.Intn(12)
		}
		if f.ft == "Ch" && r.Intn(2) == 0 {
			f.ff = f.ff&(ffRequired|1) | []int{0, ffCombo, ffCombo | ffEdit, ffEdit, ffMulti, ffMulti | ffCombo}[r.Intn(6)]
		}
		f.d.Set("Ff", g.maybe(Int(f.ff)))
		if f.maxLen > 0 {
			f.d.Set("MaxLen", g.maybe(Int(f.maxLen)))
		}
	}
}

func errNames(errs []error) []string {
	var l []string
	for _, e := range errs {
		if v, ok := e.(*acroform.ValidationError); ok {
			l = append(l, v.FieldName)
		} else {
			l = append(l, "? "+e.Error())
		}
	}
	return l
}

// sameFields compares reported errors with the names expected to have one.
func sameFields(c *rt.C, what string, errs []error, want map[string]bool, unknown []string) bool {
	got := map[string]bool{}
	rest := 0
	for _, n := range errNames(errs) {
		if strings.HasPrefix(n, "? ") {
			rest++
			ok := false
			for _, u := range unknown {
				ok = ok || strings.Contains(n, u)
			}
			if !ok {
				c.Failf("%s: unexpected error %q", what, n)
				return false
			}
			continue
		}
		if !want[n] {
			c.Failf("%s: rejects %q, whose value is fine", what, n)
			return false
		}
		got[n] = true
	}
	for n := range want {
		if !got[n] {
			c.Failf("%s: accepts a wrong or missing value of %q", what, n)
			return false
		}
	}
	if rest != len(unknown) {
		c.Failf("%s: %d errors for %d unknown names", what, rest, len(unknown))
		return false
	}
	c.Obs("errors", len(errs))
	return true
}

func formDataCase(c *rt.C) {
	r := c.R
	var g *formGen
	d := genDoc(r, docOpts{pages: 1 + r.Intn(2), mild: true, extra: 500, setup: func(d *docGen) {
		g = d.makeForm()
		g.constrain()
	}})
	c.Save("in.pdf", d.B.B)
	af, err := acroform.ExtractAcroForm(d.B.B, d.PW, false)
	if err != nil {
		c.Failf("ExtractAcroForm: %v", err)
		return
	}
	cnt, full := map[string]int{}, map[string]bool{}
	for _, f := range g.all {
		cnt[f.t]++
		full[f.full] = true
	}
	data := types.FormData{}
	bad := map[string]bool{}
	for _, f := range g.terminal() {
		x := af.FindFieldByName(f.full)
		if x == nil {
			c.Failf("no field %q", f.full)
			return
		}
		if r.Intn(4) == 0 {
			if f.ff&ffRequired != 0 {
				bad[f.full] = true // missing
			}
			continue
		}
		v := f.candidate(r)
		name := f.full
		if cnt[f.t] == 1 && !full[f.t] && r.Intn(4) == 0 {
			name = f.t
		}
		data[name] = v
		ok := f.accepts(v)
		if !ok {
			bad[f.full] = true
		}
		err := acroform.ValidateField(x, v)
		if (err == nil) != ok {
			c.Failf("ValidateField(%q, type %s flags %#x length %d options %v; %#v) gives %v, want acceptance %v", f.full, f.ft, f.ff, f.maxLen, f.opt, v, err, ok)
			return
		}
		if ve, isV := err.(*acroform.ValidationError); err != nil && (!isV || ve.FieldName != f.full) {
			c.Failf("ValidateField(%q): the error is %v", f.full, err)
			return
		}
		c.Obs("values", 1)
	}
	var unknown []string
	for k := r.Intn(3); k > 0; k-- {
		u := fmt.Sprintf("no such field %d", k)
		data[u] = "x"
		unknown = append(unknown, "'"+u+"'")
	}
	keep := fmt.Sprintf("%#v", data)
	errs := acroform.ValidateFormData(af, data)
	if !sameFields(c, "ValidateFormData", errs, bad, unknown) {
		return
	}
	for k := 0; k < 3; k++ {
		again := acroform.ValidateFormData(af, copyData(data))
		if !reflect.DeepEqual(errNames(again), errNames(errs)) {
			c.Failf("ValidateFormData reports %q, then %q", errNames(errs), errNames(again))
			return
		}
	}
	// the same through the unified interface
	fm, err := forms.Extract(d.B.B, d.PW, false)
	if err != nil {
		c.Failf("forms.Extract: %v", err)
		return
	}
	if !sameFields(c, "Form.Validate", fm.Validate(data), bad, unknown) {
		return
	}
	if fmt.Sprintf("%#v", data) != keep {
		c.Failf("validation modified the caller's data")
	}
	c.Distinct(len(g.all), len(data), len(bad), keep)
	c.Sample("%d values for %d fields, %d errors", len(data), len(g.all), len(errs))
}

func copyData(d types.FormData) types.FormData {
	n := types.FormData{}
	for k, v := range d {
		n[k] = v
	}
	return n
}

// pattern is a pattern with a predicate that decides it.
type pattern struct {
	re string
	ok func(s string) bool
}

var patterns = []pattern{
	{`^[0-9]{3}$`, func(s string) bool { return len(s) == 3 && strings.Trim(s, "0123456789") == "" }},
	{`^a`, func(s string) bool { return strings.HasPrefix(s, "a") }},
	{`@`, func(s string) bool { return strings.Contains(s, "@") }},
	{`^(yes|no)$`, func(s string) bool { return s == "yes" || s == "no" }},
	{`z$`, func(s string) bool { return strings.HasSuffix(s, "z") }},
	{`\.`, func(s string) bool { return strings.Contains(s, ".") }},
}

func schemaCase(c *rt.C) {
	r := c.R
	s := &types.FormSchema{}
	data := types.FormData{}
	bad := map[string]bool{}
	for i := 1 + r.Intn(8); i > 0; i-- {
		q := types.Question{ID: fmt.Sprint(i), Name: fmt.Sprintf("q%d.%s", i, randWords(r, 1)), Required: r.Intn(3) == 0}
		q.Type = []types.ResponseType{types.ResponseTypeText, types.ResponseTypeText, types.ResponseTypeNumber, types.ResponseTypeCheckbox}[r.Intn(4)]
		var v interface{}
		switch r.Intn(6) {
		case 5:
			v = []interface{}{0, 0.0, "0", -1, 1, "-0.5", 12500000.5, 0.00001, "0.0", -0.5, "1e3"}[r.Intn(11)]
		case 0:
			v = r.Intn(400) - 100
		case 1:
			v = float64(r.Intn(40000)-10000) / 128
		case 2:
			v = []string{"123", "12", "abc", "yes", "no", "maybe", "a@b.c", "fizz", "12.5", "-3", "007"}[r.Intn(11)]
		case 3:
			v = strings.Repeat([]string{"a", "é", "語", "😀"}[r.Intn(4)], 1+r.Intn(8))
		case 4:
			v = r.Intn(2) == 0
		}
		t := textsOf(v)[0]
		ok := true
		if r.Intn(4) != 0 {
			q.Validation = &types.ValidationRules{}
			n := utf8.RuneCountInString(t)
			if r.Intn(3) == 0 {
				m := n + r.Intn(3) - 1
				if m < 0 {
					m = 0
				}
				q.Validation.MinLength = &m
				ok = ok && n >= m
			}
			if r.Intn(3) == 0 {
				m := n + r.Intn(3) - 1
				if m < 0 {
					m = 0
				}
				q.Validation.MaxLength = &m
				ok = ok && n <= m
			}
			if r.Intn(3) == 0 {
				p := patterns[r.Intn(len(patterns))]
				q.Validation.Pattern = p.re
				ok = ok && p.ok(t)
				if r.Intn(2) == 0 {
					q.Validation.ErrorMessage = "custom"
				}
			}
			if num, err := strconv.ParseFloat(t, 64); err == nil || r.Intn(3) == 0 {
				if r.Intn(2) == 0 {
					m := num + float64(r.Intn(5)-2)/2
					q.Validation.MinValue = &m
					ok = ok && (q.Type != types.ResponseTypeNumber || err != nil || num >= m)
				}
				if r.Intn(2) == 0 {
					m := num + float64(r.Intn(5)-2)/2
					q.Validation.MaxValue = &m
					ok = ok && (q.Type != types.ResponseTypeNumber || err != nil || num <= m)
				}
			}
		}
		err := acroform.ValidateFieldValue(&q, v)
		if (err == nil) != ok {
			c.Failf("ValidateFieldValue(%s %+v, %#v) gives %v, want acceptance %v", q.Type, q.Validation, v, err, ok)
			return
		}
		if ve, isV := err.(*acroform.ValidationError); err != nil && (!isV || ve.FieldName != q.Name) {
			c.Failf("ValidateFieldValue: the error is %v", err)
			return
		}
		s.Questions = append(s.Questions, q)
		switch r.Intn(5) {
		case 0:
			if q.Required {
				bad[q.Name] = true
			}
		case 1:
			if q.Required && q.Validation == nil {
				bad[q.Name] = true
				data[q.Name] = []interface{}{nil, "", []string{}, []interface{}{}}[r.Intn(4)]
				break
			}
			fallthrough
		default:
			data[q.Name] = v
			if !ok {
				bad[q.Name] = true
			}
		}
		c.Obs("values", 1)
	}
	var unknown []string
	if r.Intn(3) == 0 {
		data["no such question"] = 1
		unknown = []string{"'no such question'"}
	}
	errs := acroform.ValidateFormSchema(s, data)
	if !sameFields(c, "ValidateFormSchema", errs, bad, unknown) {
		return
	}
	for k := 0; k < 3; k++ {
		again := acroform.ValidateFormSchema(s, copyData(data))
		if !reflect.DeepEqual(errNames(again), errNames(errs)) {
			c.Failf("ValidateFormSchema reports %q, then %q", errNames(errs), errNames(again))
			return
		}
	}
	var l []string
	for n := range bad {
		l = append(l, n)
	}
	sort.Strings(l)
	c.Distinct(len(s.Questions), fmt.Sprintf("%v", data))
	c.Sample("%d questions, errors for %v", len(s.Questions), l)
}

func init() {
	rt.Register(&rt.Check{
		ID: "P26", Title: "Form validation rejects exactly what the field definitions forbid",
		Rule: "distinct_nontrivial = cases with distinct form data whose verdict was compared value by value with the model",
		Families: []rt.Family{
			{Name: "form-data", Quick: 1500, Thorough: 25000, Run: formDataCase},
			{Name: "schema", Quick: 1500, Thorough: 25000, Run: schemaCase},
		},
	})
}
