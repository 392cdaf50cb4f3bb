package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// fld is a form field of the model.
type fld struct {
	ref     Ref
	d       *Dict
	t, full string
	tu, tm  string
	ft      string
	ff      int
	v, dv   interface{} // string, []interface{} of strings, or nil
	da      string
	q       int
	maxLen  int
	opt     []option
	pairs   []bool
	i       []int
	ti      int
	rect    []float64
	page    int
	parent  *fld
	kids    []*fld
	widgets []*wid
}

type option struct{ value, label string }

// wid is a widget of the model.
type wid struct {
	ref    Ref
	d      *Dict
	rect   []float64
	page   int      // -1: on no page
	states []string // other than Off
	ap     []byte   // data of the appearance in use, nil when it has none
}

type formGen struct {
	*docGen
	form     *Dict
	formRef  Ref // zero when the form is a direct object of the catalog
	top      []*fld
	all      []*fld
	da       string
	q        int
	xfa      bool
	needApp  bool
	annotsOf map[int]Arr
}

// terminal lists the fields that are not just groups.
func (g *formGen) terminal() []*fld {
	var l []*fld
	for _, f := range g.all {
		if len(f.kids) == 0 {
			l = append(l, f)
		}
	}
	return l
}

const (
	ffReadOnly = 1 << 0
	ffRequired = 1 << 1
	ffRadio    = 1 << 15
	ffPush     = 1 << 16
	ffCombo    = 1 << 17
	ffEdit     = 1 << 18
	ffMulti    = 1 << 21
)

func partName(r *rand.Rand, used map[string]bool) string {
	for {
		s := metaText(r)
		if r.Intn(3) == 0 {
			s = fmt.Sprintf("%s%d", words[r.Intn(len(words))], r.Intn(30))
		}
		s = strings.ReplaceAll(s, ".", "_")
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

// makeForm adds a form to the document.
func (d *docGen) makeForm() *formGen {
	r := d.r
	g := &formGen{docGen: d, form: NewDict(), annotsOf: map[int]Arr{}}
	used := map[string]bool{}
	for n := 1 + r.Intn(7); n > 0; n-- {
		g.top = append(g.top, g.field(nil, 0, used))
	}
	if r.Intn(3) == 0 {
		g.da = "/Helv 0 Tf 0 g"
		g.form.Set("DA", d.maybe(Str(g.da)))
	}
	if r.Intn(3) == 0 {
		g.q = 1 + r.Intn(2)
		g.form.Set("Q", Int(g.q))
	}
	for _, f := range g.all {
		if f.da == "" {
			f.da = g.da
		}
		if f.q == 0 {
			f.q = g.q
		}
	}
	var refs Arr
	for _, f := range g.top {
		refs = append(refs, f.ref)
	}
	g.form.Set("Fields", d.maybe(refs))
	if r.Intn(2) == 0 {
		g.needApp = r.Intn(2) == 0
		g.form.Set("NeedAppearances", Bool(g.needApp))
	}
	if r.Intn(4) == 0 {
		g.form.Set("DR", NewDict("Font", NewDict("Helv", d.add(NewDict("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name("Helvetica"))))))
	}
	if r.Intn(5) == 0 {
		g.form.Set("CO", Arr{g.all[r.Intn(len(g.all))].ref})
	}
	if r.Intn(4) == 0 {
		g.xfa = true
		tmpl := d.stream(NewDict(), []byte("<template xmlns=\"http://www.xfa.org/schema/xfa-template/3.0/\"/>"))
		g.form.Set("XFA", d.maybe(Arr{Str("template"), tmpl}))
	}
	if r.Intn(4) == 0 {
		g.form.Set("Tricky", d.g.obj(2))
	}
	if r.Intn(2) == 0 {
		g.formRef = d.add(g.form)
		d.catalog.Set("AcroForm", g.formRef)
	} else {
		d.catalog.Set("AcroForm", g.form)
	}
	// place the widgets among the annotations the pages have
	var on []int
	for n := range g.annotsOf {
		on = append(on, n)
	}
	sort.Ints(on)
	for _, n := range on {
		mine := g.annotsOf[n]
		pg := d.objs[n].(*Dict)
		old := pg.Get("Annots")
		var a Arr
		if rf, ok := old.(Ref); ok {
			a = append(a, d.objs[rf.N].(Arr)...)
		} else if ar, ok := old.(Arr); ok {
			a = append(a, ar...)
		}
		for _, w := range mine {
			at := r.Intn(len(a) + 1)
			a = append(a[:at:at], append(Arr{w}, a[at:]...)...)
		}
		if rf, ok := old.(Ref); ok {
			d.objs[rf.N] = a
		} else {
			pg.Set("Annots", d.maybe(a))
		}
	}
	return g
}

// decor adds entries that mean nothing to a form.
func (g *formGen) decor(d *Dict) {
	r := g.r
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			d.Set("NM", Str("(endobj /FT /Sig /V (x))"))
		case 1:
			d.Set("X"+g.g.name(), g.g.obj(2))
		case 2:
			d.Set("MK", NewDict("CA", Str("/T (no)"), "BG", Arr{Real(0.5)}))
		case 3:
			d.Set("AA", NewDict("K", NewDict("S", Name("JavaScript"), "JS", Str("var V = (1); // /V (fake) >>"), "Next", NewDict("S", Name("Named"), "T", Str("inner")))))
		case 4:
			d.Set("Vx", Str("/Kids [1 0 R]"))
		}
	}
}

// inherit finds an attribute of a field's ancestors.
func (f *fld) up(key string) *fld {
	for p := f.parent; p != nil; p = p.parent {
		if p.d.Get(key) != nil {
			return p
		}
	}
	return nil
}

func (g *formGen) field(parent *fld, depth int, used map[string]bool) *fld {
	r := g.r
	f := &fld{ref: g.ref(g.alloc()), d: NewDict(), parent: parent, page: 0}
	g.objs[f.ref.N] = f.d
	g.all = append(g.all, f)
	f.t = partName(r, used)
	f.full = f.t
	if parent != nil {
		f.full = parent.full + "." + f.t
	}
	d := f.d
	setT := func() { d.Set("T", g.maybe(textStr(r, f.t))) }
	early := r.Intn(2) == 0
	if early {
		setT()
	}
	if parent != nil {
		d.Set("Parent", parent.ref)
	}
	if r.Intn(3) == 0 {
		f.tu = metaText(r)
		d.Set("TU", g.maybe(textStr(r, f.tu)))
	}
	if r.Intn(4) == 0 {
		f.tm = metaText(r)
		d.Set("TM", g.maybe(textStr(r, f.tm)))
	}
	group := depth < 3 && r.Intn(4) == 0
	// attributes a group hands down
	type inh struct {
		key string
		get func(p *fld)
	}
	for _, h := range []inh{
		{"FT", func(p *fld) { f.ft = p.ft }},
		{"Ff", func(p *fld) { f.ff = p.ff }},
		{"V", func(p *fld) { f.v = p.v }},
		{"DV", func(p *fld) { f.dv = p.dv }},
		{"DA", func(p *fld) { f.da = p.da }},
		{"Q", func(p *fld) { f.q = p.q }},
		{"MaxLen", func(p *fld) { f.maxLen = p.maxLen }},
	} {
		if p := f.up(h.key); p != nil {
			h.get(p)
		}
	}
	if f.ft == "" && (!group || r.Intn(3) == 0) || r.Intn(4) == 0 && !group {
		f.ft = []string{"Tx", "Tx", "Btn", "Btn", "Ch", "Ch", "Sig"}[r.Intn(7)]
		d.Set("FT", g.maybe(Name(f.ft)))
		if f.parent != nil && (f.up("V") != nil || f.up("DV") != nil || f.up("Ff") != nil) {
			// values of another type make no sense below
			f.v, f.dv, f.ff = nil, nil, 0
			d.Set("V", g.value(f, &f.v))
			d.Set("DV", g.value(f, &f.dv))
			d.Set("Ff", Int(0))
		}
	}
	if r.Intn(3) == 0 && f.ft != "" {
		f.ff = r.Intn(4)
		switch f.ft {
		case "Tx":
			f.ff |= []int{0, 1 << 12, 1 << 13, 1 << 20, 1 << 24}[r.Intn(5)]
		case "Btn":
			f.ff |= []int{0, ffRadio, ffPush, ffRadio | 1<<14, 1 << 25}[r.Intn(5)]
		case "Ch":
			f.ff |= []int{0, ffCombo, ffCombo | ffEdit, ffMulti, 1 << 19}[r.Intn(5)]
		}
		d.Set("Ff", g.maybe(Int(f.ff)))
	}
	if r.Intn(4) == 0 {
		f.da = fmt.Sprintf("/F%d %d Tf (a) pop 0 g", r.Intn(5), r.Intn(20))
		d.Set("DA", g.maybe(Str(f.da)))
	}
	if r.Intn(5) == 0 {
		f.q = r.Intn(3)
		d.Set("Q", g.maybe(Int(f.q)))
		if f.q == 0 {
			d.Del("Q") // the default, but that of the form may apply
			if p := f.up("Q"); p != nil {
				f.q = p.q
			}
		}
	}
	if f.ft == "Tx" && r.Intn(4) == 0 {
		f.maxLen = 1 + r.Intn(60)
		d.Set("MaxLen", g.maybe(Int(f.maxLen)))
	}
	if f.ft == "Ch" && !group && r.Intn(5) != 0 {
		g.options(f)
	}
	if group {
		sub := map[string]bool{}
		if f.ft != "" && r.Intn(3) == 0 && f.d.Get("V") == nil && f.ft != "Ch" && f.ft != "Sig" {
			d.Set("V", g.value(f, &f.v))
		}
		g.decor(d)
		if !early {
			setT()
		}
		var kids Arr
		for n := 1 + r.Intn(3); n > 0; n-- {
			k := g.field(f, depth+1, sub)
			f.kids = append(f.kids, k)
			kids = append(kids, k.ref)
		}
		d.Set("Kids", g.maybe(kids))
		return f
	}
	if f.d.Get("V") == nil && r.Intn(3) != 0 && !(f.ft == "Ch" && len(f.opt) > 0) {
		d.Set("V", g.value(f, &f.v))
	}
	if f.d.Get("DV") == nil && r.Intn(3) == 0 {
		d.Set("DV", g.value(f, &f.dv))
	}
	g.decor(d)
	switch r.Intn(5) {
	case 0: // no widget at all
	case 1, 2: // widgets of their own
		var kids Arr
		for n := 1 + r.Intn(3); n > 0; n-- {
			w := &wid{ref: g.ref(g.alloc()), d: NewDict("Parent", f.ref)}
			g.objs[w.ref.N] = w.d
			g.widget(f, w)
			kids = append(kids, w.ref)
		}
		d.Set("Kids", g.maybe(kids))
	default: // field and widget in one
		g.widget(f, &wid{ref: f.ref, d: d})
	}
	if len(f.widgets) > 0 {
		f.rect = f.widgets[0].rect
		if p := f.widgets[0].page; p > 0 {
			f.page = p
		}
	}
	if !early {
		setT()
	}
	return f
}

// value makes a value that suits the field.
func (g *formGen) value(f *fld, want *interface{}) Obj {
	r := g.r
	switch f.ft {
	case "Btn":
		s := []string{"Off", "Yes", "On", "1", "Name With Space", "Choice#1"}[r.Intn(6)]
		*want = s
		return g.maybe(Name(s))
	case "Sig":
		*want = nil
		return g.maybe(NewDict("Type", Name("Sig"), "Filter", Name("Adobe.PPKLite"), "Contents", Str("\x30\x82")))
	case "Ch":
		if r.Intn(4) == 0 {
			var l []interface{}
			a := Arr{}
			for n := 1 + r.Intn(3); n > 0; n-- {
				s := metaText(r)
				l = append(l, s)
				a = append(a, g.maybe(textStr(r, s)))
			}
			*want = l
			return g.maybe(a)
		}
	}
	s := metaText(r)
	if r.Intn(8) == 0 {
		*want = ""
		return g.maybe(Str(""))
	}
	*want = s
	return g.maybe(textStr(r, s))
}

// options gives a choice field its options and a selection.
func (g *formGen) options(f *fld) {
	r := g.r
	used := map[string]bool{}
	a := Arr{}
	for n := 1 + r.Intn(6); n > 0; n-- {
		v := partName(r, used)
		o := option{v, v}
		if r.Intn(2) == 0 {
			o.label = metaText(r)
			a = append(a, g.maybe(Arr{g.maybe(textStr(r, v)), textStr(r, o.label)}))
			f.pairs = append(f.pairs, true)
		} else {
			a = append(a, g.maybe(textStr(r, v)))
			f.pairs = append(f.pairs, false)
		}
		f.opt = append(f.opt, o)
	}
	f.d.Set("Opt", g.maybe(a))
	var sel []int
	for i := range f.opt {
		if r.Intn(4) == 0 {
			sel = append(sel, i)
		}
	}
	switch {
	case len(sel) == 1 && r.Intn(2) == 0:
		f.v = f.opt[sel[0]].value
		f.d.Set("V", g.maybe(textStr(r, f.opt[sel[0]].value)))
	case len(sel) > 0:
		va := Arr{}
		l := []interface{}{}
		for _, i := range sel {
			va = append(va, textStr(r, f.opt[i].value))
			l = append(l, f.opt[i].value)
		}
		f.v = l
		f.d.Set("V", g.maybe(va))
	case f.ff&ffEdit != 0 && r.Intn(2) == 0:
		f.v = "typed-" + randWords(r, 2) // no option
		f.d.Set("V", textStr(r, f.v.(string)))
	}
	if len(sel) > 0 && r.Intn(2) == 0 {
		var ia Arr
		for _, i := range sel {
			ia = append(ia, Int(i))
			f.i = append(f.i, i)
		}
		f.d.Set("I", g.maybe(ia))
	}
	if r.Intn(4) == 0 {
		f.ti = r.Intn(len(f.opt))
		f.d.Set("TI", Int(f.ti))
	}
}

func (g *formGen) widget(f *fld, w *wid) {
	r := g.r
	f.widgets = append(f.widgets, w)
	d := w.d
	d.Set("Subtype", Name("Widget"))
	if r.Intn(2) == 0 {
		d.Set("Type", Name("Annot"))
	}
	x, y := float64(r.Intn(40000))/100, float64(r.Intn(60000))/100
	w.rect = []float64{x, y, x + 10 + float64(r.Intn(20000))/100, y + 8 + float64(r.Intn(4000))/100}
	ra := Arr{}
	for _, v := range w.rect {
		ra = append(ra, g.maybe(Real(v)))
	}
	d.Set("Rect", g.maybe(ra))
	w.page = -1
	if r.Intn(8) != 0 {
		w.page = r.Intn(len(g.pages))
		n := g.pages[w.page]
		g.annotsOf[n] = append(g.annotsOf[n], w.ref)
		if r.Intn(2) == 0 {
			d.Set("P", g.ref(n))
		}
	}
	if r.Intn(2) == 0 {
		d.Set("F", Int(4))
	}
	data := func(s string) (Ref, []byte) {
		b := []byte(fmt.Sprintf("/Tx BMC q %s %% %d\nQ EMC", s, g.r.Intn(1000)))
		return g.stream(NewDict("Type", Name("XObject"), "Subtype", Name("Form"), "BBox", Arr{Int(0), Int(0), Int(9), Int(9)}), b), b
	}
	if f.ft == "Btn" && f.ff&ffPush == 0 {
		if r.Intn(4) == 0 {
			return // left to the viewer
		}
		on := []string{"Yes", "On", "1", "Name With Space", "Choice#1", "A"}[r.Intn(6)]
		w.states = []string{on}
		n := NewDict()
		as := "Off"
		if r.Intn(2) == 0 {
			as = on
		}
		put := func(s string) {
			if s == "Off" && r.Intn(3) == 0 && as == on {
				return
			}
			rf, b := data(s)
			n.Set(s, rf)
			if s == as {
				w.ap = b
			}
		}
		if r.Intn(2) == 0 {
			put("Off")
			put(on)
		} else {
			put(on)
			put("Off")
		}
		ap := NewDict("N", g.maybe(n))
		if r.Intn(3) == 0 {
			rf, _ := data("down")
			dn := NewDict(on, rf)
			if r.Intn(2) == 0 {
				ap = NewDict("D", dn, "N", ap.Get("N"))
			} else {
				ap.Set("D", dn)
			}
		}
		d.Set("AP", g.maybe(ap))
		d.Set("AS", g.maybe(Name(as)))
		return
	}
	if r.Intn(2) == 0 {
		rf, b := data("text")
		w.ap = b
		ap := NewDict("N", rf)
		if r.Intn(3) == 0 {
			down, _ := data("roll")
			ap = NewDict("R", down, "N", rf)
		}
		d.Set("AP", g.maybe(ap))
	}
}

// response is the type a field has in a schema.
func (f *fld) response() types.ResponseType {
	switch f.ft {
	case "Tx":
		return types.ResponseTypeText
	case "Ch":
		return types.ResponseTypeSelect
	case "Sig":
		return types.ResponseTypeSignature
	case "Btn":
		switch {
		case f.ff&ffPush != 0:
			return types.ResponseTypeButton
		case f.ff&ffRadio != 0:
			return types.ResponseTypeRadio
		}
		return types.ResponseTypeCheckbox
	}
	return types.ResponseTypeUnknown
}

func sameList(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// fieldDiff compares an extracted field with the model.
func fieldDiff(got *acroform.Field, want *fld) string {
	cmp := func(what string, a, b interface{}) string {
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("field %q: %s is %#v, want %#v", want.full, what, a, b)
		}
		return ""
	}
	opts := []interface{}{}
	for i, o := range want.opt {
		if want.pairs[i] {
			opts = append(opts, []interface{}{o.value, o.label})
		} else {
			opts = append(opts, o.value)
		}
	}
	gopts := append([]interface{}{}, got.Opt...)
	for _, s := range []string{
		cmp("name", got.T, want.t), cmp("full name", got.GetFullName(), want.full),
		cmp("object", got.ObjectNum, want.ref.N), cmp("generation", got.Generation, want.ref.G),
		cmp("type", got.FT, want.ft), cmp("flags", got.Ff, want.ff),
		cmp("alternate name", got.TU, want.tu), cmp("mapping name", got.TM, want.tm),
		cmp("value", got.V, want.v), cmp("default value", got.DV, want.dv),
		cmp("default appearance", got.DA, want.da), cmp("quadding", got.Q, want.q),
		cmp("maximum length", got.MaxLen, want.maxLen), cmp("options", gopts, opts),
		cmp("top index", got.TI, want.ti), cmp("selected indices", append([]int{}, got.I...), append([]int{}, want.i...)),
		cmp("rectangle", append([]float64{}, got.Rect...), append([]float64{}, want.rect...)),
		cmp("page", got.Page, want.page), cmp("number of kids", len(got.Kids), len(want.kids)),
	} {
		if s != "" {
			return s
		}
	}
	for i, k := range got.Kids {
		if k.Parent != got {
			return fmt.Sprintf("field %q: kid %d has another parent", want.full, i)
		}
		if s := fieldDiff(k, want.kids[i]); s != "" {
			return s
		}
	}
	return ""
}

// checkForm compares an extracted form with the model.
func checkForm(c *rt.C, what string, af *acroform.AcroForm, g *formGen) {
	if len(af.Fields) != len(g.top) {
		c.Failf("%s: %d top-level fields, want %d", what, len(af.Fields), len(g.top))
		return
	}
	for i, f := range af.Fields {
		if s := fieldDiff(f, g.top[i]); s != "" {
			c.Failf("%s: %s", what, s)
			return
		}
	}
	if af.NeedAppearances != g.needApp || af.XFA != g.xfa {
		c.Failf("%s: NeedAppearances %v, XFA %v, want %v, %v", what, af.NeedAppearances, af.XFA, g.needApp, g.xfa)
	}
	var sigs []int
	for _, f := range g.all {
		if f.ft == "Sig" {
			sigs = append(sigs, f.ref.N)
		}
	}
	if !sameList(append([]int{}, af.SignatureFields...), append([]int{}, sigs...)) {
		c.Failf("%s: signature fields %v, want %v", what, af.SignatureFields, sigs)
	}
	checkValues(c, what, af.GetFieldValues(), g)
	partial := map[string]int{}
	for _, f := range g.all {
		partial[f.t]++
	}
	for _, f := range g.all {
		got := af.FindFieldByName(f.full)
		if got == nil || got.ObjectNum != f.ref.N {
			c.Failf("%s: FindFieldByName(%q) does not give the field", what, f.full)
			return
		}
		if partial[f.t] == 1 {
			if got := af.FindFieldByName(f.t); got == nil || got.ObjectNum != f.ref.N {
				c.Failf("%s: FindFieldByName(%q) does not give the only field of that partial name", what, f.t)
				return
			}
		}
		c.Obs("fields", 1)
	}
	if af.FindFieldByName("no such field.") != nil {
		c.Failf("%s: FindFieldByName finds a field that does not exist", what)
	}
}

func checkValues(c *rt.C, what string, got map[string]interface{}, g *formGen) {
	group := map[string]bool{}
	for _, f := range g.all {
		if len(f.kids) > 0 {
			group[f.full] = true
		} else if v, ok := got[f.full]; !reflect.DeepEqual(v, f.v) || ok != (f.v != nil) {
			c.Failf("%s: value of %q is %#v (%v), want %#v", what, f.full, v, ok, f.v)
			return
		}
		delete(got, f.full)
		c.Obs("values", 1)
	}
	for k := range got {
		if !group[k] {
			c.Failf("%s: value for %q, which is not a field", what, k)
			return
		}
	}
}

func checkSchema(c *rt.C, what string, s *types.FormSchema, g *formGen) {
	want := g.terminal()
	if s == nil || len(s.Questions) != len(want) {
		c.Failf("%s: schema %v, want %d questions", what, s != nil, len(want))
		return
	}
	if s.Metadata.FormType != "AcroForm" {
		c.Failf("%s: form type %q", what, s.Metadata.FormType)
	}
	for i, f := range want {
		q := s.Questions[i]
		fail := func(k string, a, b interface{}) {
			c.Failf("%s: question for %q: %s is %#v, want %#v", what, f.full, k, a, b)
		}
		if q.Name != f.full || q.Label != f.tu || q.ID != fmt.Sprintf("field_%d", f.ref.N) {
			fail("name/label/ID", []string{q.Name, q.Label, q.ID}, []string{f.full, f.tu, fmt.Sprint(f.ref.N)})
			return
		}
		if q.Type != f.response() {
			fail("type", q.Type, f.response())
			return
		}
		if q.Required != (f.ff&ffRequired != 0) || q.ReadOnly != (f.ff&ffReadOnly != 0) {
			fail("required/read-only", []bool{q.Required, q.ReadOnly}, f.ff)
			return
		}
		if !reflect.DeepEqual(q.Default, f.dv) {
			fail("default", q.Default, f.dv)
			return
		}
		var opts []types.Option
		for k, o := range f.opt {
			sel := false
			if f.i != nil {
				for _, x := range f.i {
					sel = sel || x == k
				}
			} else if l, ok := f.v.([]interface{}); ok {
				for _, x := range l {
					sel = sel || x == o.value
				}
			} else {
				sel = f.v == o.value
			}
			opts = append(opts, types.Option{Value: o.value, Label: o.label, Selected: sel})
		}
		if len(opts) != len(q.Options) {
			fail("options", q.Options, opts)
			return
		}
		for k := range opts {
			if q.Options[k].Value != opts[k].Value || q.Options[k].Label != opts[k].Label || q.Options[k].Selected != opts[k].Selected {
				fail(fmt.Sprintf("option %d", k), q.Options[k], opts[k])
				return
			}
		}
		ml := 0
		if q.Validation != nil && q.Validation.MaxLength != nil {
			ml = *q.Validation.MaxLength
		}
		if ml != f.maxLen {
			fail("maximum length", ml, f.maxLen)
			return
		}
		if len(f.rect) == 4 {
			if !reflect.DeepEqual(q.Properties["rect"], f.rect) || q.Properties["x"] != f.rect[0] || q.Properties["y"] != f.rect[1] ||
				q.Properties["width"] != f.rect[2]-f.rect[0] || q.Properties["height"] != f.rect[3]-f.rect[1] {
				fail("position", q.Properties, f.rect)
				return
			}
		} else if _, ok := q.Properties["rect"]; ok {
			fail("position", q.Properties, "none")
			return
		}
		if q.Properties["page"] != f.page || q.Properties["object_num"] != f.ref.N {
			fail("page/object", q.Properties, []int{f.page, f.ref.N})
			return
		}
		c.Obs("questions", 1)
	}
}

func formDoc(r *rand.Rand, crypt bool) (*doc, *formGen) {
	var g *formGen
	d := genDoc(r, docOpts{pages: 1 + r.Intn(6), crypt: crypt, extra: 500, setup: func(d *docGen) { g = d.makeForm() }})
	return d, g
}

func formReadCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		d, g := formDoc(r, crypt)
		c.Save("in.pdf", d.B.B)
		in := append([]byte{}, d.B.B...)
		af, err := acroform.ExtractAcroForm(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractAcroForm (%s): %v", d.Enc, err)
			return
		}
		checkForm(c, "ExtractAcroForm", af, g)
		pdf, err := parse.OpenWithOptions(d.B.B, parse.ParseOptions{Password: d.PW})
		if err != nil {
			c.Failf("OpenWithOptions: %v", err)
			return
		}
		af2, err := acroform.ParseAcroForm(d.B.B, pdf.Encryption(), false)
		if err != nil {
			c.Failf("ParseAcroForm: %v", err)
			return
		}
		checkForm(c, "ParseAcroForm", af2, g)
		sch, err := acroform.ExtractFormSchema(d.B.B, d.PW, false)
		if err != nil {
			c.Failf("ExtractFormSchema: %v", err)
			return
		}
		checkSchema(c, "ExtractFormSchema", sch, g)
		kind, err := forms.Detect(d.B.B, d.PW, false)
		if err != nil || kind != forms.FormTypeAcroForm {
			c.Failf("forms.Detect: %v, %v", kind, err)
		}
		fm, err := forms.Extract(d.B.B, d.PW, false)
		if err != nil || fm.Type() != forms.FormTypeAcroForm {
			c.Failf("forms.Extract: %v", err)
			return
		}
		checkSchema(c, "forms.Extract", fm.Schema(), g)
		checkValues(c, "forms.Extract", fm.GetValues(), g)
		// appearances
		for _, f := range g.terminal() {
			var want []byte
			for _, w := range f.widgets {
				if w.ap != nil && want == nil {
					want = w.ap
				}
			}
			got, err := acroform.GetFieldAppearance(af.FindFieldByName(f.full), d.B.B, pdf.Encryption(), false)
			if (err == nil) != (want != nil) || !bytes.Equal(got, want) {
				c.Failf("appearance of %q is %q (%v), want %q", f.full, got, err, want)
				return
			}
			c.Obs("appearances", 1)
		}
		if !bytes.Equal(in, d.B.B) {
			c.Failf("the caller's document was modified")
		}
		kinds := map[string]int{}
		for _, f := range g.all {
			kinds[f.ft]++
		}
		c.Distinct(len(g.all), kinds, len(d.Pg), d.Enc, len(d.B.B))
		c.Sample("%d fields %v, %d pages %s", len(g.all), kinds, len(d.Pg), d.Enc)
	}
}

// noFormCase: documents without a form have none.
func noFormCase(c *rt.C) {
	r := c.R
	d := genDoc(r, docOpts{pages: 1 + r.Intn(4), crypt: r.Intn(4) == 0, setup: func(d *docGen) {
		// text that only looks like a form
		d.objs[d.misc[0].N] = NewDict("AcroForm", d.misc[1], "Fields", Arr{d.misc[1]}, "T", Str("/AcroForm 3 0 R"))
	}})
	c.Save("in.pdf", d.B.B)
	if af, err := acroform.ExtractAcroForm(d.B.B, d.PW, false); err == nil {
		c.Failf("ExtractAcroForm finds %d fields in a document without a form", len(af.Fields))
	}
	if k, err := forms.Detect(d.B.B, d.PW, false); err == nil {
		c.Failf("forms.Detect finds a form (%s) in a document without one", k)
	}
	c.Obs("documents", 1)
	c.Distinct(len(d.B.B))
}

func init() {
	rt.Register(&rt.Check{
		ID: "P20", Title: "AcroForm fields are reported as the document defines them",
		Rule: "distinct_nontrivial = cases with a distinct (fields by type, pages, encryption, file size) whose whole field tree was compared with the model",
		Families: []rt.Family{
			{Name: "read", Quick: 1200, Thorough: 20000, Run: formReadCase(false)},
			{Name: "read-encrypted", Quick: 300, Thorough: 5000, Run: formReadCase(true)},
			{Name: "no-form", Quick: 100, Thorough: 1500, Run: noFormCase},
		},
	})
}
