package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// built is a field of a form to build.
type built struct {
	def    *acroform.FieldDef
	name   string
	ft     string
	ff     int
	rect   []float64
	page   int
	v, dv  interface{} // as read back
	maxLen int
	opt    []string
	acts   map[string]action // "" is /A
	ap     int
}

type fieldAdder interface {
	AddTextField(name string, rect []float64, page int) *acroform.FieldDef
	AddCheckbox(name string, rect []float64, page int) *acroform.FieldDef
	AddRadioButton(name string, rect []float64, page int) *acroform.FieldDef
	AddChoiceField(name string, rect []float64, page int, options []string) *acroform.FieldDef
	AddButton(name string, rect []float64, page int) *acroform.FieldDef
}

func addBuilt(r *rand.Rand, fb fieldAdder, page int, used map[string]bool) *built {
	b := &built{name: partName(r, used), page: page, acts: map[string]action{}}
	x, y := float64(r.Intn(50000))/100, float64(r.Intn(70000))/100
	b.rect = []float64{x, y, x + float64(r.Intn(20000))/100, y + float64(r.Intn(5000))/100}
	if r.Intn(8) == 0 {
		b.rect[0], b.rect[1] = -b.rect[0], 0.00001*float64(r.Intn(100))
	}
	rect := append([]float64{}, b.rect...)
	switch r.Intn(6) {
	case 0, 1:
		b.ft, b.def = "Tx", fb.AddTextField(b.name, rect, page)
	case 2:
		b.ft, b.def = "Btn", fb.AddCheckbox(b.name, rect, page)
	case 3:
		b.ft, b.ff, b.def = "Btn", ffRadio, fb.AddRadioButton(b.name, rect, page)
	case 4:
		ou := map[string]bool{}
		for n := r.Intn(6); n > 0; n-- {
			b.opt = append(b.opt, partName(r, ou))
		}
		b.ft, b.def = "Ch", fb.AddChoiceField(b.name, rect, page, append([]string{}, b.opt...))
	case 5:
		b.ft, b.ff, b.def = "Btn", ffPush, fb.AddButton(b.name, rect, page)
	}
	if b.ft != "Btn" || b.ff&ffPush == 0 {
		if r.Intn(2) == 0 {
			in, want := b.value(r)
			b.v = want
			b.def = b.def.SetValue(in)
		}
		if r.Intn(3) == 0 {
			in, want := b.value(r)
			b.dv = want
			b.def.SetDefault(in)
		}
	}
	for n := r.Intn(4); n > 0; n-- {
		on := r.Intn(3) != 0
		bit := 1
		if r.Intn(2) == 0 {
			bit = 2
			b.def.SetRequired(on)
		} else {
			b.def.SetReadOnly(on)
		}
		b.ff &^= bit
		if on {
			b.ff |= bit
		}
	}
	if r.Intn(4) == 0 {
		// flags the methods do not cover
		bit := map[string]int{"Tx": 1 << 12, "Btn": 1 << 25, "Ch": []int{ffCombo, ffMulti, ffCombo | ffEdit}[r.Intn(3)]}[b.ft]
		b.ff |= bit
		b.def.Flags |= bit
	}
	if b.ft == "Tx" && r.Intn(3) == 0 {
		b.maxLen = 1 + r.Intn(1000)
		b.def.SetMaxLength(b.maxLen)
	}
	return b
}

func (b *built) value(r *rand.Rand) (in, want interface{}) {
	if b.ft == "Btn" {
		switch r.Intn(3) {
		case 0:
			if r.Intn(2) == 0 {
				return true, "Yes"
			}
			return false, "Off"
		case 1:
			s := []string{"Yes", "Off", "A B", "x#y", "(1)", "Größe", "/"}[r.Intn(7)]
			return s, s
		}
		return "Yes", "Yes"
	}
	if b.ft == "Ch" && r.Intn(3) == 0 {
		l, li, w := []string{}, []interface{}{}, []interface{}{}
		for _, o := range b.opt {
			if r.Intn(2) == 0 {
				l, li, w = append(l, o), append(li, o), append(w, o)
			}
		}
		if r.Intn(2) == 0 {
			return l, w
		}
		return li, w
	}
	switch r.Intn(8) {
	case 0:
		n := r.Intn(100000) - 500
		return n, strconv.Itoa(n)
	case 1:
		x := float64(r.Intn(1000000)-500000) / 1000
		return x, strconv.FormatFloat(x, 'f', -1, 64)
	case 2:
		return "", ""
	}
	if len(b.opt) > 0 && r.Intn(3) != 0 {
		s := b.opt[r.Intn(len(b.opt))]
		return s, s
	}
	s := metaText(r)
	return s, s
}

// diff compares the field dictionary of the file with the model; other entries
// (/F, /NM, ...) are the builder's choice.
func (b *built) diff(f *File, d *Dict) string {
	bad := func(k string, want interface{}) string {
		return fmt.Sprintf("field %q: /%s is %s, want %v", b.name, k, Short(f.Resolve(d.Get(k))), want)
	}
	if d.Get("Subtype") != Name("Widget") {
		return bad("Subtype", "/Widget")
	}
	if t := d.Get("Type"); t != nil && t != Name("Annot") {
		return bad("Type", "/Annot")
	}
	if f.Resolve(d.Get("FT")) != Name(b.ft) {
		return bad("FT", b.ft)
	}
	if t := plainValue(f, d.Get("T")); t != b.name {
		return bad("T", b.name)
	}
	var rc []float64
	if a, ok := f.Resolve(d.Get("Rect")).(Arr); ok {
		for _, e := range a {
			switch x := f.Resolve(e).(type) {
			case Int:
				rc = append(rc, float64(x))
			case Real:
				rc = append(rc, float64(x))
			}
		}
	}
	if !reflect.DeepEqual(rc, b.rect) {
		return bad("Rect", b.rect)
	}
	if d.Int("Ff", 0) != b.ff {
		return bad("Ff", b.ff)
	}
	if v := plainValue(f, d.Get("V")); !reflect.DeepEqual(v, b.v) {
		return bad("V", b.v)
	}
	if v := plainValue(f, d.Get("DV")); !reflect.DeepEqual(v, b.dv) {
		return bad("DV", b.dv)
	}
	if d.Int("MaxLen", 0) != b.maxLen {
		return bad("MaxLen", b.maxLen)
	}
	var o []string
	if a, ok := f.Resolve(d.Get("Opt")).(Arr); ok {
		for _, e := range a {
			s, _ := plainValue(f, e).(string)
			o = append(o, s)
		}
	}
	if !reflect.DeepEqual(o, b.opt) {
		return bad("Opt", b.opt)
	}
	if b.ft == "Btn" && b.ff&ffPush == 0 {
		want := "Off"
		if s, ok := b.v.(string); ok {
			want = s
		}
		if as, ok := f.Resolve(d.Get("AS")).(Name); string(as) != want && (ok || b.v != nil) {
			return bad("AS", want)
		}
	}
	if b.ap == 0 {
		if d.Get("AP") != nil {
			return bad("AP", "none")
		}
	} else if ap := f.Dict(d.Get("AP")); ap == nil || len(ap.Keys) != 1 {
		return bad("AP", "a dictionary with /N")
	} else if n, ok := ap.Get("N").(Ref); !ok || n.N != b.ap {
		return bad("AP", b.ap)
	}
	aa := f.Dict(d.Get("AA"))
	n := 0
	for _, k := range []string{"", "U", "D", "E", "X"} {
		var got *Dict
		if k == "" {
			got = f.Dict(d.Get("A"))
		} else if aa != nil {
			got = f.Dict(aa.Get(k))
			if got != nil {
				n++
			}
		}
		a, ok := b.acts[k]
		if ok != (got != nil) {
			return fmt.Sprintf("field %q: action %q is %s, want %v", b.name, k, Short(got), ok)
		}
		if ok {
			if s := a.diff(f, got); s != "" {
				return fmt.Sprintf("field %q: action %q: %s", b.name, k, s)
			}
		}
	}
	if aa != nil && len(aa.Keys) != n {
		return bad("AA", n)
	}
	return ""
}

// action is an action to add, with what it must become.
type action struct {
	in   acroform.Action
	s    string
	key  string
	text string
	obj  string // serialised /D
}

func randAction(r *rand.Rand, mouse bool, pages []int) action {
	k := r.Intn(5)
	if mouse || len(pages) == 0 && k < 3 {
		k = r.Intn(2)
	}
	switch k {
	case 0:
		u := uri(r)
		return action{in: acroform.Action{Type: acroform.ActionTypeURI, URI: u}, s: "URI", key: "URI", text: u}
	case 1:
		js := metaText(r) + "; app.alert(\"a\\n(b\");"
		return action{in: acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: js}, s: "JavaScript", key: "JS", text: js}
	case 2:
		d := []string{"[%d 0 R /Fit]", "[%d 0 R/XYZ 0 700.5 null]", "(chapter \\(%d\\))", "/name%d"}[r.Intn(4)]
		d = fmt.Sprintf(d, pages[r.Intn(len(pages))])
		return action{in: acroform.Action{Type: acroform.ActionTypeGoTo, Destination: d}, s: "GoTo", obj: d}
	case 3:
		return action{in: acroform.Action{Type: acroform.ActionTypeSubmit}, s: "SubmitForm"}
	}
	return action{in: acroform.Action{Type: acroform.ActionTypeReset}, s: "ResetForm"}
}

func (a action) diff(f *File, d *Dict) string {
	if d.Get("S") != Name(a.s) {
		return fmt.Sprintf("/S is %s, want %s", Short(d.Get("S")), a.s)
	}
	if a.key != "" {
		if got := plainValue(f, d.Get(a.key)); got != a.text {
			return fmt.Sprintf("/%s is %#v, want %q", a.key, got, a.text)
		}
	}
	if a.obj != "" {
		want, err := NewP([]byte(a.obj), 0).Object()
		if err != nil {
			panic("harness: " + err.Error())
		}
		if s := Diff(d.Get("D"), want); s != "" {
			return s
		}
	}
	return ""
}

// winAnsi encodes text as WinAnsiEncoding does, ? for what it lacks.
func winAnsi(s string) string {
	var b []byte
	high := map[rune]byte{0x20ac: 0x80, 0x201a: 0x82, 0x192: 0x83, 0x201e: 0x84, 0x2026: 0x85, 0x2020: 0x86, 0x2021: 0x87, 0x2c6: 0x88, 0x2030: 0x89, 0x160: 0x8a, 0x2039: 0x8b, 0x152: 0x8c, 0x17d: 0x8e,
		0x2018: 0x91, 0x2019: 0x92, 0x201c: 0x93, 0x201d: 0x94, 0x2022: 0x95, 0x2013: 0x96, 0x2014: 0x97, 0x2dc: 0x98, 0x2122: 0x99, 0x161: 0x9a, 0x203a: 0x9b, 0x153: 0x9c, 0x17e: 0x9e, 0x178: 0x9f}
	for _, u := range s {
		switch {
		case u < 0x7f, u >= 0xa0 && u <= 0xff:
			b = append(b, byte(u))
		case high[u] != 0:
			b = append(b, high[u])
		default:
			b = append(b, '?')
		}
	}
	return string(b)
}

// apModel is an appearance the builder was asked for.
type apModel struct {
	num   int
	w, h  float64
	text  string
	font  string
	size  float64
	isTxt bool
	box   bool // a check box
	on    bool // checked
}

func randAppearance(c *rt.C, r *rand.Rand, ab *acroform.AppearanceBuilder) apModel {
	m := apModel{w: float64(1+r.Intn(30000)) / 100, h: float64(1+r.Intn(10000)) / 100, size: 1 + float64(r.Intn(4000))/100}
	var err error
	switch r.Intn(4) {
	case 0:
		m.box, m.on = true, r.Intn(2) == 0
		m.num, err = ab.CreateCheckboxAppearance(m.on, m.w, m.h)
	case 1:
		m.isTxt, m.font, m.text = true, "Helvetica", metaText(r)
		m.num, err = ab.CreateButtonAppearance(m.text, m.w, m.h, m.size)
	default:
		m.isTxt, m.text = true, metaText(r)
		m.font = []string{"Helvetica", "Helv", "Times-Roman", "Courier-Bold", "F1", "My Font"}[r.Intn(6)]
		m.num, err = ab.CreateTextAppearance(m.text, m.w, m.h, m.size, m.font)
	}
	if err != nil || m.num <= 0 {
		c.Failf("creating an appearance: %d, %v", m.num, err)
	}
	return m
}

func (m apModel) diff(f *File) string {
	o, err := f.Get(m.num)
	if err != nil {
		return err.Error()
	}
	st, ok := o.(*Stream)
	if !ok {
		return fmt.Sprintf("appearance %d is %s, not a stream", m.num, Short(o))
	}
	d := st.D
	if d.Get("Subtype") != Name("Form") || d.Get("Type") != nil && d.Get("Type") != Name("XObject") {
		return fmt.Sprintf("appearance is no form XObject: %s", Short(d))
	}
	var bb []float64
	if a, ok := f.Resolve(d.Get("BBox")).(Arr); ok {
		for _, e := range a {
			switch x := e.(type) {
			case Int:
				bb = append(bb, float64(x))
			case Real:
				bb = append(bb, float64(x))
			}
		}
	}
	if len(bb) != 4 || bb[0] != 0 || bb[1] != 0 || !close2(bb[2], m.w) || !close2(bb[3], m.h) {
		return fmt.Sprintf("/BBox %v, want [0 0 %v %v]", bb, m.w, m.h)
	}
	if mx := fnums(f, d.Get("Matrix")); d.Get("Matrix") != nil && fmt.Sprint(mx) != "[1 0 0 1 0 0]" {
		return fmt.Sprintf("/Matrix %v distorts the appearance", mx)
	}
	data, err := DecodeStream(st)
	if err != nil {
		return fmt.Sprintf("appearance data: %v", err)
	}
	ops, err := ParseContent(data)
	if err != nil {
		return fmt.Sprintf("appearance content: %v", err)
	}
	depth, shown, font, size := 0, "", "", 0.0
	var marks []string // what is painted, in order
	var path string
	textY, inText := 0.0, false
	for _, op := range ops {
		var n []float64
		for _, a := range op.Args {
			if v, ok := Num(a); ok {
				n = append(n, v)
			}
		}
		switch op.Name {
		case "BT":
			inText, textY = true, 0
		case "ET":
			inText = false
		case "Td":
			if len(n) != 2 {
				return "Td without two numbers"
			}
			textY += n[1]
		case "m", "l":
			if len(n) != 2 || n[0] < 0 || n[1] < 0 || n[0] > m.w+0.01 || n[1] > m.h+0.01 {
				return fmt.Sprintf("%v %s leaves the box", n, op.Name)
			}
			path += op.Name
		case "re":
			if len(n) != 4 || n[0] < 0 || n[1] < 0 || n[0]+n[2] > m.w+0.01 || n[1]+n[3] > m.h+0.01 {
				return fmt.Sprintf("%v %s leaves the box", n, op.Name)
			}
			path += op.Name
		case "S", "s", "f", "F", "f*", "B", "b":
			marks = append(marks, path+" "+op.Name)
			path = ""
		}
		switch op.Name {
		case "q":
			depth++
		case "Q":
			depth--
		case "Tj":
			s, ok := op.Args[0].(Str)
			if !ok {
				return "Tj without a string"
			}
			if !inText || font == "" {
				return "text shown outside a text object or without a font"
			}
			if textY > m.h {
				return fmt.Sprintf("text at height %v of a box of %v", textY, m.h)
			}
			shown += string(s)
			marks = append(marks, "text")
		case "Tf":
			n, ok := op.Args[0].(Name)
			if !ok {
				return "Tf without a name"
			}
			font = string(n)
			switch x := op.Args[1].(type) {
			case Int:
				size = float64(x)
			case Real:
				size = float64(x)
			}
		}
		if depth < 0 {
			return "Q without q"
		}
	}
	if depth != 0 {
		return "q without Q"
	}
	if !m.isTxt {
		if shown != "" {
			return "text nobody gave"
		}
		// a check box is drawn as a stroked frame, its mark as an open stroked line
		want := "re S"
		if m.on {
			want = "mll S"
		}
		if fmt.Sprint(marks) != "["+want+"]" {
			return fmt.Sprintf("a check box (checked %v) draws %v", m.on, marks)
		}
		return ""
	}
	if marks[len(marks)-1] != "text" {
		return fmt.Sprintf("the text is painted over: %v", marks)
	}
	if shown != winAnsi(m.text) {
		return fmt.Sprintf("appearance shows %q, want %q", shown, winAnsi(m.text))
	}
	if font != m.font || !close2(size, m.size) {
		return fmt.Sprintf("font %q %v, want %q %v", font, size, m.font, m.size)
	}
	res := f.Dict(d.Get("Resources"))
	if res == nil {
		return "no resources"
	}
	fonts := f.Dict(res.Get("Font"))
	if fonts == nil {
		return "no font resources"
	}
	fd := f.Dict(fonts.Get(font))
	if fd == nil || fd.Get("Type") != Name("Font") || fd.Get("BaseFont") == nil || f.Resolve(fd.Get("Encoding")) != Name("WinAnsiEncoding") {
		return fmt.Sprintf("the font resource %q is %s", font, Short(fonts.Get(font)))
	}
	return ""
}

func close2(a, b float64) bool { return a-b < 0.0051 && b-a < 0.0051 }

func buildFormCase(c *rt.C) {
	r := c.R
	b := write.NewSimplePDFBuilder()
	w := b.Writer()
	mode := []string{"table", "xrefstm", "objstm"}[r.Intn(3)]
	setMode(w, mode, r)
	n := 1 + r.Intn(5)
	used := map[string]bool{}
	own := r.Intn(5) == 0 // the caller makes the catalog
	var fb fieldAdder
	var form *acroform.FormBuilder
	var raw *acroform.FieldBuilder
	if own {
		raw = acroform.NewFieldBuilder(w)
		fb = raw
	} else {
		form = acroform.NewFormBuilder(b)
		fb = form
	}
	ab := acroform.NewAppearanceBuilder(w)
	var fields []*built
	for k := 1 + r.Intn(8); k > 0; k-- {
		fields = append(fields, addBuilt(r, fb, r.Intn(n), used))
	}
	var texts []string
	var pbs []*write.PageBuilder
	final := 0
	addPage := func() {
		pb := b.AddPage(write.PageSize{Width: 300 + float64(final), Height: 700})
		t := randWords(r, 3)
		texts = append(texts, t)
		pb.Content().BeginText().SetFont(pb.AddStandardFont("Helvetica"), 12).SetTextPosition(10, 10).ShowText(t).EndText()
		pbs = append(pbs, pb)
		b.FinalizePage(pb)
		final++
	}
	before := r.Intn(n + 1)
	if r.Intn(2) == 0 {
		before = n
	}
	for final < before {
		addPage()
	}
	var pw []byte
	encrypt := func() {
		pw = []byte(randWords(r, 1))
		if _, err := w.SetupEncryptionWithPasswords(pw, []byte("owner"), -4, true); err != nil {
			c.Failf("SetupEncryption: %v", err)
		}
	}
	encAt := r.Intn(8)
	if encAt == 0 {
		encrypt()
	}
	hasMeta, hasBM := r.Intn(3) == 0, r.Intn(3) == 0
	extras := func() {
		if hasMeta {
			w.SetMetadata(&types.DocumentMetadata{Title: "T (form)"})
		}
		if hasBM && final == n {
			if err := b.SetBookmarks([]types.Bookmark{{Title: "first", PageNumber: 1}}); err != nil {
				c.Failf("SetBookmarks: %v", err)
			}
		} else {
			hasBM = false
		}
	}
	first := r.Intn(2) == 0 && final == n && !own
	if first {
		extras()
	}
	var num int
	var err error
	what := "BuildForm"
	if own {
		what = "Build"
		num, err = raw.Build()
	} else {
		num, err = form.BuildForm()
	}
	if err != nil || num <= 0 {
		c.Failf("%s: %d, %v", what, num, err)
		return
	}
	if encAt == 1 {
		encrypt()
	}
	early, twice := []byte(nil), r.Intn(4) == 0
	for final < n {
		addPage()
		if twice && r.Intn(2) == 0 && !own {
			if early, err = b.Bytes(); err != nil {
				c.Failf("Bytes: %v", err)
				return
			}
		}
	}
	rootNum := 0
	if own {
		pages := b.PagesObjNum()
		cat := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/Lang(en)>>", pages)
		if r.Intn(2) == 0 {
			cat = fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R/Lang(en)>>", pages, num)
		}
		rootNum = w.AddObject([]byte(cat))
		w.SetRoot(rootNum)
		if err := acroform.AddAcroFormToCatalog(w, rootNum, num); err != nil {
			c.Failf("AddAcroFormToCatalog: %v", err)
		}
	}
	if !first {
		extras()
	}
	if encAt == 2 {
		encrypt()
	}
	out, err := b.Bytes()
	if err != nil {
		c.Failf("Bytes: %v", err)
		return
	}
	for pass := 0; pass < 2; pass++ {
		c.Save(fmt.Sprintf("out%d.pdf", pass), out)
		checkBuilt(c, what, out, pw, num, fields, texts, own, hasMeta, hasBM, rootNum)
		if c.Failed() || pass == 1 {
			break
		}
		// actions and appearances go onto the fields built, and a second Bytes
		// writes the document with them
		f, err := OpenStrict(out, pw)
		if err != nil {
			return
		}
		refs := f.Resolve(f.Dict(f.Catalog().Get("AcroForm")).Get("Fields")).(Arr)
		var aps []apModel
		for k := r.Intn(4); k > 0; k-- {
			aps = append(aps, randAppearance(c, r, ab))
		}
		for i, b2 := range fields {
			n := refs[i].(Ref).N
			for k := r.Intn(3); k > 0; k-- {
				mouse := r.Intn(2) == 0
				a := randAction(r, mouse, b.Pages())
				in := a.in
				if mouse {
					ev := []string{"onClick", "onMouseUp", "onMouseDown", "onEnter", "onExit"}[r.Intn(5)]
					key := map[string]string{"onClick": "U", "onMouseUp": "U", "onMouseDown": "D", "onEnter": "E", "onExit": "X"}[ev]
					err = acroform.AddMouseAction(n, ev, &in, w)
					b2.acts[key] = a
				} else {
					err = acroform.AddActionToField(n, &in, w)
					b2.acts[""] = a
				}
				if err != nil {
					c.Failf("adding action %+v: %v", a.in, err)
					return
				}
				c.Obs("actions", 1)
			}
			if len(aps) > 0 && r.Intn(2) == 0 {
				b2.ap = aps[r.Intn(len(aps))].num
				if err := acroform.AddAppearanceToField(n, b2.ap, w); err != nil {
					c.Failf("AddAppearanceToField: %v", err)
					return
				}
			}
		}
		if out, err = b.Bytes(); err != nil {
			c.Failf("Bytes again: %v", err)
			return
		}
		if f, err = OpenStrict(out, pw); err != nil {
			c.Failf("the document with actions and appearances is not well-formed: %v", err)
			return
		}
		for _, m := range aps {
			if s := m.diff(f); s != "" {
				c.Failf("%s", s)
				return
			}
			c.Obs("appearances", 1)
		}
	}
	if early != nil && !bytes.HasPrefix(early, []byte("%PDF-")) {
		c.Failf("Bytes before the last page is no PDF")
	}
	c.Distinct(what, mode, n, before, len(fields), encAt, own, len(out))
	c.Sample("%s: %d fields on %d pages (%d finalized before), %s, encrypted %v", what, len(fields), n, before, mode, pw != nil)
}

func checkBuilt(c *rt.C, what string, out, pw []byte, num int, fields []*built, texts []string, own, hasMeta, hasBM bool, rootNum int) {
	f, err := OpenStrict(out, pw)
	if err != nil {
		c.Failf("%s: the document is not well-formed: %v", what, err)
		return
	}
	if dg := f.Dangling(); len(dg) > 0 {
		c.Failf("%s: dangling references %v", what, dg)
		return
	}
	pgs, err := f.Pages()
	if err != nil || len(pgs) != len(texts) {
		c.Failf("%s: %d pages (%v), want %d", what, len(pgs), err, len(texts))
		return
	}
	cat := f.Catalog()
	if af, ok := cat.Get("AcroForm").(Ref); !ok || af.N != num {
		c.Failf("%s: catalog /AcroForm is %s, want %d 0 R", what, Short(cat.Get("AcroForm")), num)
		return
	}
	if own {
		if rr, ok := f.Trailer.Get("Root").(Ref); !ok || rr.N != rootNum || string(asStr(cat.Get("Lang"))) != "en" {
			c.Failf("%s: the caller's catalog was not used: %s", what, Short(cat))
			return
		}
	}
	if hasBM != (cat.Get("Outlines") != nil) {
		c.Failf("%s: outlines %s, bookmarks set %v", what, Short(cat.Get("Outlines")), hasBM)
	}
	if hasMeta {
		if info := f.Dict(f.Trailer.Get("Info")); info == nil || plainValue(f, info.Get("Title")) != "T (form)" {
			c.Failf("%s: the metadata is gone", what)
		}
	}
	form := f.Dict(cat.Get("AcroForm"))
	refs, _ := f.Resolve(form.Get("Fields")).(Arr)
	if len(refs) != len(fields) {
		c.Failf("%s: %d fields in the form, want %d", what, len(refs), len(fields))
		return
	}
	if b, ok := form.Get("NeedAppearances").(Bool); !ok || !bool(b) {
		c.Failf("%s: fields without appearances, yet NeedAppearances is %s", what, Short(form.Get("NeedAppearances")))
	}
	on := map[int][]int{}
	for i, p := range pgs {
		a, _ := f.Resolve(p.D.Get("Annots")).(Arr)
		for _, e := range a {
			rf, ok := e.(Ref)
			if !ok {
				c.Failf("%s: page %d has an annotation %s", what, i, Short(e))
				return
			}
			on[rf.N] = append(on[rf.N], i)
		}
		b, err := f.Contents(p)
		if err != nil {
			c.Failf("%s: page %d: %v", what, i, err)
			return
		}
		ops, err := ParseContent(b)
		if err != nil {
			c.Failf("%s: page %d: %v", what, i, err)
			return
		}
		got := ""
		for _, op := range ops {
			if op.Name == "Tj" {
				got += string(op.Args[0].(Str))
			}
		}
		if got != texts[i] {
			c.Failf("%s: page %d shows %q, want %q", what, i, got, texts[i])
			return
		}
	}
	seen := map[int]bool{}
	for i, b := range fields {
		rf, ok := refs[i].(Ref)
		if !ok || seen[rf.N] {
			c.Failf("%s: field %d is %s", what, i, Short(refs[i]))
			return
		}
		seen[rf.N] = true
		d := f.Dict(rf)
		if d == nil {
			c.Failf("%s: field %q is %s", what, b.name, Short(f.Resolve(rf)))
			return
		}
		if s := b.diff(f, d); s != "" {
			c.Failf("%s: %s", what, s)
			return
		}
		want := []int{b.page}
		if own {
			want = nil // without the document builder fields are placed by the caller
		}
		if !reflect.DeepEqual(on[rf.N], want) {
			c.Failf("%s: field %q is on pages %v, want %v", what, b.name, on[rf.N], want)
			return
		}
		delete(on, rf.N)
		c.Obs("fields", 1)
	}
	if len(on) > 0 {
		c.Failf("%s: annotations that are no fields: %v", what, on)
	}
	af, err := acroform.ExtractAcroForm(out, pw, false)
	if err != nil {
		c.Failf("%s: ExtractAcroForm: %v", what, err)
		return
	}
	if len(af.Fields) != len(fields) {
		c.Failf("%s: ExtractAcroForm reads back %d fields, want %d", what, len(af.Fields), len(fields))
		return
	}
	for i, b := range fields {
		g := af.Fields[i]
		var o []string
		for _, e := range g.Opt {
			s, _ := e.(string)
			o = append(o, s)
		}
		if g.T != b.name || g.FT != b.ft || g.Ff != b.ff || !reflect.DeepEqual(g.V, b.v) || !reflect.DeepEqual(g.DV, b.dv) || !reflect.DeepEqual(g.Rect, b.rect) ||
			g.MaxLen != b.maxLen || !reflect.DeepEqual(o, b.opt) || !own && g.Page != b.page {
			c.Failf("%s: field %q reads back as %+v", what, b.name, g)
			return
		}
		c.Obs("read back", 1)
	}
}

func asStr(o Obj) Str { s, _ := o.(Str); return s }

func init() {
	rt.Register(&rt.Check{
		ID: "P19", Title: "Built forms are complete: every field, on its page, reachable and readable",
		Rule: "distinct_nontrivial = cases with a distinct (entry point, writer mode, pages, pages finalized before, fields, encryption, size) whose form was compared field by field with what was asked for",
		Families: []rt.Family{
			{Name: "build", Quick: 1500, Thorough: 25000, Run: buildFormCase},
		},
	})
}
