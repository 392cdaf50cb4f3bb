package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verifharness/rt"
)

// tmplGen is the model of an XFA template.
type tmplGen struct {
	r      *rand.Rand
	root   *xn
	src    string
	title  string
	pages  int
	quests []types.Question // without IDs
	rules  []types.Rule
}

var xfaTypes = map[types.ResponseType][]string{
	types.ResponseTypeText:      {"text", "textField", "TEXT", "textfield"},
	types.ResponseTypeTextarea:  {"textEdit", "textarea", "textedit"},
	types.ResponseTypeRadio:     {"radioButton", "radio", "RadioButton"},
	types.ResponseTypeCheckbox:  {"checkButton", "checkbox"},
	types.ResponseTypeSelect:    {"choiceList", "select", "choice", "dropdown", "listBox"},
	types.ResponseTypeNumber:    {"numeric", "numericEdit", "decimal", "integer", "float"},
	types.ResponseTypeDate:      {"date", "dateField", "dateTimeEdit"},
	types.ResponseTypeEmail:     {"email", "emailField"},
	types.ResponseTypeButton:    {"button", "Button"},
	types.ResponseTypeSignature: {"signature", "signatureField"},
}

var respTypes = []types.ResponseType{types.ResponseTypeText, types.ResponseTypeTextarea, types.ResponseTypeRadio, types.ResponseTypeCheckbox, types.ResponseTypeSelect,
	types.ResponseTypeNumber, types.ResponseTypeDate, types.ResponseTypeEmail, types.ResponseTypeButton, types.ResponseTypeSignature}

func (g *tmplGen) typed(e *xn) types.ResponseType {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return types.ResponseTypeText // says nothing
	case 1, 2:
		t := respTypes[r.Intn(len(respTypes))]
		e.attr("type", xfaTypes[t][r.Intn(len(xfaTypes[t]))])
		return t
	}
	ui := el("ui")
	var t types.ResponseType
	switch r.Intn(8) {
	case 0:
		t = types.ResponseTypeText
		ui.add(el("textEdit"))
	case 1:
		t = types.ResponseTypeTextarea
		ui.add(el("textEdit").attr("multiLine", "1"))
	case 2:
		t = types.ResponseTypeCheckbox
		ui.add(el("checkButton", el("border")))
	case 3:
		t = types.ResponseTypeSelect
		ui.add(el("choiceList").attr("open", "userControl"))
	case 4:
		t = types.ResponseTypeNumber
		ui.add(el("numericEdit"))
	case 5:
		t = types.ResponseTypeDate
		ui.add(el("dateTimeEdit"))
	case 6:
		t = types.ResponseTypeSignature
		ui.add(el("signature"))
	case 7:
		t = types.ResponseTypeButton
		ui.add(el("button"))
	}
	e.add(ui)
	return t
}

func (g *tmplGen) wrap(s string) interface{} {
	if g.r.Intn(2) == 0 {
		return el("text", s)
	}
	return s
}

func (g *tmplGen) field() *xn {
	r := g.r
	e := el("field")
	q := types.Question{PageNumber: 1, Properties: map[string]interface{}{}}
	switch r.Intn(8) {
	case 0:
		q.Name = xmlText(r)
		e.attr("name", q.Name)
	case 1: // no name
	default:
		q.Name = xmlName(r)
		e.attr("name", q.Name)
	}
	q.Type = g.typed(e)
	switch r.Intn(5) {
	case 0:
		e.attr("required", []string{"1", "true", "yes"}[r.Intn(3)])
		q.Required = true
	case 1:
		e.attr("required", []string{"0", "false"}[r.Intn(2)])
	}
	switch r.Intn(6) {
	case 0:
		e.attr("access", "readOnly")
		q.ReadOnly = true
	case 1:
		e.attr("access", "hidden")
		q.Hidden = true
	case 2:
		e.attr("access", "open")
	}
	switch r.Intn(6) {
	case 0:
		e.attr("presence", []string{"hidden", "invisible", "inactive"}[r.Intn(3)])
		q.Hidden = true
	case 1:
		e.attr("presence", "visible")
	}
	for _, k := range []string{"x", "y", "w", "h"} {
		switch r.Intn(5) {
		case 0:
			v := float64(r.Intn(200000)-50000) / 100
			e.attr(k, strconv.FormatFloat(v, 'f', -1, 64))
			q.Properties[k] = v
		case 1:
			v := strconv.FormatFloat(float64(r.Intn(200000)-50000)/100, 'f', -1, 64) + []string{"mm", "in", "pt", "cm"}[r.Intn(4)]
			e.attr(k, v)
			q.Properties[k] = v
		}
	}
	if r.Intn(3) == 0 {
		q.PageNumber = 1 + r.Intn(40)
		e.attr("page", strconv.Itoa(q.PageNumber))
	}
	caption := ""
	var kids []interface{}
	if r.Intn(3) == 0 {
		caption = xmlText(r)
		c := el("caption", el("value", g.wrap(caption)))
		if r.Intn(3) == 0 {
			c.add(el("font").attr("typeface", "Arial"))
		}
		kids = append(kids, c)
		q.Label = caption
	}
	if r.Intn(3) == 0 {
		q.Label = xmlText(r)
		kids = append(kids, el("label", q.Label))
	}
	if r.Intn(4) == 0 {
		q.Description = xmlText(r)
		kids = append(kids, el([]string{"desc", "description"}[r.Intn(2)], g.wrap(q.Description)))
	}
	switch r.Intn(3) {
	case 0:
		v := dsText(r)
		ve := el("value")
		if v != "" {
			ve.add(g.wrap(v))
			q.Default = v
		}
		kids = append(kids, ve)
	}
	if r.Intn(3) == 0 {
		n := 1 + r.Intn(4)
		labels, values := el("items"), el("items").attr("save", "1")
		two := r.Intn(2) == 0
		if !two && r.Intn(2) == 0 {
			values = el("items")
		}
		for i := 0; i < n; i++ {
			o := types.Option{Value: dsText(r)}
			o.Label = o.Value
			tag := []string{"text", "integer", "item"}[r.Intn(3)]
			if two {
				o.Label = xmlText(r)
				labels.add(el("text", o.Label))
			}
			x := el(tag)
			if o.Value != "" {
				x.add(o.Value)
			}
			values.add(x)
			q.Options = append(q.Options, o)
		}
		switch {
		case !two:
			kids = append(kids, values)
		case r.Intn(2) == 0:
			kids = append(kids, labels, values)
		default:
			kids = append(kids, values, labels)
		}
	}
	if r.Intn(4) == 0 {
		v := el("validate")
		q.Validation = &types.ValidationRules{}
		if r.Intn(2) == 0 {
			q.Validation.CustomScript = xmlText(r)
			v.attr("scriptTest", q.Validation.CustomScript)
		}
		if r.Intn(2) == 0 {
			q.Validation.ErrorMessage = xmlText(r)
			v.attr("messageText", q.Validation.ErrorMessage)
		}
		if r.Intn(2) == 0 {
			q.Validation.Pattern = xmlText(r)
			v.add(el("pattern", q.Validation.Pattern))
		}
		kids = append(kids, v)
	}
	for n := r.Intn(3); n > 0 && r.Intn(2) == 0; n-- {
		k := r.Intn(6)
		ev := el("event").attr("activity", []string{"initialize", "enter", "change", "exit", "validate", "click"}[k])
		rule := types.Rule{Source: q.Name, Type: []types.RuleType{types.RuleTypeSetValue, types.RuleTypeSetValue, types.RuleTypeCalculate, types.RuleTypeCalculate, types.RuleTypeValidate, types.RuleTypeCalculate}[k]}
		if r.Intn(3) == 0 {
			ev.attr("name", "ev")
		}
		if r.Intn(4) != 0 {
			s := xmlText(r)
			ev.add(el("script", s).attr("contentType", "application/x-javascript"))
			rule.Actions = []types.Action{{Type: types.ActionTypeExecute, Script: s, Expression: s}}
		}
		kids = append(kids, ev)
		g.rules = append(g.rules, rule)
	}
	if r.Intn(5) == 0 {
		kids = append(kids, el("bind").attr("match", "once"))
	}
	if r.Intn(6) == 0 {
		kids = append(kids, xraw("<!-- <label>no</label> -->"))
	}
	// events keep their order among themselves, the rest is mixed
	if r.Intn(2) == 0 {
		var rest, evs []interface{}
		for _, k := range kids {
			if x, ok := k.(*xn); ok && (x.name == "event" || x.name == "items") {
				evs = append(evs, k)
			} else {
				rest = append(rest, k)
			}
		}
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		kids = append(evs, rest...)
	}
	e.add(kids...)
	g.quests = append(g.quests, q)
	return e
}

func (g *tmplGen) subform(e *xn, depth int) {
	r := g.r
	for n := r.Intn(4); n > 0; n-- {
		switch k := r.Intn(8); {
		case k < 4:
			e.add(g.field())
		case k == 4:
			e.add(el("draw", el("value", el("text", xmlText(r)))).attr("name", "title"))
		case k == 5:
			e.add(xraw("<!-- <field name=\"commented\"/> -->"))
		case depth < 4:
			s := el([]string{"subform", "subform", "subformSet", "exclGroup"}[r.Intn(4)])
			if r.Intn(2) == 0 {
				s.attr("name", xmlName(r))
			}
			if r.Intn(4) == 0 {
				s.add(el("event", el("script", "outside")).attr("activity", "initialize"))
			}
			g.subform(s, depth+1)
			e.add(s)
		}
	}
}

func makeTemplate(r *rand.Rand) *tmplGen {
	g := &tmplGen{r: r, root: el("template").attr("xmlns", "http://www.xfa.org/schema/xfa-template/3.0/"), pages: 1}
	if r.Intn(3) == 0 {
		g.title = xmlText(r)
		g.root.attr("title", g.title)
	}
	body := g.root
	if r.Intn(3) != 0 {
		body = el("subform").attr("name", "form1").attr("layout", "tb")
		g.root.add(body)
	}
	if r.Intn(3) == 0 {
		body.add(el("pageSet", el("pageArea", el("medium")).attr("name", "Page1")))
	}
	g.subform(body, 0)
	if r.Intn(2) == 0 {
		body.add(g.field())
	}
	g.src = writeXML(r, g.root)
	return g
}

func questionDiff(got, want types.Question) string {
	a, b := got, want
	a.ID, b.ID = "", ""
	if len(a.Properties) == 0 {
		a.Properties = nil
	}
	if len(b.Properties) == 0 {
		b.Properties = nil
	}
	av, bv := a.Validation, b.Validation
	a.Validation, b.Validation = nil, nil
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("question %q is %+v, want %+v", want.Name, a, b)
	}
	if (av == nil) != (bv == nil) || av != nil && !reflect.DeepEqual(*av, *bv) {
		return fmt.Sprintf("validation of question %q is %+v, want %+v", want.Name, av, bv)
	}
	return ""
}

// check compares a schema with the model of the template.
func (g *tmplGen) check(c *rt.C, what string, s *types.FormSchema) {
	if s == nil {
		c.Failf("%s: no schema", what)
		return
	}
	if s.Metadata.FormType != "XFA" || s.Metadata.Title != g.title {
		c.Failf("%s: metadata %+v, want title %q", what, s.Metadata, g.title)
	}
	checkQuestions(c, what, s, g.quests, g.rules)
}

func checkQuestions(c *rt.C, what string, s *types.FormSchema, quests []types.Question, rules []types.Rule) {
	if len(s.Questions) != len(quests) {
		c.Failf("%s: %d questions, want %d", what, len(s.Questions), len(quests))
		return
	}
	ids := map[string]bool{}
	for i, q := range s.Questions {
		if d := questionDiff(q, quests[i]); d != "" {
			c.Failf("%s: %s", what, d)
			return
		}
		if q.ID == "" || ids[q.ID] {
			c.Failf("%s: ID %q of question %q is empty or used twice", what, q.ID, q.Name)
		}
		ids[q.ID] = true
		c.Obs("questions", 1)
	}
	if len(s.Rules) != len(rules) {
		c.Failf("%s: %d rules, want %d", what, len(s.Rules), len(rules))
		return
	}
	ids = map[string]bool{}
	for i, x := range s.Rules {
		if ids[x.ID] || x.ID == "" {
			c.Failf("%s: rule ID %q is empty or used twice", what, x.ID)
		}
		ids[x.ID] = true
		x.ID = ""
		if len(x.Actions) == 0 {
			x.Actions = nil
		}
		if !reflect.DeepEqual(x, rules[i]) {
			c.Failf("%s: rule %d is %+v, want %+v", what, i, x, rules[i])
			return
		}
		c.Obs("rules", 1)
	}
}

func templateReadCase(c *rt.C) {
	g := makeTemplate(c.R)
	if back, err := readXML(g.src); err != nil {
		panic("harness: " + err.Error() + "\n" + g.src)
	} else if s := xmlDiff(g.root, back, ""); s != "" {
		panic("harness: " + s + "\n" + g.src)
	}
	c.Save("template.xml", []byte(g.src))
	s, err := xfa.ParseXFAForm(g.src, false)
	if err != nil {
		c.Failf("ParseXFAForm: %v", err)
		return
	}
	g.check(c, "ParseXFAForm", s)
	s2, err := xfa.ParseXFAForm(g.src, false)
	if err != nil || !reflect.DeepEqual(s, s2) {
		c.Failf("ParseXFAForm gives another schema the second time (%v)", err)
	}
	// and through the other direction
	back, err := xfa.FormToXFA(s, false)
	if err != nil {
		c.Failf("FormToXFA: %v", err)
		return
	}
	if _, err := readXML(back); err != nil {
		c.Failf("FormToXFA: the result is not well-formed: %v\n%s", err, back)
	}
	c.Distinct(len(g.quests), len(g.rules), len(g.src))
	c.Sample("%d fields, %d events, %d bytes", len(g.quests), len(g.rules), len(g.src))
}

// spaced puts white space around a text now and then.
func spaced(r *rand.Rand, s string) string {
	switch r.Intn(10) {
	case 0:
		return " " + s
	case 1:
		return s + "\n"
	case 2:
		return "\t" + s + "  "
	}
	return s
}

func formSchemaCase(c *rt.C) {
	r := c.R
	s := &types.FormSchema{}
	var want []types.Question
	used := map[string]bool{}
	if r.Intn(2) == 0 {
		s.Metadata.Title = spaced(r, xmlText(r))
	}
	for n := r.Intn(6); n > 0; n-- {
		q := types.Question{ID: fmt.Sprintf("id-%d", n), Type: respTypes[r.Intn(len(respTypes))], PageNumber: 1 + r.Intn(9), Properties: map[string]interface{}{}}
		q.Name = xmlName(r)
		if r.Intn(3) == 0 {
			q.Name = spaced(r, xmlText(r))
		}
		if used[q.Name] {
			continue
		}
		used[q.Name] = true
		if r.Intn(2) == 0 {
			q.Label = xmlText(r)
		}
		if r.Intn(3) == 0 {
			q.Description = xmlText(r)
		}
		q.Required, q.ReadOnly, q.Hidden = r.Intn(2) == 0, r.Intn(3) == 0, r.Intn(3) == 0
		w := q
		w.Properties = map[string]interface{}{}
		for _, k := range []string{"x", "y", "w", "h"} {
			switch r.Intn(6) {
			case 0:
				v := anyFloat(r)
				q.Properties[k], w.Properties[k] = v, v
			case 1:
				v := r.Intn(100000) - 200
				q.Properties[k], w.Properties[k] = v, float64(v)
			case 2:
				v := strconv.Itoa(r.Intn(300)) + "mm"
				q.Properties[k], w.Properties[k] = v, v
			}
		}
		switch r.Intn(3) {
		case 0:
			v, t := xfaValue(r)
			q.Default = v
			if t != "" {
				w.Default = t
			}
		}
		if r.Intn(3) == 0 {
			labeled := r.Intn(2) == 0
			for n := 1 + r.Intn(4); n > 0; n-- {
				o := types.Option{Value: dsText(r)}
				if labeled {
					o.Label = dsText(r)
				} else if r.Intn(2) == 0 {
					o.Label = o.Value
				}
				q.Options = append(q.Options, o)
				if o.Label == "" {
					o.Label = o.Value
				}
				w.Options = append(w.Options, o)
			}
		}
		if r.Intn(3) == 0 {
			v := types.ValidationRules{}
			if r.Intn(2) == 0 {
				v.Pattern = xmlText(r)
			}
			if r.Intn(2) == 0 {
				v.CustomScript = spaced(r, xmlText(r))
			}
			if r.Intn(2) == 0 {
				v.ErrorMessage = spaced(r, xmlText(r))
			}
			x := v
			q.Validation, w.Validation = &v, &x
		}
		s.Questions = append(s.Questions, q)
		want = append(want, w)
	}
	byQ := map[int][]types.Rule{}
	for n := r.Intn(4); n > 0 && len(s.Questions) > 0; n-- {
		i := r.Intn(len(s.Questions))
		q := s.Questions[i]
		k := r.Intn(3)
		rule := types.Rule{ID: fmt.Sprintf("r%d", n), Source: q.Name, Type: []types.RuleType{types.RuleTypeCalculate, types.RuleTypeValidate, types.RuleTypeSetValue}[k]}
		if r.Intn(2) == 0 && !used[q.ID] {
			rule.Source = q.ID
		}
		w := types.Rule{Source: q.Name, Type: rule.Type}
		if r.Intn(4) != 0 {
			t := xmlText(r)
			a := types.Action{Type: types.ActionTypeExecute, Script: t}
			switch r.Intn(3) {
			case 0:
				a = types.Action{Type: types.ActionTypeCalculate, Expression: t}
			case 1:
				a.Expression = "other"
			}
			rule.Actions = []types.Action{a}
			w.Actions = []types.Action{{Type: types.ActionTypeExecute, Script: t, Expression: t}}
		}
		s.Rules = append(s.Rules, rule)
		byQ[i] = append(byQ[i], w)
	}
	var rules []types.Rule
	for i := range s.Questions {
		rules = append(rules, byQ[i]...)
	}
	out, err := xfa.FormToXFA(s, false)
	if err != nil {
		c.Failf("FormToXFA: %v", err)
		return
	}
	c.Save("template.xml", []byte(out))
	root, err := readXML(out)
	if err != nil {
		c.Failf("FormToXFA: the result is not well-formed: %v", err)
		return
	}
	if root.name != "template" {
		c.Failf("FormToXFA: the root element is %q", root.name)
	}
	if again, err := xfa.FormToXFA(s, false); err != nil || again != out {
		c.Failf("FormToXFA gives another template the second time (%v)", err)
	}
	back, err := xfa.ParseXFAForm(out, false)
	if err != nil {
		c.Failf("ParseXFAForm(FormToXFA): %v", err)
		return
	}
	if back.Metadata.Title != s.Metadata.Title {
		c.Failf("title %q reads back as %q", s.Metadata.Title, back.Metadata.Title)
	}
	checkQuestions(c, "ParseXFAForm(FormToXFA)", back, want, rules)
	c.Distinct(len(s.Questions), len(s.Rules), len(out))
	c.Sample("%d questions, %d rules, %d bytes", len(s.Questions), len(s.Rules), len(out))
}

// datasetsCase writes datasets and reads them back.
func datasetsCase(c *rt.C) {
	r := c.R
	var container func(depth int) (map[string]interface{}, map[string]interface{}, []types.XFAFieldGroup, []types.XFAFieldGroup)
	n := 0
	container = func(depth int) (map[string]interface{}, map[string]interface{}, []types.XFAFieldGroup, []types.XFAFieldGroup) {
		f, w := map[string]interface{}{}, map[string]interface{}{}
		for i := r.Intn(5); i > 0; i-- {
			k := spaced(r, xmlText(r))
			if r.Intn(2) == 0 {
				k = xmlName(r)
			}
			v, t := xfaValue(r)
			if t != "" && r.Intn(8) == 0 {
				v = types.ResponseType(t) // any other type is written as it prints
			}
			f[k], w[k] = v, dsValue(t)
			n++
		}
		if r.Intn(10) == 0 {
			f["nothing"], w["nothing"] = nil, ""
		}
		var gs, ws []types.XFAFieldGroup
		for i := r.Intn(3); i > 0 && depth < 4; i-- {
			name := xmlName(r)
			a, b, ag, bg := container(depth + 1)
			gs = append(gs, types.XFAFieldGroup{Name: name, Fields: a, Groups: ag})
			ws = append(ws, types.XFAFieldGroup{Name: name, Fields: b, Groups: bg})
		}
		return f, w, gs, ws
	}
	f, w, gs, ws := container(0)
	ds := &types.XFADatasets{Fields: f, Groups: gs}
	out, err := xfa.DatasetsToXFA(ds, false)
	if err != nil {
		c.Failf("DatasetsToXFA: %v", err)
		return
	}
	c.Save("datasets.xml", []byte(out))
	if _, err := readXML(out); err != nil {
		c.Failf("DatasetsToXFA: the result is not well-formed: %v", err)
		return
	}
	if again, err := xfa.DatasetsToXFA(ds, false); err != nil || again != out {
		c.Failf("DatasetsToXFA gives another document the second time (%v)", err)
	}
	back, err := xfa.ParseXFADatasets(out, false)
	if err != nil {
		c.Failf("ParseXFADatasets(DatasetsToXFA): %v", err)
		return
	}
	if len(w)+len(back.Fields) > 0 && !reflect.DeepEqual(back.Fields, w) {
		c.Failf("fields read back as %#v, want %#v", back.Fields, w)
	}
	if !sameGroups(back.Groups, ws) {
		c.Failf("groups read back as %+v, want %+v", back.Groups, ws)
	}
	c.Obs("datasets fields", n)
	c.Distinct(n, len(out))
	c.Sample("%d fields, %d groups, %d bytes", n, len(gs), len(out))
}

// --- settings packets ---

// attrName is the XML name of a setting: renderPolicy, embedPDF, xdpContent.
func attrName(s string) string {
	n := 0
	for n < len(s) && s[n] >= 'A' && s[n] <= 'Z' {
		n++
	}
	if n > 1 && n < len(s) {
		n--
	}
	return strings.ToLower(s[:n]) + s[n:]
}

type settingsGen struct {
	r       *rand.Rand
	n       int
	reading bool // property values as they are read
}

func (g *settingsGen) str() string {
	r := g.r
	switch r.Intn(3) {
	case 0:
		return ""
	case 1:
		return words[r.Intn(len(words))]
	}
	return spaced(r, xmlText(r))
}

func (g *settingsGen) num() int {
	if g.r.Intn(2) == 0 {
		return 0
	}
	return g.r.Intn(300) - 60
}

func (g *settingsGen) float() float64 {
	if g.r.Intn(3) == 0 {
		return 0
	}
	return anyFloat(g.r)
}

// fill sets the fields of a struct at random. Properties and lists are left out.
func (g *settingsGen) fill(v reflect.Value) {
	r := g.r
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.String:
			f.SetString(g.str())
			g.n++
		case reflect.Bool:
			f.SetBool(r.Intn(2) == 0)
			g.n++
		case reflect.Int:
			f.SetInt(int64(g.num()))
			g.n++
		case reflect.Float64:
			f.SetFloat(g.float())
			g.n++
		case reflect.Ptr:
			if r.Intn(3) != 0 {
				p := reflect.New(f.Type().Elem())
				g.fill(p.Elem())
				f.Set(p)
			}
		}
	}
}

// props draws properties: as they are given, and as they are read.
func (g *settingsGen) props(typed bool, reserved ...string) (map[string]interface{}, map[string]interface{}) {
	r := g.r
	a, b := map[string]interface{}{}, map[string]interface{}{}
	for n := r.Intn(4); n > 0; n-- {
		k := xmlName(r)
		if r.Intn(3) == 0 {
			k = []string{"uri", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query", "timeout"}[r.Intn(9)]
		}
		bad := false
		for _, x := range reserved {
			bad = bad || x == k
		}
		if bad {
			continue
		}
		v, t := xfaValue(r)
		if t == "" {
			continue
		}
		a[k], b[k] = v, t
		if typed {
			b[k] = styleValue(t)
		}
		g.n++
	}
	return a, b
}

// styleValue is what the value of a style property is read as.
func styleValue(s string) interface{} {
	switch v := dsValue(s).(type) {
	case int:
		if x := float64(v); strconv.FormatFloat(x, 'f', -1, 64) == s {
			return x
		}
		return s
	default:
		return v
	}
}

// tree is the element a settings struct is written as.
func settingsTree(name string, v reflect.Value) *xn {
	e := el(name)
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		f, k := v.Field(i), attrName(t.Field(i).Name)
		switch f.Kind() {
		case reflect.String:
			if f.String() != "" {
				e.attr(k, f.String())
			}
		case reflect.Bool:
			if f.Bool() {
				e.attr(k, "1")
			}
		case reflect.Int:
			if f.Int() != 0 {
				e.attr(k, strconv.FormatInt(f.Int(), 10))
			}
		case reflect.Float64:
			if f.Float() != 0 {
				e.attr(k, strconv.FormatFloat(f.Float(), 'f', -1, 64))
			}
		case reflect.Ptr:
			if !f.IsNil() {
				e.add(settingsTree(k, f.Elem()))
			}
		case reflect.Map:
			if m, ok := f.Interface().(map[string]string); ok {
				for k, s := range m {
					e.attr(k, s)
				}
				continue
			}
			for k, x := range f.Interface().(map[string]interface{}) {
				if p := reflect.ValueOf(x); p.Kind() == reflect.Ptr {
					e.add(settingsTree(k, p.Elem()))
				} else if x, ok := x.(float64); ok {
					e.add(el(k, strconv.FormatFloat(x, 'f', -1, 64)))
				} else {
					e.add(el(k, fmt.Sprint(p.Interface())))
				}
			}
		case reflect.Slice:
			one := map[string]string{"holidays": "holiday", "locales": "locale", "connections": "connection", "styles": "style"}[k]
			for j := 0; j < f.Len(); j++ {
				if x := f.Index(j); x.Kind() == reflect.String {
					e.add(el(one, x.String()))
				} else {
					e.add(settingsTree(one, x))
				}
			}
		}
	}
	return e
}

// canon is a form of an element in which the order of attributes and of
// different elements does not matter.
func canon(e *xn) string {
	var as, ks []string
	for _, a := range e.attrs {
		as = append(as, fmt.Sprintf("%s=%q", a[0], a[1]))
	}
	sort.Strings(as)
	for _, x := range e.elems() {
		ks = append(ks, canon(x))
	}
	sort.Strings(ks)
	t := e.text()
	if len(ks) > 0 {
		t = strings.TrimSpace(t)
	}
	return fmt.Sprintf("<%s %v %q %v>", e.name, as, t, ks)
}

// vary changes how settings are written, not what they are.
func (g *settingsGen) vary(e *xn) {
	r := g.r
	r.Shuffle(len(e.attrs), func(i, j int) { e.attrs[i], e.attrs[j] = e.attrs[j], e.attrs[i] })
	for i, k := range e.kids {
		if x, ok := k.(*xn); ok {
			g.vary(x)
			if len(x.attrs) == 0 && len(x.elems()) == 0 && x.text() != "" && r.Intn(4) == 0 {
				x.kids = append([]interface{}{" \n"}, append(x.kids, "\t ")...)
			}
		}
		if r.Intn(12) == 0 && i > 0 {
			e.kids[i] = k
		}
	}
	if len(e.elems()) > 0 && r.Intn(5) == 0 {
		e.kids = append([]interface{}{xraw("<!-- <style name=\"no\"/><uri>no</uri> -->")}, e.kids...)
	}
}

func emptyMaps(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			emptyMaps(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if (f.Kind() == reflect.Map || f.Kind() == reflect.Slice) && f.Len() == 0 {
				f.Set(reflect.Zero(f.Type()))
			}
			emptyMaps(f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			emptyMaps(v.Index(i))
		}
	}
}

type settingsKind struct {
	name  string
	make  func(g *settingsGen) (given, read interface{})
	write func(v interface{}) (string, error)
	parse func(s string) (interface{}, error)
}

var settingsKinds = []settingsKind{
	{"config", func(g *settingsGen) (interface{}, interface{}) {
		v := &types.XFAConfig{}
		g.fill(reflect.ValueOf(v).Elem())
		if v.Submit != nil {
			v.Submit.Properties = map[string]string{}
			for n := g.r.Intn(3); n > 0; n-- {
				if k := xmlName(g.r); k != "format" && k != "target" && k != "method" {
					v.Submit.Properties[k] = g.str()
				}
			}
		}
		w := *v
		v.Properties, w.Properties = g.props(false, "config", "present", "validate", "submit", "destination", "acrobat", "common", "output", "script", "trace", "pdf", "xdp", "print", "interactive")
		return v, &w
	}, func(v interface{}) (string, error) { return xfa.ConfigToXFA(v.(*types.XFAConfig), false) },
		func(s string) (interface{}, error) { return xfa.ParseXFAConfig(s, false) }},
	{"localeSet", func(g *settingsGen) (interface{}, interface{}) {
		v := &types.XFALocaleSet{Default: g.str()}
		for n := g.r.Intn(4); n > 0; n-- {
			l := types.XFALocale{}
			g.fill(reflect.ValueOf(&l).Elem())
			if l.Calendar != nil {
				for n := g.r.Intn(4); n > 0; n-- {
					h := xmlText(g.r)
					if g.r.Intn(3) == 0 {
						h = "Bank holiday"
					}
					l.Calendar.Holidays = append(l.Calendar.Holidays, h)
				}
			}
			v.Locales = append(v.Locales, l)
		}
		return v, v
	}, func(v interface{}) (string, error) { return xfa.LocaleSetToXFA(v.(*types.XFALocaleSet), false) },
		func(s string) (interface{}, error) { return xfa.ParseXFALocaleSet(s, false) }},
	{"connectionSet", func(g *settingsGen) (interface{}, interface{}) {
		v, w := &types.XFAConnectionSet{}, &types.XFAConnectionSet{}
		for n := g.r.Intn(4); n > 0; n-- {
			x := types.XFAConnection{}
			g.fill(reflect.ValueOf(&x).Elem())
			y := x
			x.Properties, y.Properties = g.props(false, "connection", "connectionSet", "dataDescription", "url")
			if x.DataDescription != nil {
				d := *x.DataDescription
				x.DataDescription.Properties, d.Properties = g.props(false, "connection", "connectionSet", "dataDescription", "url")
				y.DataDescription = &d
			}
			v.Connections = append(v.Connections, x)
			w.Connections = append(w.Connections, y)
		}
		return v, w
	}, func(v interface{}) (string, error) { return xfa.ConnectionSetToXFA(v.(*types.XFAConnectionSet), false) },
		func(s string) (interface{}, error) { return xfa.ParseXFAConnectionSet(s, false) }},
	{"stylesheet", func(g *settingsGen) (interface{}, interface{}) {
		v, w := &types.XFAStylesheet{}, &types.XFAStylesheet{}
		for n := g.r.Intn(4); n > 0; n-- {
			x := types.XFAStyle{}
			g.fill(reflect.ValueOf(&x).Elem())
			y := x
			x.Properties, y.Properties = g.props(true, "style", "stylesheet", "font", "border", "margin", "padding", "position", "size")
			for _, p := range []struct {
				k string
				v interface{}
			}{{"font", &types.XFAStyleFont{}}, {"border", &types.XFAStyleBorder{}}, {"margin", &types.XFAMargin{}}, {"padding", &types.XFAPadding{}}, {"position", &types.XFAPosition{}}, {"size", &types.XFASize{}}} {
				if g.r.Intn(3) == 0 {
					g.fill(reflect.ValueOf(p.v).Elem())
					x.Properties[p.k], y.Properties[p.k] = p.v, p.v
				}
			}
			v.Styles = append(v.Styles, x)
			w.Styles = append(w.Styles, y)
		}
		return v, w
	}, func(v interface{}) (string, error) { return xfa.StylesheetToXFA(v.(*types.XFAStylesheet), false) },
		func(s string) (interface{}, error) { return xfa.ParseXFAStylesheet(s, false) }},
}

func settingsCase(k settingsKind) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		g := &settingsGen{r: r}
		given, read := k.make(g)
		tree := settingsTree(k.name, reflect.ValueOf(given).Elem())
		emptyMaps(reflect.ValueOf(read))
		same := func(what, src string) {
			got, err := k.parse(src)
			if err != nil {
				c.Failf("%s: %v", what, err)
				return
			}
			emptyMaps(reflect.ValueOf(got))
			if !reflect.DeepEqual(got, read) {
				a, b := settingsTree(k.name, reflect.ValueOf(got).Elem()), settingsTree(k.name, reflect.ValueOf(read).Elem())
				c.Failf("%s: read as\n%s\nwant\n%s\n(%#v, want %#v)", what, canon(a), canon(b), got, read)
			}
			c.Obs("settings", g.n)
		}
		out, err := k.write(given)
		if err != nil {
			c.Failf("writing a %s: %v", k.name, err)
			return
		}
		c.Save("written.xml", []byte(out))
		root, err := readXML(out)
		if err != nil {
			c.Failf("the %s written is not well-formed: %v", k.name, err)
			return
		}
		if a, b := canon(root), canon(tree); a != b {
			c.Failf("the %s is written as\n%s\nwant\n%s", k.name, a, b)
			return
		}
		if again, err := k.write(given); err != nil || again != out {
			c.Failf("the %s is written in another way the second time (%v)", k.name, err)
		}
		same("the "+k.name+" written", out)
		g.vary(tree)
		src := writeXML(r, tree)
		c.Save("other.xml", []byte(src))
		if _, err := readXML(src); err != nil {
			panic("harness: " + err.Error())
		}
		same("a "+k.name+" from elsewhere", src)
		c.Distinct(g.n, len(out))
		c.Sample("%s: %d settings, %d bytes", k.name, g.n, len(out))
	}
}

func init() {
	rt.Register(&rt.Check{ID: "P22", Title: "XFA templates, form schemas and datasets translate into each other",
		Rule: "a question, rule or data field was compared with the model it was made from, or with itself after a round trip",
		Families: []rt.Family{
			{Name: "template", Quick: 12000, Thorough: 100000, Run: templateReadCase},
			{Name: "schema", Quick: 12000, Thorough: 100000, Run: formSchemaCase},
			{Name: "datasets", Quick: 12000, Thorough: 100000, Run: datasetsCase},
		}})
	ck := &rt.Check{ID: "P29", Title: "XFA configurations, locales, connections and styles survive translation",
		Rule: "the settings of a packet were compared with those it was made from"}
	for _, k := range settingsKinds {
		ck.Families = append(ck.Families, rt.Family{Name: k.name, Quick: 8000, Thorough: 60000, Run: settingsCase(k)})
	}
	rt.Register(ck)
}
