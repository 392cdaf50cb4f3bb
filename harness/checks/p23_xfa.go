package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	. "verifharness/ref"
	"verifharness/rt"
)

// dsNode is a part of the data of an XFA form: a field element, a data element
// that holds a value, or a group.
type dsNode struct {
	kind  byte // 'f' field, 'l' leaf, 'g' group
	name  string
	text  string
	kids  []*dsNode
	e     *xn // the element
	value *xn // its value element, if it is a field that has one
}

// dsGen builds datasets documents.
type dsGen struct {
	r     *rand.Rand
	all   []*dsNode // fields and leaves
	count map[string]int
	plain bool // as DatasetsToXFA writes them
}

func (g *dsGen) container(depth int) []*dsNode {
	r := g.r
	used := map[string]bool{}
	var l []*dsNode
	for n := r.Intn(5); n > 0; n-- {
		d := &dsNode{name: xmlName(r)}
		switch k := r.Intn(5); {
		case k < 2:
			d.kind = 'f'
			if r.Intn(4) == 0 {
				d.name = xmlText(r)
			}
		case k < 4:
			d.kind = 'l'
		default:
			d.kind = 'g'
		}
		if d.kind == 'g' && depth > 3 {
			d.kind = 'f'
		}
		if d.kind != 'g' {
			if used[d.name] {
				continue
			}
			used[d.name] = true
			d.text = dsText(r)
			if d.kind == 'l' && d.text == "" {
				d.text = "x"
			}
			g.all = append(g.all, d)
			g.count[d.name]++
		} else {
			d.kids = g.container(depth + 1)
			if len(d.kids) == 0 {
				g.count[d.name]++ // may be taken for an empty value
			}
		}
		l = append(l, d)
	}
	return l
}

// dsText draws the text of a value.
func dsText(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return strconv.Itoa(r.Intn(100000) - 1000)
	case 2:
		return strconv.FormatFloat(anyFloat(r), 'f', -1, 64)
	case 3:
		return []string{"true", "false", "TRUE", "yes", "0", "1", "007", "+5", "1e5", "NaN", "Inf", "0x1F", "-0", "1_000", "1.50", ".5", "5.", "00", "12345678901234567890", "-9223372036854775808", "9007199254740993.0", "1,5", "infinity"}[r.Intn(23)]
	}
	return xmlText(r)
}

// dsValue is what a value's text is read as: a number or a truth value only if
// that is written back as the same text.
func dsValue(s string) interface{} {
	switch s {
	case "true":
		return true
	case "false":
		return false
	}
	if n, err := strconv.Atoi(s); err == nil && strconv.Itoa(n) == s {
		return n
	}
	if isDecimal(s) {
		if x, err := strconv.ParseFloat(s, 64); err == nil && strconv.FormatFloat(x, 'f', -1, 64) == s {
			return x
		}
	}
	return s
}

// isDecimal: an optional sign, digits, a point, digits.
func isDecimal(s string) bool {
	s = strings.TrimPrefix(s, "-")
	digits := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			digits++
		} else if s[i] != '.' {
			return false
		}
	}
	return digits > 0 && strings.Count(s, ".") <= 1
}

func (g *dsGen) prefix(e *xn) *xn {
	if g.r.Intn(6) == 0 {
		e.name = "my:" + e.name
	}
	return e
}

func (g *dsGen) elem(d *dsNode) *xn {
	r := g.r
	switch d.kind {
	case 'f':
		d.e = el("field")
		if r.Intn(4) == 0 {
			d.e.attr("uid", "name=\"q\"")
		}
		d.e.attr("name", d.name)
		if r.Intn(5) == 0 {
			d.e.attr("xfa:contentType", "text/plain")
		}
		if d.text == "" && r.Intn(2) == 0 {
			if r.Intn(2) == 0 {
				d.e.add(xraw("<!-- empty -->"))
			}
			return d.e
		}
		d.value = el("value")
		if d.text != "" {
			switch r.Intn(6) {
			case 0:
				d.value.add(el("text", d.text))
			case 1:
				d.value.add(d.text, xraw("<!-- <value>no</value> -->"))
			default:
				d.value.add(d.text)
			}
		}
		d.e.add(d.value)
		return d.e
	case 'l':
		d.e = g.prefix(el(d.name))
		if r.Intn(5) == 0 {
			d.e.attr("name", "other")
		}
		if d.text != "" {
			d.e.add(d.text)
		}
		return d.e
	}
	d.e = g.prefix(el(d.name))
	if r.Intn(4) == 0 {
		d.e.attr("xfa:dataNode", "dataGroup")
	}
	for _, k := range d.kids {
		if r.Intn(12) == 0 {
			d.e.add(xraw([]string{"<!-- note -->", "<?pi x?>", "<!-- <field name=\"alpha\"/> -->"}[r.Intn(3)]))
		}
		d.e.add(g.elem(k))
	}
	return d.e
}

// makeDatasets draws a datasets packet: the model, the root element and its text.
func makeDatasets(r *rand.Rand) (*dsGen, []*dsNode, *xn, string) {
	g := &dsGen{r: r, count: map[string]int{}}
	top := g.container(0)
	for len(g.all) == 0 {
		top = g.container(0)
	}
	data := el("xfa:data")
	if r.Intn(3) == 0 {
		data.name = "data"
	}
	for _, d := range top {
		data.add(g.elem(d))
	}
	root := data
	decl := func(e *xn) {
		e.attr("xmlns:xfa", "http://www.xfa.org/schema/xfa-data/1.0/").attr("xmlns:my", "urn:my & co")
	}
	if r.Intn(4) != 0 {
		root = el("xfa:datasets")
		decl(root)
		desc := func() {
			if r.Intn(3) == 0 {
				// describes the data, by the names of its elements
				dd := el("dd:dataDescription").attr("xmlns:dd", "http://ns.adobe.com/data-description/").attr("dd:name", "form1")
				for _, d := range g.all {
					if r.Intn(3) == 0 {
						if d.kind == 'f' {
							dd.add(el("field").attr("name", d.name))
						} else {
							dd.add(el(d.name, "described"))
						}
					}
				}
				root.add(dd)
			}
		}
		desc()
		root.add(data)
		desc()
	} else {
		decl(data)
	}
	return g, top, root, writeXML(r, root)
}

// dsWant is what a container of the model is read as.
func dsWant(l []*dsNode, rename map[*dsNode]string) (map[string]interface{}, []types.XFAFieldGroup) {
	fields := map[string]interface{}{}
	groups := []types.XFAFieldGroup{}
	for _, d := range l {
		switch d.kind {
		case 'g':
			f, gs := dsWant(d.kids, rename)
			groups = append(groups, types.XFAFieldGroup{Name: d.name, Fields: f, Groups: gs})
		default:
			t := d.text
			if n, ok := rename[d]; ok {
				t = n
			}
			fields[d.name] = dsValue(t)
		}
	}
	return fields, groups
}

// flattenGroups adds the values in groups, by the name that also fills them.
func flattenGroups(to map[string]interface{}, groups []types.XFAFieldGroup) {
	for _, g := range groups {
		for k, v := range g.Fields {
			if _, ok := to[k]; !ok {
				to[k] = v
			}
		}
		flattenGroups(to, g.Groups)
	}
}

// dsEmptyLeaf: a data element without text is read as a group without fields;
// the model says the same once its text is gone.
func dsEmptyLeaves(l []*dsNode, rename map[*dsNode]string) []*dsNode {
	var out []*dsNode
	for _, d := range l {
		c := *d
		t := d.text
		if n, ok := rename[d]; ok {
			t = n
		}
		if d.kind == 'l' && strings.TrimSpace(t) == "" {
			c.kind, c.kids = 'g', nil
		} else if d.kind == 'g' {
			c.kids = dsEmptyLeaves(d.kids, rename)
		}
		if d.kind != 'g' {
			c.text = t
		}
		out = append(out, &c)
	}
	return out
}

func checkDatasets(c *rt.C, what string, ds *types.XFADatasets, top []*dsNode, rename map[*dsNode]string) {
	if ds == nil {
		c.Failf("%s: no datasets", what)
		return
	}
	f, g := dsWant(dsEmptyLeaves(top, rename), nil)
	if !reflect.DeepEqual(ds.Fields, f) {
		c.Failf("%s: fields are %#v, want %#v", what, ds.Fields, f)
	}
	if !sameGroups(ds.Groups, g) {
		c.Failf("%s: groups are %+v, want %+v", what, ds.Groups, g)
	}
	c.Obs("datasets fields", len(f))
}

func sameGroups(a, b []types.XFAFieldGroup) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || len(a[i].Fields) != len(b[i].Fields) || !sameGroups(a[i].Groups, b[i].Groups) {
			return false
		}
		for k, v := range b[i].Fields {
			if w, ok := a[i].Fields[k]; !ok || !reflect.DeepEqual(w, v) {
				return false
			}
		}
	}
	return true
}

// xfaValue draws a value to fill in and its text.
func xfaValue(r *rand.Rand) (interface{}, string) {
	switch r.Intn(6) {
	case 0:
		n := r.Intn(2000000) - 1000000
		return n, strconv.Itoa(n)
	case 1:
		x := anyFloat(r)
		return x, strconv.FormatFloat(x, 'f', -1, 64)
	case 2:
		b := r.Intn(2) == 0
		return b, fmt.Sprint(b)
	case 3:
		s := dsText(r)
		return s, s
	}
	s := xmlText(r)
	return s, s
}

// drawFill draws form data for fields whose names occur once.
func (g *dsGen) drawFill() (types.FormData, map[*dsNode]string) {
	r := g.r
	data := types.FormData{}
	set := map[*dsNode]string{}
	for _, d := range g.all {
		if g.count[d.name] == 1 && r.Intn(2) == 0 {
			v, s := xfaValue(r)
			data[d.name] = v
			set[d] = s
		}
	}
	if r.Intn(4) == 0 {
		data["no such field"] = "x"
	}
	return data, set
}

// applyFill changes the elements of the model.
func applyFill(set map[*dsNode]string) {
	for d, s := range set {
		var kids []interface{}
		if s != "" {
			kids = []interface{}{s}
		}
		switch {
		case d.kind == 'l':
			d.e.kids = kids
		case d.value != nil:
			d.value.kids = kids
		default:
			d.e.add(&xn{name: "value", kids: kids})
		}
	}
}

func xfaValuesCase(c *rt.C) {
	r := c.R
	g, top, root, src := makeDatasets(r)
	back, err := readXML(src)
	if err != nil {
		panic("harness: " + err.Error() + "\n" + src)
	}
	if s := xmlDiff(root, back, ""); s != "" {
		panic("harness: " + s + "\n" + src)
	}
	c.Save("in.xml", []byte(src))
	ds, err := xfa.ParseXFADatasets(src, false)
	if err != nil {
		c.Failf("ParseXFADatasets: %v", err)
		return
	}
	checkDatasets(c, "ParseXFADatasets", ds, top, nil)
	data, set := g.drawFill()
	out, err := xfa.UpdateXFAValues(src, data, false)
	if err != nil {
		c.Failf("UpdateXFAValues: %v", err)
		return
	}
	c.Save("out.xml", []byte(out))
	if len(set) == 0 && out != src {
		c.Failf("UpdateXFAValues without a value to set changed the document")
		return
	}
	applyFill(set)
	got, err := readXML(out)
	if err != nil {
		c.Failf("UpdateXFAValues: the result is not well-formed: %v", err)
		return
	}
	if s := xmlDiff(root, got, ""); s != "" {
		c.Failf("UpdateXFAValues(%v): %s", data, s)
		return
	}
	ds, err = xfa.ParseXFADatasets(out, false)
	if err != nil {
		c.Failf("ParseXFADatasets of the result: %v", err)
		return
	}
	trimmed := map[*dsNode]string{}
	for d, s := range set {
		trimmed[d] = strings.TrimSpace(s)
	}
	checkDatasets(c, "ParseXFADatasets of the result", ds, top, trimmed)
	again, err := xfa.UpdateXFAValues(out, data, false)
	if err != nil || again != out {
		c.Failf("UpdateXFAValues with the same data again changes the document (%v)", err)
	}
	c.Obs("values set", len(set))
	c.Distinct(len(src), len(set))
	c.Sample("%d fields, %d set, %d bytes", len(g.all), len(set), len(src))
}

// packet is a packet of an XFA form in a document.
type packet struct {
	name string
	data []byte
	ref  Ref
	filt bool
}

var xfaNames = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

// slot returns the place a packet has in what is extracted.
func slot(s *xfa.XFAStreams, name string) **xfa.XFAStreamInfo {
	switch name {
	case "template":
		return &s.Template
	case "datasets":
		return &s.Datasets
	case "config":
		return &s.Config
	case "localeSet":
		return &s.LocaleSet
	case "connectionSet":
		return &s.ConnectionSet
	case "stylesheet":
		return &s.Stylesheet
	case "xmp":
		return &s.XMP
	case "signature":
		return &s.Signature
	case "sourceSet":
		return &s.SourceSet
	}
	return nil
}

type xfaDoc struct {
	*doc
	packets []*packet
	ds      *dsGen
	top     []*dsNode
	dsRoot  *xn
	tmpl    *tmplGen
	fields  bool // the form also has AcroForm fields
}

func (x *xfaDoc) packet(name string) *packet {
	for _, p := range x.packets {
		if p.name == name {
			return p
		}
	}
	return nil
}

// xfaStream adds a stream with any filters.
func (d *docGen) xfaStream(data []byte) (Ref, bool) {
	r := d.r
	dict := NewDict()
	if r.Intn(3) == 0 {
		dict.Set("Type", Name("EmbeddedFile"))
	}
	if r.Intn(4) == 0 {
		dict.Set("Tricky", d.g.obj(2))
	}
	raw := data
	filt := true
	switch r.Intn(6) {
	case 0:
		filt = false
	case 1, 2:
		raw = Zlib(data, r.Intn(10))
		dict.Set("Filter", Name("FlateDecode"))
	case 3:
		raw = AHxEncode(Zlib(data, 6))
		dict.Set("Filter", d.maybe(Arr{Name("ASCIIHexDecode"), Name("FlateDecode")}))
	case 4:
		raw = A85Encode(data, true)
		dict.Set("Filter", d.maybe(Name("ASCII85Decode")))
	case 5:
		raw = Zlib(PNGEncode(data, 4, 1, 2, r), 6)
		if len(data)%4 != 0 || len(data) == 0 {
			raw = Zlib(data, 6)
			dict.Set("Filter", Arr{Name("FlateDecode")})
		} else {
			dict.Set("Filter", Arr{Name("FlateDecode")}).Set("DecodeParms", d.maybe(Arr{NewDict("Predictor", Int(12), "Columns", Int(4))}))
		}
	}
	if r.Intn(5) == 0 && !bytes.Contains(raw, []byte("endstream")) {
		dict.Set("Length", d.add(Int(len(raw))))
	}
	return d.add(&Stream{D: dict, Raw: raw}), filt
}

func genXFADoc(r *rand.Rand, crypt, wantFields bool) *xfaDoc {
	x := &xfaDoc{}
	x.doc = genDoc(r, docOpts{pages: 1 + r.Intn(4), crypt: crypt, extra: 200, setup: func(d *docGen) {
		var dsXML string
		x.ds, x.top, x.dsRoot, dsXML = makeDatasets(r)
		x.tmpl = makeTemplate(r)
		have := map[string]bool{"datasets": true, "template": true}
		names := []string{"template", "datasets"}
		for _, n := range xfaNames[2:] {
			if r.Intn(3) == 0 {
				names = append(names, n)
				have[n] = true
			}
		}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if r.Intn(2) == 0 {
			names = append([]string{"preamble"}, append(names, "postamble")...)
		}
		if r.Intn(3) == 0 {
			names = append(names, []string{"form", "datasets2", "x(y)", "Template", "formé"}[r.Intn(5)])
		}
		var arr Arr
		for _, n := range names {
			p := &packet{name: n}
			switch n {
			case "datasets":
				p.data = []byte(dsXML)
			case "template":
				p.data = []byte(x.tmpl.src)
			case "preamble":
				p.data = []byte("<xdp:xdp xmlns:xdp=\"http://ns.adobe.com/xdp/\">\n")
			case "postamble":
				p.data = []byte("</xdp:xdp>")
			default:
				p.data = []byte("<" + n + ">" + xmlText(r) + "</" + n + ">")
				if r.Intn(8) == 0 {
					p.data = rbytes(r, r.Intn(300))
				}
			}
			p.ref, p.filt = d.xfaStream(p.data)
			key := Obj(textStr(r, n))
			arr = append(arr, d.maybe(key), p.ref)
			x.packets = append(x.packets, p)
		}
		form := NewDict()
		if wantFields {
			x.fields = true
			f := NewDict("FT", Name("Tx"), "T", Str("plain"), "V", Str("v"))
			form.Set("Fields", Arr{d.add(f)})
		} else if r.Intn(4) != 0 {
			form.Set("Fields", d.maybe(Arr{}))
		}
		form.Set("XFA", d.maybe(arr))
		if r.Intn(3) == 0 {
			form.Set("DA", Str("/Helv 0 Tf 0 g"))
		}
		d.catalog.Set("AcroForm", d.maybe(form))
	}})
	return x
}

func checkStreams(c *rt.C, what string, s *xfa.XFAStreams, x *xfaDoc) {
	for _, n := range xfaNames {
		got := *slot(s, n)
		p := x.packet(n)
		switch {
		case p == nil && got != nil:
			c.Failf("%s: there is a %s stream (object %d) in the result, none in the document", what, n, got.ObjectNumber)
		case p == nil:
		case got == nil:
			c.Failf("%s: the %s stream is not found", what, n)
		case !bytes.Equal(got.Data, p.data) && len(got.Data)+len(p.data) > 0:
			c.Failf("%s: data of the %s stream differs: %d bytes, want %d", what, n, len(got.Data), len(p.data))
		case got.ObjectNumber != p.ref.N:
			c.Failf("%s: the %s stream is object %d, want %d", what, n, got.ObjectNumber, p.ref.N)
		case got.Compressed != p.filt:
			c.Failf("%s: the %s stream is compressed %v, want %v", what, n, got.Compressed, p.filt)
		default:
			c.Obs("streams", 1)
		}
	}
}

func encInfo(x *xfaDoc) (*types.PDFEncryption, error) {
	pdf, err := parse.OpenWithOptions(x.B.B, parse.ParseOptions{Password: x.PW})
	if err != nil {
		return nil, err
	}
	return pdf.Encryption(), nil
}

func xfaReadCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		x := genXFADoc(r, crypt, r.Intn(4) == 0)
		c.Save("in.pdf", x.B.B)
		in := append([]byte{}, x.B.B...)
		enc, err := encInfo(x)
		if err != nil {
			c.Failf("open (%s): %v", x.Enc, err)
			return
		}
		s, err := xfa.ExtractAllXFAStreams(x.B.B, enc, false)
		if err != nil {
			c.Failf("ExtractAllXFAStreams (%s): %v", x.Enc, err)
			return
		}
		checkStreams(c, "ExtractAllXFAStreams", s, x)
		data, n, err := xfa.FindXFADatasetsStream(x.B.B, enc, false)
		p := x.packet("datasets")
		if err != nil || n != p.ref.N || !bytes.Equal(data, p.data) {
			c.Failf("FindXFADatasetsStream: object %d, %d bytes, %v; want object %d, %d bytes", n, len(data), err, p.ref.N, len(p.data))
		}
		sch, ds, err := forms.ExtractXFA(x.B.B, x.PW, false)
		if err != nil {
			c.Failf("forms.ExtractXFA: %v", err)
			return
		}
		checkDatasets(c, "forms.ExtractXFA", ds, x.top, nil)
		x.tmpl.check(c, "forms.ExtractXFA", sch)
		want := forms.FormTypeXFA
		if x.fields {
			want = forms.FormTypeAcroForm
		}
		kind, err := forms.Detect(x.B.B, x.PW, false)
		if err != nil || kind != want {
			c.Failf("forms.Detect: %q, %v; want %q", kind, err, want)
		}
		f, err := forms.Extract(x.B.B, x.PW, false)
		if err != nil {
			c.Failf("forms.Extract: %v", err)
			return
		}
		if f.Type() != want {
			c.Failf("forms.Extract: type %q, want %q", f.Type(), want)
			return
		}
		if !x.fields {
			x.tmpl.check(c, "Schema of forms.Extract", f.Schema())
			fw, gw := dsWant(dsEmptyLeaves(x.top, nil), nil)
			flattenGroups(fw, gw)
			if !reflect.DeepEqual(f.GetValues(), fw) {
				c.Failf("GetValues of forms.Extract: %#v, want %#v", f.GetValues(), fw)
			}
		}
		if !bytes.Equal(in, x.B.B) {
			c.Failf("the caller's document was changed")
		}
		c.Distinct(x.Enc, len(x.packets), x.fields)
		c.Sample("%s, %d packets, %d bytes", x.Enc, len(x.packets), len(x.B.B))
	}
}

// newData returns the edit that gives a stream other data.
func newData(data []byte) func(o Obj) Obj {
	return func(o Obj) Obj {
		d := o.(*Stream).D.Copy()
		d.Del("Filter")
		d.Del("DecodeParms")
		d.Del("Length")
		return &Stream{D: d, Raw: data}
	}
}

func xfaUpdateCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		x := genXFADoc(r, crypt, false)
		c.Save("in.pdf", x.B.B)
		in := append([]byte{}, x.B.B...)
		enc, err := encInfo(x)
		if err != nil {
			c.Failf("open (%s): %v", x.Enc, err)
			return
		}
		data, set := x.ds.drawFill()
		var out []byte
		what := "UpdateXFAInPDF"
		if r.Intn(2) == 0 {
			what = "Fill of forms.Extract"
			f, e := forms.Extract(x.B.B, x.PW, false)
			if e != nil {
				c.Failf("forms.Extract: %v", e)
				return
			}
			out, err = f.Fill(x.B.B, data, x.PW, false)
		} else {
			out, err = xfa.UpdateXFAInPDF(x.B.B, data, enc, false)
		}
		if err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		c.Save("out.pdf", out)
		checkUpdated(c, what, x, set, out)
		if !bytes.Equal(in, x.B.B) {
			c.Failf("%s changed the caller's document", what)
		}
		c.Distinct(x.Enc, len(set), len(x.packets))
		c.Sample("%s, %d of %d values set", x.Enc, len(set), len(x.ds.all))
	}
}

// checkUpdated checks a document whose datasets were filled.
func checkUpdated(c *rt.C, what string, x *xfaDoc, set map[*dsNode]string, out []byte) {
	p := x.packet("datasets")
	applyFill(set)
	f, err := OpenStrict(out, x.PW)
	if err != nil {
		c.Failf("%s: the result is not well-formed: %v", what, err)
		return
	}
	o, err := f.Get(p.ref.N)
	st, ok := o.(*Stream)
	if err != nil || !ok {
		c.Failf("%s: the datasets stream, object %d, is %s (%v)", what, p.ref.N, Short(o), err)
		return
	}
	now, err := DecodeStream(st)
	if err != nil {
		c.Failf("%s: datasets stream: %v", what, err)
		return
	}
	got, err := readXML(string(now))
	if err != nil {
		c.Failf("%s: the datasets are not well-formed: %v", what, err)
		return
	}
	if s := xmlDiff(x.dsRoot, got, ""); s != "" {
		c.Failf("%s: datasets: %s", what, s)
		return
	}
	if sameExcept(c, what, x.doc, out, edits{p.ref.N: newData(now)}) == nil {
		return
	}
	_, ds, err := forms.ExtractXFA(out, x.PW, false)
	if err != nil {
		c.Failf("%s: forms.ExtractXFA of the result: %v", what, err)
		return
	}
	trimmed := map[*dsNode]string{}
	for d, s := range set {
		trimmed[d] = strings.TrimSpace(s)
	}
	checkDatasets(c, what+", read back", ds, x.top, trimmed)
	c.Obs("values set", len(set))
}

func xfaRebuildCase(crypt bool) func(c *rt.C) {
	return func(c *rt.C) {
		r := c.R
		x := genXFADoc(r, crypt, r.Intn(4) == 0)
		c.Save("in.pdf", x.B.B)
		in := append([]byte{}, x.B.B...)
		enc, err := encInfo(x)
		if err != nil {
			c.Failf("open (%s): %v", x.Enc, err)
			return
		}
		ed := edits{}
		var out []byte
		var what string
		switch k := r.Intn(3); {
		case k == 0:
			what = "RebuildPDFFromXFAStreams"
			s, e := xfa.ExtractAllXFAStreams(x.B.B, enc, false)
			if e != nil {
				c.Failf("ExtractAllXFAStreams: %v", e)
				return
			}
			for _, n := range xfaNames {
				sl := slot(s, n)
				if *sl == nil {
					continue
				}
				p := x.packet(n)
				switch r.Intn(3) {
				case 0:
					(*sl).Data = []byte("<new>" + xmlText(r) + "</new>")
				case 1:
					if r.Intn(2) == 0 {
						*sl = nil
					}
				}
				if *sl != nil && len((*sl).Data) > 0 {
					ed[p.ref.N] = newData((*sl).Data)
				}
			}
			out, err = xfa.RebuildPDFFromXFAStreams(x.B.B, s, enc, false)
		case k == 1 || enc != nil:
			what = "BuildFromOriginal"
			upd := map[string][]byte{}
			for _, p := range x.packets {
				if r.Intn(3) == 0 {
					upd[p.name] = rbytes(r, r.Intn(400))
					ed[p.ref.N] = newData(upd[p.name])
				}
			}
			out, err = write.NewXFABuilder(false).BuildFromOriginal(x.B.B, upd, enc)
		default:
			what = "ReplaceStreamInPDF"
			p := x.packets[r.Intn(len(x.packets))]
			o, e := x.File.Get(p.ref.N)
			if e != nil {
				panic("harness")
			}
			st := o.(*Stream)
			// the data is stored as it is given, for the filters there are
			data := []byte("<new>" + xmlText(r) + "</new>")
			raw := data
			if p.filt {
				raw = st.Raw
				if nm, ok := x.File.Resolve(st.D.Get("Filter")).(Name); ok && nm == "FlateDecode" {
					raw, e = xfa.CompressStream(data)
					if e != nil {
						c.Failf("CompressStream: %v", e)
						return
					}
				}
			}
			d := st.D.Copy()
			ed[p.ref.N] = func(Obj) Obj { return &Stream{D: d, Raw: raw} }
			out, err = xfa.ReplaceStreamInPDF(x.B.B, p.ref.N, raw, false)
		}
		if err != nil {
			c.Failf("%s (%s): %v", what, x.Enc, err)
			return
		}
		c.Save("out.pdf", out)
		sameExcept(c, what, x.doc, out, ed)
		if !bytes.Equal(in, x.B.B) {
			c.Failf("%s changed the caller's document", what)
		}
		c.Obs("rebuilt", 1)
		c.Distinct(what, x.Enc, len(ed))
		c.Sample("%s, %s, %d streams replaced", what, x.Enc, len(ed))
	}
}

func xfaBuildCase(c *rt.C) {
	r := c.R
	s := &xfa.XFAStreams{}
	var list []write.XFAStreamData
	want := map[string][]byte{}
	var order []string
	direct := r.Intn(2) == 0
	for _, n := range xfaNames {
		if r.Intn(3) == 0 {
			continue
		}
		data := []byte("<" + n + ">" + xmlText(r) + "</" + n + ">")
		if r.Intn(4) == 0 {
			data = rbytes(r, 1+r.Intn(400))
		}
		*slot(s, n) = &xfa.XFAStreamInfo{Data: data, ObjectNumber: r.Intn(100)}
		want[n] = data
		order = append(order, n)
		list = append(list, write.XFAStreamData{Name: n, Data: data, Compress: r.Intn(2) == 0})
	}
	if direct {
		for i := r.Intn(3); i > 0; i-- {
			n := metaText(r)
			if want[n] != nil {
				continue
			}
			data := rbytes(r, 1+r.Intn(200))
			want[n] = data
			order = append(order, n)
			list = append(list, write.XFAStreamData{Name: n, Data: data, Compress: r.Intn(2) == 0})
		}
		r.Shuffle(len(list), func(i, j int) {
			list[i], list[j] = list[j], list[i]
			order[i], order[j] = order[j], order[i]
		})
	}
	if len(want) == 0 {
		return
	}
	what := "BuildPDFFromXFAStreams"
	var out []byte
	var err error
	if direct {
		what = "BuildFromXFA"
		out, err = write.NewXFABuilder(false).BuildFromXFA(list)
	} else {
		out, err = xfa.BuildPDFFromXFAStreams(s, false)
	}
	if err != nil {
		c.Failf("%s: %v", what, err)
		return
	}
	c.Save("out.pdf", out)
	f, err := OpenStrict(out, nil)
	if err != nil {
		c.Failf("%s: not well-formed: %v", what, err)
		return
	}
	pgs, err := f.Pages()
	if err != nil || len(pgs) == 0 {
		c.Failf("%s: %d pages, %v", what, len(pgs), err)
		return
	}
	if l := f.Dangling(); len(l) > 0 {
		c.Failf("%s: dangling references %v", what, l)
	}
	form := f.Dict(f.Catalog().Get("AcroForm"))
	if form == nil {
		c.Failf("%s: no form", what)
		return
	}
	arr, _ := f.Resolve(form.Get("XFA")).(Arr)
	if len(arr) != 2*len(order) {
		c.Failf("%s: /XFA is %s, want %d packets", what, Short(arr), len(order))
		return
	}
	for i := 0; i < len(arr); i += 2 {
		k, _ := f.Resolve(arr[i]).(Str)
		n := textOf([]byte(k))
		if n != order[i/2] && direct {
			c.Failf("%s: packet %d is %q, want %q", what, i/2, n, order[i/2])
		}
		if want[n] == nil {
			c.Failf("%s: packet %q was not asked for", what, n)
			return
		}
		st, ok := f.Resolve(arr[i+1]).(*Stream)
		if _, isRef := arr[i+1].(Ref); !ok || !isRef {
			c.Failf("%s: packet %q is %s", what, n, Short(arr[i+1]))
			return
		}
		data, err := DecodeStream(st)
		if err != nil || !bytes.Equal(data, want[n]) {
			c.Failf("%s: data of packet %q: %d bytes, want %d (%v)", what, n, len(data), len(want[n]), err)
		}
		c.Obs("packets built", 1)
	}
	back, err := xfa.ExtractAllXFAStreams(out, nil, false)
	if err != nil {
		c.Failf("%s: ExtractAllXFAStreams: %v", what, err)
		return
	}
	for _, n := range xfaNames {
		got := *slot(back, n)
		if (got != nil) != (want[n] != nil) || got != nil && !bytes.Equal(got.Data, want[n]) {
			c.Failf("%s: the %s stream reads back wrong", what, n)
		}
	}
	c.Distinct(what, len(out))
	c.Sample("%s, %d packets", what, len(order))
}

// xfaCLICase runs the command line program.
func xfaCLICase(c *rt.C) {
	r := c.R
	bin := filepath.Join(os.TempDir(), "pdfer")
	if _, err := os.Stat(bin); err != nil {
		if _, err = os.Stat(os.Getenv("PDFER_BIN")); err != nil {
			panic("harness: no program")
		}
		bin = os.Getenv("PDFER_BIN")
	}
	x := genXFADoc(r, r.Intn(3) == 0, false)
	if len(x.PW) > 0 {
		return // the program has no way to give a password
	}
	c.Save("in.pdf", x.B.B)
	dir, err := os.MkdirTemp(c.Dir, "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	path := func(n string) string { return filepath.Join(dir, n) }
	os.WriteFile(path("in.pdf"), x.B.B, 0o600)
	data, set := x.ds.drawFill()
	js, err := json.Marshal(data)
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.WriteFile(path("data.json"), js, 0o600)
	cmd := exec.Command(bin, "-input", path("in.pdf"), "-data", path("data.json"), "-output", path("out.pdf"))
	cmd.Dir = dir
	if msg, err := cmd.CombinedOutput(); err != nil {
		c.Failf("pdfer fill (%s): %v\n%s", x.Enc, err, msg)
		return
	}
	out, err := os.ReadFile(path("out.pdf"))
	if err != nil {
		c.Failf("pdfer fill: %v", err)
		return
	}
	c.Save("out.pdf", out)
	checkUpdated(c, "pdfer fill", x, set, out)
	cmd = exec.Command(bin, "-extract-schema", "-input", path("in.pdf"), "-output", path("schema.json"))
	cmd.Dir = dir
	if msg, err := cmd.CombinedOutput(); err != nil {
		c.Failf("pdfer -extract-schema (%s): %v\n%s", x.Enc, err, msg)
		return
	}
	js, err = os.ReadFile(path("schema.json"))
	if err != nil {
		c.Failf("pdfer -extract-schema: %v", err)
		return
	}
	sch := &types.FormSchema{}
	if err := json.Unmarshal(js, sch); err != nil {
		c.Failf("pdfer -extract-schema: the result is not JSON: %v", err)
		return
	}
	x.tmpl.check(c, "pdfer -extract-schema", sch)
	c.Distinct(x.Enc, len(js))
	c.Sample("%s, %d values set", x.Enc, len(set))
}

func init() {
	rt.Register(&rt.Check{ID: "P23", Title: "XFA streams are read, filled and rebuilt in place",
		Rule: "a stream, data value or object of a generated XFA document was compared with the model it was made from",
		Families: []rt.Family{
			{Name: "values", Quick: 8000, Thorough: 120000, Run: xfaValuesCase},
			{Name: "read", Quick: 1000, Thorough: 16000, Run: xfaReadCase(false)},
			{Name: "read-encrypted", Quick: 500, Thorough: 8000, Run: xfaReadCase(true)},
			{Name: "update", Quick: 1000, Thorough: 16000, Run: xfaUpdateCase(false)},
			{Name: "update-encrypted", Quick: 500, Thorough: 8000, Run: xfaUpdateCase(true)},
			{Name: "rebuild", Quick: 1000, Thorough: 16000, Run: xfaRebuildCase(false)},
			{Name: "rebuild-encrypted", Quick: 500, Thorough: 8000, Run: xfaRebuildCase(true)},
			{Name: "build", Quick: 2000, Thorough: 30000, Run: xfaBuildCase},
			{Name: "program", Quick: 120, Thorough: 1500, Run: xfaCLICase},
		}})
}
