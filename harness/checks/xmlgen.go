package checks

import (
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"strings"
)

// xn is an element of an XML document; kids are text (string), elements (*xn)
// or markup that is kept as it stands (xraw: comments, instructions).
type xn struct {
	name  string // as written, with prefix
	attrs [][2]string
	kids  []interface{}
}

type xraw string

func el(name string, kids ...interface{}) *xn { return &xn{name: name, kids: kids} }

func (e *xn) attr(k, v string) *xn {
	e.attrs = append(e.attrs, [2]string{k, v})
	return e
}

func (e *xn) add(kids ...interface{}) *xn {
	e.kids = append(e.kids, kids...)
	return e
}

func (e *xn) get(k string) string {
	for _, a := range e.attrs {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

// elems lists the child elements.
func (e *xn) elems() []*xn {
	var l []*xn
	for _, k := range e.kids {
		if x, ok := k.(*xn); ok {
			l = append(l, x)
		}
	}
	return l
}

// text is the text directly in the element.
func (e *xn) text() string {
	s := ""
	for _, k := range e.kids {
		if t, ok := k.(string); ok {
			s += t
		}
	}
	return s
}

func (e *xn) copy() *xn {
	c := &xn{name: e.name, attrs: append([][2]string{}, e.attrs...)}
	for _, k := range e.kids {
		if x, ok := k.(*xn); ok {
			k = x.copy()
		}
		c.kids = append(c.kids, k)
	}
	return c
}

// xmlWriter writes elements in the many ways XML allows.
type xmlWriter struct {
	r      *rand.Rand
	pretty bool // white space between elements that hold only elements
	plain  bool // no variety
}

func (w *xmlWriter) chance(n int) bool { return !w.plain && w.r.Intn(n) == 0 }

func (w *xmlWriter) sp() string {
	if w.chance(8) {
		return []string{"  ", "\n", "\t", " \n  "}[w.r.Intn(4)]
	}
	return " "
}

func (w *xmlWriter) char(c rune, attr byte) string {
	switch {
	case c == '<':
		if w.chance(4) {
			return "&#60;"
		}
		return "&lt;"
	case c == '&':
		if w.chance(4) {
			return "&#x26;"
		}
		return "&amp;"
	case c == '>':
		if w.chance(3) {
			return "&#x3E;"
		}
		return "&gt;"
	case c == '\r':
		return "&#xD;"
	case attr != 0 && (c == '\n' || c == '\t'):
		return fmt.Sprintf("&#%d;", c)
	case attr != 0 && c == rune(attr):
		if c == '"' {
			return "&quot;"
		}
		return "&apos;"
	case w.chance(60):
		return fmt.Sprintf("&#x%X;", c)
	}
	return string(c)
}

func (w *xmlWriter) text(s string) string {
	if s != "" && w.chance(6) && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for _, c := range s {
		b.WriteString(w.char(c, 0))
	}
	return b.String()
}

func (w *xmlWriter) elem(b *strings.Builder, e *xn, depth int) {
	b.WriteString("<" + e.name)
	for _, a := range e.attrs {
		q := byte('"')
		if w.chance(3) {
			q = '\''
		}
		b.WriteString(w.sp() + a[0] + "=")
		b.WriteByte(q)
		for _, c := range a[1] {
			b.WriteString(w.char(c, q))
		}
		b.WriteByte(q)
	}
	if w.chance(8) {
		b.WriteString(w.sp())
	}
	if len(e.kids) == 0 && !w.chance(4) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	nested := len(e.kids) > 0
	for _, k := range e.kids {
		if _, ok := k.(string); ok {
			nested = false
		}
	}
	for _, k := range e.kids {
		if nested && w.pretty {
			b.WriteString("\n" + strings.Repeat("  ", depth+1))
		}
		switch x := k.(type) {
		case string:
			b.WriteString(w.text(x))
		case xraw:
			b.WriteString(string(x))
		case *xn:
			w.elem(b, x, depth+1)
		}
	}
	if nested && w.pretty {
		b.WriteString("\n" + strings.Repeat("  ", depth))
	}
	b.WriteString("</" + e.name)
	if w.chance(10) {
		b.WriteString(w.sp())
	}
	b.WriteString(">")
}

// writeXML writes a document; white space between elements is not part of the
// model.
func writeXML(r *rand.Rand, e *xn) string {
	w := &xmlWriter{r: r, pretty: r.Intn(2) == 0, plain: r.Intn(6) == 0}
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString([]string{"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\r\n"}[r.Intn(3)])
	}
	if w.chance(6) {
		b.WriteString("<!-- <field name=\"x\"><value>1</value></field> -->")
	}
	w.elem(&b, e, 0)
	if w.chance(3) {
		b.WriteString("\n")
	}
	return b.String()
}

// readXML reads a well-formed document into its root element. White space
// around elements is dropped in elements that hold only elements.
func readXML(s string) (*xn, error) {
	// well-formed, with every namespace prefix in order
	d := xml.NewDecoder(strings.NewReader(s))
	roots, depth := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
			seen := map[xml.Name]bool{}
			for _, a := range x.Attr {
				if seen[a.Name] {
					return nil, fmt.Errorf("attribute %s twice in <%s>", a.Name.Local, x.Name.Local)
				}
				seen[a.Name] = true
			}
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(x)) != "" {
				return nil, fmt.Errorf("text outside of the root element: %q", string(x))
			}
		}
	}
	if roots != 1 || depth != 0 {
		return nil, fmt.Errorf("%d root elements, depth %d at the end", roots, depth)
	}

	qn := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	d = xml.NewDecoder(strings.NewReader(s))
	top := &xn{}
	stack := []*xn{top}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		cur := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			e := &xn{name: qn(x.Name)}
			for _, a := range x.Attr {
				e.attrs = append(e.attrs, [2]string{qn(a.Name), a.Value})
			}
			cur.kids = append(cur.kids, e)
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if n := len(cur.kids); n > 0 {
				if t, ok := cur.kids[n-1].(string); ok {
					cur.kids[n-1] = t + string(x)
					continue
				}
			}
			cur.kids = append(cur.kids, string(x))
		case xml.Comment:
			cur.kids = append(cur.kids, xraw("<!--"+string(x)+"-->"))
		case xml.ProcInst:
			cur.kids = append(cur.kids, xraw("<?"+x.Target+" "+string(x.Inst)+"?>"))
		}
	}
	for _, k := range top.kids {
		if e, ok := k.(*xn); ok {
			e.trim()
			return e, nil
		}
	}
	return nil, fmt.Errorf("no root element")
}

// trim drops the white space between elements.
func (e *xn) trim() {
	es := e.elems()
	if len(es) > 0 {
		var l []interface{}
		for _, k := range e.kids {
			if t, ok := k.(string); ok && strings.TrimSpace(t) == "" {
				continue
			}
			l = append(l, k)
		}
		e.kids = l
	} else if t := e.text(); len(e.kids) > 1 && strings.TrimSpace(t) == "" {
		// comments between white space
		var l []interface{}
		for _, k := range e.kids {
			if _, ok := k.(string); !ok {
				l = append(l, k)
			}
		}
		e.kids = l
	}
	for _, x := range es {
		x.trim()
	}
}

// xmlDiff tells how a document differs from what it must be.
func xmlDiff(want, got *xn, path string) string {
	if want.name != got.name {
		return fmt.Sprintf("%s: element %q, want %q", path, got.name, want.name)
	}
	path += "/" + want.name
	if n := want.get("name"); n != "" {
		path += "[" + n + "]"
	}
	if fmt.Sprintf("%q", want.attrs) != fmt.Sprintf("%q", got.attrs) {
		return fmt.Sprintf("%s: attributes %q, want %q", path, got.attrs, want.attrs)
	}
	norm := func(e *xn) []interface{} {
		var l []interface{}
		for _, k := range e.kids {
			if t, ok := k.(string); ok {
				if t == "" {
					continue
				}
				if n := len(l); n > 0 {
					if p, ok := l[n-1].(string); ok {
						l[n-1] = p + t
						continue
					}
				}
			}
			l = append(l, k)
		}
		return l
	}
	a, b := norm(want), norm(got)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(b) {
			return fmt.Sprintf("%s: %s is missing", path, xmlShort(a[i]))
		}
		if i >= len(a) {
			return fmt.Sprintf("%s: %s is additional", path, xmlShort(b[i]))
		}
		if x, ok := a[i].(*xn); ok {
			if y, ok := b[i].(*xn); ok {
				if s := xmlDiff(x, y, path); s != "" {
					return s
				}
				continue
			}
		} else if fmt.Sprintf("%T%v", a[i], a[i]) == fmt.Sprintf("%T%v", b[i], b[i]) {
			continue
		}
		return fmt.Sprintf("%s: %s, want %s", path, xmlShort(b[i]), xmlShort(a[i]))
	}
	return ""
}

func xmlShort(k interface{}) string {
	if e, ok := k.(*xn); ok {
		return fmt.Sprintf("<%s %q>", e.name, e.attrs)
	}
	return fmt.Sprintf("%q", k)
}

// xmlText draws a text that XML can hold, without white space at its ends.
func xmlText(r *rand.Rand) string {
	for {
		var b strings.Builder
		for n := 1 + r.Intn(12); n > 0; n-- {
			switch r.Intn(7) {
			case 0, 1, 2:
				b.WriteString(words[r.Intn(len(words))])
			case 3:
				b.WriteString([]string{"<", ">", "&", "\"", "'", "]]>", "&amp;", "<value>", "</value>", "</field>", "<!--", "--", "$1", "\\", "%d", "{}", "&#65;", "<![CDATA[", "/>", "="}[r.Intn(20)])
			case 4:
				b.WriteString([]string{" ", "  ", "\n", "\t", "\r\n", "\u00a0"}[r.Intn(6)])
			case 5:
				b.WriteRune(rune(0x20 + r.Intn(0x5f)))
			case 6:
				b.WriteRune([]rune{0xe9, 0xdf, 0x20ac, 0x4e2d, 0x1f600, 0x2028, 0x5d0, 0xfffd}[r.Intn(8)])
			}
		}
		if s := strings.TrimSpace(b.String()); s != "" {
			return s
		}
	}
}

var xmlWords = []string{"alpha", "beta", "total", "Invoice", "customer", "zip", "x", "Q3", "form1", "Section", "name", "dataNode", "Datum", "fields", "values", "textual"}

// xmlName draws an XML name.
func xmlName(r *rand.Rand) string {
	s := xmlWords[r.Intn(len(xmlWords))]
	switch r.Intn(6) {
	case 0:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 1:
		s += fmt.Sprint(r.Intn(40))
	case 2:
		s += []string{"_", "-", "."}[r.Intn(3)] + xmlWords[r.Intn(len(xmlWords))]
	case 3:
		s = "_" + s
	case 4:
		s += []string{"é", "名", "ß", "я"}[r.Intn(4)]
	}
	return s
}
