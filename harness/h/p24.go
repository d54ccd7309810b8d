package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// startAttrs is a handler that keeps the attributes of all elements.
type startAttrs struct {
	*recorder
	elems []startElem
}

type startElem struct {
	name, uri string
	attrs     []sax.Attribute
}

func (h *startAttrs) StartElementNS(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, attrs []sax.Attribute) error {
	h.elems = append(h.elems, startElem{qname(prefix, local), uri, attrs})
	return h.recorder.StartElementNS(ctx, local, prefix, uri, nss, attrs)
}

// parseStarts parses s with a handler that keeps the attributes, and builds the tree.
func parseStarts(s string) (*helium.Document, *startAttrs, error) {
	sym.Note("document", sym.Quote(s))
	h := &startAttrs{recorder: &recorder{tb: helium.NewTreeBuilder()}}
	p := helium.NewParser()
	p.SetSAXHandler(h)
	doc, err := p.Parse([]byte(s))
	return doc, h, err
}

// checkDefaults: the elements' attributes are those written and the defaults
// declared for them, with their values, normalised after their types. The
// documents are of the form dtd <elem atts/>.
func checkDefaults(s string) {
	v, _, r := refParse(s)
	doc, h, err := parseStarts(s)
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare && !r.onlyInvalid() {
		return
	}
	if v == refDontCare && err != nil {
		sym.Reach("invalid")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sameAttrs(doc, h, r)
	// and again after a round trip
	d := dump(doc)
	if doc, h, err = parseStarts(d); err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	sameAttrs(doc, h, r)
	sym.Reach("accepted")
}

func sameAttrs(doc *helium.Document, h *startAttrs, r *ref) {
	if len(h.elems) != len(r.starts) {
		sym.Fail("there are more or less elements than written")
	}
	for i, e := range h.elems {
		w := r.starts[i]
		sym.Assert(e.name == string(w.name), "an element has another name")
		want := 0
		for _, a := range w.attrs {
			if string(a.name) == "xmlns" || string(a.prefix) == "xmlns" {
				continue
			}
			want++
			hasAttr(doc, e, string(a.name), string(a.value), false)
		}
		for _, d := range r.dtd.atts {
			if !d.has || d.elem != string(w.name) {
				continue
			}
			given := false
			for _, a := range w.attrs {
				given = sym.Or(given, string(a.name) == d.name)
			}
			if !given {
				want++
				hasAttr(doc, e, d.name, d.value, true)
			}
		}
		sym.Assert(len(e.attrs) == want, "an element has more or less attributes than written and declared")
	}
	// the tree has at least those that are written
	var walk func(n helium.Node)
	i := 0
	walk = func(n helium.Node) {
		if e, ok := n.(*helium.Element); ok {
			w := r.starts[i]
			i++
			for _, a := range w.attrs {
				if string(a.name) == "xmlns" || string(a.prefix) == "xmlns" {
					continue
				}
				found := false
				for _, t := range e.Attributes() {
					if t.Name() == string(a.name) {
						found = true
						sym.Assert(sym.Eq(t.Value(), string(a.value)), "an attribute in the tree has another value than written")
					}
				}
				sym.Assert(found, "an attribute is not in the tree")
			}
		}
		for c := n.FirstChild(); c != nil; c = c.NextSibling() {
			if c.Type() == helium.ElementNode {
				walk(c)
			}
		}
	}
	walk(rootOf(doc))
}

func hasAttr(doc *helium.Document, e startElem, name, value string, def bool) {
	n := 0
	for _, a := range e.attrs {
		sym.Note("attribute", sym.Quote(qname(a.Prefix(), a.LocalName())+"="+a.Value()))
		if qname(a.Prefix(), a.LocalName()) != name {
			continue
		}
		n++
		sym.Assert(a.Name() == name, "an attribute's name is not made of its parts")
		sym.Assert(a.IsDefault() == def, "an attribute is taken for a default, or the other way round")
		t, err := doc.CreateAttribute("x", a.Value(), nil)
		if err != nil {
			sym.Fail("an attribute's value is not in reference syntax")
		}
		if !sym.Contains(a.Value(), "&") {
			sym.Assert(sym.Eq(t.Value(), value), "an attribute has another value")
		} else {
			// entities may hold blanks
			got := t.Value()
			if len(got) == len(value) {
				sym.Assert(sym.Eq(got, value), "an attribute has another value")
			} else {
				sym.Assert(sym.Eq(string(squeeze([]byte(got))), value), "an attribute has another value")
			}
		}
	}
	sym.Note("expected", sym.Quote(name+"="+value))
	sym.Assert(n == 1, "an attribute is there more than once, or not at all")
}

// P24_Kinds: two declarations of attributes, in one or two lists, for one or two elements, of two types, with four kinds of defaults; elements with and without each of them, nested and repeated.
func P24_Kinds() {
	def := func(k string) string {
		return sym.Pick("name"+k, "p", "q") + " " + sym.Pick("type"+k, "CDATA", "NMTOKENS") + " " + sym.Pick("def"+k, "#REQUIRED", "#IMPLIED", "#FIXED 'u'", "'v'")
	}
	d := "<!ATTLIST a " + def("1")
	if sym.Split(sym.Choice("lists", 2)) == 0 {
		d += " " + def("2") + ">"
	} else {
		d += "><!ATTLIST " + sym.Pick("e", "a", "b") + " " + def("2") + ">"
	}
	atts := func(k string) string {
		return sym.Pick("atts"+k, "", " p=' u  v '", " q='w' p='z'")
	}
	if sym.Thorough() {
		checkDefaults("<!DOCTYPE a [" + d + "]><a" + atts("1") + "><b" + atts("2") + "/>" + sym.Pick("more", "", "<a/>") + "</a>")
	} else {
		checkDefaults("<!DOCTYPE a [" + d + "]><a" + atts("1") + "><b" + sym.Pick("attsb", "", " p='3' q='4'") + "/></a>")
	}
}

// P24_Default: up to 3 (thorough 5) arbitrary ASCII bytes as the default of attributes of all types.
func P24_Default() {
	checkDefaults("<!DOCTYPE a [<!ENTITY e ' x '><!ATTLIST a p " + sym.Pick("type", "CDATA", "NMTOKEN", "NMTOKENS", "ID", "IDREFS", "ENTITY", "(x|y)") + sym.Pick("fixed", " ", " #FIXED ") + "'" + ascii("w", 0, tier(3, 5)) + "'>]><a/>")
}

// P24_Value: up to 3 (thorough 5) arbitrary ASCII bytes as the value of an attribute of each type.
func P24_Value() {
	checkDefaults("<!DOCTYPE a [<!ENTITY e ' x '><!ATTLIST a p " + sym.Pick("type", "CDATA", "NMTOKEN", "ID", "ENTITIES", "(x|y)") + " #IMPLIED>]><a p='" + ascii("w", 0, tier(3, 5)) + "'/>")
}

// P24_Blanks: values of three (thorough six) parts, among them blanks of all kinds, written or as references, and entities made of them.
func P24_Blanks() {
	s := ""
	n := tier(3, 6)
	for i := 0; i < n; i++ {
		s += sym.Pick("t"+itoa(i), " ", "x", "\n", "&#32;", "&#9;", "&e;", "&f;", "")
	}
	d := "<!ENTITY e ' \t'><!ENTITY f 'y &e;'><!ATTLIST a p " + sym.Pick("type", "CDATA", "NMTOKENS") + " "
	if sym.Split(sym.Choice("where", 2)) == 0 {
		checkDefaults("<!DOCTYPE a [" + d + sym.Pick("fixed", "", "#FIXED ") + "'" + s + "'>]><a/>")
	} else {
		checkDefaults("<!DOCTYPE a [" + d + "#IMPLIED>]><a p='" + s + "'/>")
	}
}

// P24_Combinations: an attribute of every type, with every kind of default and several values, given with several values or not, literally or in an entity, on the root or below, alone or with others.
func P24_Combinations() {
	values := []string{"x", " x  y ", "", "x &e; y", "&#32;x&#32;&#32;", "&e;", " x", "x ", "x\n\ty"}
	if !sym.Thorough() {
		values = values[:5]
	}
	typ := sym.Pick("type", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x|y)", "NOTATION (x|y)")
	def := sym.Pick("def", "#REQUIRED", "#IMPLIED", "#FIXED ", "")
	if def == "" || def == "#FIXED " {
		def += "'" + sym.Pick("default", values...) + "'"
	}
	att := ""
	if sym.Split(sym.Choice("given", 2)) == 1 {
		att = " p='" + sym.Pick("value", values...) + "'"
	}
	d := "<!DOCTYPE r [<!ENTITY e ' y'><!ATTLIST a " + sym.Pick("before", "", "q CDATA 'z' ") + "p " + typ + " " + def + ">"
	switch sym.Split(sym.Choice("where", 3)) {
	case 0:
		checkDefaults(d + "]><a q='v'" + att + "/>")
	case 1:
		checkDefaults(d + "]><r><a" + att + ">t</a></r>")
	case 2:
		checkDefaults(d + "<!ENTITY f \"<a" + att + "/>\">]><r>&f;</r>")
	}
}

// P24_Names: a default for an element and attribute with names of up to three characters, among them colons; elements and attributes with such names get it if and only if they are the same.
func P24_Names() {
	name := func(k string, n int) string {
		s := sym.StrUpTo(k, 1, n)
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.In(s[i], "ab:A"))
		}
		return s
	}
	n := tier(2, 3)
	b := " xmlns:a='u' xmlns:b='v' xmlns:A='w'"
	checkDefaults("<!DOCTYPE r [<!ATTLIST " + name("e", n) + " " + name("n", n) + " CDATA 'd'>]><r" + b + "><" + name("f", n) + sym.Pick("att", "", " "+name("m", n)+"='x'") + "/></r>")
}

// P24_First: of several declarations of an attribute the first one counts, whatever the others say; three declarations out of eight.
func P24_First() {
	s := ""
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		s += "<!ATTLIST " + sym.Pick("t"+itoa(i), "a p CDATA #IMPLIED", "a p CDATA '1'", "a p NMTOKENS ' 2  3 '", "a p NMTOKENS #IMPLIED", "a p CDATA #FIXED '4' p CDATA '5'", "b p CDATA '6'", "a q CDATA '7'", "a") + ">"
	}
	checkDefaults("<!DOCTYPE a [" + s + "]><a" + sym.Pick("att", "", " p=' x  y '") + "/>")
}

// P24_Parameter: declarations out of a parameter entity take effect from its reference on.
func P24_Parameter() {
	s := ""
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		s += sym.Pick("t"+itoa(i), "", "%p;", "%q;", "<!ATTLIST a x CDATA '1'>", "<!ENTITY % q \"<!ATTLIST a x NMTOKEN ' 4 '>\">", "<!ENTITY e '5'>")
	}
	checkDefaults("<!DOCTYPE a [<!ENTITY % p \"<!ATTLIST a x CDATA '2' y CDATA '3'>\"><!ENTITY % q ''>" + s + "]><a" + sym.Pick("att", "", " x=' 6  7'") + "/>")
}

// P24_Entity: elements within an entity's text get their defaults as others do.
func P24_Entity() {
	checkDefaults("<!DOCTYPE a [<!ENTITY e '<b" + sym.Pick("att", "", " p=\" x \"", " q=\"&f;\"") + "/>'><!ENTITY f ' y '><!ATTLIST b p " + sym.Pick("type", "CDATA", "NMTOKEN") + " " + sym.Pick("def", "' z '", "#IMPLIED", "'&f;'") + ">]><a>&e;</a>")
}

// P24_Namespace: defaults that declare namespaces bind prefixes as if they were written.
func P24_Namespace() {
	w := sym.Str("u", 2)
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.Between(w[i], 'a', 'z'))
	}
	typ := sym.Pick("type", "CDATA", "NMTOKEN")
	kind := sym.Pick("def", "", "#FIXED ")
	name := sym.Pick("name", "xmlns", "xmlns:p")
	elem := sym.Pick("elem", "a", "p:a")
	given := sym.Pick("given", "", " xmlns='g'", " xmlns:p='h'")
	_, h, err := parseStarts("<!DOCTYPE a [<!ATTLIST " + elem + " " + name + " " + typ + " " + kind + "'" + w + "'>]><" + elem + given + "/>")
	def, p := "", ""
	if given == " xmlns='g'" {
		def = "g"
	}
	if given == " xmlns:p='h'" {
		p = "h"
	}
	if name == "xmlns" && def == "" {
		def = w
	}
	if name == "xmlns:p" && p == "" {
		p = w
	}
	if elem == "p:a" {
		if p == "" {
			sym.Assert(err != nil, "an unbound prefix is accepted")
			sym.Reach("unbound")
			return
		}
		def = p
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	if len(h.elems) != 1 || len(h.elems[0].attrs) != 0 {
		sym.Fail("namespace declarations are reported as attributes")
	}
	sym.Assert(sym.Eq(h.elems[0].uri, def), "an element is in another namespace")
	sym.Reach("bound")
}

// P24_Sizes: defaults for many attributes and many elements, and long defaults and names: all counts around powers of two up to 32 (thorough: and up to 20; lengths: up to 128; thorough 1024); one character is any of five.
func P24_Sizes() {
	w := ascii("w", 1, 1)
	sym.Assume(sym.In(w[0], "y ;<\n"))
	kind := sym.Split(sym.Choice("kind", 4))
	n := 0
	if kind >= 2 {
		n = size(tier(128, 1024))
	} else if sym.Thorough() {
		n = size(32)
	} else {
		n = few(32)
	}
	last := func(i int) string { // it's in the last of many
		if i == n-1 {
			return w
		}
		return "y"
	}
	xs := strings.Repeat("x", n)
	d, c := "", "<a/>"
	switch kind {
	case 0:
		d = "<!ATTLIST a" + rep(n, func(i int) string { return " b" + itoa(i) + " NMTOKENS '" + itoa(i) + " " + last(i) + "'" }) + ">"
		c = "<a" + rep(n/3, func(i int) string { return " b" + itoa(i*2) + "=' y  z '" }) + "/>"
	case 1:
		d = rep(n, func(i int) string {
			return "<!ATTLIST a" + itoa(i) + " b CDATA '" + itoa(i) + last(i) + "' c" + itoa(i) + " CDATA 'd'>"
		})
		c = "<a>" + rep(n, func(i int) string { return "<a" + itoa(i) + "/>" }) + "</a>"
	case 2:
		d = "<!ATTLIST a b CDATA '" + xs + w + "' c NMTOKENS '" + xs + "  " + xs + "'>"
	case 3:
		d = "<!ATTLIST a" + xs + " b" + xs + " CDATA '" + w + "'>"
		c = "<a" + xs + "><a c=''/></a" + xs + ">"
	}
	checkDefaults("<!DOCTYPE a [" + d + "]>" + c)
}

// P24_Lists: a list of three attributes (thorough four) with prefixed and other names and several kinds of defaults, for an element that is there three times, with and without some of them.
func P24_Lists() {
	l := " " + sym.Pick("n0", "p", "xml:lang") + " CDATA '0' " + sym.Pick("n1", "p", "q", "x:p") + " " + sym.Pick("d1", "NMTOKENS ' a  1'", "CDATA #IMPLIED") + " " + sym.Pick("n2", "q", "x:p") + " CDATA '2'"
	if sym.Thorough() {
		l += " " + sym.Pick("n3", "p", "q", "xml:lang", "x:p") + " " + sym.Pick("d3", "CDATA '3'", "NMTOKENS ' a  3'", "CDATA #IMPLIED")
	}
	checkDefaults("<!DOCTYPE a [<!ATTLIST b" + l + ">]><a xmlns:x='u'><b" + sym.Pick("first", "", " q='z'", " xml:lang='y' p=' w  v '") + "/><b" + sym.Pick("second", "", " x:p=''") + "/><b/></a>")
}
