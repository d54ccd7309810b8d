package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// checkNS: rejected or accepted with the reference tree, which survives serialisation.
func checkNS(s string) { checkMisc(s) }

func letter(name string) string {
	b := sym.Str(name, 1)
	sym.Assume(sym.Between(b[0], 'p', 's'))
	return b
}

// nsDecls are the declarations on one element.
func nsDecls(k string) string {
	d := ""
	switch sym.Split(sym.Choice("d"+k, 3)) {
	case 1:
		d += " xmlns='u" + letter("du"+k) + "'"
	case 2:
		d += " xmlns=''"
	}
	switch sym.Split(sym.Choice("p"+k, 3)) {
	case 1:
		d += " xmlns:" + letter("pp"+k) + "='v'"
	case 2:
		d += " c='1' xmlns:" + letter("pp"+k) + "='w' xmlns:" + letter("pq"+k) + "=\"v\""
	}
	return d
}

func nsName(k, local string) string {
	if sym.Split(sym.Choice("n"+k, 2)) == 1 {
		return letter("np"+k) + ":" + local
	}
	return local
}

// P09_Nested: an element in another one, and one after it, each with or without a default
// declaration, up to two declared prefixes and a prefix; prefixes are any of four letters.
func P09_Nested() {
	a, b, c := nsName("0", "a"), nsName("1", "b"), nsName("2", "c")
	checkNS("<" + a + nsDecls("0") + "><" + b + nsDecls("1") + "/><" + c + "/></" + a + ">")
}

// P09_Deep: three nested elements, the outer two with one declaration, and text between.
func P09_Deep() {
	decl := func(k string) string {
		switch sym.Split(sym.Choice("d"+k, 3)) {
		case 1:
			return " xmlns:" + letter("dp"+k) + "='u" + k + "'"
		case 2:
			return " xmlns='u" + k + "'"
		}
		return ""
	}
	a, b, c, d := "a", nsName("1", "b"), nsName("2", "c"), nsName("3", "d")
	checkNS("<" + a + decl("0") + "><" + b + decl("1") + "><" + c + decl("2") + ">t</" + c + "></" + b + "><" + d + "/></" + a + ">")
}

// P09_Attrs: attributes with prefixes, and without, between declarations; also equal expanded names.
func P09_Attrs() {
	pre := func(k string) string {
		if sym.Split(sym.Choice("a"+k, 2)) == 1 {
			return letter("ap"+k) + ":x"
		}
		return "x"
	}
	s := "<r xmlns:p='u' xmlns:q='" + sym.Pick("q", "u", "v") + "'><e " + pre("0") + "='1' "
	if sym.Split(sym.Choice("inner", 2)) == 1 {
		s += "xmlns:" + letter("i") + "='w' "
	}
	s += pre("1") + "='2'/></r>"
	checkNS(s)
}

// P09_XML: the prefix xml is always bound, and declarations of the default namespace don't touch it.
func P09_XML() {
	checkNS("<a" + sym.Pick("d", "", " xmlns='u'", " xmlns:p='u'") + " xml:lang='" + ascii("v", 0, 1) + "'><xml:" + letter("n") + sym.Pick("e", "", " xmlns='v'") + "/></a>")
}

// P09_Entity: declarations inside an entity's content end with it, and those around it hold in it.
func P09_Entity() {
	ent := sym.Pick("e", "<p:b/>", "<q:b/>", "<b xmlns='w'/>", "<p:b xmlns:p='w'/>", "<b/>", "<b xmlns:p='w'><p:c/></b>")
	s := "<!DOCTYPE a [<!ENTITY e \"" + ent + "\">]><a" + sym.Pick("d", "", " xmlns='u'", " xmlns:p='u'", " xmlns:q='u'") + ">&e;<" + sym.Pick("n", "c", "p:c", "q:c") + "/></a>"
	doc, err := parse(s)
	// the same document with the entity's content in place
	t := s[indexOf(s, "<a"):]
	i := indexOf(t, "&e;")
	v, form, _ := refParse(t[:i] + ent + t[i+3:])
	if v == refReject {
		sym.Assert(err != nil, "a prefix that is not bound is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare {
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	got := canonExpanded(doc)
	sym.Note("got", sym.Quote(got))
	sym.Note("want", sym.Quote(form))
	if got != form {
		sym.Fail("namespaces in or after an entity's content are not those in scope")
	}
	sym.Reach("accepted")
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// P09_Reserved: a declaration of one of eight prefixes, or the default, for one of seven names, among
// which those of Namespaces in XML itself; literally, with a reference in it, or as a default of the DTD,
// on the root, an inner or an empty element, alone or among attributes.
func P09_Reserved() {
	prefix := sym.Pick("prefix", "", "p", "xml", "xmlns", "xm", "XML", "xmln", "xmlx")
	uri := sym.Pick("uri", "", "u", xmlNS, xmlnsNS, xmlNS+"/", xmlnsNS[:len(xmlnsNS)-1], "HTTP"+xmlNS[4:])
	own := prefix == "xml"
	legal := own == (uri == xmlNS) && uri != xmlnsNS && prefix != "xmlns" && (uri != "" || prefix == "")
	name := "xmlns"
	if prefix != "" {
		name += ":" + prefix
	}
	form := sym.Split(sym.Choice("form", 4))
	value := uri
	if form == 1 && uri != "" {
		value = "&#" + itoa(int(uri[0])) + ";" + uri[1:]
	} else if form == 2 && uri != "" {
		value = "&e;"
	}
	decl := sym.Pick("before", "", " b='1'", " xmlns:q='q'") + " " + name + "='" + value + "'" + sym.Pick("after", "", " c='1'")
	if form == 3 {
		decl = sym.Pick("plain", "", " b='1'")
	}
	s := "<a" + decl + ">" + "<d/></a>"
	switch sym.Split(sym.Choice("where", 3)) {
	case 1:
		s = "<r><a" + decl + "/></r>"
	case 2:
		s = "<r xmlns='o' xmlns:p='o'><d/><a" + decl + "><d/></a></r>"
	}
	if form == 2 {
		s = "<!DOCTYPE r [<!ENTITY e '" + uri + "'>]>" + s
	} else if form == 3 {
		s = "<!DOCTYPE r [<!ATTLIST a " + name + " CDATA " + sym.Pick("fixed", "", "#FIXED ") + "'" + uri + "'>]>" + s
	}
	sym.Note("document", sym.Quote(s))
	doc, err := parse(s)
	if !legal {
		sym.Assert(err != nil && doc == nil, "a declaration that namespaces reserve is accepted")
		sym.Reach("refused")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a legal declaration is refused")
	}
	a, _ := rootOf(doc).(*helium.Element)
	if a != nil && a.LocalName() == "r" {
		a, _ = a.LastChild().(*helium.Element)
	}
	if a == nil {
		sym.Fail("the element is missing")
	}
	n := 0
	for _, ns := range a.Namespaces() {
		if ns.Prefix() == prefix && ns.URI() == uri {
			n++
		}
	}
	if prefix != "xml" && form != 3 && n != 1 {
		sym.Fail("the declaration is not on its element once")
	}
	if prefix == "" {
		sym.Assert(a.URI() == uri, "the element is not in the default namespace")
	}
	sym.Reach("accepted")
}

// P09_Similar: prefixes and names that are almost those with a meaning, declared and used on elements and attributes, on the same element or within it.
func P09_Similar() {
	p := sym.Pick("p", "xmlnsx", "xmln", "XMLNS", "xmlxml", "xm", "xmlx", "XML", "x.xmlns", "ns", "x")
	q := sym.Pick("q", "p", "xmlns-", "xm")
	n := sym.Pick("n", "b", "xmlns", "xml", "xmlnsx", "lang")
	use := " " + p + ":" + n + "='v'" + sym.Pick("more", "", " xmlnsx='w'", " xmlns='w'", " XMLNS=''")
	s := "<a xmlns:" + p + "='u' xmlns:" + q + "='t'"
	switch sym.Split(sym.Choice("where", 3)) {
	case 0:
		s += use + "/>"
	case 1:
		s += "><" + q + ":" + n + use + "/><" + p + ":" + n + "/></a>"
	case 2:
		s += "><" + p + ":b xmlns:" + p + "='z'" + use + "/><" + p + ":b" + use + "/></a>"
	}
	checkNS(s)
}
