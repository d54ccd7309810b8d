package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// checkDoc: a document with a document type is rejected, or accepted with the reference tree, entities expanded, also after a round trip.
func checkDoc(s string) {
	v, form, r := refParse(s)
	doc, err := parse(s)
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare && !r.onlyInvalid() {
		return
	}
	if v == refDontCare && err != nil {
		sym.Reach("invalid")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sameExpanded(doc, form)
	d := dump(doc)
	again, err := helium.Parse([]byte(d))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	if !r.emptyID {
		sameExpanded(again, form)
	}
	sym.Reach("accepted")
}

func sameExpanded(doc *helium.Document, form string) {
	got := canonExpanded(doc)
	sym.Note("tree", sym.Quote(got))
	sym.Note("expected", sym.Quote(form))
	if len(got) != len(form) {
		sym.Fail("the tree is not the document's")
	}
	sym.Assert(sym.Eq(got, form), "the tree is not the document's")
}

// P06_Value: up to 4 arbitrary ASCII bytes as an entity's value, referred to between text in content.
func P06_Value() {
	checkDoc("<!DOCTYPE a [<!ENTITY e '" + ascii("w", 0, tier(4, 6)) + "'>]><a>x&e;y</a>")
}

// P06_AttValue: the same, referred to in an attribute.
func P06_AttValue() {
	checkDoc("<!DOCTYPE a [<!ENTITY e \"" + ascii("w", 0, tier(4, 6)) + "\">]><a b='x&e;y' c='&e;'/>")
}

// P06_Unused: the same, not referred to.
func P06_Unused() {
	checkDoc("<!DOCTYPE a [<!ENTITY e '" + ascii("w", 0, tier(4, 6)) + "'>]><a/>")
}

// P06_Content: up to 4 arbitrary ASCII bytes as content, among them references to e, f and g.
func P06_Content() {
	checkDoc("<!DOCTYPE a [<!ENTITY e '1<b/>2'><!ENTITY f '&e;'><!ENTITY g ''><!ENTITY e 'second'>]><a>x" + ascii("w", 0, tier(4, 6)) + "</a>")
}

// P06_AttContent: up to 4 arbitrary ASCII bytes in an attribute's value.
func P06_AttContent() {
	checkDoc("<!DOCTYPE a [<!ENTITY e '1\n2'><!ENTITY f '&e;&#38;#60;'><!ENTITY g ''><!ENTITY h '<'>]><a b='" + ascii("w", 0, tier(4, 6)) + "'/>")
}

// entTokens is n parts of an entity's value.
func entTokens(k string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += sym.Pick(k+itoa(i), "", "&e;", "&f;", "&#38;e;", "<b>", "</b>", "t", "&#60;", "&lt;", "&#38;#60;", "&u;", "<c d='&f;'/>", "&#13;", "<!--&e;-->", "<![CDATA[&e;]]>")
	}
	return s
}

// P06_Nested: two entities whose values are up to two of 15 parts, among them references to each other, markup and escaped characters, and one arbitrary ASCII byte.
func P06_Nested() {
	w := ascii("w", 0, 1)
	d := "<!DOCTYPE a [<!ENTITY e '" + entTokens("e", tier(2, 2)) + "'><!ENTITY f '" + entTokens("f", tier(1, 2)) + w + "'>]>"
	if sym.Split(sym.Choice("where", 2)) == 0 {
		checkDoc(d + "<a>x&e;y&f;</a>")
	} else {
		checkDoc(d + "<a b='x&f;y&e;'/>")
	}
}

// P06_Loop: up to four entities, each with a reference to any of them: recursion, direct or not, is an error and nothing else is.
func P06_Loop() {
	n := tier(4, 5)
	s := "<!DOCTYPE a ["
	for i := 0; i < n; i++ {
		k := sym.Byte("r" + itoa(i))
		sym.Assume(sym.Between(k, 'a', 'a'+byte(n)))
		s += "<!ENTITY " + string([]byte{'a' + byte(i)}) + " '" + sym.Pick("p"+itoa(i), "", "<b/>") + "&" + string([]byte{k}) + ";'>"
	}
	s += "<!ENTITY " + string([]byte{'a' + byte(n)}) + " 'end'>]>"
	if sym.Split(sym.Choice("where", 2)) == 0 {
		checkDoc(s + "<a>&a;</a>")
	} else {
		checkDoc(s + "<a b='&a;'/>")
	}
}

// P06_Names: two entities with names of up to two characters out of six, and a reference to a name: the first one with exactly this name is meant, or it's an error.
func P06_Names() {
	name := func(k string) string {
		s := sym.StrUpTo(k, 1, 2)
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.In(s[i], "abAg.1"))
		}
		return s
	}
	d := "<!DOCTYPE a [<!ENTITY " + name("x") + " 'one'><!ENTITY " + name("y") + " 'two'><!ENTITY % a 'three'>]>"
	if sym.Split(sym.Choice("where", 2)) == 0 {
		checkDoc(d + "<a>&" + name("z") + ";</a>")
	} else {
		checkDoc(d + "<a b='&" + name("z") + ";'/>")
	}
}

// P06_Wide: an entity named by any character beyond ASCII, alone or after a letter, with references to it in content, in an attribute and in another entity's value.
func P06_Wide() {
	var r rune
	switch sym.Split(sym.Choice("width", 3)) {
	case 0:
		r = sym.Rune("r2")
		sym.Assume(inR(r, 0x80, 0x7FF))
	case 1:
		r = sym.Rune("r3")
		sym.Assume(sym.Or(inR(r, 0x800, 0xD7FF), inR(r, 0xE000, 0xFFFF)))
	default:
		r = sym.Rune("r4")
		sym.Assume(inR(r, 0x10000, 0x10FFFF))
	}
	n := string(appendRune([]byte(sym.Pick("pre", "", "e")), r))
	d := "<!DOCTYPE a [<!ENTITY " + n + " 'one'>"
	switch sym.Split(sym.Choice("where", 3)) {
	case 0:
		checkDoc(d + "]><a>&" + n + ";</a>")
	case 1:
		checkDoc(d + "]><a b='&" + n + ";'/>")
	default:
		checkDoc(d + "<!ENTITY f 'x&" + n + ";'>]><a b='&f;'>&f;</a>")
	}
}

// P06_Predefined: the predefined entities, with names of up to four letters out of those they have, in content, attributes and entities, in documents with and without a document type.
func P06_Predefined() {
	n := sym.StrUpTo("n", 1, 4)
	for i := 0; i < len(n); i++ {
		sym.Assume(sym.In(n[i], "ltgampquos"))
	}
	switch sym.Split(sym.Choice("where", 4)) {
	case 0:
		checkDoc("<a>x&" + n + ";y</a>")
	case 1:
		checkDoc("<a b='x&" + n + ";y'/>")
	case 2:
		checkDoc("<!DOCTYPE a [<!ENTITY e '&" + n + ";'>]><a>x&e;y</a>")
	case 3:
		checkDoc("<!DOCTYPE a [<!ENTITY e '&" + n + ";'>]><a b='x&e;y'/>")
	}
}

// P06_Redeclared: declarations of the predefined entities leave their meaning alone.
func P06_Redeclared() {
	i := sym.Split(sym.Choice("which", 5))
	name := []string{"lt", "gt", "amp", "quot", "apos"}[i]
	char := []string{"<", ">", "&", "\"", "'"}[i]
	value := []string{"&#38;#60;", "&#62;", "&#38;#38;", "&#34;", "&#39;"}[i]
	w := ascii("w", 0, 1)
	doc, err := parse("<!DOCTYPE a [<!ENTITY " + name + " '" + value + w + "'>]><a b='&" + name + ";'>&" + name + ";</a>")
	if err != nil {
		if len(w) == 0 {
			sym.Note("error", err.Error())
			sym.Fail("a well-formed document is rejected")
		}
		sym.Reach("rejected")
		return
	}
	e := rootOf(doc).(*helium.Element)
	sym.Assert(string(e.Content()) == char, "a predefined entity means something else")
	sym.Assert(e.Attributes()[0].Value() == char, "a predefined entity means something else")
	sym.Reach("same")
}

// P06_External: external and unparsed entities: not allowed in attributes, the latter nowhere; not read.
func P06_External() {
	d := "<!DOCTYPE a [<!ENTITY e " + sym.Pick("id", "SYSTEM 's'", "PUBLIC 'p' 's'", "SYSTEM 's' NDATA n") + "><!ENTITY f '" + sym.Pick("f", "", "1", "&e;") + ascii("w", 0, 1) + "'>]>"
	checkDoc(d + sym.Pick("use", "<a/>", "<a>x&e;y</a>", "<a>x&f;y</a>", "<a b='&e;'/>", "<a b='&f;'/>"))
}

// P06_Order: entities used in default values have to be declared before, all others anywhere.
func P06_Order() {
	w := ascii("w", 0, 2)
	e := "<!ENTITY e 'x" + w + "'>"
	f := "<!ENTITY f '&e;'>"
	l := "<!ATTLIST a b CDATA '" + sym.Pick("v", "&e;", "&f;", "v") + "'>"
	checkDoc("<!DOCTYPE a [" + sym.Pick("order", e+f+l, f+e+l, f+l+e, l+e+f, e+l+f) + "]><a c='&f;'>&e;&f;</a>")
}

// P06_Scope: names in an entity's text are looked up where the reference is.
func P06_Scope() {
	w := sym.Str("w", 1)
	sym.Assume(sym.Between(w[0], 'p', 's'))
	checkDoc("<!DOCTYPE a [<!ENTITY e '<" + sym.Pick("n", "b", w+":b", "b xmlns='w'", w+":b xmlns:r='w'") + "/>'>]><a" + sym.Pick("d", "", " xmlns='u'", " xmlns:p='v'", " xmlns:q='v'") + "><c xmlns:s='x'>&e;</c></a>")
}

// P06_Pad: references around the end of the reader's buffer.
func P06_Pad() {
	pad := sym.Split(sym.Choice("pad", tier(10, 42)))
	x := "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"[:pad]
	checkDoc("<!DOCTYPE a [<!ENTITY e '" + x + "<b>" + ascii("w", 0, 1) + "</b>'>]><a>" + x + "&e;&e;" + ascii("v", 0, 1) + "</a>")
}

// P06_Sizes: chains of entities, long replacement texts, many references, many entities: all counts up to 20 and those around 32 (lengths: up to 128; thorough 1024); one character is any of five.
func P06_Sizes() {
	w := ascii("w", 1, 1)
	sym.Assume(sym.In(w[0], "y ;<\n"))
	kind := sym.Split(sym.Choice("kind", 6))
	limit := 32
	if kind >= 3 {
		limit = tier(128, 1024)
	}
	n := size(limit)
	last := func(i int) string { // it's in the last of many
		if i == n-1 {
			return w
		}
		return "y"
	}
	xs := strings.Repeat("x", n)
	d, c := "", ""
	switch kind {
	case 0:
		d = "<!ENTITY e0 '" + w + "'>" + rep(n, func(i int) string { return "<!ENTITY e" + itoa(i+1) + " 'x&e" + itoa(i) + ";.'>" })
		c = "&e" + itoa(n) + ";"
	case 1:
		d = "<!ENTITY e '" + w + "'>"
		c = rep(n, func(i int) string { return "&e;" + itoa(i) })
	case 2:
		d = rep(n, func(i int) string { return "<!ENTITY e" + itoa(i) + " '" + itoa(i) + last(i) + "'>" })
		c = rep(n, func(i int) string { return "&e" + itoa(i) + ";" })
	case 3:
		d = "<!ENTITY e '" + xs + w + "y'>"
		c = "&e;z&e;"
	case 4:
		d = "<!ENTITY e" + xs + " '" + w + "'>"
		c = "&e" + xs + ";"
	case 5:
		d = "<!ENTITY e \"<b c='" + xs + "'>" + xs + w + "</b>\">"
		c = xs + "&e;" + xs
	}
	if kind < 5 {
		switch sym.Split(sym.Choice("where", 4)) {
		case 1:
			checkDoc("<!DOCTYPE a [" + d + "]><a b='" + c + "'/>")
			return
		case 2:
			checkDoc("<!DOCTYPE a [" + d + "]><a xmlns='" + c + "'/>")
			return
		case 3:
			checkDoc("<!DOCTYPE a [" + d + "]><p:a xmlns:p='" + c + "'/>")
			return
		}
	}
	checkDoc("<!DOCTYPE a [" + d + "]><a>" + c + "</a>")
}
