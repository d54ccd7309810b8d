package h

import (
	"strings"

	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// Windows: documents with a few arbitrary bytes at one place. Every harness
// over windows of a property has the same contexts.

// bytesW is an arbitrary string of lo..hi bytes, ASCII or not.
func bytesW(name string, lo, hi int) string { return sym.StrUpTo(name, lo, hi) }

func winContent() string { return "<a>" + ascii("w", 0, tier(5, 7)) + "</a>" }
func winTag() string     { return "<a" + ascii("w", 0, tier(5, 7)) + "></a>" }
func winEmptyTag() string {
	return "<r><a " + ascii("w", 0, tier(4, 6)) + "/></r>"
}
func winAttrs() string { return "<a b='1' b1=\"2\"" + ascii("w", 0, tier(5, 7)) + "/>" }

// winDup: two attributes with arbitrary names of up to 3 ASCII characters.
func winDup() string {
	return "<a " + ascii("x", 1, tier(2, 3)) + "='1' " + ascii("y", 1, tier(2, 3)) + "='2'/>"
}
func winValue() string { return "<a b=\"" + ascii("w", 0, tier(5, 7)) + "\" c='2'/>" }
func winUnquoted() string {
	return "<a b=" + ascii("w", 0, tier(4, 6)) + " c='2'/>"
}
func winProlog() string { return ascii("w", 0, tier(4, 6)) + "<a/>" }
func winEpilog() string { return "<a/>" + ascii("w", 0, tier(5, 7)) }
func winComment() string {
	return "<!--" + ascii("w", 0, tier(4, 6)) + "--><a/>"
}
func winBang() string  { return "<a><!" + ascii("w", 0, tier(5, 7)) + "></a>" }
func winPI() string    { return "<?" + ascii("w", 0, tier(4, 6)) + "?><a/>" }
func winPIIn() string  { return "<a><?p" + ascii("w", 0, tier(4, 6)) + "></a>" }
func winCDATA() string { return "<a><![CDATA[" + ascii("w", 0, tier(4, 6)) + "]]></a>" }
func winCDOpen() string {
	return "<a><![CDATA" + ascii("w", 0, tier(4, 6)) + "]]></a>"
}
func winEnd() string  { return "<ab><c/></ab" + ascii("w", 0, tier(4, 6)) }
func winEnd2() string { return "<ab></" + ascii("w", 0, tier(4, 6)) + ">" }
func winRef() string  { return "<a>x&" + ascii("w", 0, tier(4, 6)) + ";y</a>" }
func winCharRef() string {
	return "<a>&#" + ascii("w", 0, tier(4, 7)) + ";</a>"
}
func winHexRef() string {
	return "<a b='&#x" + ascii("w", 0, tier(4, 6)) + ";'/>"
}
func winNested() string { return "<a>t<b" + ascii("w", 0, tier(4, 6)) + "</b></a>" }
func winAfterEnd() string {
	return "<a><b></b" + ascii("w", 0, tier(4, 6)) + "</a>"
}
func winNS() string {
	return "<a xmlns:p='u'><" + ascii("x", 0, tier(2, 3)) + "b " + ascii("y", 0, tier(2, 3)) + "='u'/></a>"
}

// winUTF8: arbitrary bytes, so also every sequence that is not UTF-8.
func winUTF8() string { return "<a>" + bytesW("w", 0, tier(3, 4)) + "</a>" }

// winUTF8Name: arbitrary characters in names.
func winUTF8Name() string { return "<a" + bytesW("w", 1, tier(3, 4)) + "/>" }

// winUTF8First: an arbitrary first character of a name.
func winUTF8First() string { return "<" + bytesW("w", 1, tier(3, 4)) + "/>" }
func winUTF8Value() string { return "<a b='" + bytesW("w", 1, tier(3, 4)) + "'/>" }
func winUTF8Comment() string {
	return "<a><!--" + bytesW("w", 1, tier(3, 4)) + "--></a>"
}
func winUTF8PI() string { return "<?p " + bytesW("w", 1, tier(3, 4)) + "?><a/>" }
func winUTF8CDATA() string {
	return "<a><![CDATA[" + bytesW("w", 1, tier(3, 4)) + "]]></a>"
}

// winPad: the window lies across the end of the reader's buffer.
func winPad() string {
	pad := sym.Split(30 + sym.Choice("pad", tier(8, 24)))
	return "<a>" + strings.Repeat("x", pad) + ascii("w", 0, tier(3, 4)) + "</a>"
}

// winPadTag: likewise, in a tag.
func winPadTag() string {
	pad := sym.Split(26 + sym.Choice("pad", tier(8, 24)))
	return "<a b='" + strings.Repeat("y", pad) + "'" + ascii("w", 0, tier(3, 4)) + "/>"
}

// winTokens: any sequence of up to 4 markup tokens in an element, one byte
// in some of them arbitrary.
func winTokens() string {
	n := sym.Split(sym.Choice("n", tier(4, 5)))
	s := "<r>"
	for i := 0; i < n; i++ {
		k := string(byte('0' + i))
		switch sym.Split(sym.Choice("t"+k, 11)) {
		case 0:
			s += "<a>"
		case 1:
			s += "</a>"
		case 2:
			s += "<b/>"
		case 3:
			s += "&lt;"
		case 4:
			s += "<!--"
		case 5:
			s += "-->"
		case 6:
			s += "<![CDATA["
		case 7:
			s += "]]>"
		case 8:
			s += "<?p "
		case 9:
			s += "?>"
		case 10:
			s += ascii("c"+k, 1, 1)
		}
	}
	return s + "</r>"
}

// winAttrTokens: any sequence of up to 5 pieces of a start tag.
func winAttrTokens() string {
	n := sym.Split(sym.Choice("n", tier(6, 8)))
	s := "<r"
	for i := 0; i < n; i++ {
		k := string(byte('0' + i))
		switch sym.Split(sym.Choice("t"+k, 7)) {
		case 0:
			s += " b"
		case 1:
			s += "="
		case 2:
			s += "'v'"
		case 3:
			s += " "
		case 4:
			s += "/"
		case 5:
			s += ">"
		case 6:
			s += " c=\"w\""
		}
	}
	return s + "></r>"
}

// winPadTokens: four tokens - line ends, characters of one to four bytes - at the end of the reader's buffer.
func winPadTokens() string {
	pad := sym.Split(28 + sym.Choice("pad", tier(6, 14)))
	s := "<a>" + strings.Repeat("x", pad)
	for i := 0; i < 4; i++ {
		s += sym.Pick("t"+itoa(i), "\r\n", "\u00e9", "\u4e2d", "\U0001f600", "y", "\r")
	}
	return s + "</a>"
}

const richContent = "<?xml version='1.0'?><!--c--><p:r xmlns:p=\"u\" b='1&lt;2' p:b=''><c/>t&#65;<![CDATA[d]]><?q s?><d xmlns='v'>\r\n</d></p:r><?z?>"

// winSlide: up to two (thorough three) arbitrary ASCII bytes instead of any one (two) of a document with every kind of content.
func winSlide() string { return slide(richContent, len(richContent), tier(1, 2)) }

const richRefs = "<!DOCTYPE a [<!ENTITY e '<b/>x'><!ENTITY f \"&#38;#60;&e;\"><!ATTLIST a x CDATA 'v'><!ELEMENT a (#PCDATA|b)*>]><a y='&g;'>&e;&amp;&f;</a>"

// winDTDSlide: likewise, of a document with declarations and references to entities; "g" is not declared.
func winDTDSlide() string {
	s := sym.Pick("y", "x", "&lt;")
	return slide(strings.Replace(richRefs, "&g;", s, 1), len(richRefs)-3+len(s), tier(1, 2))
}

// winSubset: an arbitrary internal subset.
func winSubset() string { return "<!DOCTYPE a [" + ascii("w", 0, tier(4, 6)) + "]><a/>" }

// winDecl: an arbitrary declaration.
func winDecl() string {
	return "<!DOCTYPE a [<!" + ascii("w", 0, tier(4, 6)) + ">]><a/>"
}

// winDoctype: an arbitrary document type declaration.
func winDoctype() string { return "<!DOCTYPE" + ascii("w", 0, tier(5, 7)) + "><a/>" }

// winEntText: an entity with arbitrary text, referred to in content or in an attribute value.
func winEntText() string {
	s := "<!DOCTYPE a [<!ENTITY f 'F'><!ENTITY e \"" + ascii("w", 0, tier(4, 6)) + "\">]>"
	if sym.Choice("where", 2) == 0 {
		return s + "<a>&e;</a>"
	}
	return s + "<a b='&e;'/>"
}

// winEntMarkup: the text of an entity is any sequence of pieces of markup.
func winEntMarkup() string {
	t := ""
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		t += sym.Pick("t"+itoa(i), "", "<b>", "</b>", "x", "&#60;", "&f;", "<!--", "-->", "&#38;lt;", "<c", "/>")
	}
	return "<!DOCTYPE a [<!ENTITY f '<b>y</b>'><!ENTITY e '" + t + "'>]><a>1&e;2</a>"
}

// winPEText: a parameter entity with arbitrary text, used for a declaration.
func winPEText() string {
	return "<!DOCTYPE a [<!ENTITY % p \"<!ELEMENT b ANY>" + ascii("w", 0, tier(4, 5)) + "\">%p;]><a/>"
}

// winEnc: bytes in a single-byte encoding, in content.
func winEnc() string {
	e := sym.Pick("enc", "ISO-8859-1", "windows-1252", "KOI8-R", "utf-8")
	return "<?xml version='1.0' encoding='" + e + "'?><a>" + bytesW("w", 0, tier(1, 2)) + "</a>"
}

// winMultibyte: a lead byte and an arbitrary byte in a multibyte encoding, in content.
func winMultibyte() string {
	switch sym.Choice("enc", 3) {
	case 0:
		return "<?xml version='1.0' encoding='Shift_JIS'?><a>\x83" + bytesW("w", 1, 1) + "</a>"
	case 1:
		return "<?xml version='1.0' encoding='EUC-KR'?><a>\xb0" + bytesW("w", 1, 1) + "</a>"
	}
	return "<?xml version='1.0' encoding='GBK'?><a>\xb1" + bytesW("w", 1, 1) + "</a>"
}

// size is a length or count: all small ones, and those around powers of two, up to limit.
func size(limit int) int {
	l := []int{}
	for i := 0; i <= 20; i++ {
		l = append(l, i)
	}
	for p := 32; p <= limit; p *= 2 {
		l = append(l, p-1, p, p+1)
	}
	return l[sym.Split(sym.Choice("size", len(l)))]
}

// few is a length or count around powers of two up to limit.
func few(limit int) int {
	l := []int{0}
	for p := 2; p <= limit; p *= 2 {
		l = append(l, p-1, p, p+1)
	}
	return l[sym.Split(sym.Choice("size", len(l)))]
}

func rep(n int, f func(i int) string) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, f(i)...)
	}
	return string(b)
}

// winSizes: long names, values, texts, comments, instructions and CDATA sections, many attributes, children, levels, namespace declarations and references; one character is arbitrary.
func winSizes() string {
	w := ascii("w", 1, 1)
	kind := sym.Split(sym.Choice("kind", 14))
	limit := tier(256, 1024)
	if kind >= 8 {
		limit = tier(32, 64)
	}
	n := size(limit)
	xs := strings.Repeat("x", n)
	switch kind {
	case 0:
		return "<a" + xs + w + " b='1'></a" + xs + w + ">"
	case 1:
		return "<a b='" + xs + w + "' c='" + xs + "'/>"
	case 2:
		return "<a>" + xs + w + "<b/>" + xs + "</a>"
	case 3:
		return "<a><!--" + xs + w + "--><b/></a>"
	case 4:
		return "<a><?p" + xs + " " + xs + w + "?><b/></a>"
	case 5:
		return "<a><![CDATA[" + xs + w + "]]><b/></a>"
	case 6:
		return "<a><b" + strings.Repeat(" ", n) + "/>" + strings.Repeat("\n", n) + w + "</a>"
	case 7:
		return "<p" + xs + ":a xmlns:p" + xs + "='" + xs + "u' p" + xs + ":c='" + w + "'/>"
	case 8:
		return "<a" + rep(n, func(i int) string { return " a" + itoa(i) + "='" + itoa(i) + "'" }) + " b='" + w + "'/>"
	case 9:
		return "<a>" + rep(n, func(i int) string { return "<b" + itoa(i%7) + "/>" }) + w + "</a>"
	case 10:
		return rep(n+1, func(i int) string { return "<a" + itoa(i) + " b='" + itoa(i) + "'>" }) + w + rep(n+1, func(i int) string { return "</a" + itoa(n-i) + ">" })
	case 11:
		return "<a" + rep(n, func(i int) string { return " xmlns:p" + itoa(i) + "='u" + itoa(i) + "'" }) + ">" + rep(n, func(i int) string { return "<p" + itoa(i) + ":b/>" }) + w + "</a>"
	case 12:
		return "<a>" + rep(n, func(i int) string { return "&lt;" }) + w + rep(n, func(i int) string { return "&#6" + itoa(i%5+5) + ";" }) + "</a>"
	}
	return rep(n+1, func(i int) string { return "<a xmlns='u" + itoa(i) + "' xmlns:p='v" + itoa(i) + "'><p:b/>" }) + w + rep(n+1, func(i int) string { return "</a>" })
}

// item is one of the things an element can have as content, whole.
func item(k string) string {
	return sym.Pick("it"+k, "", "<b/>", "<b>u</b>", "t", "<!--c-->", "<?p d?>", "<![CDATA[x]]>", "&e;", "&#65;", " ", "<?q?>")
}

// winItems: an element with two things (thorough three) in it of any of ten kinds, among them references to an entity with up to two things in it; comments and instructions before and after it.
func winItems() string {
	misc := func(k string) string { return sym.Pick("m"+k, "", "<!--d-->", "<?r?>", "<?r?><!--d-->") }
	if sym.Split(sym.Choice("part", 2)) == 0 {
		ent := sym.Pick("v", "", "x<b/>", "<b/>x", "<b>y</b><b/>", "<!--f--><!--g-->", "<![CDATA[z]]>", "&f;", "<b/>&f;", "<?p?>y")
		return "<!DOCTYPE a [<!ENTITY f 'w<c><![CDATA[v]]></c>'><!ENTITY e '" + ent + "'>]><a>" + item("0") + "&e;" + item("1") + "</a>"
	}
	third := ""
	if sym.Thorough() {
		third = item("2")
	}
	return misc("0") + "<a>" + third + strings.Replace(item("0"), "&e;", "&lt;", 1) + strings.Replace(item("1"), "&e;", "&gt;", 1) + "</a>" + misc("1")
}

// winDocs: XML declarations of all forms, with and without a document type, with comments and instructions before, in and after it, and roots of several forms.
func winDocs() string {
	s := sym.Pick("decl", "", "<?xml version='1.0'?>", "<?xml version='1.1'?>")
	if s != "" {
		s = s[:len(s)-2] + sym.Pick("enc", "", " encoding='utf-8'", " encoding=\"ISO-8859-1\"", " encoding='windows1252'") + sym.Pick("sa", "", " standalone='yes'", " standalone='no'") + "?>"
	}
	misc := sym.Split(sym.Choice("misc", 5))
	m := func(at int, t string) string {
		if misc == at || misc == 4 {
			return t
		}
		return ""
	}
	s += m(1, "<!--c-->\n<?p d?>")
	s += sym.Pick("dtd", "", "<!DOCTYPE a>", "<!DOCTYPE a SYSTEM 's'>", "<!DOCTYPE a PUBLIC 'p' 's' [<!ELEMENT a ANY>]>", "<!DOCTYPE a [<?q?><!ATTLIST a b CDATA 'd' c NMTOKENS #IMPLIED><!ENTITY % f 'g'>]>")
	s += m(2, "<!--e--><?p?>")
	s += sym.Pick("root", "<a/>", "<a c=' x  y '>t</a>", "<a xmlns='u'><a/></a>")
	return s + m(3, " <!--f-->")
}

// winScopes: three elements, one in the other and one after, with declarations of the default namespace and of a prefix, and names with and without it, in documents with and without attribute declarations.
func winScopes() string {
	decl := func(k string) string {
		return sym.Pick("d"+k, "", " xmlns='u'", " xmlns:p='v'", " p:b='1' xmlns:p='w' b='2'", " xmlns='' b='3'")
	}
	a, b := sym.Pick("n0", "a", "p:a"), sym.Pick("n1", "b", "p:b")
	d := sym.Pick("dtd", "", "<!DOCTYPE a [<!ATTLIST c k CDATA '1'>]>", "<!DOCTYPE a [<!ATTLIST b k CDATA '1' xml:lang CDATA 'en'>]>", "<!DOCTYPE a [<!ATTLIST a b CDATA #IMPLIED>]>")
	return d + "<" + a + decl("0") + "><" + b + decl("1") + ">t</" + b + "><" + sym.Pick("n2", "c", "p:c") + sym.Pick("d2", "", " p:d=''") + "/></" + a + ">"
}

// contentModel is any content model of up to two levels of groups.
func contentModel() string {
	occ := func(k string) string { return sym.Pick("o"+k, "", "?", "*", "+") }
	o := sym.Pick("st", ",", "|")
	in := sym.Pick("g1", "(b)", "b", "(b,c)", "(b|c)", "(b?)", "(b*,c+)", "(b|(c,d))", "(b|(c|d)+)", "(b,(c,d)?)", "((b|c)*|d?)")
	s := in + occ("1")
	switch sym.Split(sym.Choice("n", 3)) {
	case 1:
		s += o + "e" + occ("2")
	case 2:
		s = "e" + o + s + o + sym.Pick("g2", "f", "(f|g)", "(f,g)") + occ("3")
	}
	return "(" + s + ")" + sym.Pick("ot", "", "*", "+")
}

// winModels: element declarations with content models of two levels of groups, all operators and occurrences, and mixed ones.
func winModels() string {
	m := ""
	if sym.Split(sym.Choice("mixed", 2)) == 0 {
		m = contentModel()
	} else {
		m = "(" + sym.Pick("b0", "", " ") + "#PCDATA" + sym.Pick("x0", "", "|b", "| p:b", ",b", "|b ", "|(b)") + sym.Pick("x1", "", "|c", " |c") + ")" + sym.Pick("x2", "", "*", "+", "?")
	}
	return "<!DOCTYPE a [<!ELEMENT a " + m + ">]><a/>"
}

// winURIs: namespace names of three parts.
func winURIs() string {
	s := ""
	for i := 0; i < 3; i++ {
		s += sym.Pick("u"+itoa(i), "", "urn:", "http://", "x", "urn:x", "//x:1", "?y", "#z", "/", ":", "%41", "@w", "\u00e9", " ")
	}
	if sym.Split(sym.Choice("kind", 2)) == 0 {
		return "<p:a xmlns:p='" + sym.Pick("u", "u", "", "u:v") + s + "'/>"
	}
	return "<a xmlns='" + s + "'/>"
}

// winXMLNames: names of two parts, many of which begin with xml, of an element, an attribute, an instruction or an entity.
func winXMLNames() string {
	n := sym.Pick("x0", "xml", "xmlns", "XML", "xm", "p", "x") + sym.Pick("x1", "", "ns", "l", "p", ":p", ":", "-", ".x", "ns:p", "NS", "1")
	v := sym.Pick("v", "", "u")
	switch sym.Split(sym.Choice("where", 5)) {
	case 4:
		return "<a><?" + sym.Pick("known", "xml-stylesheet", "xml-model", "xml-style", "stylesheet") + sym.Pick("y1", "", ":x", "x", ":", "-x", "xml") + " d?></a>"
	case 0:
		return "<" + n + " xmlns:p='w'/>"
	case 1:
		return "<a " + n + "='" + v + "'/>"
	case 2:
		return "<a><?" + n + " d?></a>"
	}
	return "<!DOCTYPE a [<!ENTITY " + n + " '" + v + "'>]><a>&" + n + ";</a>"
}

// winDecls: up to three (thorough four) arbitrary ASCII bytes at one of two dozen places of the declarations.
func winDecls() string {
	w := ascii("w", 0, tier(3, 4))
	d := sym.Pick("place",
		"<!ELEMENT\x00EMPTY>", "<!ELEMENT a (b\x00c)>", "<!ELEMENT a (b,c\x00>", "<!ELEMENT a (#PCDATA\x00>", "<!ELEMENT a (#PCDATA|b\x00)*>", "<!ELEMENT a ((b)\x00,c)>",
		"<!ELEMENT a EMPTY\x00", "<!ELEMENT a \x00>", "<!ATTLIST\x00CDATA #IMPLIED>", "<!ATTLIST a b (c\x00d) #IMPLIED>", "<!ATTLIST a b (c|d\x00 'c'>", "<!ATTLIST a b\x00 'c'>",
		"<!ATTLIST a b CDATA\x00>", "<!ATTLIST a b CDATA #FIXED\x00>", "<!ATTLIST a b CDATA #IMPLIED\x00c ID #REQUIRED>", "<!ATTLIST a b CDATA 'x\x00'>", "<!ATTLIST a b NOTATION\x00(n) #IMPLIED>",
		"<!ENTITY\x00'x'>", "<!ENTITY e 'x\x00'>", "<!ENTITY % e\x00'x'>", "<!ENTITY %\x00e 'x'>", "<!ENTITY e SYSTEM\x00's'>", "<!ENTITY e PUBLIC 'p\x00's'>", "<!ENTITY e SYSTEM 's'\x00NDATA n>",
		"<!ENTITY e SYSTEM 's' NDATA\x00>", "<!ELEMENT a ANY>\x00<!ELEMENT b ANY>", "<!--\x00--><?p\x00?>")
	return "<!DOCTYPE a [" + strings.Replace(d, "\x00", w, -1) + "]><a/>"
}

// winLists: attribute lists of one to three attributes put together from parts, many of which don't fit together.
func winLists() string {
	typ, def := "CDATA", " 'x'"
	if sym.Split(sym.Choice("kind", 2)) == 0 {
		typ = sym.Pick("notation", "", "NOTATION ") + "(" + sym.Pick("b0", "", "|", " ") + "x" + sym.Pick("b1", "|", " | ", ",", "||", " ") + sym.Pick("y", "y", "x", "", "y z", "y|1|z") + sym.Pick("b2", "", "|", "| ", ")") + sym.Pick("b3", ")", "", " )")
		def = sym.Pick("d", " 'x'", " #IMPLIED")
	} else {
		typ = sym.Pick("type", "CDATA", "ID", "NMTOKENS", "ENTITY", "(x)", "ENTITYS", "cdata", "x")
		def = sym.Pick("e", " #REQUIRED", "#IMPLIED", " 'x'", "'x'", "", " #FIXED 'x'", " #FIXED'x'", " #FIXED", " x", " #IMPLIED 'x'", " #implied", " # IMPLIED")
	}
	return "<!DOCTYPE a [<!ATTLIST a b " + typ + def + sym.Pick("more", "", " ", " c CDATA 'y'", "c CDATA #IMPLIED", " c", " c CDATA #IMPLIED d (x) 'x' ") + ">]><a/>"
}

// lateKinds are the places of late: what is around the window, its parts.
var lateKinds = []struct {
	pre, post string
	parts     []string
}{
	{"<a>", "</a>", []string{"\n", "\r", "\r\n", " ", "&amp;", "&#x41;", "&e;", "]]>", "<b/>", "<!---->", "<?p?>", "<![CDATA[]]>", "\xc3\xa9", "\x01", "&u;"}},
	{"<a c='1' b='", "' d='2'/>", []string{"\n", "\r\n", " ", "\t", "&lt;", "&#10;", "&e;", "\"", ">", "<", "\xc3\xa9", "&", "\x01"}},
	{"<a><!--", "--></a>", []string{"-", "--", "--->", "\n", "\r", ">", "&lt;", "<", "\xc3\xa9", "\x01"}},
	{"<a><?p ", "?></a>", []string{"?", ">", "\n", "\r", " ", "?>", "&lt;", "<", "\xc3\xa9", "\x01"}},
	{"<a><![CDATA[", "]]></a>", []string{"]", "]]", ">", "\n", "\r", " ", "&lt;", "<", "\xc3\xa9", "\x01", "]]>"}},
	{"<!DOCTYPE a [<!ENTITY f '", "'>]><a b='&f;'>&f;</a>", []string{"\n", " ", "&#60;", "&#38;", "&e;", "<b/>", "\"", "%", "&", "\xc3\xa9", "\x01"}},
	{"<!DOCTYPE a [<!ATTLIST a b CDATA '", "'>]><a/>", []string{"\n", " ", "&#60;", "&#38;", "\"", "<", "&e;", "&", "\xc3\xa9", "\x01"}},
	{"<!DOCTYPE a [<!ENTITY e 'f'>", "]><a>&e;</a>", []string{"\n", "%p;", "<!ELEMENT a ANY>", "<!ENTITY e 'g'>", "<!---->", "<?p?>", "<a>", "]"}},
}

// late is a document with two (thorough three) special parts up to 65 (thorough 129) characters after where they could begin.
func late(kind int) string {
	k := lateKinds[kind]
	pad := sym.Pick("pad", "x", "\xe2\x82\xac")
	if kind == 7 {
		pad = " "
	}
	s := strings.Repeat(pad, few(tier(64, 128)))
	for i := 0; i < tier(2, 3); i++ {
		s += sym.Pick("part"+itoa(i)+"-"+itoa(kind), k.parts...)
	}
	s = k.pre + s + sym.Pick("end", "", "x") + k.post
	if kind < 5 {
		s = "<!DOCTYPE a [<!ENTITY e 'f'>]>" + s
	} else if kind < 7 {
		s = strings.Replace(s, "[<", "[<!ENTITY e 'f'><", 1)
	}
	return s
}

// winLate: special characters and markup in text, values, comments, instructions, sections and declarations, far from where these begin.
func winLate() string { return late(sym.Split(sym.Choice("kind", len(lateKinds)))) }
