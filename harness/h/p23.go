package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// checkDTD: a document is rejected, or accepted with the declarations that
// the reference reader finds: in the events, the lookups, and the
// serialisation, also when that is read and serialised again.
func checkDTD(s string) {
	v, _, r := refParse(s)
	p := helium.NewParser()
	rec := &recorder{tb: helium.NewTreeBuilder()}
	p.SetSAXHandler(rec)
	sym.Note("document", sym.Quote(s))
	doc, err := p.Parse([]byte(s))
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare && !r.onlyInvalid() {
		return
	}
	if v == refDontCare && err != nil {
		sym.Reach("invalid")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	if r.dtd == nil {
		sym.Assert(doc.IntSubset() == nil, "a document has a document type that isn't declared")
		return
	}
	if doc.IntSubset() == nil {
		sym.Fail("the document type is lost")
	}
	sameDecls(declLines(doc, rec.dtd), expectedLines(r), "the declarations are not reported as they are")
	lookups(doc, r)

	if r.emptyID {
		return
	}
	d := dump(doc)
	_, _, again := refParse(d)
	if again == nil || again.dtd == nil {
		sym.Fail("the document type is lost in serialisation")
	}
	sym.Assert(!again.emptyID, "an empty identifier is added in serialisation")
	sym.Assert(again.dtd.name == r.dtd.name, "the document type's name is changed by serialisation")
	sameDecls(again.dtd.decls, r.dtd.decls, "the declarations are not serialised as they are")
	sym.Reach("accepted")
}

func sameDecls(got, want []string, msg string) {
	for _, g := range got {
		sym.Note("got", sym.Quote(g))
	}
	for _, w := range want {
		sym.Note("expected", sym.Quote(w))
	}
	if len(got) != len(want) {
		sym.Fail(msg)
	}
	for i := range got {
		sym.Assert(sym.Eq(got[i], want[i]), msg)
	}
}

// fields splits at marks.
func fields(s string, mark byte) []string {
	var out []string
	i := 0
	for j := 0; j < len(s); j++ {
		if s[j] == mark {
			out = append(out, s[i:j])
			i = j + 1
		}
	}
	return append(out, s[i:])
}

// declLines: what the recorder wrote, but for declarations of what is declared
// already, which don't count.
func declLines(doc *helium.Document, dtd []string) []string {
	var out, seen []string
	for _, l := range dtd {
		i := strings.IndexByte(l, ' ')
		kind, f := l[:i], fields(l[i+1:], 1)
		key := kind + " " + f[0]
		switch kind {
		case "attribute":
			key += " " + f[1]
			if len(f[4]) > 0 {
				// it comes in reference syntax
				a, err := doc.CreateAttribute("x", f[4], nil)
				if err != nil {
					sym.Fail("a default value can't be an attribute's value")
				}
				f[4] = a.Value()
				l = kind + " " + strings.Join(f, "\x01")
			}
		case "entity":
			if f[1] == "4" || f[1] == "5" {
				key = "parameter " + f[0]
			}
		case "unparsed":
			key = "entity " + f[0]
		}
		dup := false
		for _, s := range seen {
			if s == key {
				dup = true
			}
		}
		seen = append(seen, key)
		if !dup {
			out = append(out, l)
		}
	}
	return out
}

func expectedLines(r *ref) []string {
	pid, sid := "", ""
	var out []string
	for _, d := range r.dtd.decls {
		f := fields(d, 1)
		switch f[0] {
		case "external":
			pid, sid = f[1], f[2]
		case "entity", "parameter":
			typ := 1
			if f[0] == "parameter" {
				typ = 4
			}
			switch len(f) {
			case 3:
				out = append(out, "entity "+f[1]+"\x01"+itoa(typ)+"\x01\x01\x01"+f[2])
			case 4:
				out = append(out, "entity "+f[1]+"\x01"+itoa(typ+1)+"\x01"+f[2]+"\x01"+f[3]+"\x01")
			case 5:
				out = append(out, "unparsed "+f[1]+"\x01"+f[2]+"\x01"+f[3]+"\x01"+f[4])
			}
		case "element":
			typ := "4"
			switch {
			case f[2] == "EMPTY":
				typ = "1"
			case f[2] == "ANY":
				typ = "2"
			case len(f[2]) > 7 && f[2][:8] == "(#PCDATA":
				typ = "3"
			}
			out = append(out, "element "+f[1]+"\x01"+typ)
		case "attribute":
			out = append(out, "attribute "+f[1]+"\x01"+f[2]+"\x01"+attType(f[3])+"\x01"+attDefault(f[4])+"\x01"+f[5]+"\x01"+attEnum(f[3]))
		}
	}
	return append([]string{"doctype " + r.dtd.name + "\x01" + pid + "\x01" + sid}, out...)
}

func attType(t string) string {
	for i, n := range []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"} {
		if t == n {
			return itoa(i + 1)
		}
	}
	if t[0] == '(' {
		return itoa(int(helium.AttrEnumeration))
	}
	return itoa(int(helium.AttrNotation))
}

func attDefault(d string) string {
	switch d {
	case "#REQUIRED":
		return "2"
	case "#IMPLIED":
		return "3"
	case "#FIXED":
		return "4"
	}
	return "1"
}

func attEnum(t string) string {
	i := strings.IndexByte(t, '(')
	if i < 0 {
		return ""
	}
	s := ""
	for _, f := range fields(t[i+1:len(t)-1], '|') {
		s += f + " "
	}
	return s
}

func splitQName(s string) (prefix, local string) {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			return s[:i], s[i+1:]
		}
	}
	return "", s
}

// lookups: all that is declared is found by its name, and nothing else.
func lookups(doc *helium.Document, r *ref) {
	dtd := doc.IntSubset()
	sym.Assert(dtd.Name() == r.dtd.name, "the document type has another name")
	for _, d := range r.dtd.decls {
		f := fields(d, 1)
		ok := false
		switch f[0] {
		case "entity":
			var e *helium.Entity
			if e, ok = dtd.LookupEntity(f[1]); ok {
				sym.Assert(e.Name() == f[1], "another entity is found")
				sym.Assert(e.EntityType() == len(f)-2, "an entity of another type is found")
				if len(f) == 3 {
					sym.Assert(sym.Eq(string(e.Content()), f[2]), "an entity has another content")
				}
			}
			g, gok := doc.GetEntity(f[1])
			sym.Assert(gok && g == e, "another entity is found through the document")
		case "parameter":
			var e *helium.Entity
			if e, ok = dtd.LookupParameterEntity(f[1]); ok {
				sym.Assert(e.Name() == f[1], "another parameter entity is found")
				sym.Assert(e.EntityType() == len(f)+1, "a parameter entity of another type is found")
				if len(f) == 3 {
					sym.Assert(sym.Eq(string(e.Content()), f[2]), "a parameter entity has another content")
				}
			}
		case "element":
			p, l := splitQName(f[1])
			var e *helium.ElementDecl
			e, ok = dtd.LookupElement(l, p)
			sym.Assert(ok && e.Name() == l, "another element declaration is found")
			g, gok := dtd.GetElementDesc(f[1])
			sym.Assert(gok && g == e, "another element declaration is found by its qualified name")
		case "attribute":
			p, l := splitQName(f[2])
			var a *helium.AttributeDecl
			a, ok = dtd.LookupAttribute(l, p, f[1])
			sym.Assert(ok && a.Name() == l, "another attribute declaration is found")
		default:
			ok = true
		}
		sym.Assert(ok, "a declaration is not found")
	}
	for _, n := range []string{"a", "b", "e", "p", "ab"} {
		_, ok := dtd.LookupEntity(n)
		sym.Assert(ok == (r.entity(r.dtd.ents, n) != nil), "an entity is found that isn't declared")
		_, ok = dtd.LookupParameterEntity(n)
		sym.Assert(ok == (r.entity(r.dtd.pents, n) != nil), "a parameter entity is found that isn't declared")
		_, ok = dtd.LookupElement(n, "")
		found := false
		for _, e := range r.dtd.elems {
			found = sym.Or(found, len(e) == len(n) && sym.Eq(e, n))
		}
		sym.Assert(sym.Or(found, !ok), "an element declaration is found that isn't there")
	}
}

// P23_ModelTokens: an element declaration whose content is "(" and five (thorough seven) parts, each one of ten, among them names, operators, groups, blanks and #PCDATA.
func P23_ModelTokens() {
	s := "("
	n := tier(5, 7)
	for i := 0; i < n; i++ {
		s += sym.Pick("t"+itoa(i), "b", "(", ")", ",", "|", "?", "*", "+", " ", "#PCDATA")
	}
	checkDTD("<!DOCTYPE a [<!ELEMENT a " + s + ">]><a/>")
}

// P23_ModelTree: all content models of two levels of groups, with up to three members, and all occurrences.
func P23_ModelTree() {
	occ := func(k string) string { return sym.Pick("o"+k, "", "?", "*", "+") }
	sep := func(k string) string { return sym.Pick("s"+k, ",", "|") }
	inner := func(k string) string {
		o := sep(k)
		switch sym.Split(sym.Choice("n"+k, 3)) {
		case 0:
			return "b" + k + occ(k)
		case 1:
			return "(b" + k + occ(k) + ")" + occ(k+"x")
		}
		return "(b" + k + occ(k) + o + "c)" + occ(k+"x")
	}
	o := sep("t")
	s := inner("1")
	n := sym.Split(sym.Choice("n", tier(2, 3)))
	if n >= 1 && !sym.Thorough() {
		s += o + sym.Pick("last", "d", "d?", "(d+)*", "(d|e*)", "(d|e)?", "(d|e)+", "(d,e?)", "(d,e)?", "(d,e)*", "(d,e)+")
	} else if n >= 1 {
		s += o + inner("2")
	}
	if n >= 2 {
		s += o + inner("3")
	}
	checkDTD("<!DOCTYPE a [<!ELEMENT a (" + s + ")" + occ("t") + ">]><a/>")
}

// P23_Models: other content models of two levels of groups with up to three members, and mixed ones.
func P23_Models() { checkDTD(winModels()) }

// P23_Deep: groups in groups, up to ten deep.
func P23_Deep() {
	d := sym.Split(sym.Choice("d", tier(5, 10)))
	s := "b"
	for i := 0; i < d; i++ {
		k := itoa(i)
		switch sym.Split(sym.Choice("g"+k, 3)) {
		case 0:
			s = "(" + s + ",c)"
		case 1:
			s = "(c|" + s + ")"
		case 2:
			s = "(" + s + ")"
		}
		if i < 2 || i == d-1 {
			s += sym.Pick("o"+k, "", "?", "*", "+")
		}
	}
	checkDTD("<!DOCTYPE a [<!ELEMENT a (" + s + ")>]><a/>")
}

// P23_ElementWindow: up to 3 (thorough 5) arbitrary ASCII bytes in an element declaration's name, content model or end.
func P23_ElementWindow() {
	w := ascii("w", 0, tier(3, 5))
	switch sym.Split(sym.Choice("where", 5)) {
	case 0:
		checkDTD("<!DOCTYPE a [<!ELEMENT" + w + "EMPTY>]><a/>")
	case 1:
		checkDTD("<!DOCTYPE a [<!ELEMENT a (b" + w + "c)>]><a/>")
	case 2:
		checkDTD("<!DOCTYPE a [<!ELEMENT a (#PCDATA" + w + ">]><a/>")
	case 3:
		checkDTD("<!DOCTYPE a [<!ELEMENT a " + w + "ANY" + ascii("v", 0, 1) + ">]><a/>")
	case 4:
		checkDTD("<!DOCTYPE a [<!ELEMENT a EMPTY" + w + "<!ELEMENT b ANY>]><a/>")
	}
}

// P23_Attributes: two attributes, in one or two lists, of all types with all kinds of defaults.
func P23_Attributes() {
	att := func(k string) string {
		s := sym.Pick("name"+k, "p", "q", "x:p") + " " +
			sym.Pick("type"+k, "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(u)", "(u|v)", "( v | u | w )", "NOTATION (n)", "NOTATION ( n |m)") + " "
		return s + sym.Pick("def"+k, "#REQUIRED", "#IMPLIED", "#FIXED 'u'", "'u'", "\"u'v\"", "'u&lt;v'", "''", "#FIXED", "#DEFAULT 'u'", " 'u  v '")
	}
	s := "<!ATTLIST a " + att("1")
	if !sym.Thorough() {
		s += sym.Pick("more", ">", " q CDATA 'z'>", "><!ATTLIST a p CDATA 'z'>", "><!ATTLIST b p (z) 'z' q ID #IMPLIED>", " p (k) 'z'>")
	} else if sym.Split(sym.Choice("how", 2)) == 0 {
		s += " " + att("2") + ">"
	} else {
		s += "><!ATTLIST " + sym.Pick("e", "a", "b") + " " + att("2") + ">"
	}
	checkDTD("<!DOCTYPE a [" + s + "]><a/>")
}

// P23_AttlistWindow: up to 3 (thorough 5) arbitrary ASCII bytes in an attribute list declaration, at the name, type, alternatives, default or value.
func P23_AttlistWindow() {
	w := ascii("w", 0, tier(3, 5))
	switch sym.Split(sym.Choice("where", 6)) {
	case 0:
		checkDTD("<!DOCTYPE a [<!ATTLIST" + w + "CDATA #IMPLIED>]><a/>")
	case 1:
		checkDTD("<!DOCTYPE a [<!ATTLIST a b (c" + w + "d) #IMPLIED>]><a/>")
	case 2:
		checkDTD("<!DOCTYPE a [<!ATTLIST a b " + w + " #IMPLIED>]><a/>")
	case 3:
		checkDTD("<!DOCTYPE a [<!ATTLIST a b CDATA" + w + ">]><a/>")
	case 4:
		checkDTD("<!DOCTYPE a [<!ATTLIST a b CDATA #FIXED '" + w + "'>]><a/>")
	case 5:
		checkDTD("<!DOCTYPE a [<!ENTITY e 'f'><!ATTLIST a b CDATA \"x" + w + "y\" c CDATA #IMPLIED>]><a/>")
	}
}

// P23_EntityWindow: up to 3 (thorough 5) arbitrary ASCII bytes in an entity declaration, at the name, value, identifiers or notation.
func P23_EntityWindow() {
	w := ascii("w", 0, tier(3, 5))
	pe := sym.Pick("pe", "", "% ")
	switch sym.Split(sym.Choice("where", 7)) {
	case 0:
		checkDTD("<!DOCTYPE a [<!ENTITY" + w + "'x'>]><a/>")
	case 1:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e 'x" + w + "'>]><a/>")
	case 2:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e \"" + w + "\">]><a/>")
	case 3:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e SYSTEM '" + ascii("id", 0, tier(2, 4)) + "'>]><a/>")
	case 4:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e PUBLIC \"p" + ascii("id", 0, tier(2, 4)) + "\" 's'>]><a/>")
	case 5:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e SYSTEM 's'" + w + "NDATA n>]><a/>")
	case 6:
		checkDTD("<!DOCTYPE a [<!ENTITY " + pe + "e SYSTEM 's' NDATA" + w + ">]><a/>")
	}
}

// P23_Entities: two entities of all kinds, with names, identifiers and values out of several: the first one with a name counts, apart for both kinds.
func P23_Entities() {
	ent := func(k string) string {
		return "<!ENTITY " + sym.Pick("pe"+k, "", "% ") + sym.Pick("name"+k, "e", "p") + " " +
			sym.Pick("value"+k, "'1'", "\"2'\"", "SYSTEM 's'", "PUBLIC 'p' 's'", "SYSTEM \"t\" NDATA n", "PUBLIC 'q' 't' NDATA n", "'&u;'", "'&#38;lt;\"'", "''") + ">"
	}
	s := ent("1") + ent("2")
	if sym.Thorough() {
		s += ent("3")
	}
	checkDTD("<!DOCTYPE a [" + s + "]><a/>")
}

// P23_DoctypeWindow: up to 3 (thorough 5) arbitrary ASCII bytes at several places of a document type declaration.
func P23_DoctypeWindow() {
	w := ascii("w", 0, tier(3, 5))
	switch sym.Split(sym.Choice("where", 7)) {
	case 0:
		checkDTD("<!DOCTYPE" + w + "><a/>")
	case 1:
		checkDTD("<!DOCTYPE a " + w + "[]><a/>")
	case 2:
		checkDTD("<!DOCTYPE a SYSTEM" + w + "><a/>")
	case 3:
		checkDTD("<!DOCTYPE a PUBLIC 'p'" + w + "><a/>")
	case 4:
		checkDTD("<!DOCTYPE a SYSTEM 's' [" + w + "]><a/>")
	case 5:
		checkDTD("<!DOCTYPE a []" + w + "<a/>")
	case 6:
		checkDTD("<!DOCTYPE a [<!ELEMENT a ANY>" + w + "<!ELEMENT b ANY>]><a/>")
	}
}

// P23_Places: four parts, each one of a dozen, among them document types, declarations, elements, comments and text: where they may not be they are errors.
func P23_Places() {
	s := ""
	n := tier(4, 5)
	for i := 0; i < n; i++ {
		s += sym.Pick("t"+itoa(i), "", "<!DOCTYPE a>", "<!DOCTYPE a [", "]>", "<!ELEMENT a ANY>", "<!ENTITY e 'x'>", "<a>", "</a>", "<a/>", "<!--c-->", " ", "<?p d?>", "&e;", "]")
	}
	checkDTD(s)
}

// P23_Parameter: declarations out of parameter entities, split between several of them, count just as others; references to others than parameter entities don't.
func P23_Parameter() {
	s := ""
	n := tier(4, 5)
	for i := 0; i < n; i++ {
		s += sym.Pick("t"+itoa(i), "", "<!ENTITY % p '<!ELEMENT a ANY>'>", "<!ENTITY p '<!ELEMENT b ANY>'>", "<!ENTITY % q \"<!ENTITY e '1'>&#37;p;\">", "%p;", "%q;", "<!ENTITY % p \"<!ENTITY e '2'>\">", "<!ENTITY % p '<!ELEMENT'>", "<!ENTITY % p '%q;'>", "<!ENTITY e '3'>")
	}
	checkDTD("<!DOCTYPE a [" + s + "]><a/>")
}

const richDTD = "<!DOCTYPE a PUBLIC 'p' \"s\" [<!ELEMENT a (b?,(c|d)*)><!ELEMENT b (#PCDATA|c)*><!ATTLIST a x CDATA 'v' y (k|l) \"k\"><!ENTITY e '&#60;'><!ENTITY % f SYSTEM 't'><!ENTITY u SYSTEM 't' NDATA n>]><a/>"

// P23_Slide: up to two (thorough three) arbitrary ASCII bytes instead of any one (two) of a document type declaration with all kinds of declarations.
func P23_Slide() {
	checkDTD(slide(richDTD, len(richDTD)-4, tier(1, 2)))
}

// P23_UTF8: 1 or 2 (thorough 3) arbitrary bytes in the names and values of declarations.
func P23_UTF8() {
	w := bytesW("w", 1, tier(2, 3))
	switch sym.Split(sym.Choice("where", 4)) {
	case 0:
		checkDTD("<!DOCTYPE a [<!ELEMENT x" + w + " (y|z)>]><a/>")
	case 1:
		checkDTD("<!DOCTYPE a [<!ATTLIST a b CDATA '" + w + "'>]><a/>")
	case 2:
		checkDTD("<!DOCTYPE a [<!ENTITY e '" + w + "'>]><a/>")
	case 3:
		checkDTD("<!DOCTYPE a [<!ENTITY e" + w + " 'v'>]><a/>")
	}
}

// P23_Sizes: many declarations, long content models, attribute lists, alternatives, names, values and identifiers, deep groups: all counts up to 20 and those around 32 (lengths: around powers of two up to 128; thorough 64 and 1024); one character is any of five.
func P23_Sizes() {
	w := ascii("w", 1, 1)
	sym.Assume(sym.In(w[0], "y ;<\n"))
	kind := sym.Split(sym.Choice("kind", 12))
	limit := tier(32, 64)
	if kind >= 8 {
		limit = tier(128, 1024)
	}
	n := size(limit)
	last := func(i int) string { // it's in the last of many
		if i == n-1 {
			return w
		}
		return "y"
	}
	xs := strings.Repeat("x", n)
	s := ""
	switch kind {
	case 0:
		s = rep(n, func(i int) string { return "<!ELEMENT a" + itoa(i) + " (b|c" + last(i) + ")>" })
	case 1:
		s = "<!ELEMENT a (b" + w + rep(n, func(i int) string { return ",b" + itoa(i) }) + ")>"
	case 2:
		s = "<!ELEMENT a (#PCDATA" + rep(n, func(i int) string { return "|b" + itoa(i) }) + ")*" + w + ">"
	case 3:
		s = "<!ELEMENT a " + strings.Repeat("(", n) + "(b|c" + w + ")" + rep(n, func(i int) string { return ",d" + itoa(i) + "?)" }) + ">"
	case 4:
		s = "<!ATTLIST a" + rep(n, func(i int) string { return " b" + itoa(i) + " CDATA '" + itoa(i) + "'" }) + w + ">"
	case 5:
		s = "<!ATTLIST a b (c" + rep(n, func(i int) string { return "|d" + itoa(i) }) + w + ") #IMPLIED>"
	case 6:
		s = rep(n, func(i int) string { return "<!ENTITY e" + itoa(i) + " '" + itoa(i) + "'>" }) + w
	case 7:
		s = rep(n, func(i int) string { return "<!ATTLIST a" + itoa(i) + " b CDATA '" + last(i) + "'>" })
	case 8:
		s = "<!ENTITY e '" + xs + w + "'><!ENTITY % f \"" + w + xs + "\">"
	case 9:
		s = "<!ENTITY e" + xs + w + " 'v'><!ELEMENT a" + xs + " EMPTY><!ATTLIST b" + xs + " c" + xs + " CDATA #IMPLIED>"
	case 10:
		s = "<!ENTITY e PUBLIC '" + xs + w + "' '" + xs + "' NDATA n" + xs + ">"
	case 11:
		s = "<!ATTLIST a b CDATA '" + xs + w + "' c NMTOKENS '" + xs + " " + xs + "'><!--" + xs + "-->" + strings.Repeat(" ", n)
	}
	checkDTD("<!DOCTYPE a [" + s + "]><a/>")
}
