package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// shortName is an arbitrary name of up to n characters out of some.
func shortName(k string, n int) string {
	s := sym.StrUpTo(k, 1, n)
	for i := 0; i < len(s); i++ {
		if i == 0 {
			sym.Assume(sym.In(s[i], "aA_"))
		} else {
			sym.Assume(sym.In(s[i], "aA_1.-"))
		}
	}
	return s
}

type regEnt struct {
	name, pid, sid, content string
	typ                     int
}

// P25_Entities: three (thorough four) entities with arbitrary names of up to two characters, of all kinds, added through the document or the DTD; then all of them and one more name are looked up. The first one with a name stays, apart for both kinds, and the declarations are serialised.
func P25_Entities() {
	doc := helium.CreateDocument()
	dtd, err := doc.CreateInternalSubset("r", "", "")
	if err != nil {
		sym.Fail("an internal subset can't be created")
	}
	e, _ := doc.CreateElement("r")
	doc.AddChild(e)
	var ents, pents []regEnt
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		k := itoa(i)
		a := regEnt{name: shortName("n"+k, 2), typ: sym.Split(sym.Choice("typ"+k, 7)), content: "c" + k}
		switch helium.EntityType(a.typ) {
		case helium.ExternalGeneralParsedEntity, helium.ExternalParameterEntity:
			a.content = ""
			a.sid = "s" + k
			a.pid = sym.Pick("pid"+k, "", "p")
		case helium.ExternalGeneralUnparsedEntity:
			a.sid = "s" + k
		}
		var ent *helium.Entity
		if i%2 == 0 {
			ent, err = doc.AddEntity(a.name, helium.EntityType(a.typ), a.pid, a.sid, a.content)
		} else {
			ent, err = dtd.AddEntity(a.name, helium.EntityType(a.typ), a.pid, a.sid, a.content)
		}
		if a.typ == 0 || a.typ == 6 {
			sym.Assert(err != nil && ent == nil, "an entity that is predefined or of no kind is registered")
			continue
		}
		if err != nil || ent == nil {
			sym.Fail("an entity can't be registered")
		}
		list := &ents
		if a.typ > 3 {
			list = &pents
		}
		if old := findEnt(*list, a.name); old != nil {
			a = *old
		} else {
			*list = append(*list, a)
		}
		sameEnt(ent, &a)
	}
	check := func(name string) {
		g, ok := doc.GetEntity(name)
		want := findEnt(ents, name)
		sym.Assert(ok == (want != nil), "an entity is found that was not added, or not found")
		if want != nil {
			sameEnt(g, want)
		}
		d, ok := dtd.LookupEntity(name)
		sym.Assert(ok == (want != nil) && d == g, "the DTD finds another entity than the document")
		g, ok = doc.GetParameterEntity(name)
		want = findEnt(pents, name)
		sym.Assert(ok == (want != nil), "a parameter entity is found that was not added, or not found")
		if want != nil {
			sameEnt(g, want)
		}
		d, ok = dtd.LookupParameterEntity(name)
		sym.Assert(ok == (want != nil) && d == g, "the DTD finds another parameter entity than the document")
	}
	for _, a := range ents {
		check(a.name)
	}
	for _, a := range pents {
		check(a.name)
	}
	check(shortName("other", 2))

	// what's declared in the serialisation
	_, _, r := refParse(dump(doc))
	if r == nil || r.dtd == nil {
		sym.Fail("the document type is lost in serialisation")
	}
	if len(r.dtd.ents) != len(ents) || len(r.dtd.pents) != len(pents) {
		sym.Fail("entities are lost in serialisation")
	}
	k := 0
	for _, d := range r.dtd.decls {
		f := fields(d, 1)
		a := findEnt(ents, f[1])
		if f[0] == "parameter" {
			a = findEnt(pents, f[1])
		}
		if a == nil {
			sym.Fail("an entity is serialised that was not added")
		}
		k++
		want := f[0] + "\x01" + a.name + "\x01" + a.content
		switch helium.EntityType(a.typ) {
		case helium.ExternalGeneralParsedEntity, helium.ExternalParameterEntity:
			want = f[0] + "\x01" + a.name + "\x01" + a.pid + "\x01" + a.sid
		case helium.ExternalGeneralUnparsedEntity:
			want = f[0] + "\x01" + a.name + "\x01" + a.pid + "\x01" + a.sid + "\x01" + a.content
		}
		sym.Assert(d == want, "an entity is serialised as another")
	}
	sym.Assert(k == len(ents)+len(pents), "an entity is serialised more than once, or not at all")
	sym.Reach("done")
}

func findEnt(list []regEnt, name string) *regEnt {
	for i := range list {
		if len(list[i].name) == len(name) && list[i].name == name {
			return &list[i]
		}
	}
	return nil
}

func sameEnt(e *helium.Entity, want *regEnt) {
	sym.Assert(e.Name() == want.name, "an entity has another name than it was registered with")
	sym.Assert(e.EntityType() == want.typ, "an entity has another type than it was registered with")
	sym.Assert(string(e.Content()) == want.content, "an entity has another content than it was registered with")
}

// P25_NoSubset: without internal subset no entity can be registered, and none is found; the subset can be created once.
func P25_NoSubset() {
	doc := helium.CreateDocument()
	name := shortName("n", 2)
	_, err := doc.AddEntity(name, helium.InternalGeneralEntity, "", "", "x")
	sym.Assert(err != nil, "an entity is registered without a subset")
	_, ok := doc.GetEntity(name)
	sym.Assert(!ok, "an entity is found without a subset")
	_, ok = doc.GetParameterEntity(name)
	sym.Assert(!ok, "a parameter entity is found without a subset")
	s, err := doc.InternalSubset()
	sym.Assert(err != nil && s == nil && doc.IntSubset() == nil && doc.ExtSubset() == nil, "a new document has a subset")

	pid := sym.Pick("pid", "", "p")
	dtd, err := doc.CreateInternalSubset(name, pid, "s")
	if err != nil {
		sym.Fail("an internal subset can't be created")
	}
	s, err = doc.InternalSubset()
	sym.Assert(err == nil && s == dtd && doc.IntSubset() == dtd, "another subset is found than the one created")
	sym.Assert(dtd.Name() == name && dtd.OwnerDocument() == doc && dtd.Parent() == helium.Node(doc), "the subset is not the document's")
	again, err := doc.CreateInternalSubset("other", "", "")
	sym.Assert(err != nil && again == nil, "a second internal subset is created")
	sym.Assert(doc.IntSubset() == dtd && dtd.Name() == name, "a failed creation replaced the subset")
	loose, err := doc.CreateDTD()
	sym.Assert(err == nil && loose != nil && doc.IntSubset() == dtd, "a DTD takes the place of the subset")
	if _, err := loose.AddEntity(name, helium.InternalGeneralEntity, "", "", "x"); err != nil {
		sym.Fail("an entity can't be registered")
	}
	_, ok = doc.GetEntity(name)
	sym.Assert(!ok, "an entity of another DTD is found")

	e, _ := doc.CreateElement("r")
	doc.AddChild(e)
	_, _, r := refParse(dump(doc))
	if r == nil || r.dtd == nil {
		sym.Fail("the document type is lost in serialisation")
	}
	sym.Assert(r.dtd.name == name, "the document type has another name when serialised")
	sym.Assert(len(r.dtd.decls) == 1 && r.dtd.decls[0] == "external\x01"+pid+"\x01s", "the document type's identifiers are lost in serialisation")
	sym.Reach("done")
}

// P25_Content: up to 4 (thorough 6) arbitrary ASCII characters as the replacement text of an internal entity of either kind: looked up, and read back after serialisation.
func P25_Content() {
	checkContent(xmlText("w", 0, tier(4, 6)), false)
}

// P25_Literal: up to 4 (thorough 6) arbitrary ASCII characters but carriage returns, '&' and '%' as the literal value of an internal entity of either kind: it's read back after serialisation.
func P25_Literal() {
	w := xmlText("w", 1, tier(4, 6))
	for i := 0; i < len(w); i++ {
		sym.Assume(!sym.In(w[i], "\r&%"))
	}
	checkContent(w, true)
}

func checkContent(w string, literal bool) {
	typ := helium.InternalGeneralEntity
	if sym.Split(sym.Choice("pe", 2)) == 1 {
		typ = helium.InternalParameterEntity
	}
	doc := helium.CreateDocument()
	dtd, _ := doc.CreateInternalSubset("r", "", "")
	ent, err := dtd.AddEntity("e", typ, "", "", w)
	if err != nil {
		sym.Fail("an entity can't be registered")
	}
	if literal {
		ent.SetOrig(w)
	}
	sym.Assert(string(ent.Content()) == w, "an entity has another content than it was registered with")
	r, _ := doc.CreateElement("r")
	doc.AddChild(r)
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a document with an entity is serialised to one that can't be parsed")
	}
	var g *helium.Entity
	var ok bool
	if typ == helium.InternalGeneralEntity {
		g, ok = again.GetEntity("e")
	} else {
		g, ok = again.GetParameterEntity("e")
	}
	if !ok {
		sym.Fail("an entity is lost in serialisation")
	}
	sym.Note("content", sym.Quote(string(g.Content())))
	sym.Assert(len(g.Content()) == len(w) && sym.Eq(string(g.Content()), w), "an entity has another content after serialisation")
	sym.Reach("done")
}

// P25_Elements: three (thorough four) element declarations of all types with arbitrary names of up to three characters, among them colons, and removals; each is found by exactly its name.
func P25_Elements() {
	doc := helium.CreateDocument()
	dtd, _ := doc.CreateInternalSubset("r", "", "")
	name := func(k string) (string, string, string) {
		l := shortName(k, 1)
		if sym.Split(sym.Choice("colon"+k, 2)) == 1 {
			p := shortName("p"+k, 1)
			return p + ":" + l, p, l
		}
		return l, "", l
	}
	type reg struct {
		full string
		decl *helium.ElementDecl
		typ  int
	}
	var regs []reg
	find := func(full string) *reg {
		for i := range regs {
			if len(regs[i].full) == len(full) && regs[i].full == full {
				return &regs[i]
			}
		}
		return nil
	}
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		k := itoa(i)
		full, p, l := name("n" + k)
		op := sym.Split(sym.Choice("op"+k, 8))
		if op == 7 {
			dtd.RemoveElement(l, p)
			for j := range regs {
				if len(regs[j].full) == len(full) && regs[j].full == full {
					regs = append(regs[:j:j], regs[j+1:]...)
					break
				}
			}
			continue
		}
		typ := []int{1, 2, 3, 4, 1, 3, 0}[op]
		var content *helium.ElementContent
		if op > 1 && op != 5 {
			var err error
			if typ == int(helium.MixedElementType) {
				content, err = doc.CreateElementContent("", helium.ElementContentPCDATA)
			} else {
				content, err = doc.CreateElementContent("x", helium.ElementContentElement)
			}
			if err != nil {
				sym.Fail("element content can't be created")
			}
		}
		decl, err := dtd.AddElementDecl(full, helium.ElementTypeVal(typ), content)
		valid := (typ == 1 || typ == 2) && content == nil || (typ == 3 || typ == 4) && content != nil
		if !valid || find(full) != nil {
			sym.Assert(err != nil && decl == nil, "an invalid or second element declaration is registered")
			continue
		}
		if err != nil || decl == nil {
			sym.Fail("an element declaration can't be registered")
		}
		regs = append(regs, reg{full, decl, typ})
	}
	full, p, l := name("o")
	if i := sym.Split(sym.Choice("which", len(regs)+1)); i < len(regs) {
		full = regs[i].full
		p, l = splitQName(full)
	}
	want := find(full)
	d, ok := dtd.LookupElement(l, p)
	g, gok := dtd.GetElementDesc(full)
	sym.Assert(ok == (want != nil) && gok == ok, "an element declaration is found that was not added, or not found")
	mixed, err := doc.IsMixedElement(full)
	if want == nil {
		sym.Assert(err != nil, "the type of an element is known that isn't declared")
		sym.Reach("unknown")
		return
	}
	sym.Assert(d == want.decl && g == d, "another element declaration is found")
	sym.Assert(err == nil && mixed == (want.typ != int(helium.ElementElementType)), "an element declaration has another type")
	sym.Reach("found")
}

// P25_Root: three (thorough four) elements become the document's element in turn, new ones, those that were it before, or are it; comments around. There is one of them at any time, the last one set.
func P25_Root() {
	doc := helium.CreateDocument()
	c, _ := doc.CreateComment([]byte("c"))
	doc.AddChild(c)
	var elems []*helium.Element
	for i := 0; i < 3; i++ {
		e, _ := doc.CreateElement("e" + itoa(i))
		elems = append(elems, e)
	}
	elems[0].AddContent([]byte("x"))
	after := sym.Split(sym.Choice("after", 3))
	for i := 0; i < tier(3, 4); i++ {
		k := sym.Split(sym.Choice("which"+itoa(i), 3))
		if err := doc.SetDocumentElement(elems[k]); err != nil {
			sym.Fail("the document element can't be set")
		}
		if i == after {
			pi, _ := doc.CreatePI("p", "d")
			doc.AddChild(pi)
		}
		n := 0
		for x := doc.FirstChild(); x != nil; x = x.NextSibling() {
			if x.Type() == helium.ElementNode {
				n++
				sym.Assert(x == helium.Node(elems[k]), "another element is the document's")
			}
		}
		sym.Assert(n == 1, "the document has more or less than one element")
		checkLinks(doc, doc, 0)
	}
	sym.Assert(doc.FirstChild() == helium.Node(c), "the comment moved")
	sym.Reach("done")
}

// P25_Accessors: version, encoding and standalone of a new document are those given, and still after serialisation.
func P25_Accessors() {
	v := sym.Pick("version", "1.0", "", "1.1", "1.23")
	enc := sym.Pick("encoding", "", "utf-8", "UTF-8", "utf8", "ISO-8859-1", "EUC-JP")
	sa := []helium.DocumentStandaloneType{helium.StandaloneExplicitYes, helium.StandaloneExplicitNo, helium.StandaloneImplicitNo}[sym.Split(sym.Choice("sa", 3))]
	doc := helium.NewDocument(v, enc, sa)
	sym.Assert(doc.Version() == v, "a new document has another version")
	if enc != "" {
		sym.Assert(doc.Encoding() == enc, "a new document has another encoding")
	} else {
		sym.Assert(doc.Encoding() == "utf8", "a new document has another encoding")
	}
	sym.Assert(doc.Standalone() == sa, "a new document has another standalone status")
	sym.Assert(doc.IntSubset() == nil && doc.ExtSubset() == nil && doc.FirstChild() == nil, "a new document isn't empty")
	e, _ := doc.CreateElement("r")
	doc.SetDocumentElement(e)
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a new document is serialised to one that can't be parsed")
	}
	if v == "" {
		v = "1.0"
	}
	sym.Assert(again.Version() == v, "the version is lost in serialisation")
	sym.Assert(again.Encoding() == doc.Encoding(), "the encoding is lost in serialisation")
	sym.Assert(again.Standalone() == sa, "standalone is lost in serialisation")
	sym.Reach("done")
}

// P25_Long: two entities, two elements or two attributes, declared, whose long names differ in one character, any of two, at any place around powers of two (up to 64; thorough 512), or in length: each is found by its name, and no other.
func P25_Long() {
	n := few(tier(64, 512))
	xs := ""
	for len(xs) < n {
		xs += "x"
	}
	tail := sym.Pick("tail", "", "y", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy")
	a, b := xs+"a"+tail, xs+sym.Pick("other", "b", "aa", "a:z")+tail
	s := ""
	kind := sym.Split(sym.Choice("kind", 5))
	if kind == 0 || kind == 1 {
		sym.Assume(!sym.Contains(b, ":"))
	}
	switch kind {
	case 0:
		s = "<!ENTITY " + a + " '1'><!ENTITY " + b + " '2'>"
	case 1:
		s = "<!ENTITY % " + a + " '1'><!ENTITY % " + b + " '2'>"
	case 2:
		s = "<!ELEMENT " + a + " EMPTY><!ELEMENT " + b + " ANY>"
	case 3:
		s = "<!ATTLIST " + a + " k CDATA '1'><!ATTLIST " + b + " k CDATA '2'>"
	case 4:
		s = "<!ATTLIST e " + a + " CDATA '1' " + b + " CDATA '2'>"
	}
	doc, err := parse("<!DOCTYPE a [" + s + "]><a/>")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	dtd := doc.IntSubset()
	for i, name := range []string{a, b, xs + "c" + tail, xs + "a" + tail + "y"} {
		pre, l := splitQName(name)
		ok, right := false, true
		switch kind {
		case 0:
			var e *helium.Entity
			if e, ok = doc.GetEntity(name); ok {
				right = e.Name() == name && string(e.Content()) == itoa(i+1)
			}
		case 1:
			var e *helium.Entity
			if e, ok = doc.GetParameterEntity(name); ok {
				right = e.Name() == name && string(e.Content()) == itoa(i+1)
			}
		case 2:
			var e *helium.ElementDecl
			if e, ok = dtd.LookupElement(l, pre); ok {
				right = e.Name() == l
			}
		case 3:
			_, ok = dtd.LookupAttribute("k", "", name)
		case 4:
			var d *helium.AttributeDecl
			if d, ok = dtd.LookupAttribute(l, pre, "e"); ok {
				right = d.Name() == l
			}
		}
		if ok != (i < 2 || name == b) {
			sym.Fail("a declaration is found that isn't there, or not found")
		}
		if ok && i < 2 && !right {
			sym.Fail("another declaration is found")
		}
	}
	sym.Reach("found")
}

// P25_TwoDTDs: three declarations (thorough four) of an element or an entity of one of two names, in the document's internal subset or in another DTD of the document: each has its own.
func P25_TwoDTDs() {
	doc := helium.CreateDocument()
	var dtds [2]*helium.DTD
	dtds[0], _ = doc.CreateInternalSubset("r", "", "")
	dtds[1], _ = doc.CreateDTD()
	names := [2]string{"a", "p:b"}
	var elems [2][2]*helium.ElementDecl
	var ents, pents [2][2]*helium.Entity
	for i := 0; i < tier(3, 4); i++ {
		k := itoa(i)
		d, n := sym.Split(sym.Choice("dtd"+k, 2)), sym.Split(sym.Choice("name"+k, 2))
		switch sym.Split(sym.Choice("what"+k, 4)) {
		case 0:
			e, err := dtds[d].AddElementDecl(names[n], helium.ElementTypeVal(helium.AnyElementType), nil)
			if elems[d][n] != nil {
				sym.Assert(err != nil, "a second element declaration is registered")
			} else {
				if err != nil || e == nil {
					sym.Fail("an element declaration can't be registered")
				}
				elems[d][n] = e
			}
		case 1:
			e, err := dtds[d].AddEntity(names[n], helium.InternalGeneralEntity, "", "", k)
			if err == nil && e != nil && ents[d][n] == nil {
				ents[d][n] = e
			}
		case 2:
			e, err := dtds[d].AddEntity(names[n], helium.InternalParameterEntity, "", "", k)
			if err == nil && e != nil && pents[d][n] == nil {
				pents[d][n] = e
			}
		case 3:
			l, p := "a", ""
			if n == 1 {
				l, p = "b", "p"
			}
			dtds[d].RemoveElement(l, p)
			elems[d][n] = nil
		}
	}
	for d := range dtds {
		for n := range names {
			e, ok := dtds[d].GetElementDesc(names[n])
			sym.Assert(ok == (elems[d][n] != nil) && (!ok || e == elems[d][n]), "another element declaration is found")
			x, ok := dtds[d].LookupEntity(names[n])
			sym.Assert(ok == (ents[d][n] != nil) && (!ok || x == ents[d][n]), "another entity is found")
			x, ok = dtds[d].LookupParameterEntity(names[n])
			sym.Assert(ok == (pents[d][n] != nil) && (!ok || x == pents[d][n]), "another parameter entity is found")
			if d == 0 {
				x, ok = doc.GetEntity(names[n])
				sym.Assert(ok == (ents[0][n] != nil) && (!ok || x == ents[0][n]), "the document has another entity")
				x, ok = doc.GetParameterEntity(names[n])
				sym.Assert(ok == (pents[0][n] != nil) && (!ok || x == pents[0][n]), "the document has another parameter entity")
			}
		}
	}
	sym.Reach("done")
}
