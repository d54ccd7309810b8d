package h

import (
	"bytes"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// readAll uses all there is to read a document with.
func readAll(doc *helium.Document, names []string) {
	doc.XMLString()
	var b bytes.Buffer
	doc.XML(&b)
	doc.Version()
	doc.Encoding()
	doc.Standalone()
	doc.ExtSubset()
	doc.InternalSubset()
	readNode(doc)
	d := helium.Dumper{}
	helium.Walk(doc, func(n helium.Node) error {
		readNode(n)
		switch x := n.(type) {
		case *helium.Element:
			for _, a := range x.Attributes() {
				readNode(a)
				a.Value()
				a.URI()
				a.Prefix()
				a.IsDefault()
				a.NextAttribute()
			}
			x.Namespace()
			for _, ns := range x.Namespaces() {
				ns.Prefix()
				ns.URI()
			}
			x.Prefix()
			x.URI()
			x.XMLString()
			x.XML(&b)
			doc.IsMixedElement(x.Name())
		case *helium.EntityRef:
			x.Content()
		}
		d.DumpNode(&b, n)
		return nil
	})
	for _, n := range names {
		if e, ok := doc.GetEntity(n); ok {
			readNode(e)
			e.EntityType()
			e.Checked()
		}
		if e, ok := doc.GetParameterEntity(n); ok {
			readNode(e)
		}
		doc.IsMixedElement(n)
		for _, dtd := range []*helium.DTD{doc.IntSubset(), doc.ExtSubset()} {
			if dtd == nil {
				continue
			}
			readNode(dtd)
			if x, ok := dtd.LookupElement(n, ""); ok {
				readNode(x)
			}
			if x, ok := dtd.LookupAttribute(n, "", "a"); ok {
				readNode(x)
			}
			if x, ok := dtd.LookupEntity(n); ok {
				readNode(x)
			}
			if x, ok := dtd.LookupParameterEntity(n); ok {
				readNode(x)
			}
			for c := dtd.FirstChild(); c != nil; c = c.NextSibling() {
				readNode(c)
			}
		}
	}
}

func readNode(n helium.Node) {
	n.Name()
	n.Type()
	n.Content()
	n.Parent()
	n.OwnerDocument()
	n.FirstChild()
	n.LastChild()
	n.NextSibling()
	n.PrevSibling()
}

// read: reading a document by all means, also by several goroutines at once, changes nothing in it.
func read(s string) {
	doc, err := helium.Parse([]byte(s))
	if err != nil {
		return
	}
	sym.Note("document", sym.Quote(s))
	before := docOutcome(doc)
	sym.Isolated(func() { readAll(doc, []string{"e", "f", "a", "b", "none", "lt"}) }, doc)
	same(docOutcome(doc), before, "reading a document changes it")
}

// P30_Tokens: any sequence of markup in an element.
func P30_Tokens() { read(winTokens()); sym.Reach("read") }

// P30_Content: arbitrary ASCII characters in an element.
func P30_Content() { read("<a>" + ascii("w", 0, tier(4, 5)) + "</a>"); sym.Reach("read") }

// P30_Tag: arbitrary ASCII characters in a start tag.
func P30_Tag() { read("<a" + ascii("w", 0, tier(4, 5)) + "></a>"); sym.Reach("read") }

// P30_Items: all kinds of content, and entities.
func P30_Items() { read(winItems()); sym.Reach("read") }

// P30_Docs: all kinds of declarations of XML and of the document type.
func P30_Docs() { read(winDocs()); sym.Reach("read") }

// P30_Scopes: namespaces and attribute declarations.
func P30_Scopes() { read(winScopes()); sym.Reach("read") }

// P30_Models: content models.
func P30_Models() { read(winModels()); sym.Reach("read") }

// P30_EntText: entities with arbitrary text.
func P30_EntText() { read(winEntText()); sym.Reach("read") }

// P30_EntMarkup: entities with markup.
func P30_EntMarkup() { read(winEntMarkup()); sym.Reach("read") }

// P30_DTDSlide: an arbitrary character anywhere in a document with declarations.
func P30_DTDSlide() { read(winDTDSlide()); sym.Reach("read") }

// P30_Words: names that mean something, references, types and defaults of attributes, and characters of all lengths.
func P30_Words() { read(words()); sym.Reach("read") }

// P30_Sizes: names, texts, lists and nesting of many sizes.
func P30_Sizes() { read(winSizes()); sym.Reach("read") }

// P30_Built: an element with three nodes (thorough four) of any of six kinds placed in any way, attributes with references and declarations, in a document made by hand.
func P30_Built() {
	doc := helium.CreateDocument()
	e, list := placed(doc)
	v := sym.Split(sym.Choice("a", 5))
	e.SetAttribute("a", []string{"x&lt;y", "", "&amp;&lt;", "x", "&e;"}[v])
	if v > 1 {
		dtd, _ := doc.CreateInternalSubset("r", "p", "s")
		doc.AddEntity("e", helium.InternalGeneralEntity, "", "", "v")
		doc.AddEntity("f", helium.InternalParameterEntity, "", "", "v")
		dtd.AddElementDecl("a", helium.ElementTypeVal(helium.AnyElementType), nil)
		dtd.AddElementDecl("b", helium.ElementTypeVal(helium.UndefinedElementType), nil)
	}
	doc.SetDocumentElement(e)
	before := canon(doc)
	sym.Isolated(func() { readAll(doc, []string{"e", "f", "a", "b", "none", "lt"}) }, doc)
	same(canon(doc), before, "reading a document changes it")
	i := 0
	for c := e.FirstChild(); c != nil; c = c.NextSibling() {
		if i >= len(list) || c != list[i] {
			sym.Fail("reading a document changes it")
		}
		i++
	}
	checkLinks(e, doc, 0)
	sym.Reach("read")
}

// P30_Made: a document made with any of four versions, five encodings and each standalone value, or with any namespaces, attributes and text in its element.
func P30_Made() {
	version, encoding, standalone, empty := "1.0", "", 0, 0
	head := sym.Split(sym.Choice("head", 2)) == 1
	if head {
		version = sym.Pick("version", "", "1.0", "1.1", "1.10")
		encoding = sym.Pick("encoding", "", "UTF-8", "utf-8", "ISO-8859-1", "none-such")
		standalone = sym.Split(sym.Choice("standalone", 4))
		empty = sym.Split(sym.Choice("empty", 2))
	} else {
		encoding = sym.Pick("encoding2", "", "ISO-8859-1")
	}
	doc := helium.NewDocument(version, encoding, []helium.DocumentStandaloneType{helium.StandaloneImplicitNo, helium.StandaloneExplicitYes, helium.StandaloneExplicitNo, helium.StandaloneInvalidValue}[standalone])
	if empty == 0 {
		e, _ := doc.CreateElement("a")
		doc.SetDocumentElement(e)
		p := ""
		if !head {
			p = sym.Pick("prefix", "", "p")
		}
		e.SetNamespace(p, "u")
		c, _ := doc.CreateElement("b")
		e.AddChild(c)
		if head || sym.Split(sym.Choice("child", 2)) == 1 {
			c.SetNamespace(p, "v", true)
		}
		c.SetAttribute("x", one(head, "value", "x&<\"' \n\t"))
		t, _ := doc.CreateText([]byte(one(head, "text", "x&<>]\n\r")))
		c.AddChild(t)
	}
	before := canon(doc)
	sym.Isolated(func() { readAll(doc, []string{"a"}) }, doc)
	same(canon(doc), before, "reading a document changes it")
	sym.Reach("read")
}

// one is a character of the set, none or one that the document's encoding may not have.
func one(head bool, name, set string) string {
	if head {
		return set[:1]
	}
	s := sym.Pick(name+"Kind", "", "\u20ac", "\u00e9", "1")
	if s == "1" {
		b := sym.Byte(name)
		sym.Assume(sym.In(b, set))
		s = string([]byte{b})
	}
	return s
}
