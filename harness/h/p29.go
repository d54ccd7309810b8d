package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// meanwhile: the document is parsed, serialised and walked by several goroutines, with one parser and with new ones.
func meanwhile(s string) {
	sym.Note("document", sym.Quote(s))
	p := helium.NewParser()
	in := []byte(s)
	sym.Isolated(func() {
		doc, err := p.Parse(in)
		if err == nil {
			use(doc)
		} else {
			_ = err.Error()
		}
	}, p, in)
	sym.Isolated(func() {
		doc, err := helium.Parse(in)
		if err == nil {
			use(doc)
		}
	}, in)
	sym.Reach("done")
}

func use(doc *helium.Document) {
	if _, err := doc.XMLString(); err != nil {
		return
	}
	helium.Walk(doc, func(n helium.Node) error {
		_ = n.Name()
		_ = n.Content()
		return nil
	})
}

// P29_Tokens: any sequence of markup in an element.
func P29_Tokens() { meanwhile(winTokens()) }

// P29_Content: arbitrary ASCII characters in an element.
func P29_Content() { meanwhile("<a>" + ascii("w", 0, tier(4, 5)) + "</a>") }

// P29_Tag: arbitrary ASCII characters in a start tag.
func P29_Tag() { meanwhile("<a" + ascii("w", 0, tier(4, 5)) + "></a>") }

// P29_Items: all kinds of content, and entities.
func P29_Items() { meanwhile(winItems()) }

// P29_Docs: all kinds of declarations of XML and of the document type.
func P29_Docs() { meanwhile(winDocs()) }

// P29_Scopes: namespaces and attribute declarations.
func P29_Scopes() { meanwhile(winScopes()) }

// P29_Models: content models.
func P29_Models() { meanwhile(winModels()) }

// P29_EntText: entities with arbitrary text.
func P29_EntText() { meanwhile(winEntText()) }

// P29_DTDSlide: an arbitrary character anywhere in a document with declarations.
func P29_DTDSlide() { meanwhile(winDTDSlide()) }

// P29_Subset: arbitrary ASCII characters in an internal subset.
func P29_Subset() { meanwhile("<!DOCTYPE a [" + ascii("w", 0, tier(3, 4)) + "]><a/>") }

// P29_Sizes: names, texts, lists and nesting of many sizes.
func P29_Sizes() { meanwhile(winSizes()) }

// P29_Encodings: documents in one of twelve encodings, and encodings looked up by name.
func P29_Encodings() {
	n := sym.Pick("enc", "utf-8", "EUC-JP", "Shift_JIS", "iso-2022-jp", "big5", "euc-kr", "hz-gb2312", "cp437", "iso-8859-1", "koi8r", "macintosh", "windows1252", "none")
	sym.Isolated(func() {
		if e := encoding.Load(n); e != nil {
			e.NewDecoder()
			e.NewEncoder()
		}
	})
	meanwhile("<?xml version='1.0' encoding='" + n + "'?><a b='" + string([]byte{byte(sym.Choice("c", 2) * 0x41), 0x41}) + "'>x" + sym.Pick("wide", "", "\xb1\xc2", "\xa4") + "</a>")
}

// words are those that the code knows.
func words() string {
	switch sym.Split(sym.Choice("kind", 6)) {
	case 0:
		return "<?" + sym.Pick("pi", "xml-model", "xml-stylesheet", "xml-x", "x", "XML", "x:y") + sym.Pick("data", "", " ", " d ") + "?><a/>"
	case 1:
		return "<a " + sym.Pick("att", "xml:space", "xml:lang", "xml:id", "xml:base", "xmlns", "xmlns:xml", "xmlns:p", "id") + "='" + sym.Pick("v", "default", "preserve", "en", "u", xmlNS, "") + "'> <b/> </a>"
	case 2:
		return "<?xml version='" + sym.Pick("version", "1.0", "1.1", "2.0") + "'" + sym.Pick("encoding", "", " encoding='UTF-8'", " encoding='us-ascii'", " encoding='UTF-16'", " encoding='none'") + sym.Pick("standalone", "", " standalone='yes'", " standalone='no'", " standalone='x'") + "?><!DOCTYPE a [<!ENTITY e 'v'>]><a>&" + sym.Pick("e", "e", "f") + ";</a>"
	case 3:
		return "<a b='&" + sym.Pick("ref", "lt", "gt", "amp", "quot", "apos", "#x41", "#65", "nbsp") + ";'>&" + sym.Pick("ref2", "lt", "gt", "amp", "quot", "apos", "#xe9", "#233", "nbsp") + ";</a>"
	case 4:
		return "<!DOCTYPE a [<!ATTLIST a " + sym.Pick("name", "b", "xml:space", "xmlns", "xmlns:p", "p:b") + " " + sym.Pick("type", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(u|v)", "NOTATION (u)") + " " + sym.Pick("default", "#REQUIRED", "#IMPLIED", "#FIXED 'u'", "'u'") + ">]><a b='u'/>"
	}
	return sym.Pick("bom", "", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00", "Lo\xa7\x94") + "<a" + sym.Pick("attr", "", " b='\u00e9\u00fe'", " b='\u20ac'", " b='\U00010000'", " b='\t\n>'", " b='\"'") + ">" + sym.Pick("text", "", "\u00e9\u00c0", "\ufffc", "\U0001f600", "\x7f\u0085", "]]&gt;\r\n", "<!--\u00e9-->") + "</a>"
}

// P29_Words: names that mean something, character references and predefined entities, types and defaults of attributes, byte order marks and characters of all lengths.
func P29_Words() { meanwhile(words()) }

// P29_Build: several goroutines each build, edit and serialise a document of their own: two nodes (thorough three) of any kind, placed in any way, and attributes, entities and declarations.
func P29_Build() {
	k, how := make([]int, 3), make([]int, 3)
	n := tier(2, 3)
	for i := 0; i < n; i++ {
		k[i] = sym.Split(sym.Choice("k"+itoa(i), 8))
		how[i] = sym.Split(sym.Choice("how"+itoa(i), 4))
	}
	w := sym.Pick("w", "", "x", "&amp;", "a&lt;b", "&#65;", "\u00e9\u00c0", "\u20ac\t\"<>&amp;")
	decl := sym.Split(sym.Choice("decl", 6))
	sym.Isolated(func() {
		doc := helium.CreateDocument()
		e, _ := doc.CreateElement("r")
		for i := 0; i < n; i++ {
			var c helium.Node
			switch k[i] {
			case 0:
				c, _ = doc.CreateElement("p:e")
				c.(*helium.Element).SetAttribute("a", w)
				c.(*helium.Element).SetNamespace("p", "u", true)
			case 1:
				c, _ = doc.CreateText([]byte(w))
			case 2:
				c, _ = doc.CreateComment([]byte("c"))
			case 3:
				c, _ = doc.CreatePI("p", "d")
			case 4:
				c, _ = doc.CreateReference("lt")
			case 5:
				c, _ = doc.CreateReference("&amp;")
			case 6:
				c, _ = doc.CreateCharRef("&#65;")
			case 7:
				c, _ = doc.CreateReference("n")
			}
			last := e.LastChild()
			switch {
			case how[i] == 0 || last == nil:
				e.AddChild(c)
			case how[i] == 1:
				last.AddSibling(c)
			case how[i] == 2:
				last.Replace(c)
			case how[i] == 3:
				e.FirstChild().AddSibling(c)
			}
		}
		if decl > 0 {
			dtd, _ := doc.CreateInternalSubset("r", "", "")
			switch decl {
			case 1:
				doc.AddEntity("n", helium.InternalGeneralEntity, "", "", w)
			case 2:
				dtd.AddElementDecl("r", helium.ElementTypeVal(helium.AnyElementType), nil)
			case 3:
				dtd.AddEntity("amp", helium.InternalGeneralEntity, "", "", "&#38;#38;")
			case 4:
				dtd.AddElementDecl("r", helium.ElementTypeVal(helium.UndefinedElementType), nil)
				dtd.GetElementDesc("r")
			}
			doc.GetEntity("n")
			doc.GetEntity("amp")
			if ent, ok := doc.GetEntity("lt"); ok {
				_ = ent.Content()
				_ = ent.Checked()
			}
		}
		doc.SetDocumentElement(e)
		e.SetTreeDoc(doc)
		use(doc)
	})
	predefinedAlone()
	sym.Reach("done")
}
