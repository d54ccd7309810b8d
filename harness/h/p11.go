package h

import (
	"bytes"
	"errors"
	"io"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// xmlChar is an arbitrary XML character, in UTF-8.
func xmlChar(name string) string {
	n := sym.Split(sym.Choice(name+"w", 4)) + 1
	s := sym.Str(name+itoa(n), n)
	if n == 1 {
		sym.Assume(sym.And(s[0] < 0x80, sym.Or(s[0] >= 0x20, sym.In(s[0], "\t\n\r"))))
		return s
	}
	r, w := utf8.DecodeRuneInString(s)
	sym.Assume(sym.And(w == n, sym.And(r != 0xFFFE, r != 0xFFFF)))
	return s
}

// built makes a document with a root element r.
func built() (*helium.Document, *helium.Element) {
	doc := helium.CreateDocument()
	e, err := doc.CreateElement("r")
	if err != nil {
		sym.Fail("an element can't be created")
	}
	if doc.SetDocumentElement(e) != nil {
		sym.Fail("the document element can't be set")
	}
	return doc, e
}

// reread parses what the document, or its root element, serialises to.
func reread(doc *helium.Document, root *helium.Element) *helium.Document {
	var s string
	var err error
	if root == nil {
		s, err = doc.XMLString()
	} else {
		s, err = root.XMLString()
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a document that was built can't be serialised")
	}
	sym.Note("serialised", sym.Quote(s))
	again, err := helium.Parse([]byte(s))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("what a document that was built serialises to is rejected")
	}
	return again
}

// P11_Text: any two ASCII characters (thorough three), or any two XML characters (thorough three), as text, added in four ways, alone or beside an element, a comment or a character reference (thorough: each way in each place). They are read back from the serialised document or element.
func P11_Text() {
	doc, e := built()
	var text string
	if sym.Split(sym.Choice("wide", 2)) == 0 {
		text = xmlText("t", 1, tier(2, 3))
	} else {
		text = xmlChar("c0") + xmlChar("c1")
		if sym.Thorough() {
			text += xmlChar("c2")
		}
	}
	how := sym.Split(sym.Choice("how", 4))
	add := func(s string) {
		switch how {
		case 0:
			t, _ := doc.CreateText([]byte(s))
			e.AddChild(t)
		case 1:
			e.AddContent([]byte(s))
		case 2:
			t, _ := doc.CreateText(nil)
			t.AddContent([]byte(s))
			e.AddChild(t)
		case 3:
			t, _ := doc.CreateText([]byte(s[:1]))
			e.AddChild(t)
			e.AddContent([]byte(s[1:]))
		}
	}
	want := "" + text
	beside := 0
	if sym.Thorough() {
		beside = sym.Split(sym.Choice("beside", 4))
	} else {
		beside = how
	}
	switch beside {
	case 0:
		add(text)
	case 1:
		b, _ := doc.CreateElement("b")
		e.AddChild(b)
		add(text)
		b, _ = doc.CreateElement("c")
		e.AddChild(b)
	case 2:
		b, _ := doc.CreateComment([]byte("b"))
		e.AddChild(b)
		add(text)
		p, _ := doc.CreatePI("p", "b")
		e.AddChild(p)
	case 3:
		b, err := doc.CreateReference("amp")
		if err != nil {
			sym.Fail("a reference can't be created")
		}
		e.AddChild(b)
		add(text)
		b, _ = doc.CreateCharRef("lt")
		e.AddChild(b)
		want = "&" + want + "<"
	}
	if how%2 == 0 && (!sym.Thorough() || sym.Split(sym.Choice("root", 2)) == 0) {
		doc = reread(doc, nil)
	} else {
		doc = reread(doc, e)
	}
	var got []byte
	for c := rootOf(doc).FirstChild(); c != nil; c = c.NextSibling() {
		if c.Type() == helium.TextNode || c.Type() == helium.EntityRefNode {
			got = append(got, c.Content()...)
		}
	}
	sym.Note("got", sym.Quote(string(got)))
	if len(got) != len(want) {
		sym.Fail("text that was put in a document is read back as other text")
	}
	sym.Assert(sym.Eq(string(got), want), "text that was put in a document is read back as other text")
	sym.Reach("text")
}

// noMarkup checks that what stands between two pieces of output holds no markup other than references.
func noMarkup(out, before, after string) {
	sym.Note("output", sym.Quote(out))
	n := len(out) - len(after)
	if n < len(before) || out[:len(before)] != before || out[n:] != after {
		sym.Fail("the markup around data is another")
	}
	out = out[len(before):n]
	for i := 0; i < len(out); i++ {
		sym.Assert(sym.And(out[i] != '<', out[i] != '>'), "markup is written for data")
		if out[i] == '&' {
			j := i + 1
			for j < len(out) && out[j] != ';' {
				j++
			}
			if j == len(out) {
				sym.Fail("a reference without end is written for data")
			}
			ref := out[i+1 : j]
			if ref != "amp" && ref != "lt" && ref != "gt" && ref[0] != '#' {
				sym.Fail("a reference is written for data")
			}
			i = j
		}
	}
}

// P11_AnyBytes: any four bytes (thorough five) as text, or as the value of an attribute that has no ampersand. The output has no markup for them.
func P11_AnyBytes() {
	doc, e := built()
	s := sym.StrUpTo("b", 1, tier(4, 5))
	if sym.Split(sym.Choice("where", 2)) == 0 {
		e.AddContent([]byte(s))
		out, err := e.XMLString()
		if err == nil {
			noMarkup(out, "<r>", "</r>")
		}
		sym.Reach("text")
		return
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '&')
	}
	if e.SetAttribute("a", s) != nil {
		sym.Fail("an attribute can't be set")
	}
	out, err := e.XMLString()
	if err == nil {
		noMarkup(out, `<r a="`, `"/>`)
		in := out[6 : len(out)-3]
		for i := 0; i < len(in); i++ {
			sym.Assert(in[i] != '"', "a quote ends a value too early")
		}
	}
	sym.Reach("attribute")
	_ = doc
}

// attrMeaning is what a value in reference syntax stands for, with entities e (x&<>) and f (y).
func attrMeaning(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			out = append(out, s[i])
			continue
		}
		j := i + 1
		for j < len(s) && s[j] != ';' {
			j++
		}
		if j == len(s) {
			return "", false
		}
		switch s[i+1 : j] {
		case "e":
			out = append(out, "E \"'"...)
		case "f":
			out = append(out, 'y')
		case "lt":
			out = append(out, '<')
		case "gt":
			out = append(out, '>')
		default:
			ref := s[i+1 : j]
			if len(ref) != 3 || ref[0] != '#' {
				return "", false
			}
			hi, lo := 0, 0
			base := 10
			if ref[1] == 'x' {
				base = 16
			} else {
				hi = digitVal(ref[1])
			}
			lo = digitVal(ref[2])
			if hi < 0 || lo < 0 || hi >= 10 || lo >= base {
				return "", false
			}
			r := hi*10 + lo
			if r < 0x20 && r != 9 && r != 10 && r != 13 {
				return "", false
			}
			out = append(out, byte(r))
		}
		i = j
	}
	return string(out), true
}

func digitVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// attrRead checks an attribute's value before and after writing.
func attrRead(doc *helium.Document, e *helium.Element, i int, want string) {
	got := e.Attributes()[i].Value()
	sym.Note("got", sym.Quote(got))
	sym.Note("want", sym.Quote(want))
	if len(got) != len(want) {
		sym.Fail("an attribute has another value than the one put in")
	}
	sym.Assert(sym.Eq(got, want), "an attribute has another value than the one put in")
	again := rootOf(reread(doc, nil)).(*helium.Element)
	as := again.Attributes()
	if len(as) != len(e.Attributes()) {
		sym.Fail("the number of attributes changes")
	}
	for k, a := range as {
		if a.Name() != e.Attributes()[k].Name() {
			sym.Fail("an attribute's name changes")
		}
	}
	got = as[i].Value()
	sym.Note("read back", sym.Quote(got))
	if len(got) != len(want) {
		sym.Fail("an attribute's value is read back as another one")
	}
	sym.Assert(sym.Eq(got, want), "an attribute's value is read back as another one")
}

// P11_AttrPlain: any three ASCII characters or two XML characters but ampersands as an attribute's value, before or after another attribute.
func P11_AttrPlain() {
	doc, e := built()
	var s string
	if sym.Split(sym.Choice("wide", 2)) == 0 {
		s = xmlText("t", 0, tier(3, 4))
	} else {
		s = xmlChar("c0") + xmlChar("c1")
		if sym.Thorough() {
			s += xmlChar("c2")
		}
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '&')
	}
	at := sym.Split(sym.Choice("at", 2))
	if at == 1 {
		e.SetAttribute("b", "&lt;'")
	}
	if e.SetAttribute("a", s) != nil {
		sym.Fail("an attribute can't be set")
	}
	if at == 0 {
		e.SetAttribute("b", "\"")
	}
	attrRead(doc, e, at, s)
	sym.Reach("value")
}

// P11_AttrRefs: an attribute value of two arbitrary characters around one of 13 pieces, most of them references, with one more arbitrary character within or after it. If the value is legal, it means what it says; else setting it fails.
func P11_AttrRefs() {
	doc := helium.CreateDocument()
	if _, err := doc.CreateInternalSubset("r", "", ""); err != nil {
		sym.Fail("an internal subset can't be created")
	}
	doc.AddEntity("e", helium.InternalGeneralEntity, "", "", "E\t\"'")
	doc.AddEntity("f", helium.InternalGeneralEntity, "", "", "y")
	e, _ := doc.CreateElement("r")
	doc.AddChild(e)
	x := xmlText("x", 1, 1)
	y := xmlText("y", 1, 1)
	z := xmlText("z", 1, 1)
	p := sym.Pick("piece", "", "&e;", "&f;", "&lt;", "&gt", "&", "&;", "&#3", "&#x", "&#", "&e;&f", "&lt;&gt;", "&e;y&e;")
	s := x + p + y + z
	if sym.Split(sym.Choice("long", 2)) == 1 {
		s = "aa" + p + y + z + "&#65;" + x
	}
	sym.Note("value", sym.Quote(s))
	err := e.SetAttribute("a", s)
	want, ok := attrMeaning(s)
	if !ok {
		if err == nil {
			// a reference to an entity that there isn't
			for _, c := range e.Attributes()[0].Value() {
				_ = c
			}
			if _, err := doc.XMLString(); err == nil {
				sym.Reach("undeclared")
			}
		}
		sym.Reach("illegal")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a legal attribute value is refused")
	}
	attrRead(doc, e, 0, want)
	sym.Reach("legal")
}

// P11_Misc: a comment of any four characters, or a processing instruction with any three characters of data, before, within or after the root. If they can stand there they are read back, else serialisation fails; nothing else is written for them.
func P11_Misc() {
	doc, e := built()
	s := xmlText("s", 0, tier(4, 5))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\r')
	}
	where := sym.Split(sym.Choice("where", 3))
	if where == 0 {
		doc = helium.CreateDocument()
		e, _ = doc.CreateElement("r")
	}
	var n helium.Node
	pi := sym.Split(sym.Choice("pi", 2)) == 1
	if pi {
		if len(s) > 0 {
			sym.Assume(!sym.In(s[0], " \t\n"))
		}
		n, _ = doc.CreatePI("p", s)
	} else {
		n, _ = doc.CreateComment([]byte(s))
	}
	if where == 1 {
		e.AddChild(n)
	} else {
		doc.AddChild(n)
	}
	if where == 0 {
		doc.AddChild(e)
	}
	bad := false
	for i := 0; i+1 < len(s); i++ {
		if pi && s[i:i+2] == "?>" || !pi && s[i:i+2] == "--" {
			bad = true
		}
	}
	if !pi && len(s) > 0 && s[len(s)-1] == '-' {
		bad = true
	}
	if bad {
		out, err := doc.XMLString()
		sym.Note("output", sym.Quote(out))
		sym.Assert(err != nil, "a comment or instruction that can't be written is written as something else")
		if where == 1 {
			_, err = e.XMLString()
			sym.Assert(err != nil, "a comment or instruction that can't be written is written as something else")
		}
		sym.Reach("impossible")
		return
	}
	again := reread(doc, nil)
	sameTree(again, canon(doc))
	sym.Reach("possible")
}

// P11_Build: a tree built by any three operations (thorough four) out of ten: children, text, comments, instructions, attributes and references are added to the root, its last element child, or the document. What it serialises to has the same tree.
func P11_Build() {
	doc := helium.CreateDocument()
	doc.CreateInternalSubset("r", "", "s")
	doc.AddEntity("e", helium.InternalGeneralEntity, "", "", "v")
	root, _ := doc.CreateElement("r")
	doc.AddChild(root)
	c := []byte(sym.Str("c", 1))
	sym.Assume(sym.And(sym.Between(c[0], 0x20, 0x7e), !sym.In(c[0], "&-")))
	cur := root
	nattr := 0
	for i := 0; i < tier(3, 4); i++ {
		k := itoa(i)
		switch sym.Split(sym.Choice("op"+k, 10)) {
		case 0:
			e, _ := doc.CreateElement("b" + k)
			root.AddChild(e)
			cur = e
		case 1:
			e, _ := doc.CreateElement("b" + k)
			cur.AddChild(e)
			cur = e
		case 2:
			cur.AddContent(c)
		case 3:
			n, _ := doc.CreateComment(c)
			cur.AddChild(n)
		case 4:
			n, _ := doc.CreatePI("p"+k, "x"+string(c))
			cur.AddChild(n)
		case 5:
			nattr++
			if cur.SetAttribute("a"+itoa(nattr), string(c)) != nil {
				sym.Fail("an attribute can't be set")
			}
		case 6:
			n, err := doc.CreateReference("e")
			if err != nil {
				sym.Fail("a reference can't be created")
			}
			cur.AddChild(n)
		case 7:
			n, _ := doc.CreateComment(c)
			doc.AddChild(n)
		case 8:
			cur.SetNamespace("p", "u"+k)
			cur.SetNamespace("p", "u"+k, true)
			return2(cur, &i)
		case 9:
			root.AddContent(c)
		}
	}
	form := canon(doc)
	sameTree(reread(doc, nil), form)
	sym.Reach("built")
}

// return2 uses up the operations left for an element that has a namespace already.
func return2(e *helium.Element, i *int) {
	if len(e.Namespaces()) > 1 {
		sym.Assume(false)
	}
}

// P11_Encoding: a document in one of the declared encodings, with any XML character in text and in an attribute, is written in that encoding: read back, they are the same.
func P11_Encoding() {
	encs := []string{"utf-8", "iso-8859-1", "koi8r", "windows1252"}
	if sym.Thorough() {
		encs = charsets
	}
	enc := encs[sym.Split(sym.Choice("charset", len(encs)))]
	doc := helium.NewDocument("1.0", enc, helium.StandaloneImplicitNo)
	e, _ := doc.CreateElement("r")
	doc.AddChild(e)
	var s string
	n := 1
	if sym.Split(sym.Choice("wide", 2)) == 1 {
		n = 2
	}
	s = sym.Str("s"+itoa(n), n)
	if n == 1 {
		sym.Assume(sym.And(s[0] < 0x80, sym.Or(s[0] >= 0x20, sym.In(s[0], "\t\n\r"))))
		sym.Assume(s[0] != '&')
	} else {
		_, w := utf8.DecodeRuneInString(s)
		sym.Assume(w == n)
	}
	if sym.Split(sym.Choice("attr", 2)) == 1 {
		e.SetAttribute("a", s)
	} else {
		e.AddContent([]byte("x" + s + "y"))
	}
	out, err := doc.XMLString()
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a document that was built can't be serialised")
	}
	sym.Note("serialised", sym.Quote(out))
	again, err := helium.Parse([]byte(out))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("what a document that was built serialises to is rejected")
	}
	sameTree(again, canon(doc))
	sym.Assert(again.Encoding() == enc, "the encoding is another")
	sym.Reach("written")
}

type failingWriter struct {
	left int
	out  bytes.Buffer
	err  error
}

var errFull = errors.New("no space left")

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.out.Write(p[:n])
		if w.err != nil {
			return n, w.err
		}
		return n, errFull
	}
	w.left -= len(p)
	w.out.Write(p)
	return len(p), nil
}

// P11_WriteError: a writer that takes any number of bytes up to the whole output and then fails. A serialisation that isn't complete is an error, for documents in two encodings, elements and other nodes; what was written until then is right.
func P11_WriteError() {
	enc := ""
	if sym.Split(sym.Choice("enc", 2)) == 1 {
		enc = "iso-8859-1"
	}
	doc := helium.NewDocument("1.0", enc, helium.StandaloneExplicitNo)
	doc.CreateInternalSubset("r", "p", "s")
	doc.AddEntity("e", helium.InternalGeneralEntity, "", "", "v&<\"")
	root, _ := doc.CreateElement("r")
	root.SetNamespace("p", "u")
	root.SetAttribute("a", "<\"&e;")
	root.AddContent([]byte("t&\u00e9"))
	c, _ := doc.CreateComment([]byte("c"))
	root.AddChild(c)
	p, _ := doc.CreatePI("p", "d")
	root.AddChild(p)
	ref, _ := doc.CreateReference("e")
	root.AddChild(ref)
	b, _ := doc.CreateElement("b")
	root.AddChild(b)
	doc.AddChild(root)
	write := func(w *failingWriter) error {
		d := &helium.Dumper{}
		switch sym.Split(sym.Choice("what", 9)) {
		case 0:
			return doc.XML(w)
		case 1:
			return d.DumpDoc(w, doc)
		case 2:
			return root.XML(w)
		case 3:
			return d.DumpNode(w, root)
		case 4:
			return d.DumpNode(w, doc.IntSubset())
		case 5:
			return d.DumpNode(w, c)
		case 6:
			return d.DumpNode(w, p)
		case 7:
			return d.DumpNode(w, root.FirstChild())
		}
		return d.DumpNode(w, ref)
	}
	all := &failingWriter{left: 1000}
	if write(all) != nil {
		sym.Fail("serialisation fails")
	}
	full := all.out.String()
	n := sym.Split(sym.Choice("room", tier(80, 200)))
	w := &failingWriter{left: n}
	if n >= len(full) {
		sym.Assume(n == len(full))
	}
	err := write(w)
	if n == len(full) {
		sym.Assert(err == nil, "serialisation fails though the writer doesn't")
		sym.Reach("complete")
		return
	}
	sym.Assert(err == errFull, "the writer's error isn't reported")
	if got := w.out.String(); len(got) > len(full) || got != full[:len(got)] {
		sym.Fail("something else is written before the writer fails")
	}
	sym.Reach("incomplete")
}

// P11_WriteErrors: a writer that fails at any of the first 44 bytes with any of eight errors that may mean something elsewhere.
func P11_WriteErrors() {
	doc := helium.NewDocument("1.0", sym.Pick("enc", "", "iso-8859-1"), helium.StandaloneExplicitNo)
	root, _ := doc.CreateElement("r")
	root.SetAttribute("a", "<v")
	root.AddContent([]byte("t&\u00e9"))
	doc.AddChild(root)
	errs := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, helium.ErrParseSucceeded, helium.ErrEOF, sax.ErrHandlerUnspecified, errors.New("")}
	w := &failingWriter{left: sym.Split(sym.Choice("room", 44)), err: errs[sym.Split(sym.Choice("error", len(errs)))]}
	var err error
	switch sym.Split(sym.Choice("what", 3)) {
	case 0:
		err = doc.XML(w)
	case 1:
		err = (&helium.Dumper{}).DumpDoc(w, doc)
	default:
		w.left %= 16
		err = root.XML(w)
	}
	sym.Assert(err == w.err, "the writer's error isn't reported")
	sym.Reach("reported")
}

// P11_Decls: element declarations with any content type value and any content made by CreateElementContent. Each is refused, or serialisation fails, or what is written is read back.
func P11_Decls() {
	doc := helium.CreateDocument()
	dtd, _ := doc.CreateInternalSubset("r", "", "")
	e, _ := doc.CreateElement("r")
	doc.AddChild(e)
	var c *helium.ElementContent
	if sym.Split(sym.Choice("content", 2)) == 1 {
		var err error
		name := sym.Pick("name", "", "n", "p:n")
		c, err = doc.CreateElementContent(name, helium.ElementContentType(sym.Split(sym.Choice("ctype", 6))))
		if err != nil {
			sym.Reach("nocontent")
			return
		}
	}
	_, err := dtd.AddElementDecl(sym.Pick("elem", "r", "p:r"), helium.ElementTypeVal(sym.Split(sym.Choice("etype", 6))), c)
	if err != nil {
		sym.Reach("refused")
		return
	}
	out, err := doc.XMLString()
	if err != nil {
		return
	}
	sym.Note("serialised", sym.Quote(out))
	if _, err := helium.Parse([]byte(out)); err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a declaration made through the API is written but can't be read")
	}
	sym.Reach("written")
}

// P11_Names: elements and attributes with arbitrary legal names of up to three characters are written under those names.
func P11_Names() {
	doc := helium.CreateDocument()
	n := legalName("n", 3)
	e, _ := doc.CreateElement(n)
	doc.SetDocumentElement(e)
	a := legalName("a", 2)
	sym.Assume(!sym.Eq(a, "xmlns"))
	if e.SetAttribute(a, "v") != nil {
		sym.Fail("an attribute can't be set")
	}
	if sym.Split(sym.Choice("child", 2)) == 1 {
		b, _ := doc.CreateElement(a)
		e.AddChild(b)
	}
	sameTree(reread(doc, nil), canon(doc))
	sym.Assert(sym.Eq(rootOf(doc).Name(), n), "the name is another")
	sym.Reach("named")
}

// legalName is an arbitrary name without colon of up to n characters, the first one of two bytes or one.
func legalName(k string, n int) string {
	var s string
	if sym.Split(sym.Choice(k+"wide", 2)) == 1 {
		s = sym.Str(k+"0", 2)
		// U+00C0 to U+00D6, U+00F8 to U+02FF without those from U+0132 that are no letters in older editions
		sym.Assume(sym.Or(sym.And(s[0] == 0xC3, sym.Between(s[1], 0x80, 0x96)), sym.And(s[0] == 0xC4, sym.Between(s[1], 0x80, 0xB1))))
	} else {
		s = sym.Str(k, 1)
		sym.Assume(sym.Or(sym.Between(s[0], 'a', 'z'), sym.Or(sym.Between(s[0], 'A', 'Z'), s[0] == '_')))
	}
	t := sym.StrUpTo(k+"r", 0, n-1)
	for i := 0; i < len(t); i++ {
		c := t[i]
		sym.Assume(sym.Or(sym.Or(sym.Between(c, 'a', 'z'), sym.Between(c, 'A', 'Z')), sym.Or(sym.Between(c, '0', '9'), sym.In(c, "_-."))))
	}
	return s + t
}

// P11_References: references made from any name of 1 to 3 (thorough 4) ASCII characters, with "&" and ";" or without, have that name and are written as references to it.
func P11_References() {
	name := ascii("w", 1, tier(3, 4))
	for i := 0; i < len(name); i++ {
		sym.Assume(isNameChar(rune(name[i])))
	}
	sym.Assume(isNameStart(rune(name[0])))
	doc := helium.CreateDocument()
	e, _ := doc.CreateElement("a")
	doc.AddChild(e)
	s := name
	switch sym.Choice("form", 3) {
	case 1:
		s = "&" + name
	case 2:
		s = "&" + name + ";"
	}
	var r *helium.EntityRef
	var err error
	if sym.Choice("how", 2) == 0 {
		r, err = doc.CreateReference(s)
	} else {
		r, err = doc.CreateCharRef(s)
	}
	if err != nil || r == nil {
		sym.Fail("a reference can't be created")
	}
	sym.Note("name", sym.Quote(r.Name()))
	sym.Assert(r.Name() == name, "a reference has another name")
	if err := e.AddChild(r); err != nil {
		sym.Fail("a reference can't be added")
	}
	d := dump(doc)
	sym.Assert(sym.Contains(d, "<a>&"+name+";</a>"), "a reference is not written as it is")
	if _, err := doc.CreateCharRef(""); err == nil {
		sym.Fail("a reference without a name can be created")
	}
	sym.Reach("reference")
}

// P11_Namespaces: an element given namespaces by three (thorough four) calls, declared or made its own, with any of three prefixes and two names: it has the last one it was given, lists the declared ones in order, and is read back with it if that is possible.
func P11_Namespaces() {
	doc, e := built()
	type ns struct{ p, u string }
	var own *ns
	var decl []ns
	dup := false
	for i := 0; i < tier(3, 4); i++ {
		k := itoa(i)
		n := ns{sym.Pick("p"+k, "", "p", "q"), sym.Pick("u"+k, "u", "v")}
		var err error
		switch sym.Split(sym.Choice("how"+k, 3)) {
		case 0:
			err = e.SetNamespace(n.p, n.u)
			for _, o := range decl {
				dup = dup || o.p == n.p
			}
			decl = append(decl, n)
		case 1:
			err = e.SetNamespace(n.p, n.u, true)
			own = &n
		case 2:
			err = e.SetNamespace(n.p, n.u, false)
			for _, o := range decl {
				dup = dup || o.p == n.p
			}
			decl = append(decl, n)
		}
		if err != nil {
			sym.Fail("a namespace can't be set")
		}
	}
	name, uri, prefix := "r", "", ""
	if own != nil {
		prefix, uri = own.p, own.u
		name = qname(prefix, "r")
	}
	sym.Note("name", e.Name()+" "+e.URI())
	if e.Name() != name || e.URI() != uri || e.Prefix() != prefix || e.LocalName() != "r" {
		sym.Fail("an element has another namespace than the one it was given last")
	}
	l := e.Namespaces()
	if len(l) != len(decl) {
		sym.Fail("an element has more or less namespace declarations than it was given")
	}
	bound := ""
	for i, o := range decl {
		if l[i].Prefix() != o.p || l[i].URI() != o.u {
			sym.Fail("an element has another namespace declaration than it was given")
		}
		if o.p == prefix {
			bound = o.u
		}
	}
	if dup || bound != uri {
		sym.Reach("not written")
		return
	}
	again := rootOf(reread(doc, nil)).(*helium.Element)
	if again.Name() != name || again.URI() != uri || len(again.Namespaces()) != len(decl) {
		sym.Fail("an element is read back in another namespace")
	}
	sym.Reach("read back")
}
