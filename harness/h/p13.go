package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// P13_Edits: any 3 operations (thorough 4) of any kind on 5 nodes put the nodes where a list model has them,
// with the model's content.
func P13_Edits() {
	m := newTree()
	for i := 0; i < tier(3, 4); i++ {
		m.op(string(byte('0' + i)))
	}
	m.links()
	m.contents()
	sym.Reach("edited")
}

// P13_EditParsed: likewise for 2 operations (thorough 3) on the nodes of a parsed document and new ones.
func P13_EditParsed() {
	m := parsedTree()
	for i := 0; i < tier(2, 3); i++ {
		m.op(string(byte('0' + i)))
	}
	for i, N := range m.nodes {
		if N.kind == 0 {
			_ = i
			k := 0
			for c := N.n.FirstChild(); c != nil; c = c.NextSibling() {
				if k >= len(N.kids) || c != m.nodes[N.kids[k]].n {
					sym.Fail("an element has other children")
				}
				k++
			}
			if k != len(N.kids) {
				sym.Fail("an element has other children")
			}
		}
	}
	m.contents()
	sym.Reach("edited")
}

// P13_Attributes: setting 3 attributes (thorough 4) with arbitrary one letter names: in order, no name twice.
func P13_Attributes() {
	doc := helium.CreateDocument()
	e, _ := doc.CreateElement("e")
	var names, vals []string
	for i := 0; i < tier(3, 4); i++ {
		n := sym.Str("n"+string(byte('0'+i)), 1)
		sym.Assume(sym.Between(n[0], 'a', 'z'))
		v := sym.Str("v"+string(byte('0'+i)), 1)
		sym.Assume(sym.And(sym.Between(v[0], 0x20, 0x7e), !sym.In(v[0], "&<")))
		dup := false
		for _, o := range names {
			if sym.Eq(o, n) {
				dup = true
			}
		}
		err := e.SetAttribute(n, v)
		if dup {
			sym.Assert(err == helium.ErrDuplicateAttribute, "a second attribute with the same name is not refused")
		} else {
			sym.Assert(err == nil, "an attribute cannot be set")
			names = append(names, n)
			vals = append(vals, v)
		}
	}
	as := e.Attributes()
	if len(as) != len(names) {
		sym.Fail("the number of attributes is another")
	}
	for i, a := range as {
		sym.Assert(sym.Eq(a.Name(), names[i]), "the attributes are in another order")
		sym.Assert(sym.Eq(a.Value(), vals[i]), "an attribute has another value")
		if a.OwnerDocument() != doc {
			sym.Fail("an attribute has another owner")
		}
	}
	sym.Reach("set")
}

// P13_Owned: what is passed in or returned can be changed later without changing other nodes.
func P13_Owned() {
	doc := helium.CreateDocument()
	e, _ := doc.CreateElement("e")
	f, _ := doc.CreateElement("f")
	n := []int{3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 256, 512, 1024, 4096}[sym.Split(sym.Choice("len", tier(13, 15)))]
	buf := make([]byte, n, n+5)
	x, y := sym.Byte("x"), sym.Byte("y")
	for i := range buf {
		buf[i] = 'z'
	}
	buf[0], buf[1] = x, y
	want := string(buf)
	var other helium.Node
	switch sym.Split(sym.Choice("in", 5)) {
	case 0:
		t, _ := doc.CreateText(buf)
		e.AddChild(t)
		other = t
	case 1:
		t, _ := doc.CreateComment(buf)
		other = t
	case 2:
		e.AddContent(buf)
		other = e.FirstChild()
	case 3:
		t, _ := doc.CreateText(nil)
		t.AddContent(buf)
		e.AddChild(t)
		other = t
	case 4:
		t, _ := doc.CreateText(buf)
		u, _ := doc.CreateText(nil)
		e.AddChild(u)
		e.AddChild(t)
		other = u
	}
	// a second node from the same bytes, or from what the first one returns
	var second helium.Node
	src := buf
	switch sym.Split(sym.Choice("src", 3)) {
	case 1:
		src = other.Content()
	case 2:
		src = e.Content()
		if other.Parent() == nil {
			src = buf
		}
	}
	switch sym.Split(sym.Choice("out", 4)) {
	case 0:
		second, _ = doc.CreateText(src)
	case 1:
		f.AddContent(src)
		second = f.FirstChild()
	case 2:
		second, _ = doc.CreateComment(src)
	case 3:
		t, _ := doc.CreateText(nil)
		t.AddContent(src)
		second = t
	}
	second.AddContent([]byte("Q"))
	buf[0], buf[1], buf[n-1] = 'X', 'Y', 'Z'
	buf = append(buf, "PPPP"...)
	c := second.Content()
	if string(c) != want+"Q" {
		sym.Fail("the second node's content is another")
	}
	for i := range c {
		c[i] = '#'
	}
	_ = append(c, "R"...)
	sym.Note("got", sym.Quote(string(other.Content())))
	if len(other.Content()) != n {
		sym.Fail("content of a node changes through another's slices")
	}
	sym.Assert(sym.Eq(string(other.Content()), want), "content of a node changes through another's slices")
	sym.Reach("owned")
}

// P13_Root: setting the document element replaces the root at its place.
func P13_Root() {
	doc := helium.CreateDocument()
	var want []helium.Node
	n := sym.Split(sym.Choice("before", 3))
	for i := 0; i < n; i++ {
		c, _ := doc.CreateComment([]byte("c"))
		doc.AddChild(c)
		want = append(want, c)
	}
	pos := -1
	for i := 0; i < 1+sym.Split(sym.Choice("roots", 3)); i++ {
		e, _ := doc.CreateElement("e" + string(byte('0'+i)))
		if doc.SetDocumentElement(e) != nil {
			sym.Fail("the document element cannot be set")
		}
		if pos < 0 {
			pos = len(want)
			want = append(want, e)
		} else {
			want[pos] = e
		}
		if sym.Split(sym.Choice("after"+string(byte('0'+i)), 2)) == 1 {
			p, _ := doc.CreatePI("p", "d")
			doc.AddChild(p)
			want = append(want, p)
		}
		k := 0
		for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
			if k >= len(want) || c != want[k] {
				sym.Fail("the document has other children")
			}
			k++
		}
		if k != len(want) {
			sym.Fail("the document has other children")
		}
		checkLinks(doc, doc, 0)
	}
	sym.Reach("set")
}

// P13_Kinds: an element has the nodes of all kinds that are put into it in order; see placed.
func P13_Kinds() {
	doc := helium.CreateDocument()
	e, want := placed(doc)
	text := ""
	k := 0
	for c := e.FirstChild(); c != nil; c = c.NextSibling() {
		if k >= len(want) || c != want[k] {
			sym.Fail("an element has other children")
		}
		k++
		if c.Type() == helium.TextNode {
			text += string(c.Content())
		}
	}
	if k != len(want) {
		sym.Fail("an element has other children")
	}
	for i := 0; i < tier(3, 4); i++ {
		// every text that was put in and not replaced is there
		t := "t" + itoa(i)
		sym.Note("text", text)
		if i+1 == tier(3, 4) && sym.Choice("kind"+itoa(i), 6) == 1 && !strings.Contains(text, t) {
			sym.Fail("text is lost")
		}
	}
	sym.Reach("placed")
}

// P13_RootParsed: setting the document element of a parsed document, with and without a document type, comments and instructions around it, puts it in the place of the old one, twice.
func P13_RootParsed() {
	misc := func(k string) string { return sym.Pick("m"+k, "", "<!--c-->", "<?p d?>", "<?p d?><!--c--><?q?>") }
	s := misc("0") + sym.Pick("dtd", "", "<!DOCTYPE a [<?x?>]>") + misc("1") + "<a><b/></a>" + misc("2")
	doc, err := parse(s)
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	var want []helium.Node
	pos := 0
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		if c.Type() == helium.ElementNode {
			pos = len(want)
		}
		want = append(want, c)
	}
	for i := 0; i < 2; i++ {
		e, _ := doc.CreateElement("e")
		if i == 1 && sym.Split(sym.Choice("kid", 2)) == 1 {
			// the old root becomes a child of the new one
			doc.SetDocumentElement(e)
			e.AddChild(want[pos])
		} else if doc.SetDocumentElement(e) != nil {
			sym.Fail("the document element cannot be set")
		}
		want[pos] = e
		k := 0
		for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
			if k >= len(want) || c != want[k] {
				sym.Fail("the document has other children")
			}
			k++
		}
		if k != len(want) {
			sym.Fail("the document has other children")
		}
		checkLinks(doc, doc, 0)
	}
	sym.Reach("set")
}

// contents are parts of a document, and their content where the entities of P13_Content are declared.
var contents = [][2]string{{"", ""}, {"x", "x"}, {" ", " "}, {"&e;", "v w"}, {"&f;", "v wu"}, {"&g;", ""}, {"<b>y</b>", "y"}, {"<b/>", ""}, {"<b>&e;<b>z</b></b>", "v wz"}, {"<!--c-->", ""}, {"<?p d?>", ""}, {"<![CDATA[t]]>", "t"}, {"&#65;", "A"}, {"&amp;", "&"}}

// P13_Content: the content of an element, and of the document, is the text within it, whatever it comes from: three (thorough four) parts - text, references, elements, sections, comments, instructions - that are parsed or put together.
func P13_Content() {
	s, want := "", ""
	n := tier(3, 4)
	var parts []int
	for i := 0; i < n; i++ {
		k := sym.Split(sym.Choice("t"+itoa(i), len(contents)))
		parts = append(parts, k)
		s += contents[k][0]
		want += contents[k][1]
	}
	doc, err := parse("<!DOCTYPE a [<!ENTITY e 'v <b>w</b>'><!ENTITY f '&e;u<!--c-->'><!ENTITY g ''>]><!--c--><a>" + s + "</a><?p d?>")
	if err != nil {
		sym.Fail("a document is rejected")
	}
	root := rootOf(doc)
	sym.Note("content", sym.Quote(string(root.Content())))
	sym.Note("want", sym.Quote(want))
	sym.Assert(string(root.Content()) == want, "the content isn't the text of the descendants")
	sym.Assert(string(doc.Content()) == want, "the document's content isn't the text of the descendants")
	sym.Reach("parsed")
	e, _ := doc.CreateElement("a")
	for _, k := range parts {
		c := contents[k][0]
		switch {
		case strings.HasPrefix(c, "&") && contents[k][1] != "A" && contents[k][1] != "&":
			r, err := doc.CreateReference(c[1 : len(c)-1])
			if err != nil {
				sym.Fail("a reference can't be made")
			}
			e.AddChild(r)
		case strings.HasPrefix(c, "<b"):
			b, _ := doc.CreateElement("b")
			b.AddContent([]byte(contents[k][1]))
			e.AddChild(b)
		case strings.HasPrefix(c, "<!--"):
			cm, _ := doc.CreateComment([]byte("c"))
			e.AddChild(cm)
		case strings.HasPrefix(c, "<?"):
			pi, _ := doc.CreatePI("p", "d")
			e.AddChild(pi)
		case c != "":
			e.AddContent([]byte(contents[k][1]))
		}
	}
	for i, el := range []helium.Node{root, e} {
		all := ""
		for c := el.FirstChild(); c != nil; c = c.NextSibling() {
			if t := c.Type(); t != helium.CommentNode && t != helium.ProcessingInstructionNode {
				all += string(c.Content())
			}
		}
		sym.Note("content", sym.Quote(string(el.Content())))
		sym.Assert(all == string(el.Content()), "the contents of the children aren't the content of the element")
		if i == 0 {
			sym.Assert(all == want, "the contents of the children aren't the text of the descendants")
		}
	}
	sym.Reach("built")
}
