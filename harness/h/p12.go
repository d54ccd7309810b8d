package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// checkLinks checks the links of everything below n.
func checkLinks(n helium.Node, doc *helium.Document, depth int) {
	if depth > 200 {
		sym.Fail("a cycle through the children")
	}
	var fwd []helium.Node
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		fwd = append(fwd, c)
		if len(fwd) > 2000 {
			sym.Fail("a cycle through the siblings")
		}
		if c.Parent() != n {
			sym.Fail("a child names another parent")
		}
		if doc != nil && c.OwnerDocument() != doc {
			sym.Fail("a node names another document")
		}
	}
	c := n.LastChild()
	for i := len(fwd) - 1; i >= 0; i-- {
		if c == nil || c != fwd[i] {
			sym.Fail("the list of children read backwards is another")
		}
		c = c.PrevSibling()
	}
	if c != nil {
		sym.Fail("the list of children read backwards is longer")
	}
	for _, c := range fwd {
		if e, ok := c.(*helium.Element); ok {
			checkAttrLinks(e, doc, depth)
		}
		if c.Type() != helium.EntityRefNode {
			checkLinks(c, doc, depth+1)
		}
	}
}

// checkAttrLinks checks the links of an element's attributes.
func checkAttrLinks(e *helium.Element, doc *helium.Document, depth int) {
	var last helium.Node
	for _, a := range e.Attributes() {
		if doc != nil && a.OwnerDocument() != doc {
			sym.Fail("an attribute names another document")
		}
		if got := a.PrevSibling(); (got == nil) != (last == nil) || last != nil && got != last {
			sym.Fail("the list of attributes read backwards is another")
		}
		last = a
		checkLinks(a, doc, depth+1)
	}
}

func checkParsedLinks(s string) {
	doc, err := parse(s)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	checkLinks(doc, doc, 0)
	sym.Reach("accepted")
}

// P12_Parsed: documents of winTokens have consistent links.
func P12_Parsed() { checkParsedLinks(winTokens()) }

// P12_ParsedContent: documents of winContent, winTag, winEpilog or winProlog have consistent links.
func P12_ParsedContent() {
	switch sym.Split(sym.Choice("ctx", 4)) {
	case 0:
		checkParsedLinks(winContent())
	case 1:
		checkParsedLinks(winNested())
	case 2:
		checkParsedLinks(winEpilog())
	case 3:
		checkParsedLinks(winProlog())
	}
}

// P12_ParsedItems: documents of winItems, whose entities have things of all kinds in them.
func P12_ParsedItems() { checkParsedLinks(winItems()) }

// newKind is a node of any of five kinds.
func newKind(doc *helium.Document, k string) helium.Node {
	switch sym.Split(sym.Choice("kind"+k, 6)) {
	case 0:
		n, _ := doc.CreateElement("e" + k)
		return n
	case 1:
		n, _ := doc.CreateText([]byte("t" + k))
		return n
	case 2:
		n, _ := doc.CreateComment([]byte("c" + k))
		return n
	case 3:
		n, _ := doc.CreatePI("p"+k, "d")
		return n
	}
	if sym.Choice("kind"+k, 6) == 5 {
		n, _ := doc.CreateReference("&amp;")
		return n
	}
	n, _ := doc.CreateReference("lt")
	return n
}

// predefinedAlone checks that the entities that all documents share are in no tree.
func predefinedAlone() {
	for _, e := range []*helium.Entity{helium.EntityLT, helium.EntityGT, helium.EntityAmpersand, helium.EntityApostrophe, helium.EntityQuote} {
		if e.FirstChild() != nil || e.LastChild() != nil || e.Parent() != nil || e.NextSibling() != nil || e.PrevSibling() != nil {
			sym.Fail("a predefined entity has links to a document's nodes")
		}
	}
}

// placed puts three nodes (thorough four) of any of five kinds into an element, by adding them as children, as siblings of the first or of the last one, or in place of the last one. It returns the element and the list it should have.
func placed(doc *helium.Document) (*helium.Element, []helium.Node) {
	e, _ := doc.CreateElement("r")
	var want []helium.Node
	for i := 0; i < tier(3, 4); i++ {
		n := newKind(doc, itoa(i))
		how := 0
		if i > 0 {
			how = sym.Split(sym.Choice("how"+itoa(i), 4))
		}
		switch how {
		case 0:
			if e.AddChild(n) != nil {
				sym.Fail("a child cannot be added to an element")
			}
		case 1:
			if want[0].AddSibling(n) != nil {
				sym.Fail("a sibling cannot be added")
			}
		case 2:
			if want[len(want)-1].AddSibling(n) != nil {
				sym.Fail("a sibling cannot be added")
			}
		case 3:
			want[len(want)-1].Replace(n)
			want[len(want)-1] = n
			continue
		}
		if l := len(want); l > 0 && want[l-1].Type() == helium.TextNode && n.Type() == helium.TextNode {
			continue // merged
		}
		want = append(want, n)
	}
	return e, want
}

// P12_Kinds: the links of an element that nodes of all kinds are put into; see placed.
func P12_Kinds() {
	doc := helium.CreateDocument()
	e, _ := placed(doc)
	checkLinks(e, doc, 0)
	predefinedAlone()
	sym.Reach("placed")
}

// P12_SetTreeDoc: setting the document of a tree sets that of all nodes in it, also if some have it already: a tree with elements, attributes with references in their values, and nodes of any two kinds.
func P12_SetTreeDoc() {
	d1, d2 := helium.CreateDocument(), helium.CreateDocument()
	e, _ := d1.CreateElement("e")
	e.SetAttribute("a", sym.Pick("a", "", "x", "x&lt;y", "&amp;&lt;"))
	e.SetAttribute("b", "z")
	f, _ := d1.CreateElement("f")
	f.SetAttribute("c", sym.Pick("c", "1", "&lt;2"))
	k0, k1 := newKind(d1, "0"), newKind(d1, "1")
	t, _ := d1.CreateComment([]byte("t"))
	if sym.Split(sym.Choice("m0", 2)) == 1 {
		k0.SetOwnerDocument(d2)
	}
	if sym.Split(sym.Choice("m1", 2)) == 1 {
		k1.SetOwnerDocument(d2)
	}
	e.AddChild(k0)
	e.AddChild(f)
	f.AddChild(k1)
	f.AddChild(t)
	u, _ := d1.CreateComment([]byte("u"))
	e.AddChild(u)
	e.SetTreeDoc(d2)
	checkAttrLinks(e, d2, 0)
	checkLinks(e, d2, 0)
	if e.OwnerDocument() != d2 {
		sym.Fail("a node names another document")
	}
	predefinedAlone()
	sym.Reach("set")
}

// P12_SetParsedDoc: the same for a part of a parsed document with references in an attribute's value and in its content.
func P12_SetParsedDoc() {
	v := func(k string) string { return sym.Pick("v"+k, "", "p", "&e;", "&lt;", "&f;") }
	s := "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY f 'y&e;<b/>'><!ATTLIST c d NMTOKENS 'q  w'>]><a><c g='" + v("0") + v("1") + v("2") + "'>" + v("3") + "<b/>" + v("4") + "</c></a>"
	sym.Note("document", sym.Quote(s))
	doc, err := helium.NewParser().Parse([]byte(s))
	if err != nil {
		sym.Assume(false)
	}
	e, ok := rootOf(doc).FirstChild().(*helium.Element)
	if !ok {
		sym.Fail("there is no element")
	}
	d2 := helium.CreateDocument()
	if sym.Split(sym.Choice("part", 2)) == 0 {
		e.SetTreeDoc(d2)
		sym.Reach("element")
	} else {
		e = rootOf(doc).(*helium.Element)
		e.SetTreeDoc(d2)
		sym.Reach("root")
	}
	if e.OwnerDocument() != d2 {
		sym.Fail("a node names another document")
	}
	checkAttrLinks(e, d2, 0)
	checkLinks(e, d2, 0)
}

// P12_ParsedDTD: documents with entities, references to them, and attribute lists.
func P12_ParsedDTD() {
	checkParsedLinks("<!DOCTYPE a [<!ENTITY e '" + sym.Pick("ev", "x", "<b>y</b>z", "") + "'><!ELEMENT a ANY><!ATTLIST a c CDATA 'd'><!--c--><?p d?>]>" +
		"<a q='" + sym.Pick("q", "", "&e;", "x") + "'>" + sym.Pick("t", "", "t", "&e;", "&e;&e;") + sym.Pick("u", "", "<b/>", "&e;", "<![CDATA[ ]]>") + "v</a>")
}

// A model of the tree: who has which children. A detached group of siblings
// is a node without parent and its siblings.
type mnode struct {
	n      helium.Node
	kind   int // 0 element, 1 text, 2 comment
	parent int // -1
	group  int // the first of the siblings if there is no parent
	kids   []int
	sibs   []int // of a group: all of it, kept at the first one
	text   string
	isNew  bool
}

type mtree struct {
	doc   *helium.Document
	nodes []*mnode
}

func (m *mtree) add(n helium.Node, kind int, text string) int {
	i := len(m.nodes)
	m.nodes = append(m.nodes, &mnode{n: n, kind: kind, parent: -1, group: i, sibs: []int{i}, text: text})
	return i
}

func (m *mtree) list(x int) *[]int {
	if p := m.nodes[x].parent; p >= 0 {
		return &m.nodes[p].kids
	}
	return &m.nodes[m.nodes[x].group].sibs
}

func (m *mtree) detached(x int) bool {
	return m.nodes[x].parent < 0 && len(*m.list(x)) == 1
}

// below reports whether x is y or below it.
func (m *mtree) below(x, y int) bool {
	for x >= 0 {
		if x == y {
			return true
		}
		p := m.nodes[x].parent
		if p < 0 {
			// the first of a group stands for all of it
			for _, s := range *m.list(x) {
				if s == y {
					return true
				}
			}
		}
		x = p
	}
	return false
}

func (m *mtree) attach(x, parent, group int) {
	m.nodes[x].parent = parent
	m.nodes[x].group = group
}

// appendTo puts y at the end of the list; text after text is merged.
func (m *mtree) appendTo(list *[]int, y, parent, group int) {
	if n := len(*list); n > 0 {
		l := m.nodes[(*list)[n-1]]
		if l.kind == 1 && m.nodes[y].kind == 1 {
			l.text += m.nodes[y].text
			return
		}
	}
	*list = append(*list, y)
	m.attach(y, parent, group)
}

func (m *mtree) content(x int) string {
	n := m.nodes[x]
	if n.kind != 0 {
		return n.text
	}
	s := ""
	for _, k := range n.kids {
		if m.nodes[k].kind != 2 {
			s += m.content(k)
		}
	}
	return s
}

// newTree makes two elements, two texts, a comment, and an element with a child.
func newTree() *mtree {
	doc := helium.CreateDocument()
	m := &mtree{doc: doc}
	for i := 0; i < 2; i++ {
		e, _ := doc.CreateElement("e")
		m.add(e, 0, "")
	}
	for i := 0; i < 2; i++ {
		b := []byte{'t', sym.Byte("t" + string(byte('0'+i)))}
		t, _ := doc.CreateText(b)
		m.add(t, 1, string(b))
		// later changes to what was passed in are of no importance
		b[0], b[1] = 'X', 'X'
	}
	b := []byte("c")
	c, _ := doc.CreateComment(b)
	m.add(c, 2, "c")
	b[0] = 'X'
	return m
}

// op does one operation of any kind on any nodes it's allowed on.
func (m *mtree) op(k string) {
	n := len(m.nodes)
	x := sym.Split(sym.Choice("x"+k, n))
	kind := sym.Split(sym.Choice("op"+k, 4))
	X := m.nodes[x]
	// a document has no siblings, and cannot be replaced or added
	sym.Assume(X.n != helium.Node(m.doc) || kind == 0 || kind == 3)
	if kind == 3 {
		b := []byte{'a', sym.Byte("b" + k)}
		err := X.n.AddContent(b)
		if err != nil {
			sym.Fail("content cannot be added")
		}
		s := string(b)
		b[0], b[1] = 'X', 'X'
		if X.kind != 0 {
			X.text += s
			return
		}
		if n := len(X.kids); n > 0 && m.nodes[X.kids[n-1]].kind == 1 {
			m.nodes[X.kids[n-1]].text += s
			return
		}
		t := X.n.LastChild()
		if t == nil || t.Type() != helium.TextNode {
			sym.Fail("added content is not the last child")
		}
		i := m.add(t, 1, s)
		m.nodes[i].isNew = true
		X.kids = append(X.kids, i)
		m.attach(i, x, -1)
		return
	}
	y := sym.Split(sym.Choice("y"+k, n))
	sym.Assume(x != y && m.detached(y) && !m.below(x, y))
	Y := m.nodes[y]
	sym.Assume(Y.n != helium.Node(m.doc))
	switch kind {
	case 0:
		err := X.n.AddChild(Y.n)
		switch {
		case X.kind == 0:
			if err != nil {
				sym.Fail("a child cannot be added to an element")
			}
			m.appendTo(&X.kids, y, x, -1)
		case X.kind == Y.kind:
			// the content of the one is added to the other
			if err != nil {
				sym.Fail("text cannot be added to text")
			}
			X.text += Y.text
		default:
			if err == nil {
				sym.Fail("a child can be added to a node that cannot have any")
			}
		}
	case 1:
		if err := X.n.AddSibling(Y.n); err != nil {
			sym.Fail("a sibling cannot be added")
		}
		m.appendTo(m.list(x), y, X.parent, X.group)
	case 2:
		X.n.Replace(Y.n)
		l := m.list(x)
		g := X.group
		p := X.parent
		if p < 0 && g == x && len(*l) > 1 {
			// y is the first of the group now
			sibs := *l
			g = y
			Y.sibs = sibs
			for _, s := range sibs {
				m.nodes[s].group = y
			}
			l = &Y.sibs
		} else if p < 0 && g == x {
			g = y
			l = &Y.sibs
			*l = []int{x}
		}
		for i, s := range *l {
			if s == x {
				(*l)[i] = y
			}
		}
		m.attach(y, p, g)
		m.attach(x, -1, x)
		X.sibs = []int{x}
	}
}

// links compares the links of all nodes with the model.
func (m *mtree) links() {
	for i, N := range m.nodes {
		n := N.n
		var parent helium.Node
		if N.parent >= 0 {
			parent = m.nodes[N.parent].n
		}
		if got := n.Parent(); (got == nil) != (parent == nil) || parent != nil && got != parent {
			sym.Fail("a node has another parent than it was given")
		}
		l := *m.list(i)
		for k, s := range l {
			if s != i {
				continue
			}
			var next, prev helium.Node
			if k > 0 {
				prev = m.nodes[l[k-1]].n
			}
			if k+1 < len(l) {
				next = m.nodes[l[k+1]].n
			}
			if got := n.NextSibling(); (got == nil) != (next == nil) || next != nil && got != next {
				sym.Fail("a node has another next sibling")
			}
			if got := n.PrevSibling(); (got == nil) != (prev == nil) || prev != nil && got != prev {
				sym.Fail("a node has another previous sibling")
			}
		}
		if N.kind == 0 {
			var first, last helium.Node
			if len(N.kids) > 0 {
				first, last = m.nodes[N.kids[0]].n, m.nodes[N.kids[len(N.kids)-1]].n
			}
			if got := n.FirstChild(); (got == nil) != (first == nil) || first != nil && got != first {
				sym.Fail("an element has another first child")
			}
			if got := n.LastChild(); (got == nil) != (last == nil) || last != nil && got != last {
				sym.Fail("an element has another last child")
			}
		}
		if n != helium.Node(m.doc) && n.OwnerDocument() != m.doc {
			sym.Fail("a node has another owner")
		}
	}
}

func (m *mtree) contents() {
	for i, N := range m.nodes {
		got := string(N.n.Content())
		want := m.content(i)
		sym.Note("got", sym.Quote(got))
		sym.Note("want", sym.Quote(want))
		if len(got) != len(want) {
			sym.Fail("a node has other content")
		}
		sym.Assert(sym.Eq(got, want), "a node has other content")
	}
}

func (m *mtree) consistent() {
	for _, N := range m.nodes {
		if N.parent < 0 {
			checkLinks(N.n, m.doc, 0)
		}
	}
}

// P12_Edits: after any 3 operations (thorough 4) of any kind on 5 nodes the links agree with each other.
func P12_Edits() {
	m := newTree()
	for i := 0; i < tier(3, 4); i++ {
		m.op(string(byte('0' + i)))
		m.consistent()
	}
	sym.Reach("edited")
}

// P12_EditParsed: after any 2 operations (thorough 3) on the nodes of a parsed document and new ones.
func P12_EditParsed() {
	m := parsedTree()
	for i := 0; i < tier(2, 3); i++ {
		m.op(string(byte('0' + i)))
		m.consistent()
		checkLinks(m.doc, m.doc, 0)
	}
	sym.Reach("edited")
}

// parsedTree is the tree of a document, and an element, a text and a comment to add.
func parsedTree() *mtree {
	doc, err := parse("<a>t<b>u</b><!--c-->v</a>")
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	m := &mtree{doc: doc}
	a := doc.FirstChild()
	ai := m.add(a, 0, "")
	kinds := []int{1, 0, 2, 1}
	texts := []string{"t", "", "c", "v"}
	k := 0
	for c := a.FirstChild(); c != nil; c = c.NextSibling() {
		i := m.add(c, kinds[k], texts[k])
		m.nodes[ai].kids = append(m.nodes[ai].kids, i)
		m.attach(i, ai, -1)
		if k == 1 {
			j := m.add(c.FirstChild(), 1, "u")
			m.nodes[i].kids = append(m.nodes[i].kids, j)
			m.attach(j, i, -1)
		}
		k++
	}
	// the root is a child of the document, whose only child it is
	d := m.add(doc, 0, "")
	m.nodes[d].kids = []int{ai}
	m.attach(ai, d, -1)
	e, _ := doc.CreateElement("e")
	m.add(e, 0, "")
	t, _ := doc.CreateText([]byte{'w', sym.Byte("w")})
	m.add(t, 1, string([]byte{'w', sym.Byte("w")}))
	return m
}

// P12_Sizes: the links of the trees of long documents; see winSizes.
func P12_Sizes() { checkParsedLinks(winSizes()) }
