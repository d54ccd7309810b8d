package h

import (
	"errors"
	"io"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

func preorder(n helium.Node, out []helium.Node) []helium.Node {
	out = append(out, n)
	var kids []helium.Node
	// from the back, unlike the code under test
	for c := n.LastChild(); c != nil; c = c.PrevSibling() {
		kids = append(kids, c)
	}
	for i := len(kids) - 1; i >= 0; i-- {
		out = preorder(kids[i], out)
	}
	return out
}

func checkWalk(n helium.Node) {
	checkWalkErr(n, errors.New("stop"))
}

func checkWalkErr(n helium.Node, stop error) {
	want := preorder(n, nil)
	// the callback fails on the node with this number, if there is one
	k := sym.Int("k", 0, 40)
	i := 0
	over := false
	err := helium.Walk(n, func(m helium.Node) error {
		if over {
			sym.Fail("the walk goes on after an error")
		}
		if i >= len(want) || m != want[i] {
			sym.Fail("a node is visited out of order")
		}
		i++
		if i-1 == k {
			over = true
			return stop
		}
		return nil
	})
	if over {
		sym.Assert(err == stop, "the callback's error is not returned")
		sym.Reach("stopped")
		return
	}
	sym.Assert(err == nil, "an error that no callback returned")
	sym.Assert(i == len(want), "not every node is visited")
	sym.Reach("complete")
}

// P14_Parsed: walks over the documents of winTokens, from the document, with an error at any of the first 40 nodes or none.
func P14_Parsed() {
	doc, err := parse(winTokens())
	if err != nil {
		sym.Reach("rejected")
		return
	}
	checkWalk(doc)
}

// P14_Nodes: walks from every node of a tree made by any 4 additions (thorough 5) of five kinds, with content and without.
func P14_Nodes() {
	doc := helium.CreateDocument()
	c, t, d := []byte("c"), []byte("t"), "d"
	if sym.Split(sym.Choice("empty", 2)) == 1 {
		c, t, d = nil, nil, ""
	}
	var els []helium.Node
	r, _ := doc.CreateElement("r")
	els = append(els, r)
	all := []helium.Node{r}
	for i := 0; i < tier(4, 5); i++ {
		k := string(byte('0' + i))
		at := els[sym.Split(sym.Choice("at"+k, len(els)))]
		var n helium.Node
		switch sym.Split(sym.Choice("kind"+k, 5)) {
		case 0:
			n, _ = doc.CreateElement("e")
			els = append(els, n)
		case 1:
			n, _ = doc.CreateComment(c)
		case 2:
			n, _ = doc.CreatePI("p", d)
		case 3:
			n, _ = doc.CreateText(t)
		case 4:
			n, _ = doc.CreateReference("lt")
		}
		at.AddChild(n)
		all = append(all, n)
	}
	checkWalk(all[sym.Split(sym.Choice("start", len(all)))])
}

// P14_DTD: a document with a document type and entities.
func P14_DTD() {
	doc, err := parse("<?p?><!DOCTYPE a [<!ENTITY e 'x<b/>'><!--c--><!ELEMENT a ANY>]><a>&e;<b>t</b>&e;</a><!--d-->")
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	checkWalk(doc)
}

// P14_Nil: walking nothing is an error, and calls nothing.
func P14_Nil() {
	err := helium.Walk(nil, func(helium.Node) error {
		sym.Fail("the callback is called for no node")
		return nil
	})
	sym.Assert(err != nil, "walking no node is not an error")
	sym.Reach("error")
}

// P14_Sizes: walks over the trees of long documents; see winSizes.
func P14_Sizes() {
	doc, err := parse(winSizes())
	if err != nil {
		sym.Reach("rejected")
		return
	}
	checkWalk(doc)
	sym.Reach("walked")
}

type walkError struct{ n int }

func (e walkError) Error() string { return "" }

// P14_Errors: the callback's error is any of 19: those of the packages and the library that may mean something elsewhere, and others.
func P14_Errors() {
	_, perr := helium.Parse([]byte("<a>"))
	errs := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, sax.ErrHandlerUnspecified, helium.ErrParseSucceeded, helium.ErrNilNode, helium.ErrInvalidOperation, helium.ErrDuplicateAttribute, helium.ErrEOF, helium.ErrPrematureEOF, helium.ErrDocumentEnd, helium.ErrEmptyDocument, helium.ErrEntityNotFound, helium.ErrUndeclaredEntity, helium.ErrInvalidDocument, perr, errors.New(""), walkError{1}, &walkError{2}}
	stop := errs[sym.Split(sym.Choice("error", len(errs)))]
	doc, err := parse("<!DOCTYPE a [<!ENTITY e 'x'>]><a><b>t<c/></b><!--d--><?p?>&e;</a>")
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	checkWalkErr(doc, stop)
}
