package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// canonNode appends the canonical form of a node.
func canonNode(out []byte, n helium.Node) []byte {
	switch n.Type() {
	case helium.ElementNode:
		e := n.(*helium.Element)
		out = append(out, mElem)
		out = append(out, e.Name()...)
		out = append(out, mURI)
		out = append(out, e.URI()...)
		for _, ns := range e.Namespaces() {
			out = append(out, mNS)
			out = append(out, ns.Prefix()...)
			out = append(out, mEq)
			out = append(out, ns.URI()...)
		}
		for _, a := range e.Attributes() {
			out = append(out, mAttr)
			out = append(out, a.Name()...)
			out = append(out, mEq)
			out = append(out, a.Value()...)
		}
		out = append(out, mKids)
		for c := e.FirstChild(); c != nil; c = c.NextSibling() {
			out = canonNode(out, c)
		}
		out = append(out, mEnd)
	case helium.TextNode:
		if c := n.Content(); len(c) > 0 {
			out = append(out, mText)
			out = append(out, c...)
		}
	case helium.CommentNode:
		out = append(out, mComment)
		out = append(out, n.Content()...)
		out = append(out, mClose)
	case helium.ProcessingInstructionNode:
		out = append(out, mPI)
		out = append(out, n.Name()...)
		out = append(out, mEq)
		out = append(out, n.Content()...)
		out = append(out, mClose)
	case helium.EntityRefNode:
		if expandDoc != nil {
			ent, ok := expandDoc.GetEntity(n.Name())
			if !ok {
				sym.Fail("a reference to an entity that isn't declared is in the tree")
			}
			for c := ent.FirstChild(); c != nil; c = c.NextSibling() {
				out = canonNode(out, c)
			}
			return out
		}
		out = append(out, mRef)
		out = append(out, n.Name()...)
		out = append(out, mClose)
	case helium.DTDNode:
		// of its children, only those that are no declarations are part of the canonical form
		for c := n.FirstChild(); c != nil; c = c.NextSibling() {
			if t := c.Type(); t == helium.CommentNode || t == helium.ProcessingInstructionNode {
				out = canonNode(out, c)
			}
		}
	default:
		sym.Fail("unexpected kind of node in the tree")
	}
	return out
}

// canon is the canonical form of a document.
func canon(doc *helium.Document) string {
	var out []byte
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		out = canonNode(out, c)
	}
	return string(out)
}

// parse checks that parsing gives a document or an error.
func parse(s string) (*helium.Document, error) {
	sym.Note("document", sym.Quote(s))
	doc, err := helium.Parse([]byte(s))
	if err != nil && doc != nil {
		sym.Fail("a document is returned together with an error")
	}
	if err == nil && doc == nil {
		sym.Fail("neither a document nor an error is returned")
	}
	return doc, err
}

// ascii is an arbitrary string of lo..hi ASCII bytes.
func ascii(name string, lo, hi int) string {
	s := sym.StrUpTo(name, lo, hi)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// xmlText is like ascii, without bytes that no XML document may contain.
func xmlText(name string, lo, hi int) string {
	s := sym.StrUpTo(name, lo, hi)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] < 0x80, sym.Or(s[i] >= 0x20, sym.In(s[i], "\t\n\r"))))
	}
	return s
}

func tier(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// sameTree checks an accepted document against the oracle's form.
func sameTree(doc *helium.Document, form string) {
	sameForm(canon(doc), form)
}

func sameForm(got, form string) {
	sym.Note("tree", sym.Quote(got))
	sym.Note("expected", sym.Quote(form))
	if len(got) != len(form) {
		sym.Fail("the tree is not the document's")
	}
	sym.Assert(sym.Eq(got, form), "the tree is not the document's")
}

// wellFormed: the reference reader rejects s, so parsing must.
func checkReject(s string) {
	v, _, _ := refParse(s)
	if v != refReject {
		sym.Reach("wellformed")
		return
	}
	_, err := parse(s)
	sym.Assert(err != nil, "a document that is not well-formed is accepted")
	sym.Reach("rejected")
}

// checkAccept: the reference reader accepts s, so parsing must, with the same tree.
func checkAccept(s string) {
	v, form, r := refParse(s)
	if v != refAccept && !r.onlyInvalid() {
		sym.Reach("other")
		return
	}
	doc, err := parse(s)
	if err != nil {
		if v != refAccept {
			sym.Reach("invalid")
			return
		}
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	if doc.IntSubset() != nil {
		sameForm(canonExpanded(doc), form)
	} else {
		sameTree(doc, form)
	}
	sym.Reach("accepted")
}

// checkTotal: parsing s terminates with a document or an error.
func checkTotal(s string) {
	_, err := parse(s)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

func dump(doc *helium.Document) string {
	out, err := doc.XMLString()
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("serialisation fails")
	}
	sym.Note("serialised", sym.Quote(out))
	return out
}

// checkRoundTrip: if s is accepted its serialisation reads back.
func checkRoundTrip(s string) {
	doc, err := parse(s)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	form := canon(doc)
	d1 := dump(doc)
	again, err := helium.Parse([]byte(d1))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	sameTree(again, form)
	v := doc.Version()
	if v == "" {
		v = "1.0" // no XML declaration
	}
	sym.Assert(v == again.Version(), "the version is lost in serialisation")
	sym.Assert(doc.Encoding() == again.Encoding(), "the encoding is lost in serialisation")
	if doc.Standalone() != helium.StandaloneImplicitNo && doc.Standalone() != helium.StandaloneNoXMLDecl {
		sym.Assert(doc.Standalone() == again.Standalone(), "standalone is lost in serialisation")
	}
	if (doc.IntSubset() == nil) != (again.IntSubset() == nil) {
		sym.Fail("the document type is lost in serialisation")
	}
	if doc.IntSubset() != nil && doc.IntSubset().Name() != again.IntSubset().Name() {
		sym.Fail("the document type's name is changed by serialisation")
	}
	if doc.IntSubset() != nil {
		if v, _, r := refParse(s); (v == refAccept || r.onlyInvalid()) && r.dtd != nil && !r.emptyID {
			_, _, w := refParse(d1)
			if w == nil || w.dtd == nil {
				sym.Fail("the document type is lost in serialisation")
			}
			sameDecls(w.dtd.decls, r.dtd.decls, "the declarations are changed by serialisation")
		}
	}
	d2 := dump(again)
	sym.Assert(sym.Eq(d1, d2), "serialising again gives other bytes")
	sym.Reach("roundtrip")
}

// canonExpanded is like canon, with the replacement for each entity reference.
func canonExpanded(doc *helium.Document) string {
	expandDoc = doc
	out := canon(doc)
	expandDoc = nil
	// text on both sides of a reference is one
	var b []byte
	for i := 0; i < len(out); i++ {
		if out[i] == mRef {
			continue
		}
		b = append(b, out[i])
	}
	return string(mergeText(b))
}

var expandDoc *helium.Document

// mergeText removes the marks at which text goes on.
func mergeText(b []byte) []byte {
	var out []byte
	inText := false
	for _, c := range b {
		switch {
		case c == mText:
			if !inText {
				out = append(out, c)
			}
			inText = true
		case c < 0x20 && c != '\t' && c != '\n' && c != '\r':
			inText = false
			out = append(out, c)
		default:
			out = append(out, c)
		}
	}
	return out
}
