package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// parser is what parses a document.
type parser interface {
	Parse(b []byte) (*helium.Document, error)
}

// outcome is all that can be seen of what parsing gives: the tree, the
// serialisation, the settings, or the error with its place.
func outcome(p parser, s string) string {
	var doc *helium.Document
	var err error
	if p == nil {
		doc, err = helium.Parse([]byte(s))
	} else {
		doc, err = p.Parse([]byte(s))
	}
	if err != nil {
		return "error " + err.Error()
	}
	return docOutcome(doc)
}

func docOutcome(doc *helium.Document) string {
	out, err := doc.XMLString()
	if err != nil {
		return "write error " + err.Error()
	}
	return canonExpanded(doc) + "\x01" + out + "\x01" + doc.Version() + "\x01" + doc.Encoding() + "\x01" + itoa(int(doc.Standalone()))
}

func same(got, want, msg string) {
	sym.Note("got", sym.Quote(got))
	sym.Note("expected", sym.Quote(want))
	if len(got) != len(want) {
		sym.Fail(msg)
	}
	sym.Assert(sym.Eq(got, want), msg)
}

// firstDoc is a document that leaves all kinds of state behind, or an error.
func firstDoc(k string) string {
	return sym.Pick(k,
		"<a/>",
		"<?xml version='1.1' encoding='ISO-8859-1' standalone='yes'?><a>\xe9</a>",
		"<!DOCTYPE a SYSTEM 's' [<!ENTITY e '1<b/>2'><!ENTITY % p ' '><!ATTLIST a x NMTOKENS ' d  e '><!ELEMENT a (b)*>]><a>&e;</a>",
		"<a xmlns='u' xmlns:p='v'><p:b p:x='&lt;&#65;'>",
		"<!DOCTYPE a [<!ENTITY e '&e;'><!ATTLIST a x CDATA 'd'>]><a>\n&e;</a>",
		"<!DOCTYPE a [<!ENTITY e '2'><!ATTLIST a xmlns:p CDATA 'v' x (y|z) 'y'> <!ELEMENT a ANY",
		"<a>\n\n<b x='1'></c>",
		"<?xml version='1.0' standalone='no'?>\n<a><![CDATA[ ]]><!--c--><?p d?>\r\n</a>\n<!--d-->",
		"\xef\xbb\xbf<a>",
		"\xff\xfe",
		"")
}

// secondDoc is a document that would show what is left of an earlier one.
func secondDoc(k string) string {
	return sym.Pick(k,
		"<a x=' 1  2 '>t</a>",
		"<a>&e;</a>",
		"<p:a/>",
		"<a p:x=''>\n&",
		"<!DOCTYPE a [<!ENTITY e 'f'>]><a x='&e;'>&e;</a>",
		"<!DOCTYPE a [<!ELEMENT a EMPTY><!ATTLIST a x CDATA #IMPLIED>%p;]><a/>",
		"<?xml version='1.0'?>\r\n<a>\xe9</a>",
		"<a><b/> <c><d/></c>]]></a>",
		"<a>\xc3\xa9</a>")
}

// P22_Pairs: all pairs of eleven documents and nine others, each with up to one arbitrary ASCII byte somewhere: the second one's outcome is that of a new parser, and the first one's document does not change.
func P22_Pairs() {
	a := firstDoc("first")
	b := secondDoc("second")
	if w := ascii("w", 0, 1); len(w) == 1 {
		i := sym.Split(sym.Choice("at", len(b)+1))
		if !sym.Thorough() {
			sym.Assume(i%4 == 0 || i == len(b))
		}
		b = b[:i] + w + b[i:]
	}
	sym.Note("first", sym.Quote(a))
	sym.Note("second", sym.Quote(b))
	want := outcome(nil, b)
	p := helium.NewParser()
	doc, err := p.Parse([]byte(a))
	before := ""
	if err == nil {
		before = docOutcome(doc)
	}
	same(outcome(p, b), want, "a parser that was used before gives another result than a new one")
	if err == nil {
		same(docOutcome(doc), before, "a document changes when its parser is used again")
	}
	same(outcome(nil, b), want, "parsing the same again gives another result")
	sym.Reach("same")
}

// P22_Triples: sequences of three of the documents on one parser.
func P22_Triples() {
	p := helium.NewParser()
	a, b, c := firstDoc("first"), firstDoc("second"), secondDoc("third")
	want, wantB := outcome(nil, c), outcome(nil, b)
	outcome(p, a)
	same(outcome(p, b), wantB, "a parser that was used before gives another result than a new one")
	same(outcome(p, c), want, "a parser that was used before gives another result than a new one")
	sym.Reach("same")
}

// P22_Input: one of the documents with up to two arbitrary bytes in front of its last bytes, in a slice with more behind it: parsing leaves all of it alone, and the document does not change when the slice does.
func P22_Input() {
	s := ""
	if sym.Split(sym.Choice("which", 2)) == 0 {
		s = firstDoc("first")
	} else {
		s = secondDoc("second")
	}
	w := sym.StrUpTo("w", 0, tier(1, 2))
	if len(w) > 0 && len(s) > 3 {
		s = s[:len(s)-3] + w + s[len(s)-3:]
	}
	checkInput(s)
}

// P22_Windows: the same for text, attribute values, comments, CDATA sections, instructions and entities with up to two (thorough three) arbitrary bytes in them.
func P22_Windows() {
	w := sym.StrUpTo("w", 0, tier(2, 3))
	checkInput(sym.Pick("doc", "<a>x", "<a b='x", "<!--x", "<a><![CDATA[x", "<?p x", "<!DOCTYPE a [<!ENTITY e 'x") + w + sym.Pick("end", "</a>", "'/>", "--><a/>", "]]></a>", "?><a/>", "'>]><a>&e;</a>"))
}

func checkInput(s string) {
	sym.Note("document", sym.Quote(s))
	buf := make([]byte, len(s), len(s)+4)
	copy(buf, s)
	more := buf[:len(s)+4]
	copy(more[len(s):], "<!--")
	doc, err := helium.Parse(buf)
	sym.Assert(string(more) == s+"<!--", "the input is modified")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	want := docOutcome(doc)
	for i := range more {
		more[i] = 'X'
	}
	same(docOutcome(doc), want, "the document changes with the buffer it was parsed from")
	sym.Assert(string(more[:1]) == "X", "serialising writes to the input")
	sym.Reach("accepted")
}

// P22_Handlers: events of one of the documents on a parser that was used before, with the same or another handler.
func P22_Handlers() {
	a, b := firstDoc("first"), secondDoc("second")
	run := func(p *helium.Parser) string {
		r := &recorder{}
		p.SetSAXHandler(r)
		_, err := p.Parse([]byte(b))
		out := string(r.out) + "\x02"
		for _, d := range r.dtd {
			out += d + "\x02"
		}
		for _, k := range r.kinds {
			out += itoa(k) + " "
		}
		if err != nil {
			out += err.Error()
		}
		return out
	}
	want := run(helium.NewParser())
	p := helium.NewParser()
	if sym.Split(sym.Choice("with", 2)) == 1 {
		p.SetSAXHandler(&recorder{})
	}
	p.Parse([]byte(a))
	same(run(p), want, "a parser that was used before sends other events than a new one")
	// and back to a tree
	wantDoc := outcome(nil, b)
	p.SetSAXHandler(helium.NewTreeBuilder())
	same(outcome(p, b), wantDoc, "a parser that had another handler before gives another result than a new one")
	sym.Reach("same")
}

// reenter parses another document at one of the events.
type reenter struct {
	*recorder
	p    parser
	at   int
	s    string
	got  string
	done bool
}

func (r *reenter) maybe() {
	if r.done {
		return
	}
	if r.at--; r.at < 0 {
		r.done = true
		r.got = outcome(r.p, r.s)
	}
}

func (r *reenter) StartElementNS(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, attrs []sax.Attribute) error {
	r.maybe()
	err := r.recorder.StartElementNS(ctx, local, prefix, uri, nss, attrs)
	return err
}

func (r *reenter) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	err := r.recorder.EndElementNS(ctx, local, prefix, uri)
	r.maybe()
	return err
}

func (r *reenter) Characters(ctx sax.Context, b []byte) error {
	r.maybe()
	return r.recorder.Characters(ctx, b)
}

func (r *reenter) EntityDecl(ctx sax.Context, name string, typ int, pid, sid, content string) error {
	r.maybe()
	return r.recorder.EntityDecl(ctx, name, typ, pid, sid, content)
}

// P22_Reentrant: while a document is parsed, at any of its first four events, another one is parsed.
func P22_Reentrant() {
	a := "<!DOCTYPE a [<!ENTITY e '1<b x=\"y\"/>2'>]><a xmlns:p='u' p:q='r&e;'>s&e;t<p:c>d</p:c></a>"
	if sym.Split(sym.Choice("valid", 2)) == 1 {
		a = "<a x='1'>tt<b>\n</c>"
	}
	b := ""
	if sym.Split(sym.Choice("which", 2)) == 0 {
		b = firstDoc("first")
	} else {
		b = secondDoc("second")
	}
	sym.Note("outer", sym.Quote(a))
	sym.Note("inner", sym.Quote(b))
	wantA, wantB := outcome(nil, a), outcome(nil, b)
	r := &reenter{recorder: &recorder{tb: helium.NewTreeBuilder()}, at: sym.Split(sym.Choice("at", 5)), s: b}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	same(outcome(p, a), wantA, "a document parsed meanwhile changes another one's result")
	if r.done {
		same(r.got, wantB, "parsing from a handler gives another result")
	}
	sym.Reach("same")
}

// P22_Edited: changing one document leaves another one of the same bytes alone.
func P22_Edited() {
	s := "<!DOCTYPE a [<!ENTITY e '1<b/>2'><!ENTITY f '3'><!ATTLIST a x CDATA 'd'>]><a y='&f;&lt;'>t&e;<c/></a>"
	p := helium.NewParser()
	one, err := p.Parse([]byte(s))
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	two, err := p.Parse([]byte(s))
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	want := docOutcome(two)
	w := []byte(sym.Str("w", 1))
	e := rootOf(one).(*helium.Element)
	for i := 0; i < tier(2, 3); i++ {
		switch sym.Split(sym.Choice("op"+itoa(i), 7)) {
		case 0:
			e.FirstChild().AddContent(w)
		case 1:
			e.AddContent(w)
		case 2:
			e.SetAttribute("z", "v")
		case 3:
			one.AddEntity("n", helium.InternalGeneralEntity, "", "", "v")
		case 4:
			if ent, ok := one.GetEntity("e"); ok {
				ent.AddContent(w)
				ent.SetOrig("v")
				ent.MarkChecked()
			}
		case 5:
			c, _ := one.CreateElement("n")
			e.FirstChild().Replace(c)
		case 6:
			e.Attributes()[0].AddContent(w)
			one.IntSubset().RemoveElement("a", "")
		}
	}
	same(docOutcome(two), want, "a document changes with another one")
	sym.Reach("same")
}

// similar is a document with the given text in one of 17 places.
func similar(kind int, w string) string {
	return []string{
		"<a xmlns:p='" + w + "'><p:b/><c p:d=''/></a>",
		"<a xmlns='" + w + "'><b/></a>",
		"<a xmlns:" + w + "='u'><" + w + ":b/></a>",
		"<!DOCTYPE a [<!ENTITY e '" + w + "'>]><a>&e;<b c='&e;'/></a>",
		"<!DOCTYPE a [<!ENTITY e '<b>" + w + "</b>'>]><a>&e;</a>",
		"<!DOCTYPE a [<!ENTITY " + w + " 'e'>]><a>&" + w + ";</a>",
		"<!DOCTYPE a [<!ENTITY % e '<!--" + w + "-->'>%e;]><a/>",
		"<!DOCTYPE a [<!ATTLIST a b CDATA '" + w + "'>]><a/>",
		"<!DOCTYPE a [<!ATTLIST a " + w + " NMTOKENS #IMPLIED>]><a x=' 1  2' y=' 1  2'/>",
		"<!DOCTYPE a [<!ELEMENT a (" + w + ")>]><a> <x/></a>",
		"<!DOCTYPE " + w + " SYSTEM '" + w + "'><" + w + "/>",
		"<a>" + w + "</a>",
		"<a b='" + w + "'/>",
		"<a><!--" + w + "--></a>",
		"<a><?p " + w + "?></a>",
		"<a><![CDATA[" + w + "]]></a>",
		"<" + w + "><b/></" + w + ">",
	}[kind]
}

// P22_Similar: two documents that differ by an arbitrary letter at one of 17 places, or one of them and a document that differs at another place, then the first one again, on one parser: each gives what it gives a new parser.
func P22_Similar() {
	kind := sym.Split(sym.Choice("kind", 17))
	w, v := sym.Str("w", 1), sym.Str("v", 1)
	sym.Assume(sym.And(sym.Between(w[0], 'm', 'z'), sym.Between(v[0], 'm', 'z')))
	first := similar(kind, w)
	other := kind
	if d := sym.Split(sym.Choice("other", 17)); d > 0 {
		other = (kind + d) % 17
	}
	second := similar(other, v)
	wantFirst, wantSecond := outcome(nil, first), outcome(nil, second)
	p := helium.NewParser()
	same(outcome(p, first), wantFirst, "a new parser gives another result")
	same(outcome(p, second), wantSecond, "a parser that was used before gives another result than a new one")
	same(outcome(p, first), wantFirst, "parsing the same again gives another result")
	sym.Reach("same")
}
