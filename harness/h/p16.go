package h

import (
	"errors"
	"io"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

var errStop = errors.New("the handler's error")

func p16Doc() string {
	return sym.Pick("doc",
		"<?xml version='1.0'?><!--c--><?p d?><a x='1'>t<b/><![CDATA[u]]>&#65;&lt;<!--d--><?q?> <c>v</c></a><!--e-->",
		"<!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a b CDATA 'x' c ID #IMPLIED><!ENTITY e 'y<b>z</b>'><!ENTITY f SYSTEM 'g'><!--c--><?p?>]><a>&e;t&e;</a>",
		"<!DOCTYPE a PUBLIC 'p' 's' [<!NOTATION n SYSTEM 'm'>]><a> <b> </b></a>",
		"<!DOCTYPE a SYSTEM 's' [<!ENTITY % p '<!ELEMENT a EMPTY>'>%p;]><a/>",
		"<!DOCTYPE a SYSTEM 's' [<!ENTITY u SYSTEM 'g' NDATA n>]><a xmlns='u' xmlns:p='v'><p:b p:c='d'/></a>")
}

// P16_Error: the handler returns an error for the event with any number: it's the last one, and the parse reports it.
func P16_Error() {
	s := p16Doc()
	k := sym.Int("k", 0, 40)
	r := &recorder{}
	if sym.Split(sym.Choice("tree", 2)) == 1 {
		r.tb = helium.NewTreeBuilder()
	}
	r.fail = func(n, kind int) error {
		if kind != evLocator && n == k {
			return errStop
		}
		return nil
	}
	checkStops(s, r)
}

// P16_Locator: likewise for the locator, which comes before all other events.
func P16_Locator() {
	r := &recorder{tb: helium.NewTreeBuilder()}
	r.fail = func(n, kind int) error {
		if kind == evLocator {
			return errStop
		}
		return nil
	}
	checkStops(p16Doc(), r)
}

func checkStops(s string, r *recorder) {
	checkStopsErr(s, r, errStop)
}

func checkStopsErr(s string, r *recorder, stop error) {
	sym.Note("document", sym.Quote(s))
	p := helium.NewParser()
	p.SetSAXHandler(r)
	doc, err := p.Parse([]byte(s))
	if !r.failed {
		sym.Reach("no such event")
		return
	}
	if err == nil {
		sym.Fail("the handler's error is not reported")
	}
	if doc != nil {
		sym.Fail("a document is returned although the handler failed")
	}
	if r.after > 0 {
		sym.Fail("events are delivered after the handler's error")
	}
	if err != stop {
		pe, ok := err.(helium.ErrParseError)
		if !ok || pe.Err != stop {
			sym.Note("error", err.Error())
			sym.Fail("the handler's error is not the cause of the one reported")
		}
	}
	if !strings.Contains(err.Error(), stop.Error()) {
		sym.Fail("the message does not tell of the handler's error")
	}
	sym.Reach("stopped")
}

// P16_Errors: the error that the handler returns for the event with any number is any of 22: those of the packages that may mean something elsewhere, and others.
func P16_Errors() {
	errs := []error{io.EOF, io.ErrUnexpectedEOF, helium.ErrParseSucceeded, helium.ErrNilNode, helium.ErrInvalidOperation, helium.ErrDuplicateAttribute, helium.ErrEOF, helium.ErrPrematureEOF, helium.ErrDocumentEnd, helium.ErrEmptyDocument, helium.ErrEntityNotFound, helium.ErrUndeclaredEntity, helium.ErrInvalidDocument, helium.ErrInvalidDTD, helium.ErrInvalidName, helium.ErrInvalidComment, helium.ErrInvalidCDSect, helium.ErrCDATAInvalid, helium.ErrInvalidProcessingInstruction, helium.ErrMisplacedCDATAEnd, helium.ErrInvalidChar, errors.New("")}
	stop := errs[sym.Split(sym.Choice("error", len(errs)))]
	k := sym.Int("k", 0, 40)
	r := &recorder{}
	if sym.Split(sym.Choice("tree", 2)) == 1 {
		r.tb = helium.NewTreeBuilder()
	}
	r.fail = func(n, kind int) error {
		if kind != evLocator && n == k {
			return stop
		}
		return nil
	}
	checkStopsErr(p16Doc(), r, stop)
}

// P16_Window: the handler fails at any event, in a document with arbitrary bytes.
func P16_Window() {
	s := "<a>" + ascii("w", 0, tier(4, 5)) + "</a>"
	k := sym.Int("k", 0, 40)
	r := &recorder{}
	r.fail = func(n, kind int) error {
		if kind != evLocator && n == k {
			return errStop
		}
		return nil
	}
	checkStops(s, r)
}

// P16_Unspecified: up to three kinds of events (thorough: any) the handler leaves unspecified make no difference to the others.
func P16_Unspecified() {
	s := sym.Pick("doc",
		"<?xml version='1.0'?><!--c--><?p d?><a x='1'>t<b/><![CDATA[u]]>&#65;&lt;<!--d--><?q?> <c>v</c></a><!--e-->",
		"<!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a b CDATA 'x' c ID #IMPLIED><!ENTITY f SYSTEM 'g'><!--c--><?p?>]><a>t <b/></a>",
		"<!DOCTYPE a PUBLIC 'p' 's' []><a> <b> </b></a>")
	sym.Note("document", sym.Quote(s))
	full := &recorder{}
	p := helium.NewParser()
	p.SetSAXHandler(full)
	if _, err := p.Parse([]byte(s)); err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	// which kinds are left unspecified is decided when they first happen
	state := make([]int, evKinds)
	left := 0
	r := &recorder{}
	r.fail = func(n, kind int) error {
		if state[kind] == 0 {
			state[kind] = 1
			if left < tier(3, 20) && sym.Bool("unspecified" + itoa(kind)) {
				state[kind] = 2
				left++
			}
		}
		if state[kind] == 2 {
			return sax.ErrHandlerUnspecified
		}
		return nil
	}
	p = helium.NewParser()
	p.SetSAXHandler(r)
	_, err := p.Parse([]byte(s))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a handler that leaves events unspecified makes parsing fail")
	}
	if len(r.kinds) != len(full.kinds) {
		sym.Fail("another number of events is delivered if some are left unspecified")
	}
	for i := range r.kinds {
		if r.kinds[i] != full.kinds[i] {
			sym.Fail("other events are delivered if some are left unspecified")
		}
	}
	sym.Reach("same")
}

// P16_Table: a table of functions with any of the content functions left out delivers the others' events unchanged.
func P16_Table() {
	s := "<!--c--><a x='1'>t<b/><![CDATA[u]]><?q r?> <c>v</c></a>"
	full := &recorder{}
	part := &recorder{}
	run := func(r *recorder, leave int) {
		h := sax.New()
		set := func(i int) bool { return leave != i }
		if set(0) {
			h.StartDocumentHandler = r.StartDocument
		}
		if set(1) {
			h.EndDocumentHandler = r.EndDocument
		}
		if set(2) {
			h.StartElementNSHandler = r.StartElementNS
		}
		if set(3) {
			h.EndElementNSHandler = r.EndElementNS
		}
		if set(4) {
			h.CharactersHandler = r.Characters
		}
		if set(5) {
			h.CDataBlockHandler = r.CDataBlock
		}
		if set(6) {
			h.CommentHandler = r.Comment
		}
		if set(7) {
			h.ProcessingInstructionHandler = r.ProcessingInstruction
		}
		if set(8) {
			h.IgnorableWhitespaceHandler = r.IgnorableWhitespace
		}
		p := helium.NewParser()
		p.SetSAXHandler(h)
		if _, err := p.Parse([]byte(s)); err != nil {
			sym.Fail("a well-formed document is rejected")
		}
	}
	run(full, -1)
	leave := sym.Split(sym.Choice("leave", 9))
	run(part, leave)
	kind := []int{evStartDocument, evEndDocument, evStartElement, evEndElement, evCharacters, evCData, evComment, evPI, evIgnorable}[leave]
	var want []int
	for _, k := range full.kinds {
		if k != kind {
			want = append(want, k)
		}
	}
	if len(want) != len(part.kinds) {
		sym.Fail("another number of events is delivered if a function is left out")
	}
	for i := range want {
		if want[i] != part.kinds[i] {
			sym.Fail("other events are delivered if a function is left out")
		}
	}
	sym.Reach("same")
}
