package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// Kinds of events
const (
	evStartDocument = iota
	evEndDocument
	evStartElement
	evEndElement
	evCharacters
	evIgnorable
	evCData
	evComment
	evPI
	evReference
	evLocator
	evInternalSubset
	evExternalSubset
	evEntityDecl
	evUnparsedEntityDecl
	evElementDecl
	evAttributeDecl
	evNotationDecl
	evKinds
)

// recorder is a handler that writes down the events it gets, and hands them
// on to tb if there is one.
type recorder struct {
	tb     *helium.TreeBuilder
	out    []byte // the content in canonical form
	inText bool
	cdata  []byte
	dtd    []string // one line for each declaration
	open   []string // open elements
	bad    string   // the first thing out of order
	ctx    sax.Context
	sub    recorderPart // what came while the content of an entity was parsed
	n      int          // number of events
	starts int
	ends   int
	kinds  []int

	nodef  bool                    // attributes that are defaults are left out of the canonical form
	fail   func(n, kind int) error // returns the error for the event, or nil
	failed bool
	after  int // events after the error
}

// recorderPart holds the events of another context than the document's.
type recorderPart struct {
	out    []byte
	inText bool
	open   []string
	active bool
}

func (r *recorder) swap() {
	r.out, r.sub.out = r.sub.out, r.out
	r.inText, r.sub.inText = r.sub.inText, r.inText
	r.open, r.sub.open = r.sub.open, r.open
	r.sub.active = !r.sub.active
}

func (r *recorder) event(ctx sax.Context, kind int) error {
	if r.ctx == nil {
		r.ctx = ctx
	}
	if (ctx != r.ctx) != r.sub.active {
		r.swap()
	}
	if r.failed {
		r.after++
	}
	if r.ends > 0 {
		r.note("an event after the end of the document")
	}
	if r.n > 0 && kind == evStartDocument {
		r.note("the start of the document is not the first event")
	}
	if r.starts == 0 && kind != evStartDocument && kind != evLocator {
		r.note("an event before the start of the document")
	}
	if kind == evStartDocument {
		r.starts++
	}
	if kind == evEndDocument {
		r.ends++
		if len(r.open) > 0 {
			r.note("the document ends in an element")
		}
	}
	if kind != evLocator {
		r.n++
	}
	r.kinds = append(r.kinds, kind)
	if r.fail != nil {
		if err := r.fail(r.n-1, kind); err != nil {
			if err != sax.ErrHandlerUnspecified {
				r.failed = true
			}
			return err
		}
	}
	return nil
}

func (r *recorder) note(s string) {
	if r.bad == "" {
		r.bad = s
	}
}

func (r *recorder) text(b []byte) {
	if len(b) == 0 {
		return
	}
	if !r.inText {
		r.out = append(r.out, mText)
		r.inText = true
	}
	r.out = append(r.out, b...)
}

func (r *recorder) StartDocument(ctx sax.Context) error {
	if err := r.event(ctx, evStartDocument); err != nil {
		return err
	}
	if r.tb != nil {
		return r.tb.StartDocument(ctx)
	}
	return nil
}

func (r *recorder) EndDocument(ctx sax.Context) error {
	if err := r.event(ctx, evEndDocument); err != nil {
		return err
	}
	if r.tb != nil {
		return r.tb.EndDocument(ctx)
	}
	return nil
}

func (r *recorder) SetDocumentLocator(ctx sax.Context, l sax.DocumentLocator) error {
	if err := r.event(ctx, evLocator); err != nil {
		return err
	}
	if r.tb != nil {
		return r.tb.SetDocumentLocator(ctx, l)
	}
	return nil
}

func qname(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}

func (r *recorder) StartElementNS(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, attrs []sax.Attribute) error {
	if err := r.event(ctx, evStartElement); err != nil {
		return err
	}
	r.inText = false
	r.open = append(r.open, local+"\x00"+prefix+"\x00"+uri)
	r.out = append(r.out, mElem)
	r.out = append(r.out, qname(prefix, local)...)
	r.out = append(r.out, mURI)
	r.out = append(r.out, uri...)
	for _, ns := range nss {
		r.out = append(r.out, mNS)
		r.out = append(r.out, ns.Prefix()...)
		r.out = append(r.out, mEq)
		r.out = append(r.out, ns.URI()...)
	}
	for _, a := range attrs {
		if r.nodef && a.IsDefault() {
			continue
		}
		r.out = append(r.out, mAttr)
		r.out = append(r.out, qname(a.Prefix(), a.LocalName())...)
		r.out = append(r.out, mEq)
		r.out = append(r.out, unref(a.Value())...)
	}
	r.out = append(r.out, mKids)
	if r.tb != nil {
		return r.tb.StartElementNS(ctx, local, prefix, uri, nss, attrs)
	}
	return nil
}

func (r *recorder) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	if err := r.event(ctx, evEndElement); err != nil {
		return err
	}
	r.inText = false
	n := len(r.open)
	if n == 0 {
		r.note("an element ends that was not started")
	} else {
		if r.open[n-1] != local+"\x00"+prefix+"\x00"+uri {
			r.note("another element ends than the last one started")
		}
		r.open = r.open[:n-1]
	}
	r.out = append(r.out, mEnd)
	if r.tb != nil {
		return r.tb.EndElementNS(ctx, local, prefix, uri)
	}
	return nil
}

func (r *recorder) Characters(ctx sax.Context, b []byte) error {
	if err := r.event(ctx, evCharacters); err != nil {
		return err
	}
	r.text(b)
	if r.tb != nil {
		return r.tb.Characters(ctx, b)
	}
	return nil
}

func (r *recorder) IgnorableWhitespace(ctx sax.Context, b []byte) error {
	if err := r.event(ctx, evIgnorable); err != nil {
		return err
	}
	r.text(b)
	if r.tb != nil {
		return r.tb.IgnorableWhitespace(ctx, b)
	}
	return nil
}

func (r *recorder) CDataBlock(ctx sax.Context, b []byte) error {
	if err := r.event(ctx, evCData); err != nil {
		return err
	}
	r.text(b)
	r.cdata = append(r.cdata, b...)
	if r.tb != nil {
		return r.tb.CDataBlock(ctx, b)
	}
	return nil
}

func (r *recorder) Comment(ctx sax.Context, b []byte) error {
	if err := r.event(ctx, evComment); err != nil {
		return err
	}
	r.inText = false
	r.out = append(r.out, mComment)
	r.out = append(r.out, b...)
	r.out = append(r.out, mClose)
	if r.tb != nil {
		return r.tb.Comment(ctx, b)
	}
	return nil
}

func (r *recorder) ProcessingInstruction(ctx sax.Context, target, data string) error {
	if err := r.event(ctx, evPI); err != nil {
		return err
	}
	r.inText = false
	r.out = append(r.out, mPI)
	r.out = append(r.out, target...)
	r.out = append(r.out, mEq)
	r.out = append(r.out, data...)
	r.out = append(r.out, mClose)
	if r.tb != nil {
		return r.tb.ProcessingInstruction(ctx, target, data)
	}
	return nil
}

func (r *recorder) Reference(ctx sax.Context, name string) error {
	if err := r.event(ctx, evReference); err != nil {
		return err
	}
	r.inText = false
	r.out = append(r.out, mRef)
	r.out = append(r.out, name...)
	r.out = append(r.out, mClose)
	if r.tb != nil {
		return r.tb.Reference(ctx, name)
	}
	return nil
}

func (r *recorder) InternalSubset(ctx sax.Context, name, eid, sid string) error {
	if err := r.event(ctx, evInternalSubset); err != nil {
		return err
	}
	r.dtd = append(r.dtd, "doctype "+name+"\x01"+eid+"\x01"+sid)
	if r.tb != nil {
		return r.tb.InternalSubset(ctx, name, eid, sid)
	}
	return nil
}

func (r *recorder) ExternalSubset(ctx sax.Context, name, eid, sid string) error {
	if err := r.event(ctx, evExternalSubset); err != nil {
		return err
	}
	if r.tb != nil {
		return r.tb.ExternalSubset(ctx, name, eid, sid)
	}
	return nil
}

func (r *recorder) EntityDecl(ctx sax.Context, name string, typ int, pid, sid, content string) error {
	if err := r.event(ctx, evEntityDecl); err != nil {
		return err
	}
	r.dtd = append(r.dtd, "entity "+name+"\x01"+itoa(typ)+"\x01"+pid+"\x01"+sid+"\x01"+content)
	if r.tb != nil {
		return r.tb.EntityDecl(ctx, name, typ, pid, sid, content)
	}
	return nil
}

func (r *recorder) UnparsedEntityDecl(ctx sax.Context, name, pid, sid, notation string) error {
	if err := r.event(ctx, evUnparsedEntityDecl); err != nil {
		return err
	}
	r.dtd = append(r.dtd, "unparsed "+name+"\x01"+pid+"\x01"+sid+"\x01"+notation)
	if r.tb != nil {
		return r.tb.UnparsedEntityDecl(ctx, name, pid, sid, notation)
	}
	return nil
}

func (r *recorder) ElementDecl(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
	if err := r.event(ctx, evElementDecl); err != nil {
		return err
	}
	r.dtd = append(r.dtd, "element "+name+"\x01"+itoa(typ))
	if r.tb != nil {
		return r.tb.ElementDecl(ctx, name, typ, content)
	}
	return nil
}

func (r *recorder) AttributeDecl(ctx sax.Context, elem, name string, typ, def int, value string, tree sax.Enumeration) error {
	if err := r.event(ctx, evAttributeDecl); err != nil {
		return err
	}
	l := "attribute " + elem + "\x01" + name + "\x01" + itoa(typ) + "\x01" + itoa(def) + "\x01" + value + "\x01"
	if en, ok := tree.(helium.Enumeration); ok {
		for _, v := range en {
			l += v + " "
		}
	}
	r.dtd = append(r.dtd, l)
	if r.tb != nil {
		return r.tb.AttributeDecl(ctx, elem, name, typ, def, value, tree)
	}
	return nil
}

func (r *recorder) NotationDecl(ctx sax.Context, name, pid, sid string) error {
	if err := r.event(ctx, evNotationDecl); err != nil {
		return err
	}
	r.dtd = append(r.dtd, "notation "+name+"\x01"+pid+"\x01"+sid)
	if r.tb != nil {
		return r.tb.NotationDecl(ctx, name, pid, sid)
	}
	return nil
}

func (r *recorder) Error(ctx sax.Context, msg string, args ...interface{}) error {
	return sax.ErrHandlerUnspecified
}

func (r *recorder) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.tb != nil {
		return r.tb.GetEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.tb != nil {
		return r.tb.GetParameterEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) HasExternalSubset(ctx sax.Context) (bool, error) {
	if r.tb != nil {
		return r.tb.HasExternalSubset(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) HasInternalSubset(ctx sax.Context) (bool, error) {
	if r.tb != nil {
		return r.tb.HasInternalSubset(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) IsStandalone(ctx sax.Context) (bool, error) {
	if r.tb != nil {
		return r.tb.IsStandalone(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) ResolveEntity(ctx sax.Context, pid, sid string) (sax.ParseInput, error) {
	if r.tb != nil {
		return r.tb.ResolveEntity(ctx, pid, sid)
	}
	return nil, sax.ErrHandlerUnspecified
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n >= 10 {
		return itoa(n/10) + string([]byte{byte('0' + n%10)})
	}
	return string([]byte{byte('0' + n)})
}

// unref resolves the references in an attribute value as handlers get it.
func unref(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			b = append(b, s[i])
			continue
		}
		j := i
		for j < len(s) && s[j] != ';' {
			j++
		}
		switch n := s[i+1 : j]; {
		case n == "lt":
			b = append(b, '<')
		case n == "gt":
			b = append(b, '>')
		case n == "amp":
			b = append(b, '&')
		case n == "apos":
			b = append(b, '\'')
		case n == "quot":
			b = append(b, '"')
		case len(n) > 1 && n[0] == '#':
			v, base, k := uint64(0), uint64(10), 1
			if n[1] == 'x' {
				base, k = 16, 2
			}
			for ; k < len(n); k++ {
				c := n[k]
				d := uint64(sym.Ite(c >= 'a', int(c)-'a'+10, sym.Ite(c >= 'A', int(c)-'A'+10, int(c)-'0')))
				v = v*base + d
			}
			b = appendRune(b, rune(v))
		default:
			b = append(b, s[i:j]...)
			b = append(b, ';')
		}
		i = j
	}
	return string(b)
}
