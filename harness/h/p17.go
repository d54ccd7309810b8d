// Generated by tools/gen_p17.py.

package h

import (
	"errors"
	"io"

	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

var errHandler = errors.New("handler")

// how long strings and slices are
var n17 int

func str17(n string) string {
	if n17 == 0 {
		return ""
	}
	return sym.Str(n+"."+itoa(n17), n17)
}

func nss17() []sax.Namespace {
	return []sax.Namespace{nsv(0), nsv(1)}[:n17]
}

func ats17() []sax.Attribute {
	return []sax.Attribute{atv(0), atv(1)}[:n17]
}

type anyVal struct{ n int }

var anyVals [2]anyVal

func anyPtr(n string) interface{} { return &anyVals[sym.Choice(n, 2)] }

type nsItem struct{ i int }

func (n nsItem) Prefix() string { return "p" }
func (n nsItem) URI() string    { return "u" }
func nsv(i int) sax.Namespace   { return nsItem{i} }

type atItem struct{ i int }

func (n atItem) LocalName() string { return "l" }
func (n atItem) Name() string      { return "l" }
func (n atItem) Prefix() string    { return "" }
func (n atItem) Value() string     { return "v" }
func (n atItem) IsDefault() bool   { return false }
func atv(i int) sax.Attribute      { return atItem{i} }

type entItem struct{ i int }

func (e *entItem) Name() string    { return "" }
func (e *entItem) SetOrig(string)  {}
func (e *entItem) EntityType() int { return 0 }
func (e *entItem) Content() []byte { return nil }
func (e *entItem) Checked() bool   { return false }
func (e *entItem) MarkChecked()    {}

const nHandlers = 25

// call17 invokes method k of s and checks what comes back: with its own
// handler installed the handler's result, without it the unset error. seen[j]
// counts the calls of handler j.
func install17(s *sax.SAX2, ctx sax.Context, skip int, seen *[nHandlers]int, ret error, ext bool) {
	if skip != 0 {
		s.AttributeDeclHandler = func(c sax.Context, g0 string, g1 string, g2 int, g3 int, g4 string, g5 sax.Enumeration) error {
			seen[0]++
			sym.Assert(c == ctx, "AttributeDecl handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "AttributeDecl handler got a different elem")
			sym.Assert(sym.Eq(g1, str17("a1")), "AttributeDecl handler got a different fullname")
			sym.Assert(g2 == int(sym.U64("a2")), "AttributeDecl handler got a different typ")
			sym.Assert(g3 == int(sym.U64("a3")), "AttributeDecl handler got a different def")
			sym.Assert(sym.Eq(g4, str17("a4")), "AttributeDecl handler got a different defaultValue")
			sym.Assert(g5 == anyPtr("a5"), "AttributeDecl handler got a different tree")
			return ret
		}
	}
	if skip != 1 {
		s.CDataBlockHandler = func(c sax.Context, g0 []byte) error {
			seen[1]++
			sym.Assert(c == ctx, "CDataBlock handler got a different context")
			sym.Assert(sym.Eq(string(g0), string([]byte(str17("a0")))), "CDataBlock handler got different value")
			return ret
		}
	}
	if skip != 2 {
		s.CharactersHandler = func(c sax.Context, g0 []byte) error {
			seen[2]++
			sym.Assert(c == ctx, "Characters handler got a different context")
			sym.Assert(sym.Eq(string(g0), string([]byte(str17("a0")))), "Characters handler got different ch")
			return ret
		}
	}
	if skip != 3 {
		s.CommentHandler = func(c sax.Context, g0 []byte) error {
			seen[3]++
			sym.Assert(c == ctx, "Comment handler got a different context")
			sym.Assert(sym.Eq(string(g0), string([]byte(str17("a0")))), "Comment handler got different value")
			return ret
		}
	}
	if skip != 4 {
		s.ElementDeclHandler = func(c sax.Context, g0 string, g1 int, g2 sax.ElementContent) error {
			seen[4]++
			sym.Assert(c == ctx, "ElementDecl handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "ElementDecl handler got a different name")
			sym.Assert(g1 == int(sym.U64("a1")), "ElementDecl handler got a different typ")
			sym.Assert(g2 == anyPtr("a2"), "ElementDecl handler got a different content")
			return ret
		}
	}
	if skip != 5 {
		s.EndDocumentHandler = func(c sax.Context) error {
			seen[5]++
			sym.Assert(c == ctx, "EndDocument handler got a different context")
			return ret
		}
	}
	if skip != 6 {
		s.EndElementNSHandler = func(c sax.Context, g0 string, g1 string, g2 string) error {
			seen[6]++
			sym.Assert(c == ctx, "EndElementNS handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "EndElementNS handler got a different localname")
			sym.Assert(sym.Eq(g1, str17("a1")), "EndElementNS handler got a different prefix")
			sym.Assert(sym.Eq(g2, str17("a2")), "EndElementNS handler got a different uri")
			return ret
		}
	}
	if skip != 7 {
		s.EntityDeclHandler = func(c sax.Context, g0 string, g1 int, g2 string, g3 string, g4 string) error {
			seen[7]++
			sym.Assert(c == ctx, "EntityDecl handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "EntityDecl handler got a different name")
			sym.Assert(g1 == int(sym.U64("a1")), "EntityDecl handler got a different typ")
			sym.Assert(sym.Eq(g2, str17("a2")), "EntityDecl handler got a different publicID")
			sym.Assert(sym.Eq(g3, str17("a3")), "EntityDecl handler got a different systemID")
			sym.Assert(sym.Eq(g4, str17("a4")), "EntityDecl handler got a different content")
			return ret
		}
	}
	if skip != 8 {
		s.ErrorHandler = func(c sax.Context, g0 string, g1 ...interface{}) error {
			seen[8]++
			sym.Assert(c == ctx, "Error handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "Error handler got a different message")
			sym.Assert(len(g1) == 2 && g1[0] == anyPtr("a1") && g1[1] == interface{}(7), "Error handler got different args")
			return ret
		}
	}
	if skip != 9 {
		s.ExternalSubsetHandler = func(c sax.Context, g0 string, g1 string, g2 string) error {
			seen[9]++
			sym.Assert(c == ctx, "ExternalSubset handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "ExternalSubset handler got a different name")
			sym.Assert(sym.Eq(g1, str17("a1")), "ExternalSubset handler got a different externalID")
			sym.Assert(sym.Eq(g2, str17("a2")), "ExternalSubset handler got a different systemID")
			return ret
		}
	}
	if skip != 10 {
		s.GetEntityHandler = func(c sax.Context, g0 string) (sax.Entity, error) {
			seen[10]++
			sym.Assert(c == ctx, "GetEntity handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "GetEntity handler got a different name")
			return ent17, ret
		}
	}
	if skip != 11 {
		s.GetParameterEntityHandler = func(c sax.Context, g0 string) (sax.Entity, error) {
			seen[11]++
			sym.Assert(c == ctx, "GetParameterEntity handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "GetParameterEntity handler got a different name")
			return ent17, ret
		}
	}
	if skip != 12 {
		s.HasExternalSubsetHandler = func(c sax.Context) (bool, error) {
			seen[12]++
			sym.Assert(c == ctx, "HasExternalSubset handler got a different context")
			return ext, ret
		}
	}
	if skip != 13 {
		s.HasInternalSubsetHandler = func(c sax.Context) (bool, error) {
			seen[13]++
			sym.Assert(c == ctx, "HasInternalSubset handler got a different context")
			return ext, ret
		}
	}
	if skip != 14 {
		s.IgnorableWhitespaceHandler = func(c sax.Context, g0 []byte) error {
			seen[14]++
			sym.Assert(c == ctx, "IgnorableWhitespace handler got a different context")
			sym.Assert(sym.Eq(string(g0), string([]byte(str17("a0")))), "IgnorableWhitespace handler got different ch")
			return ret
		}
	}
	if skip != 15 {
		s.InternalSubsetHandler = func(c sax.Context, g0 string, g1 string, g2 string) error {
			seen[15]++
			sym.Assert(c == ctx, "InternalSubset handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "InternalSubset handler got a different name")
			sym.Assert(sym.Eq(g1, str17("a1")), "InternalSubset handler got a different externalID")
			sym.Assert(sym.Eq(g2, str17("a2")), "InternalSubset handler got a different systemID")
			return ret
		}
	}
	if skip != 16 {
		s.IsStandaloneHandler = func(c sax.Context) (bool, error) {
			seen[16]++
			sym.Assert(c == ctx, "IsStandalone handler got a different context")
			return ext, ret
		}
	}
	if skip != 17 {
		s.NotationDeclHandler = func(c sax.Context, g0 string, g1 string, g2 string) error {
			seen[17]++
			sym.Assert(c == ctx, "NotationDecl handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "NotationDecl handler got a different name")
			sym.Assert(sym.Eq(g1, str17("a1")), "NotationDecl handler got a different publicID")
			sym.Assert(sym.Eq(g2, str17("a2")), "NotationDecl handler got a different systemID")
			return ret
		}
	}
	if skip != 18 {
		s.ProcessingInstructionHandler = func(c sax.Context, g0 string, g1 string) error {
			seen[18]++
			sym.Assert(c == ctx, "ProcessingInstruction handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "ProcessingInstruction handler got a different target")
			sym.Assert(sym.Eq(g1, str17("a1")), "ProcessingInstruction handler got a different data")
			return ret
		}
	}
	if skip != 19 {
		s.ReferenceHandler = func(c sax.Context, g0 string) error {
			seen[19]++
			sym.Assert(c == ctx, "Reference handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "Reference handler got a different name")
			return ret
		}
	}
	if skip != 20 {
		s.ResolveEntityHandler = func(c sax.Context, g0 string, g1 string) (sax.ParseInput, error) {
			seen[20]++
			sym.Assert(c == ctx, "ResolveEntity handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "ResolveEntity handler got a different publicID")
			sym.Assert(sym.Eq(g1, str17("a1")), "ResolveEntity handler got a different systemID")
			return input17, ret
		}
	}
	if skip != 21 {
		s.SetDocumentLocatorHandler = func(c sax.Context, g0 sax.DocumentLocator) error {
			seen[21]++
			sym.Assert(c == ctx, "SetDocumentLocator handler got a different context")
			sym.Assert(g0 == anyPtr("a0"), "SetDocumentLocator handler got a different locator")
			return ret
		}
	}
	if skip != 22 {
		s.StartDocumentHandler = func(c sax.Context) error {
			seen[22]++
			sym.Assert(c == ctx, "StartDocument handler got a different context")
			return ret
		}
	}
	if skip != 23 {
		s.StartElementNSHandler = func(c sax.Context, g0 string, g1 string, g2 string, g3 []sax.Namespace, g4 []sax.Attribute) error {
			seen[23]++
			sym.Assert(c == ctx, "StartElementNS handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "StartElementNS handler got a different localname")
			sym.Assert(sym.Eq(g1, str17("a1")), "StartElementNS handler got a different prefix")
			sym.Assert(sym.Eq(g2, str17("a2")), "StartElementNS handler got a different uri")
			sym.Assert(len(g3) == n17 && (n17 < 1 || g3[0] == nsv(0)) && (n17 < 2 || g3[1] == nsv(1)), "StartElementNS handler got different namespaces")
			sym.Assert(len(g4) == n17 && (n17 < 1 || g4[0] == atv(0)), "StartElementNS handler got different attrs")
			return ret
		}
	}
	if skip != 24 {
		s.UnparsedEntityDeclHandler = func(c sax.Context, g0 string, g1 string, g2 string, g3 string) error {
			seen[24]++
			sym.Assert(c == ctx, "UnparsedEntityDecl handler got a different context")
			sym.Assert(sym.Eq(g0, str17("a0")), "UnparsedEntityDecl handler got a different name")
			sym.Assert(sym.Eq(g1, str17("a1")), "UnparsedEntityDecl handler got a different publicID")
			sym.Assert(sym.Eq(g2, str17("a2")), "UnparsedEntityDecl handler got a different systemID")
			sym.Assert(sym.Eq(g3, str17("a3")), "UnparsedEntityDecl handler got a different notationName")
			return ret
		}
	}
}

var ent17 = sax.Entity(&entItem{1})
var input17 = sax.ParseInput(&anyVal{2})

func call17(s sax.SAX2Handler, ctx sax.Context, k int, set bool, ext bool) (err error) {
	switch k {
	case 0:
		err = s.AttributeDecl(ctx, str17("a0"), str17("a1"), int(sym.U64("a2")), int(sym.U64("a3")), str17("a4"), anyPtr("a5"))
	case 1:
		err = s.CDataBlock(ctx, []byte(str17("a0")))
	case 2:
		err = s.Characters(ctx, []byte(str17("a0")))
	case 3:
		err = s.Comment(ctx, []byte(str17("a0")))
	case 4:
		err = s.ElementDecl(ctx, str17("a0"), int(sym.U64("a1")), anyPtr("a2"))
	case 5:
		err = s.EndDocument(ctx)
	case 6:
		err = s.EndElementNS(ctx, str17("a0"), str17("a1"), str17("a2"))
	case 7:
		err = s.EntityDecl(ctx, str17("a0"), int(sym.U64("a1")), str17("a2"), str17("a3"), str17("a4"))
	case 8:
		err = s.Error(ctx, str17("a0"), anyPtr("a1"), 7)
	case 9:
		err = s.ExternalSubset(ctx, str17("a0"), str17("a1"), str17("a2"))
	case 10:
		v, e := s.GetEntity(ctx, str17("a0"))
		err = e
		if set {
			sym.Assert(v == ent17, "GetEntity did not return what its handler returned")
		} else {
			sym.Assert(v == nil, "GetEntity without a handler returned a value")
		}
	case 11:
		v, e := s.GetParameterEntity(ctx, str17("a0"))
		err = e
		if set {
			sym.Assert(v == ent17, "GetParameterEntity did not return what its handler returned")
		} else {
			sym.Assert(v == nil, "GetParameterEntity without a handler returned a value")
		}
	case 12:
		b, e := s.HasExternalSubset(ctx)
		err = e
		if set {
			sym.Assert(b == ext, "HasExternalSubset did not return what its handler returned")
		} else {
			sym.Assert(!b, "HasExternalSubset without a handler returned a value")
		}
	case 13:
		b, e := s.HasInternalSubset(ctx)
		err = e
		if set {
			sym.Assert(b == ext, "HasInternalSubset did not return what its handler returned")
		} else {
			sym.Assert(!b, "HasInternalSubset without a handler returned a value")
		}
	case 14:
		err = s.IgnorableWhitespace(ctx, []byte(str17("a0")))
	case 15:
		err = s.InternalSubset(ctx, str17("a0"), str17("a1"), str17("a2"))
	case 16:
		b, e := s.IsStandalone(ctx)
		err = e
		if set {
			sym.Assert(b == ext, "IsStandalone did not return what its handler returned")
		} else {
			sym.Assert(!b, "IsStandalone without a handler returned a value")
		}
	case 17:
		err = s.NotationDecl(ctx, str17("a0"), str17("a1"), str17("a2"))
	case 18:
		err = s.ProcessingInstruction(ctx, str17("a0"), str17("a1"))
	case 19:
		err = s.Reference(ctx, str17("a0"))
	case 20:
		v, e := s.ResolveEntity(ctx, str17("a0"), str17("a1"))
		err = e
		if set {
			sym.Assert(v == input17, "ResolveEntity did not return what its handler returned")
		} else {
			sym.Assert(v == nil, "ResolveEntity without a handler returned a value")
		}
	case 21:
		err = s.SetDocumentLocator(ctx, anyPtr("a0"))
	case 22:
		err = s.StartDocument(ctx)
	case 23:
		err = s.StartElementNS(ctx, str17("a0"), str17("a1"), str17("a2"), nss17(), ats17())
	case 24:
		err = s.UnparsedEntityDecl(ctx, str17("a0"), str17("a1"), str17("a2"), str17("a3"))
	}
	return
}

// P17_dispatch: all 25 handlers with all arguments arbitrary (strings and slices of up to two bytes or items, 64-bit integers, either of two objects), each with every
// other handler installed as well, handler result success or any of four errors, extra result either value.
func P17_dispatch() {
	k := sym.Choice("handler", nHandlers)
	ctx := &anyVal{9}
	var seen [nHandlers]int
	n17 = sym.Split(sym.Choice("length", 3))
	ret := []error{nil, errHandler, sax.ErrHandlerUnspecified, io.EOF, errors.New("")}[sym.Split(sym.Choice("result", 5))]
	ext := sym.Bool("ext")
	s := sax.New()
	install17(s, ctx, -1, &seen, ret, ext)
	err := call17(s, ctx, k, true, ext)
	sym.Assert(err == ret, "the caller did not get the handler's error")
	for j := 0; j < nHandlers; j++ {
		want := 0
		if j == k {
			want = 1
		}
		sym.Assert(seen[j] == want, "a call reached the wrong handler, or not exactly once")
	}
	sym.Reach("dispatched")
}

// P17_unset: each of the 25 methods with its own handler missing and all others installed, and with none installed.
func P17_unset() {
	k := sym.Choice("handler", nHandlers)
	ctx := &anyVal{9}
	var seen [nHandlers]int
	ext := true
	n17 = sym.Split(sym.Choice("length", 3))
	s := sax.New()
	if sym.Choice("others", 2) == 1 {
		install17(s, ctx, k, &seen, nil, ext)
	}
	err := call17(s, ctx, k, false, ext)
	sym.Assert(err == sax.ErrHandlerUnspecified, "a missing handler was not reported as unset")
	for j := 0; j < nHandlers; j++ {
		sym.Assert(seen[j] == 0, "a call without its handler reached another handler")
	}
	sym.Reach("unset")
}
