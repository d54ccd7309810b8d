#!/usr/bin/env python3
# Writes harness/h/p17.go: one dispatch case per SAX2 handler type, from the
# list of handlers below (name, arguments, extra results).
H = """AttributeDecl|elem s,fullname s,typ i,def i,defaultValue s,tree E|
CDataBlock|value b|
Characters|ch b|
Comment|value b|
ElementDecl|name s,typ i,content C|
EndDocument||
EndElementNS|localname s,prefix s,uri s|
EntityDecl|name s,typ i,publicID s,systemID s,content s|
Error|message s,args v|
ExternalSubset|name s,externalID s,systemID s|
GetEntity|name s|Entity
GetParameterEntity|name s|Entity
HasExternalSubset||bool
HasInternalSubset||bool
IgnorableWhitespace|ch b|
InternalSubset|name s,externalID s,systemID s|
IsStandalone||bool
NotationDecl|name s,publicID s,systemID s|
ProcessingInstruction|target s,data s|
Reference|name s|
ResolveEntity|publicID s,systemID s|ParseInput
SetDocumentLocator|locator L|
StartDocument||
StartElementNS|localname s,prefix s,uri s,namespaces n,attrs t|
UnparsedEntityDecl|name s,publicID s,systemID s,notationName s|""".split("\n")
T = {"s": "string", "i": "int", "a": "interface{}", "E": "sax.Enumeration", "C": "sax.ElementContent", "L": "sax.DocumentLocator", "b": "[]byte", "v": "...interface{}", "n": "[]sax.Namespace", "t": "[]sax.Attribute"}
SYM = {"E": 'anyPtr("a%d")', "C": 'anyPtr("a%d")', "L": 'anyPtr("a%d")', "s": 'str17("a%d")', "i": 'int(sym.U64("a%d"))', "a": 'anyPtr("a%d")', "b": '[]byte(str17("a%d"))', "v": None,
       "n": 'nss17()', "t": 'ats17()'}
out = ["""// Generated by tools/gen_p17.py.

package h

import (
	"errors"
	"io"

	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

var errHandler = errors.New("handler")

// how long strings and slices are
var n17 int

func str17(n string) string {
	if n17 == 0 {
		return ""
	}
	return sym.Str(n+"."+itoa(n17), n17)
}

func nss17() []sax.Namespace {
	return []sax.Namespace{nsv(0), nsv(1)}[:n17]
}

func ats17() []sax.Attribute {
	return []sax.Attribute{atv(0), atv(1)}[:n17]
}

type anyVal struct{ n int }

var anyVals [2]anyVal

func anyPtr(n string) interface{} { return &anyVals[sym.Choice(n, 2)] }

type nsItem struct{ i int }

func (n nsItem) Prefix() string { return "p" }
func (n nsItem) URI() string    { return "u" }
func nsv(i int) sax.Namespace   { return nsItem{i} }

type atItem struct{ i int }

func (n atItem) LocalName() string { return "l" }
func (n atItem) Name() string      { return "l" }
func (n atItem) Prefix() string    { return "" }
func (n atItem) Value() string     { return "v" }
func (n atItem) IsDefault() bool   { return false }
func atv(i int) sax.Attribute      { return atItem{i} }

type entItem struct{ i int }

func (e *entItem) Name() string    { return "" }
func (e *entItem) SetOrig(string)  {}
func (e *entItem) EntityType() int { return 0 }
func (e *entItem) Content() []byte { return nil }
func (e *entItem) Checked() bool   { return false }
func (e *entItem) MarkChecked()    {}

const nHandlers = %d

// call17 invokes method k of s and checks what comes back: with its own
// handler installed the handler's result, without it the unset error. seen[j]
// counts the calls of handler j.
func install17(s *sax.SAX2, ctx sax.Context, skip int, seen *[nHandlers]int, ret error, ext bool) {
""" % len(H)]
inst, call = [], []
for k, line in enumerate(H):
    name, args, res = line.split("|")
    args = [a.split() for a in args.split(",")] if args else []
    sig = "".join(", g%d %s" % (j, T[t]) for j, (_, t) in enumerate(args))
    chk = []
    for j, (n, t) in enumerate(args):
        if t in "s":
            chk.append('sym.Assert(sym.Eq(g%d, %s), "%s handler got a different %s")' % (j, SYM[t] % j, name, n))
        elif t == "b":
            chk.append('sym.Assert(sym.Eq(string(g%d), string(%s)), "%s handler got different %s")' % (j, SYM[t] % j, name, n))
        elif t in "iaECL":
            chk.append('sym.Assert(g%d == %s, "%s handler got a different %s")' % (j, SYM[t] % j, name, n))
        elif t == "v":
            chk.append('sym.Assert(len(g%d) == 2 && g%d[0] == anyPtr("a%d") && g%d[1] == interface{}(7), "%s handler got different %s")' % (j, j, j, j, name, n))
        elif t == "n":
            chk.append('sym.Assert(len(g%d) == n17 && (n17 < 1 || g%d[0] == nsv(0)) && (n17 < 2 || g%d[1] == nsv(1)), "%s handler got different %s")' % (j, j, j, name, n))
        elif t == "t":
            chk.append('sym.Assert(len(g%d) == n17 && (n17 < 1 || g%d[0] == atv(0)), "%s handler got different %s")' % (j, j, name, n))
    rt = {"": "error", "bool": "(bool, error)", "Entity": "(sax.Entity, error)", "ParseInput": "(sax.ParseInput, error)"}[res]
    rv = {"": "ret", "bool": "ext, ret", "Entity": "ent17, ret", "ParseInput": "input17, ret"}[res]
    inst.append('\tif skip != %d {\n\t\ts.%sHandler = func(c sax.Context%s) %s {\n\t\t\tseen[%d]++\n\t\t\tsym.Assert(c == ctx, "%s handler got a different context")\n%s\t\t\treturn %s\n\t\t}\n\t}\n'
                % (k, name, sig, rt, k, name, "".join("\t\t\t" + c + "\n" for c in chk), rv))
    av = "".join(", " + ('anyPtr("a%d"), 7' % j if t == "v" else (SYM[t] % j if "%" in SYM[t] else SYM[t])) for j, (_, t) in enumerate(args))
    zero = {"": None, "bool": ("b == ext", "!b"), "Entity": ("v == ent17", "v == nil"), "ParseInput": ("v == input17", "v == nil")}[res]
    c = '\tcase %d:\n' % k
    if zero is None:
        c += '\t\terr = s.%s(ctx%s)\n' % (name, av)
    else:
        v = "b" if res == "bool" else "v"
        c += '\t\t%s, e := s.%s(ctx%s)\n\t\terr = e\n\t\tif set {\n\t\t\tsym.Assert(%s, "%s did not return what its handler returned")\n\t\t} else {\n\t\t\tsym.Assert(%s, "%s without a handler returned a value")\n\t\t}\n' % (v, name, av, zero[0], name, zero[1], name)
    call.append(c)
out.append("".join(inst))
out.append("""}

var ent17 = sax.Entity(&entItem{1})
var input17 = sax.ParseInput(&anyVal{2})

func call17(s sax.SAX2Handler, ctx sax.Context, k int, set bool, ext bool) (err error) {
	switch k {
""")
out.append("".join(call))
out.append("""	}
	return
}

// P17_dispatch: all 25 handlers with all arguments arbitrary (strings and slices of up to two bytes or items, 64-bit integers, either of two objects), each with every
// other handler installed as well, handler result success or any of four errors, extra result either value.
func P17_dispatch() {
	k := sym.Choice("handler", nHandlers)
	ctx := &anyVal{9}
	var seen [nHandlers]int
	n17 = sym.Split(sym.Choice("length", 3))
	ret := []error{nil, errHandler, sax.ErrHandlerUnspecified, io.EOF, errors.New("")}[sym.Split(sym.Choice("result", 5))]
	ext := sym.Bool("ext")
	s := sax.New()
	install17(s, ctx, -1, &seen, ret, ext)
	err := call17(s, ctx, k, true, ext)
	sym.Assert(err == ret, "the caller did not get the handler's error")
	for j := 0; j < nHandlers; j++ {
		want := 0
		if j == k {
			want = 1
		}
		sym.Assert(seen[j] == want, "a call reached the wrong handler, or not exactly once")
	}
	sym.Reach("dispatched")
}

// P17_unset: each of the 25 methods with its own handler missing and all others installed, and with none installed.
func P17_unset() {
	k := sym.Choice("handler", nHandlers)
	ctx := &anyVal{9}
	var seen [nHandlers]int
	ext := true
	n17 = sym.Split(sym.Choice("length", 3))
	s := sax.New()
	if sym.Choice("others", 2) == 1 {
		install17(s, ctx, k, &seen, nil, ext)
	}
	err := call17(s, ctx, k, false, ext)
	sym.Assert(err == sax.ErrHandlerUnspecified, "a missing handler was not reported as unset")
	for j := 0; j < nHandlers; j++ {
		sym.Assert(seen[j] == 0, "a call without its handler reached another handler")
	}
	sym.Reach("unset")
}
""")
open("/verif/harness/h/p17.go", "w").write("".join(out))
