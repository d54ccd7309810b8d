package h

// An independent reader for XML 1.0 (fifth edition) with namespaces, written
// from the recommendations and used as the oracle. It does not read document
// type declarations. A document is well-formed, not well-formed, or one on
// which it has no opinion.

import (
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

const (
	refReject = iota
	refAccept
	refDontCare
)

// Marks of the canonical form. None of them is an XML character.
const (
	mElem    = 0x01 // name
	mURI     = 0x02
	mNS      = 0x03 // prefix
	mEq      = 0x04 // value
	mAttr    = 0x05 // name
	mKids    = 0x06
	mEnd     = 0x07
	mText    = 0x08
	mComment = 0x0e
	mClose   = 0x0f
	mPI      = 0x10
	mRef     = 0x11
)

const xmlNS = "http://www.w3.org/XML/1998/namespace"
const xmlnsNS = "http://www.w3.org/2000/xmlns/"

type binding struct {
	prefix []byte
	uri    []byte
}

type ref struct {
	s        []rune
	i        int
	out      []byte
	inText   bool
	bad      bool // not well-formed
	dc       bool // no opinion if it would be accepted
	inv      bool // not valid: no opinion if it is rejected
	stop     bool // no opinion at all
	binds    []binding
	dtd      *refDTD
	sub      bool // reads an entity
	emptyID  bool // there is an external identifier with an empty part
	declared bool
	pastDecl int // where the document proper starts
	enc      string
	version  string
	sa       string
	starts   []refStart
}

func inR(r rune, lo, hi rune) bool { return sym.And(lo <= r, r <= hi) }

func isXMLChar(r rune) bool {
	return sym.Or(sym.Or(sym.Or(r == 9, r == 10), sym.Or(r == 13, inR(r, 0x20, 0xd7ff))), sym.Or(inR(r, 0xe000, 0xfffd), inR(r, 0x10000, 0x10ffff)))
}

func isS(r rune) bool { return sym.Or(sym.Or(r == ' ', r == '\n'), sym.Or(r == '\t', r == '\r')) }

func isNameStart(r rune) bool {
	if r < 0x80 {
		return sym.Or(sym.Or(r == ':', r == '_'), sym.Or(inR(r, 'a', 'z'), inR(r, 'A', 'Z')))
	}
	ok := sym.Or(sym.Or(inR(r, 0xC0, 0xD6), inR(r, 0xD8, 0xF6)), sym.Or(inR(r, 0xF8, 0x2FF), inR(r, 0x370, 0x37D)))
	ok = sym.Or(ok, sym.Or(sym.Or(inR(r, 0x37F, 0x1FFF), inR(r, 0x200C, 0x200D)), sym.Or(inR(r, 0x2070, 0x218F), inR(r, 0x2C00, 0x2FEF))))
	return sym.Or(ok, sym.Or(sym.Or(inR(r, 0x3001, 0xD7FF), inR(r, 0xF900, 0xFDCF)), sym.Or(inR(r, 0xFDF0, 0xFFFD), inR(r, 0x10000, 0xEFFFF))))
}

func isNameChar(r rune) bool {
	if r < 0x80 {
		return sym.Or(sym.Or(isNameStart(r), inR(r, '0', '9')), sym.Or(r == '-', r == '.'))
	}
	return sym.Or(sym.Or(isNameStart(r), r == 0xB7), sym.Or(inR(r, 0x300, 0x36F), inR(r, 0x203F, 0x2040)))
}

func appendRune(b []byte, r rune) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, 0xC0|byte(r>>6), 0x80|byte(r)&0x3F)
	case r < 0x10000:
		return append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6)&0x3F, 0x80|byte(r)&0x3F)
	}
	return append(b, 0xF0|byte(r>>18), 0x80|byte(r>>12)&0x3F, 0x80|byte(r>>6)&0x3F, 0x80|byte(r)&0x3F)
}

func cont(b byte) bool { return b&0xC0 == 0x80 }

// decode turns UTF-8 into characters and normalises line ends.
func (r *ref) decode(s string) { r.decodeAs(s, true) }

func (r *ref) decodeAs(s string, document bool) {
	if document && len(s) >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF {
		s = s[3:]
	}
	lastCR := false
	for i := 0; i < len(s); {
		b := s[i]
		var c rune
		switch {
		case b < 0x80:
			c = rune(b)
			i++
		case sym.And(b >= 0xC2, b < 0xE0) && i+1 < len(s) && cont(s[i+1]):
			c = rune(b&0x1F)<<6 | rune(s[i+1]&0x3F)
			i += 2
		case sym.And(b >= 0xE0, b < 0xF0) && i+2 < len(s) && cont(s[i+1]) && cont(s[i+2]):
			c = rune(b&0x0F)<<12 | rune(s[i+1]&0x3F)<<6 | rune(s[i+2]&0x3F)
			i += 3
			if c < 0x800 {
				r.bad = true
				return
			}
		case sym.And(b >= 0xF0, b < 0xF5) && i+3 < len(s) && cont(s[i+1]) && cont(s[i+2]) && cont(s[i+3]):
			c = rune(b&0x07)<<18 | rune(s[i+1]&0x3F)<<12 | rune(s[i+2]&0x3F)<<6 | rune(s[i+3]&0x3F)
			i += 4
			if c < 0x10000 {
				r.bad = true
				return
			}
		default:
			r.bad = true
			return
		}
		if !isXMLChar(c) {
			r.bad = true
			return
		}
		if document && c == '\r' {
			lastCR = true
			c = '\n'
		} else if lastCR {
			lastCR = false
			if c == '\n' {
				continue
			}
		}
		if b >= 0x80 && c == 0xFFFD {
			r.dc = true // taken for undecodable input
		}
		r.s = append(r.s, c)
	}
}

func (r *ref) eof() bool { return r.i >= len(r.s) }

// at reports whether lit comes next.
func (r *ref) at(lit string) bool {
	if r.i+len(lit) > len(r.s) {
		return false
	}
	for k := 0; k < len(lit); k++ {
		if r.s[r.i+k] != rune(lit[k]) {
			return false
		}
	}
	return true
}

func (r *ref) take(lit string) bool {
	if !r.at(lit) {
		return false
	}
	r.i += len(lit)
	return true
}

// blanks skips S?
func (r *ref) blanks() bool {
	n := r.i
	for r.i < len(r.s) && isS(r.s[r.i]) {
		r.i++
	}
	return r.i > n
}

func (r *ref) no() bool {
	r.bad = true
	return false
}

func (r *ref) name() ([]byte, bool) {
	if r.eof() || !isNameStart(r.s[r.i]) {
		return nil, r.no()
	}
	var b []byte
	for r.i < len(r.s) && isNameChar(r.s[r.i]) {
		b = appendRune(b, r.s[r.i])
		r.i++
	}
	return b, true
}

// splitName splits a qualified name; other uses of ':' have no opinion.
func (r *ref) splitName(n []byte) (prefix, local []byte) {
	p := -1
	for i := range n {
		if n[i] == ':' {
			if p >= 0 || i == 0 || i == len(n)-1 {
				r.dc = true
				return nil, n
			}
			p = i
		}
	}
	if p < 0 {
		return nil, n
	}
	// the local part has to start like a name, too
	c := n[p+1]
	if sym.Or(sym.Or(sym.And(c >= '0', c <= '9'), c == '-'), c == '.') || c >= 0x80 {
		r.dc = true
	}
	return n[:p], n[p+1:]
}

func (r *ref) lookup(prefix []byte) ([]byte, bool) {
	for i := len(r.binds) - 1; i >= 0; i-- {
		if sym.Eq(string(r.binds[i].prefix), string(prefix)) {
			return r.binds[i].uri, true
		}
	}
	if sym.Eq(string(prefix), "xml") {
		return []byte(xmlNS), true
	}
	return nil, false
}

// charRef reads what follows "&#".
func (r *ref) charRef() (rune, bool) {
	v := uint32(0)
	n := 0
	if r.take("x") {
		for ; r.i < len(r.s); r.i++ {
			c := r.s[r.i]
			d := uint32(0)
			switch {
			case inR(c, '0', '9'):
				d = uint32(c - '0')
			case inR(c, 'a', 'f'):
				d = uint32(c-'a') + 10
			case inR(c, 'A', 'F'):
				d = uint32(c-'A') + 10
			default:
				goto end
			}
			n++
			if v < 0x200000 {
				v = v*16 + d
			}
		}
	} else {
		for ; r.i < len(r.s); r.i++ {
			c := r.s[r.i]
			if !inR(c, '0', '9') {
				goto end
			}
			n++
			if v < 0x200000 {
				v = v*10 + uint32(c-'0')
			}
		}
	}
end:
	if n == 0 || !r.take(";") || v > 0x10ffff || !isXMLChar(rune(v)) {
		return 0, r.no()
	}
	return rune(v), true
}

// reference reads a reference (after "&") and returns its text; a declared
// entity is looked up by its name.
func (r *ref) reference() (txt []byte, ent *refEnt, ok bool) {
	if r.take("#") {
		c, ok := r.charRef()
		if !ok {
			return nil, nil, false
		}
		return appendRune(nil, c), nil, true
	}
	n, ok := r.name()
	if !ok || !r.take(";") {
		return nil, nil, r.no()
	}
	name := string(n)
	switch {
	case len(n) == 2 && name == "lt":
		return []byte("<"), nil, true
	case len(n) == 2 && name == "gt":
		return []byte(">"), nil, true
	case len(n) == 3 && name == "amp":
		return []byte("&"), nil, true
	case len(n) == 4 && name == "apos":
		return []byte("'"), nil, true
	case len(n) == 4 && name == "quot":
		return []byte(`"`), nil, true
	}
	if r.dtd != nil {
		if e := r.entity(r.dtd.ents, name); e != nil {
			return nil, e, true
		}
		if (r.dtd.ext || r.dtd.refs) && r.sa != "yes" {
			// it may be declared elsewhere
			r.stop = true
			return nil, nil, false
		}
	}
	return nil, nil, r.no()
}

func (r *ref) attValue() ([]byte, bool) {
	if r.eof() {
		return nil, r.no()
	}
	q := r.s[r.i]
	if q != '"' && q != '\'' {
		return nil, r.no()
	}
	r.i++
	return r.value(q)
}

// value reads up to the quote q, or to the end if there is none
func (r *ref) value(q rune) ([]byte, bool) {
	var b []byte
	for {
		if r.eof() {
			if q < 0 {
				return b, true
			}
			return nil, r.no()
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == q:
			return b, true
		case c == '<':
			return nil, r.no()
		case c == '&':
			t, e, ok := r.reference()
			if !ok {
				return nil, false
			}
			if e != nil {
				if t, ok = r.expand(e); !ok {
					return nil, false
				}
			}
			b = append(b, t...)
		case sym.Or(sym.Or(c == '\n', c == '\t'), c == '\r'):
			b = append(b, ' ')
		default:
			b = appendRune(b, c)
		}
	}
}

// plainURI: the string is a URI reference, and not one that means something
// by itself. There are others.
func plainURI(u []byte) bool {
	letter := func(c byte) bool { return sym.Or(sym.Between(c, 'a', 'z'), sym.Between(c, 'A', 'Z')) }
	i := 0
	for i < len(u) && letter(u[i]) {
		i++
	}
	if i > 0 && i < len(u) && u[i] == ':' {
		i++
		if hostW3(u[i:]) {
			return false
		}
	}
	const path, query, fragment = 0, 1, 2
	part := path
	for ; i < len(u); i++ {
		c := u[i]
		switch {
		case sym.Or(sym.Or(letter(c), sym.Between(c, '0', '9')), sym.In(c, "/._-")):
		case c == '?' && part == path:
			part = query
		case c == '#' && part != fragment:
			part = fragment
		case part != path && sym.In(c, ":=&;,"):
		default:
			return false
		}
	}
	return len(u) > 0
}

func hostW3(u []byte) bool {
	const h = "//www.w3.org/"
	return len(u) >= len(h) && sym.Eq(string(u[:len(h)]), h)
}

// refStart is a start tag, with what's written in it
type refStart struct {
	name  []byte
	attrs []refAttr
}

type refAttr struct {
	name, value   []byte
	prefix, local []byte
}

// element reads a start tag, and all up to its end tag.
func (r *ref) element(depth int) bool {
	if !r.take("<") {
		return r.no()
	}
	name, ok := r.name()
	if !ok {
		return false
	}
	prefix, local := r.splitName(name)
	var attrs []refAttr
	var decls []binding
	empty := false
	for {
		blank := r.blanks()
		if r.take(">") {
			break
		}
		if r.take("/>") {
			empty = true
			break
		}
		if !blank {
			return r.no()
		}
		an, ok := r.name()
		if !ok {
			return false
		}
		r.blanks()
		if !r.take("=") {
			return r.no()
		}
		r.blanks()
		v, ok := r.attValue()
		if !ok {
			return false
		}
		for _, a := range attrs {
			if sym.Eq(string(a.name), string(an)) {
				return r.no()
			}
		}
		ap, al := r.splitName(an)
		if r.dtd != nil {
			for _, d := range r.dtd.atts {
				if d.typ != "CDATA" && sym.Eq(d.elem, string(name)) && sym.Eq(d.name, string(an)) {
					v = squeeze(v)
				}
			}
		}
		attrs = append(attrs, refAttr{an, v, ap, al})
		switch {
		case len(an) == 5 && string(an) == "xmlns":
			if len(v) == len(xmlNS) && sym.Eq(string(v), xmlNS) || len(v) == len(xmlnsNS) && sym.Eq(string(v), xmlnsNS) {
				return r.no() // neither may be the default namespace
			}
			if len(v) > 0 && !plainURI(v) {
				r.dc = true
			}
			decls = append(decls, binding{nil, v})
		case len(ap) == 5 && string(ap) == "xmlns":
			if len(v) == 0 || len(al) == 5 && sym.Eq(string(al), "xmlns") || len(v) == len(xmlnsNS) && sym.Eq(string(v), xmlnsNS) {
				return r.no()
			}
			if (len(al) == 3 && sym.Eq(string(al), "xml")) != (len(v) == len(xmlNS) && sym.Eq(string(v), xmlNS)) {
				return r.no() // they belong to each other
			}
			if !plainURI(v) {
				r.dc = true
			}
			decls = append(decls, binding{al, v})
		}
	}
	r.starts = append(r.starts, refStart{name, attrs})
	n := len(r.binds)
	r.binds = append(r.binds, decls...)
	var uri []byte
	if len(prefix) > 0 {
		u, ok := r.lookup(prefix)
		if !ok && len(prefix) == 5 && string(prefix) == "xmlns" {
			r.dc = true
		} else if !ok {
			return r.no()
		}
		uri = u
	} else {
		uri, _ = r.lookup(nil)
	}
	r.out = append(r.out, mElem)
	r.out = append(r.out, name...)
	r.out = append(r.out, mURI)
	r.out = append(r.out, uri...)
	_ = local
	for _, d := range decls {
		r.out = append(r.out, mNS)
		r.out = append(r.out, d.prefix...)
		r.out = append(r.out, mEq)
		r.out = append(r.out, d.uri...)
	}
	for i, a := range attrs {
		if len(a.name) == 5 && string(a.name) == "xmlns" || len(a.prefix) == 5 && string(a.prefix) == "xmlns" {
			continue
		}
		if len(a.prefix) > 0 {
			// expanded names have to differ, too
			u, ok := r.lookup(a.prefix)
			if !ok {
				r.dc = true
			}
			for _, b := range attrs[:i] {
				if len(b.prefix) > 0 && sym.Eq(string(a.local), string(b.local)) {
					if v, ok2 := r.lookup(b.prefix); ok && ok2 && sym.Eq(string(u), string(v)) {
						return r.no()
					}
				}
			}
		}
		r.out = append(r.out, mAttr)
		r.out = append(r.out, a.name...)
		r.out = append(r.out, mEq)
		r.out = append(r.out, a.value...)
	}
	r.out = append(r.out, mKids)
	r.inText = false
	if !empty {
		if !r.content(depth) {
			return false
		}
		if !r.take("</") {
			return r.no()
		}
		end, ok := r.name()
		if !ok || !sym.Eq(string(end), string(name)) {
			return r.no()
		}
		r.blanks()
		if !r.take(">") {
			return r.no()
		}
	}
	r.binds = r.binds[:n]
	r.out = append(r.out, mEnd)
	r.inText = false
	return true
}

func (r *ref) text(b ...byte) {
	if !r.inText {
		r.out = append(r.out, mText)
		r.inText = true
	}
	r.out = append(r.out, b...)
}

// content reads up to the next end tag, or to the end.
func (r *ref) content(depth int) bool {
	for !r.eof() {
		c := r.s[r.i]
		switch {
		case c == '<':
			switch {
			case r.at("</"):
				return true
			case r.at("<!--"):
				if !r.comment() {
					return false
				}
			case r.at("<?"):
				if !r.pi() {
					return false
				}
			case r.take("<![CDATA["):
				for !r.take("]]>") {
					if r.eof() {
						return r.no()
					}
					r.text(appendRune(nil, r.s[r.i])...)
					r.i++
				}
			default:
				if !r.element(depth + 1) {
					return false
				}
			}
		case c == '&':
			r.i++
			t, e, ok := r.reference()
			if !ok {
				return false
			}
			if e != nil {
				if !r.include(e, depth) {
					return false
				}
				continue
			}
			r.text(t...)
		case c == ']' && r.at("]]>"):
			return r.no()
		default:
			r.text(appendRune(nil, c)...)
			r.i++
		}
	}
	return true
}

func (r *ref) comment() bool {
	r.i += 4
	r.inText = false
	r.out = append(r.out, mComment)
	for {
		if r.eof() {
			return r.no()
		}
		if r.take("--") {
			if !r.take(">") {
				return r.no()
			}
			break
		}
		r.out = appendRune(r.out, r.s[r.i])
		r.i++
	}
	r.out = append(r.out, mClose)
	return true
}

func lower(b byte) byte {
	return byte(sym.Ite(sym.Between(b, 'A', 'Z'), int(b)+32, int(b)))
}

func (r *ref) pi() bool {
	r.i += 2
	t, ok := r.name()
	if !ok {
		return false
	}
	if len(t) == 3 && sym.And(sym.And(lower(t[0]) == 'x', lower(t[1]) == 'm'), lower(t[2]) == 'l') {
		return r.no()
	}
	for _, c := range t {
		if c == ':' {
			return r.no() // Namespaces in XML, section 7
		}
	}
	r.inText = false
	r.out = append(r.out, mPI)
	r.out = append(r.out, t...)
	r.out = append(r.out, mEq)
	if !r.take("?>") {
		if !r.blanks() {
			return r.no()
		}
		for !r.take("?>") {
			if r.eof() {
				return r.no()
			}
			r.out = appendRune(r.out, r.s[r.i])
			r.i++
		}
	}
	r.out = append(r.out, mClose)
	return true
}

func (r *ref) misc() bool {
	for {
		r.blanks()
		switch {
		case r.at("<!--"):
			if !r.comment() {
				return false
			}
		case r.at("<?"):
			if !r.pi() {
				return false
			}
		default:
			return true
		}
	}
}

func (r *ref) document() bool {
	if len(r.s) > 5 && r.at("<?xml") && isS(r.s[5]) {
		if !r.xmlDecl() {
			return false
		}
	}
	if !r.misc() {
		return false
	}
	if r.at("<!DOCTYPE") {
		if !r.doctype() || !r.misc() {
			return false
		}
	}
	if !r.element(0) || !r.misc() {
		return false
	}
	if !r.eof() {
		return r.no()
	}
	return true
}

// pseudo reads S name Eq quoted, if name comes next.
func (r *ref) pseudo(name string) (string, bool, bool) {
	start := r.i
	if !r.blanks() || !r.take(name) {
		r.i = start
		return "", false, true
	}
	r.blanks()
	if !r.take("=") {
		return "", false, r.no()
	}
	r.blanks()
	if r.eof() || r.s[r.i] != '"' && r.s[r.i] != '\'' {
		return "", false, r.no()
	}
	q := r.s[r.i]
	r.i++
	var b []byte
	for {
		if r.eof() || r.s[r.i] >= 0x80 {
			return "", false, r.no()
		}
		c := r.s[r.i]
		r.i++
		if c == q {
			return string(b), true, true
		}
		b = append(b, byte(c))
	}
}

func (r *ref) xmlDecl() bool {
	r.i += 5
	v, has, ok := r.pseudo("version")
	if !ok {
		return false
	}
	// VersionNum ::= '1.' [0-9]+
	if !has || len(v) < 3 || v[0] != '1' || v[1] != '.' {
		return r.no()
	}
	for i := 2; i < len(v); i++ {
		if !sym.Between(v[i], '0', '9') {
			return r.no()
		}
	}
	r.version = v
	e, has, ok := r.pseudo("encoding")
	if !ok {
		return false
	}
	if has {
		// EncName ::= [A-Za-z] ([A-Za-z0-9._] | '-')*
		if len(e) == 0 {
			return r.no()
		}
		for i := 0; i < len(e); i++ {
			alpha := sym.Or(sym.Between(e[i], 'a', 'z'), sym.Between(e[i], 'A', 'Z'))
			if i > 0 {
				alpha = sym.Or(alpha, sym.Or(sym.Between(e[i], '0', '9'), sym.In(e[i], "._-")))
			}
			if !alpha {
				return r.no()
			}
		}
		r.enc = e
	}
	sa, has, ok := r.pseudo("standalone")
	if !ok {
		return false
	}
	if has {
		if !(len(sa) == 3 && sa == "yes") && !(len(sa) == 2 && sa == "no") {
			return r.no()
		}
		r.sa = sa
	}
	r.blanks()
	if !r.take("?>") {
		return r.no()
	}
	r.declared = true
	return true
}

// refParse reads a document; form is its canonical form if it's accepted.
// onlyInvalid: the reader may reject the document, but if it does not, has to agree.
func (r *ref) onlyInvalid() bool { return r != nil && r.inv && !r.dc && !r.stop && !r.bad }

func refParse(s string) (verdict int, form string, r *ref) {
	r = &ref{}
	r.decode(s)
	if r.bad {
		return refReject, "", r
	}
	ok := r.document()
	switch {
	case r.stop:
		return refDontCare, "", r
	case !ok || r.bad:
		return refReject, "", r
	case r.dc || r.inv:
		return refDontCare, string(r.out), r
	}
	return refAccept, string(r.out), r
}
