package h

// The reference reader's part for document type declarations: the internal
// subset, with internal entities of both kinds. It has no opinion about
// documents with notation declarations, references to external parameter
// entities, and some violations of validity.

import (
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// refEnt is a declared entity
type refEnt struct {
	name     string
	text     string // replacement text, of an internal one
	external bool
	unparsed bool
	open     bool // being expanded
	uses     int
}

type refAtt struct {
	elem, name string
	typ        string // CDATA, ID ..., or the list of alternatives
	def        string // "", #IMPLIED, #REQUIRED, #FIXED
	value      string
	has        bool
}

type refDTD struct {
	name   string
	subset bool     // with [ ]
	decls  []string // canonical forms, in order
	ents   []refEnt
	pents  []refEnt
	atts   []refAtt
	elems  []string
	ext    bool // there is an external subset
	refs   bool // there are references to parameter entities
}

func (r *ref) entity(list []refEnt, name string) *refEnt {
	for i := range list {
		if len(list[i].name) == len(name) && list[i].name == name {
			return &list[i]
		}
	}
	return nil
}

// literal reads a quoted string without any markup in it.
func (r *ref) literal() (string, bool) {
	if r.eof() || r.s[r.i] != '"' && r.s[r.i] != '\'' {
		return "", r.no()
	}
	q := r.s[r.i]
	var b []byte
	for r.i++; ; r.i++ {
		if r.eof() {
			return "", r.no()
		}
		if r.s[r.i] == q {
			r.i++
			return string(b), true
		}
		b = appendRune(b, r.s[r.i])
	}
}

// externalID reads SYSTEM or PUBLIC and what follows.
func (r *ref) externalID() (pid, sid string, ok bool) {
	if r.take("PUBLIC") {
		if !r.blanks() {
			return "", "", r.no()
		}
		if pid, ok = r.literal(); !ok {
			return "", "", false
		}
		if len(pid) == 0 {
			r.emptyID = true
		}
		for i := 0; i < len(pid); i++ {
			c := pid[i]
			alnum := sym.Or(sym.Between(c, '0', '9'), sym.Or(sym.Between(c, 'a', 'z'), sym.Between(c, 'A', 'Z')))
			if !sym.Or(alnum, sym.In(c, " \n-'()+,./:=?;!*#@$_%")) {
				return "", "", r.no()
			}
		}
	} else if !r.take("SYSTEM") {
		return "", "", r.no()
	}
	if !r.blanks() {
		return "", "", r.no()
	}
	sid, ok = r.literal()
	if len(sid) == 0 {
		r.emptyID = true
	}
	return pid, sid, ok
}

func (r *ref) doctype() bool {
	d := &refDTD{}
	r.dtd = d
	r.i += len("<!DOCTYPE")
	if !r.blanks() {
		return r.no()
	}
	n, ok := r.name()
	if !ok {
		return false
	}
	r.splitName(n)
	d.name = string(n)
	blank := r.blanks()
	if r.at("SYSTEM") || r.at("PUBLIC") {
		if !blank {
			return r.no()
		}
		pid, sid, ok := r.externalID()
		if !ok {
			return false
		}
		d.ext = true
		d.decls = append(d.decls, "external\x01"+pid+"\x01"+sid)
		r.blanks()
	}
	if r.take("[") {
		d.subset = true
		if !r.declarations() {
			return false
		}
		if !r.take("]") {
			return r.no()
		}
		r.blanks()
	}
	if !r.take(">") {
		return r.no()
	}
	return true
}

// declarations reads up to "]" or the end.
func (r *ref) declarations() bool {
	for {
		r.blanks()
		switch {
		case r.eof() || r.at("]"):
			return true
		case r.take("%"):
			if !r.peReference() {
				return false
			}
		case r.at("<!--"):
			if !r.comment() {
				return false
			}
		case r.at("<?"):
			if !r.pi() {
				return false
			}
		case r.take("<!ELEMENT"):
			if !r.elementDecl() {
				return false
			}
		case r.take("<!ATTLIST"):
			if !r.attlistDecl() {
				return false
			}
		case r.take("<!ENTITY"):
			if !r.entityDecl() {
				return false
			}
		case r.take("<!NOTATION"):
			r.stop = true
			return false
		default:
			return r.no()
		}
	}
}

func (r *ref) peReference() bool {
	n, ok := r.name()
	if !ok || !r.take(";") {
		return r.no()
	}
	e := r.entity(r.dtd.pents, string(n))
	r.dtd.refs = true
	if e == nil {
		// not valid, but well-formed
		r.stop = true
		return false
	}
	if e.external {
		// what it declares isn't known
		r.stop = true
		return false
	}
	if e.open {
		return r.no()
	}
	e.open = true
	sub := r.nested(e.text)
	ok = sub.declarations() && (sub.eof() || sub.no())
	r.join(sub)
	r.entity(r.dtd.pents, string(n)).open = false
	return ok
}

// nested is a reader for an entity's replacement text.
func (r *ref) nested(text string) *ref {
	sub := &ref{dtd: r.dtd, binds: r.binds, inText: r.inText, sa: r.sa, sub: true}
	// line ends are normalised already: those that are left are references
	sub.decodeAs(text, false)
	return sub
}

func (r *ref) join(sub *ref) {
	r.out = append(r.out, sub.out...)
	r.starts = append(r.starts, sub.starts...)
	r.inText = sub.inText
	r.bad = r.bad || sub.bad
	r.dc = r.dc || sub.dc
	r.inv = r.inv || sub.inv
	r.stop = r.stop || sub.stop
}

func (r *ref) elementDecl() bool {
	if !r.blanks() {
		return r.no()
	}
	n, ok := r.name()
	if !ok {
		return false
	}
	r.splitName(n)
	if !r.blanks() {
		return r.no()
	}
	form := ""
	switch {
	case r.take("EMPTY"):
		form = "EMPTY"
	case r.take("ANY"):
		form = "ANY"
	case r.at("("):
		f, ok := r.contentModel()
		if !ok {
			return false
		}
		form = f
	default:
		return r.no()
	}
	r.blanks()
	if !r.take(">") {
		return r.no()
	}
	for _, e := range r.dtd.elems {
		if sym.Eq(e, string(n)) {
			r.inv = true
		}
	}
	r.dtd.elems = append(r.dtd.elems, string(n))
	r.dtd.decls = append(r.dtd.decls, "element\x01"+string(n)+"\x01"+form)
	return true
}

// refCP is a content particle
type refCP struct {
	kind byte // 'n'ame, ',' or '|'
	name string
	kids []*refCP
	occ  byte
}

func (c *refCP) form() string {
	s := ""
	if c.kind == 'n' {
		s = c.name
	} else {
		s = "("
		for i, k := range c.kids {
			if i > 0 {
				s += string([]byte{c.kind})
			}
			s += k.form()
		}
		s += ")"
	}
	if c.occ != ' ' {
		s += string([]byte{c.occ})
	}
	return s
}

func (r *ref) occurrence() byte {
	if !r.eof() {
		if c := r.s[r.i]; sym.Or(sym.Or(c == '?', c == '*'), c == '+') {
			r.i++
			return byte(c)
		}
	}
	return ' '
}

func (r *ref) contentModel() (string, bool) {
	start := r.i
	r.i++
	r.blanks()
	if r.take("#PCDATA") {
		form := "(#PCDATA"
		names := false
		for {
			r.blanks()
			if r.take(")") {
				break
			}
			if !r.take("|") {
				return "", r.no()
			}
			r.blanks()
			n, ok := r.name()
			if !ok {
				return "", false
			}
			r.splitName(n)
			names = true
			form += "|" + string(n)
		}
		if !r.take("*") && names {
			return "", r.no()
		}
		return form + ")", true
	}
	r.i = start
	c, ok := r.particle()
	if !ok {
		return "", false
	}
	if c.kind == 'n' {
		c = &refCP{kind: ',', kids: []*refCP{c}, occ: ' '}
		if k := c.kids[0]; k.occ != ' ' {
			c.occ, k.occ = k.occ, ' '
		}
	}
	return c.form(), true
}

// particle reads a name or a group, and simplifies it.
func (r *ref) particle() (*refCP, bool) {
	if !r.take("(") {
		n, ok := r.name()
		if !ok {
			return nil, false
		}
		r.splitName(n)
		return &refCP{kind: 'n', name: string(n), occ: r.occurrence()}, true
	}
	g := &refCP{kind: 0}
	for {
		r.blanks()
		c, ok := r.particle()
		if !ok {
			return nil, false
		}
		g.kids = append(g.kids, c)
		r.blanks()
		if r.take(")") {
			break
		}
		switch {
		case g.kind != '|' && r.take(","):
			g.kind = ','
		case g.kind != ',' && r.take("|"):
			g.kind = '|'
		default:
			return nil, r.no()
		}
	}
	occ := r.occurrence()
	if len(g.kids) == 1 {
		g = g.kids[0]
		g.occ = bothOcc(g.occ, occ)
	} else {
		g.occ = occ
	}
	g.simplify()
	return g, true
}

// bothOcc: (x<a>)<b>
func bothOcc(a, b byte) byte {
	switch {
	case a == ' ':
		return b
	case b == ' ' || a == b:
		return a
	}
	return '*'
}

// simplify keeps what the group matches: members that are groups of the same
// kind are merged, and (a|b?)* is (a|b)*.
func (g *refCP) simplify() {
	for more := true; more; {
		more = false
		if g.kind == '|' && (g.occ == '*' || g.occ == '+') {
			for _, k := range g.kids {
				if k.occ == '?' || k.occ == '*' {
					g.occ = '*'
				}
				k.occ = ' '
			}
		}
		var kids []*refCP
		for _, k := range g.kids {
			if k.kind == g.kind && k.occ == ' ' {
				kids = append(kids, k.kids...)
				more = true
			} else {
				kids = append(kids, k)
			}
		}
		g.kids = kids
	}
}

var refAttTypes = []string{"CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN"}

func (r *ref) attlistDecl() bool {
	if !r.blanks() {
		return r.no()
	}
	elem, ok := r.name()
	if !ok {
		return false
	}
	r.splitName(elem)
	for {
		blank := r.blanks()
		if r.take(">") {
			return true
		}
		if !blank {
			return r.no()
		}
		name, ok := r.name()
		if !ok || !r.blanks() {
			return r.no()
		}
		p, _ := r.splitName(name)
		if string(name) == "xmlns" || string(p) == "xmlns" {
			r.dc = true
		}
		a := refAtt{elem: string(elem), name: string(name)}
		switch {
		case r.take("NOTATION"):
			if !r.blanks() {
				return r.no()
			}
			if a.typ, ok = r.alternatives(true); !ok {
				return false
			}
			a.typ = "NOTATION" + a.typ
		case r.at("("):
			if a.typ, ok = r.alternatives(false); !ok {
				return false
			}
		default:
			for _, t := range refAttTypes {
				if r.take(t) {
					a.typ = t
					break
				}
			}
			if a.typ == "" {
				return r.no()
			}
		}
		if string(name) == "xml:id" && a.typ != "ID" || string(name) == "xml:space" && a.typ[0] != '(' {
			r.inv = true
		}
		if !r.blanks() {
			return r.no()
		}
		switch {
		case r.take("#IMPLIED"):
			a.def = "#IMPLIED"
		case r.take("#REQUIRED"):
			a.def = "#REQUIRED"
		default:
			if r.take("#FIXED") {
				a.def = "#FIXED"
				if !r.blanks() {
					return r.no()
				}
			}
			v, ok := r.attValue()
			if !ok {
				return false
			}
			a.has = true
			if a.typ != "CDATA" {
				v = squeeze(v)
			}
			a.value = string(v)
			if !r.validDefault(&a) {
				r.inv = true
			}
		}
		seen := false
		for _, o := range r.dtd.atts {
			if sym.Eq(o.elem, a.elem) && sym.Eq(o.name, a.name) {
				seen = true
			}
			if o.elem == a.elem && (o.typ == "ID" && a.typ == "ID") {
				r.inv = true
			}
		}
		if !seen {
			r.dtd.atts = append(r.dtd.atts, a)
			r.dtd.decls = append(r.dtd.decls, "attribute\x01"+a.elem+"\x01"+a.name+"\x01"+a.typ+"\x01"+a.def+"\x01"+a.value)
		}
	}
}

// alternatives reads ( a | b ).
func (r *ref) alternatives(names bool) (string, bool) {
	if !r.take("(") {
		return "", r.no()
	}
	form := "("
	var seen []string
	for {
		r.blanks()
		var t []byte
		if names {
			n, ok := r.name()
			if !ok {
				return "", false
			}
			t = n
		} else {
			for !r.eof() && isNameChar(r.s[r.i]) {
				t = appendRune(t, r.s[r.i])
				r.i++
			}
			if len(t) == 0 {
				return "", r.no()
			}
		}
		for _, s := range seen {
			if sym.Eq(s, string(t)) {
				r.inv = true
			}
		}
		seen = append(seen, string(t))
		form += string(t)
		r.blanks()
		if r.take(")") {
			return form + ")", true
		}
		if !r.take("|") {
			return "", r.no()
		}
		form += "|"
	}
}

// squeeze removes all but single blanks between others.
func squeeze(v []byte) []byte {
	var b []byte
	blank := false
	for _, c := range v {
		if c == ' ' {
			blank = len(b) > 0
			continue
		}
		if blank {
			b = append(b, ' ')
			blank = false
		}
		b = append(b, c)
	}
	return b
}

// validDefault reports whether the default value is certainly valid.
func (r *ref) validDefault(a *refAtt) bool {
	switch a.typ {
	case "CDATA":
		return true
	case "NMTOKEN", "NMTOKENS":
		if len(a.value) == 0 {
			return false
		}
		for i := 0; i < len(a.value); i++ {
			if !(a.value[i] < 0x80 && isNameChar(rune(a.value[i])) || a.typ == "NMTOKENS" && a.value[i] == ' ') {
				return false
			}
		}
		return true
	}
	if a.typ[0] == '(' {
		for i := 1; i < len(a.typ); {
			j := i
			for a.typ[j] != '|' && a.typ[j] != ')' {
				j++
			}
			if j-i == len(a.value) && sym.Eq(a.typ[i:j], a.value) {
				return true
			}
			i = j + 1
		}
	}
	return false
}

func (r *ref) entityDecl() bool {
	if !r.blanks() {
		return r.no()
	}
	pe := r.take("%")
	if pe && !r.blanks() {
		return r.no()
	}
	n, ok := r.name()
	if !ok || !r.blanks() {
		return r.no()
	}
	for _, c := range n {
		if c == ':' {
			return r.no() // Namespaces in XML, section 7
		}
	}
	e := refEnt{name: string(n)}
	form := ""
	if r.at("SYSTEM") || r.at("PUBLIC") {
		pid, sid, ok := r.externalID()
		if !ok {
			return false
		}
		e.external = true
		for i := 0; i < len(sid); i++ {
			if !(sym.Or(sym.Between(sid[i], 'a', 'z'), sym.Or(sym.Between(sid[i], '0', '9'), sym.In(sid[i], "./")))) {
				r.dc = true // not an URI
			}
		}
		form = pid + "\x01" + sid
		blank := r.blanks()
		if r.at("NDATA") {
			if pe || !blank {
				return r.no()
			}
			r.i += 5
			if !r.blanks() {
				return r.no()
			}
			nt, ok := r.name()
			if !ok {
				return false
			}
			e.unparsed = true
			form += "\x01" + string(nt)
		}
	} else {
		t, ok := r.entityValue()
		if !ok {
			return false
		}
		e.text = t
		form = t
	}
	r.blanks()
	if !r.take(">") {
		return r.no()
	}
	kind := "entity"
	list := &r.dtd.ents
	if pe {
		kind = "parameter"
		list = &r.dtd.pents
	} else {
		for _, p := range []string{"lt", "gt", "amp", "quot", "apos"} {
			if len(p) == len(n) && p == string(n) {
				r.dc = true
			}
		}
	}
	if r.entity(*list, e.name) == nil {
		*list = append(*list, e)
		r.dtd.decls = append(r.dtd.decls, kind+"\x01"+e.name+"\x01"+form)
	}
	return true
}

// entityValue reads a literal, and gives the replacement text.
func (r *ref) entityValue() (string, bool) {
	if r.eof() || r.s[r.i] != '"' && r.s[r.i] != '\'' {
		return "", r.no()
	}
	q := r.s[r.i]
	r.i++
	var b []byte
	for {
		if r.eof() {
			return "", r.no()
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == q:
			return string(b), true
		case c == '%':
			return "", r.no()
		case c == '&':
			if r.take("#") {
				v, ok := r.charRef()
				if !ok {
					return "", false
				}
				b = appendRune(b, v)
				continue
			}
			n, ok := r.name()
			if !ok || !r.take(";") {
				return "", r.no()
			}
			b = append(b, '&')
			b = append(b, n...)
			b = append(b, ';')
		default:
			b = appendRune(b, c)
		}
	}
}

// expand is the text that an attribute value has for an entity.
func (r *ref) expand(e *refEnt) ([]byte, bool) {
	if e.external || e.open {
		return nil, r.no()
	}
	e.open = true
	sub := r.nested(e.text)
	v, ok := sub.value(-1)
	r.bad = r.bad || sub.bad
	r.dc = r.dc || sub.dc
	r.inv = r.inv || sub.inv
	r.stop = r.stop || sub.stop
	e.open = false
	return v, ok
}

// include reads an entity's replacement text as content.
func (r *ref) include(e *refEnt, depth int) bool {
	if e.unparsed || e.open {
		return r.no()
	}
	if e.external {
		return true // not read
	}
	e.open = true
	e.uses++
	if e.uses > 1 && len(r.binds) > 0 && sym.Contains(e.text, "<") {
		r.dc = true // it may mean something else each time
	}
	sub := r.nested(e.text)
	ok := sub.content(depth) && (sub.eof() || sub.no())
	r.join(sub)
	e.open = false
	return ok
}
