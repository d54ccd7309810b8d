package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// checkEvents: a handler sees the document the tree shows, with and without a tree built from the events.
func checkEvents(s string) { checkEventsIn(s, strings.Contains(s, "<!ENTITY")) }

func checkEventsIn(s string, entities bool) {
	doc, err := parse(s)
	r := &recorder{nodef: true} // the tree doesn't have them
	if entities || sym.Split(sym.Choice("tree", 2)) == 1 {
		r.tb = helium.NewTreeBuilder()
	}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	doc2, err2 := p.Parse([]byte(s))
	if (err == nil) != (err2 == nil) {
		sym.Fail("a handler changes whether a document is accepted")
	}
	sym.Note("events", sym.Quote(string(r.out)))
	if err != nil {
		if r.ends > 0 {
			sym.Fail("the end of a document that is rejected is reported")
		}
		sym.Assert(r.bad == "", r.bad)
		sym.Reach("rejected")
		return
	}
	if r.sub.active {
		sym.Fail("the last event is not for the document")
	}
	sym.Assert(r.bad == "", r.bad)
	if r.starts != 1 || r.ends != 1 {
		sym.Fail("the document is not started and ended exactly once")
	}
	form := canon(doc)
	sym.Note("tree", sym.Quote(form))
	if len(form) != len(r.out) {
		sym.Fail("the events describe another document than the tree")
	}
	sym.Assert(sym.Eq(form, string(r.out)), "the events describe another document than the tree")
	if r.tb != nil {
		sameTree(doc2, form)
	}
	sym.Reach("accepted")
}

// P15_Text: text of up to 4 ASCII bytes between elements.
func P15_Text() {
	checkEvents("<a>" + ascii("w", 0, tier(4, 5)) + "<b>" + ascii("x", 0, 1) + "</b></a>")
}

// P15_Attr: attributes with arbitrary ASCII values.
func P15_Attr() {
	checkEvents("<a b='" + ascii("w", 0, tier(2, 3)) + "' c=\"" + ascii("x", 0, tier(2, 3)) + "\"/>")
}

// P15_Decls: declarations and prefixes.
func P15_Decls() {
	checkEvents("<a xmlns='u' xmlns:p='v'><" + ascii("w", 0, 2) + "b xmlns" + ascii("x", 0, 2) + "='w' p:c='1'/></a>")
}

// P15_DTD: a document type with declarations, and references to its entities.
func P15_DTD() {
	d := "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY f \"<b>y</b>\"><!ELEMENT a ANY><!ATTLIST a c CDATA #IMPLIED>" + sym.Pick("m", "", "<!--c-->", "<?p d?>") + "]>"
	checkEventsIn(d+"<a>"+sym.Pick("t", "", "t", "&e;", "&f;", " ")+ascii("w", 0, 1)+sym.Pick("u", "", "&e;", "<![CDATA[ ]]>", "\n")+"</a>", true)
}

// P15_CData: CDATA sections, in the document, in entities and in entities in them, and references to these: a CDATA event for each section, once for those in entities, in order.
func P15_CData() {
	e, f := sym.Pick("e", "<![CDATA[2]]>", "&f;", "<b><![CDATA[2]]></b>&f;", "x", "&f;<![CDATA[2]]>"), sym.Pick("f", "<![CDATA[3]]>", "<c>y<![CDATA[3]]></c>", "3")
	want := ""
	seene, seenf := false, false
	useF := func() {
		if !seenf && f != "3" {
			want += "3"
		}
		seenf = true
	}
	useE := func() {
		if seene {
			return
		}
		seene = true
		if e[0] == '&' {
			useF()
		}
		if sym.Contains(e, "2") {
			want += "2"
		}
		if e[0] != '&' && sym.Contains(e, "&f;") {
			useF()
		}
	}
	s := ""
	for i := 0; i < 3; i++ {
		t := sym.Pick("t"+itoa(i), "", "<![CDATA[1]]>", "&e;", "&f;", "1")
		s += t
		switch t {
		case "<![CDATA[1]]>":
			want += "1"
		case "&e;":
			useE()
		case "&f;":
			useF()
		}
	}
	s = "<!DOCTYPE a [<!ENTITY e '" + e + "'><!ENTITY f '" + f + "'>]><a>" + s + "</a>"
	sym.Note("document", sym.Quote(s))
	r := &recorder{tb: helium.NewTreeBuilder()}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	if _, err := p.Parse([]byte(s)); err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	sym.Note("got", string(r.cdata))
	sym.Note("want", want)
	if string(r.cdata) != want {
		sym.Fail("there are other CDATA events than sections")
	}
	sym.Reach("same")
}

// P15_Blanks: blanks next to elements: as ignorable ones only in elements declared to have nothing but elements in them.
func P15_Blanks() {
	model := sym.Pick("model", "EMPTY", "ANY", "(#PCDATA)", "(#PCDATA|b)*", "(b)", "(b?,c*)", "(b|c)+")
	root, other := "a", ""
	switch sym.Split(sym.Choice("prefix", 3)) {
	case 1: // one of the same local name, with another prefix, is declared to be something else
		other = "<!ELEMENT p:a " + sym.Pick("pmodel", "(b)", "ANY") + ">"
	case 2:
		root = "p:a"
		other = "<!ELEMENT a " + sym.Pick("pmodel", "(b)", "ANY") + ">"
	}
	d := "<!DOCTYPE a [" + other + "<!ELEMENT " + root + " " + model + "><!ELEMENT b " + sym.Pick("bmodel", "ANY", "(c)") + "><!ELEMENT c EMPTY>]>"
	s := d + "<" + root + " xmlns:p='u'>" + ascii("w", 1, 2) + sym.Pick("kid", "", "<b/>", "<c/>", "<b> </b>") + "</" + root + ">"
	ignorable := 0
	sym.Note("document", sym.Quote(s))
	r := &recorder{tb: helium.NewTreeBuilder()}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	_, err := p.Parse([]byte(s))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	for _, k := range r.kinds {
		if k == evIgnorable {
			ignorable++
		}
	}
	if ignorable > 0 {
		ok := model == "(b)" || model == "(b?,c*)" || model == "(b|c)+" || sym.Contains(s, "ELEMENT b (c)") && sym.Contains(s, "<b> </b>")
		sym.Assert(ok, "blanks that are text are reported as ignorable")
		sym.Reach("ignorable")
	}
	sym.Reach("accepted")
}

// P15_Late: special characters and markup in text, comments, instructions and sections, up to 65 (thorough 129) characters from where these begin.
func P15_Late() {
	k := sym.Split(sym.Choice("kind", 4))
	if k > 0 {
		k++
	}
	checkEvents(late(k))
}
