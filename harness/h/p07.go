package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

func textNorm(s string) string {
	s = strings.Replace(s, "\r\n", "\n", -1)
	return strings.Replace(s, "\r", "\n", -1)
}

// cdataIn: content is delivered literally, alone or next to text, and survives serialisation.
func cdataIn(pre, w, post string) {
	s := "<a>" + pre + "<![CDATA[" + w + "]]>" + post + "</a>"
	v, form, _ := refParse(s)
	if v != refAccept {
		checkReject(s)
		return
	}
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a CDATA section is rejected")
	}
	sameTree(doc, form)
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation is rejected")
	}
	sameTree(again, form)
	sym.Reach("accepted")
}

// P07_Window: a section with up to 4 arbitrary ASCII bytes (thorough 6).
func P07_Window() { cdataIn("", ascii("w", 0, tier(4, 6)), "") }

// P07_Markup: a section with up to 6 bytes (thorough 7) of the characters that mean something in markup.
func P07_Markup() {
	w := sym.StrUpTo("w", 0, tier(5, 7))
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.In(w[i], "]>[<&;x\n"))
	}
	cdataIn("", w, "")
}

// P07_Between: sections between text, comments, other sections and elements.
func P07_Between() {
	pre := sym.Pick("pre", "x", "]]", "<b/>", "<!--c-->", "<![CDATA[]]]]>", "&#60;", "\n", "<![CDATA[ ]]>")
	post := sym.Pick("post", "y", ">", "<b/>", "<?p?>", "<![CDATA[>]]>", "&gt;", " ")
	cdataIn(pre, ascii("w", 0, tier(2, 3)), post)
}

// P07_UTF8: arbitrary bytes in the section.
func P07_UTF8() { cdataIn("x", bytesW("w", 1, tier(3, 4)), "") }

// P07_Open: a section that is not closed is an error.
func P07_Open() {
	w := ascii("w", 0, tier(5, 6))
	sym.Assume(!sym.Contains(w, "]]>"))
	_, err := parse("<a><![CDATA[" + w)
	sym.Assert(err != nil, "an unterminated CDATA section is accepted")
	_, err = parse("<a><![CDATA[" + w + "</a>")
	sym.Assert(err != nil, "an unterminated CDATA section is accepted")
	sym.Reach("rejected")
}

// P07_Long: the end of the section lies across the reader's buffer boundary.
func P07_Long() {
	n := sym.Split(20 + sym.Choice("pad", tier(12, 60)))
	w := sym.StrUpTo("w", 0, 3)
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.In(w[i], "]>&x"))
	}
	cdataIn("", strings.Repeat("x", n)+w, "z")
}

// P07_Events: a handler gets the section's characters and nothing else for it.
func P07_Events() {
	w := ascii("w", 0, tier(4, 5))
	s := "<a><![CDATA[" + w + "]]></a>"
	v, _, _ := refParse(s)
	if v != refAccept || sym.Contains(w, "]]>") {
		sym.Reach("other")
		return
	}
	r := &recorder{}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	_, err := p.Parse([]byte(s))
	if err != nil {
		sym.Fail("a CDATA section is rejected")
	}
	want := textNorm(w)
	sym.Note("cdata", sym.Quote(string(r.cdata)))
	if len(r.cdata) != len(want) {
		sym.Fail("the section's characters are not delivered")
	}
	sym.Assert(sym.Eq(string(r.cdata), want), "the section's characters are not delivered literally")
	sym.Reach("delivered")
}

// P07_Late: three (thorough four) parts, most of them of the characters that end a section, anywhere in the first 65 (thorough 257) characters of the section.
func P07_Late() {
	s := ""
	for i := 0; i < tier(3, 4); i++ {
		s += sym.Pick("t"+itoa(i), "]", "]]", " ", ">", "&", "<", "")
	}
	cdataIn("", strings.Repeat(sym.Pick("pad", "x", "]")[:1], few(tier(64, 256)))+s, sym.Pick("post", "", ">"))
}
