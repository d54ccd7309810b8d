package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// calm is a string of up to n characters, blanks or not, that are no markup.
func calm(name string, n int) string {
	s := xmlText(name, 0, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(!sym.In(s[i], "<>&]'\"?-%"), sym.Or(s[i] >= 0x20, sym.In(s[i], "\t\n\r"))))
	}
	return s
}

// blanks is a string of up to n blanks.
func blanks(name string, n int) string {
	s := sym.StrUpTo(name, 0, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.In(s[i], " \t\n\r"))
	}
	return s
}

// lines is one more than the number of line ends in s. A carriage return, with
// a line feed after it or not, is one.
func lines(s string) int {
	n := 1
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' && (i == 0 || s[i-1] != '\r') || s[i] == '\r' {
			n++
		}
	}
	return n
}

// checkLine: s is rejected for what begins behind before, which has no line ends.
func checkLine(before, bad, after string) {
	_, err := parse(before + bad + after)
	if err == nil {
		sym.Fail("a document that is not well-formed is accepted")
	}
	pe, ok := err.(helium.ErrParseError)
	if !ok {
		sym.Note("error", err.Error())
		sym.Fail("the error has no line number")
	}
	want := lines(before)
	sym.Note("line", itoa(pe.LineNumber))
	sym.Note("expected line", itoa(want))
	if pe.LineNumber != want {
		sym.Note("error", pe.Err.Error())
		sym.Fail("the error has the number of another line")
	}
	if pe.Err == nil {
		sym.Fail("the error has no cause")
	}
	msg := err.Error()
	if !strings.Contains(msg, "line "+itoa(want)+",") || !strings.Contains(msg, pe.Err.Error()) {
		sym.Note("message", sym.Quote(msg))
		sym.Fail("the message does not have the line number and the cause")
	}
	sym.Reach("rejected")
}

// badContent is something that is not well-formed in content, has no line ends and ends what comes before it.
func badContent() string {
	return sym.Pick("bad", "</b>", "<b c=1/>", "<b c='<'/>", "<b c='1' c='2'/>", "&u;", "&#0;", "&x", "&;", "\x01", "<1/>", "<!-- -- -->", "<!b>", "<?xml a?>",
		"<p:b/>", "</>", "<b c='&u;'/>", "<b c/>", "]]>", "<b x y='1'/>", "<?1 ?>", "<b></c>", "&#xg;", "<![CDAT[]]>", "<b c='1'd='2'/>")
}

// P18_Content: up to three markup-free characters or line ends in each of text, and one other construct, before something not well-formed; 24 kinds of it.
func P18_Content() {
	w := calm("w", 3)
	pre := "<a>"
	in := sym.Split(sym.Choice("in", 8))
	switch in {
	case 6:
		checkLine("<a>"+w+" ", "]]>", "\n")
		return
	case 7:
		checkLine("<a><!--"+w, "-- -->", "\n")
		return
	case 0:
		pre += w + "<b>" + w + "</b>"
	case 1:
		pre += "<!--" + w + "-->"
	case 2:
		pre += "<?p " + w + "?>"
	case 3:
		pre += "<![CDATA[" + w + "]]>"
	case 4:
		pre += "<b c='" + w + "' d=\"" + w + "\"/>"
	case 5:
		pre += "&lt;" + w + "&#10;" + w + "&gt;"
	}
	checkLine(pre+"\n", badContent(), "\n</a>\n")
}

// P18_Tags: up to three blanks at up to four places in tags before it.
func P18_Tags() {
	w := blanks("w", 3)
	pre := ""
	switch sym.Split(sym.Choice("in", 5)) {
	case 0:
		pre = "<a" + w + ">"
	case 1:
		pre = "<a b" + w + "=" + w + "'1' c='2'" + w + "/>"
	case 2:
		pre = "<a><b></b" + w + "><c xmlns='u'" + w + "/>"
	case 3:
		pre = "<a xmlns:p='u'" + w + " xmlns='v' " + w + "d='1'>"
	case 4:
		// a carriage return is one of the XML declaration's own blanks, which are read before line ends are normalised
		for i := 0; i < len(w); i++ {
			sym.Assume(w[i] != '\r')
		}
		pre = "<?xml version='1.0'" + w + "?>" + w + "<!--c-->" + w + "<?p?>" + w + "<a>"
	}
	bad := "</x>"
	if sym.Split(sym.Choice("bad", 2)) == 1 {
		bad = "<e f=g/>"
	}
	checkLine(pre, bad, "\n\n")
}

// P18_DTD: up to three blanks at places in the document type, or in an entity's value.
func P18_DTD() {
	w := blanks("w", 3)
	pre := ""
	switch sym.Split(sym.Choice("in", 7)) {
	case 0:
		pre = "<!DOCTYPE " + w + "a" + w + "[" + w + "]" + w + "><a>"
	case 1:
		pre = "<!DOCTYPE a [<!ENTITY " + w + "e " + w + "'" + w + "x'" + w + ">]><a>&e;<b/>&e;"
	case 2:
		pre = "<!DOCTYPE a [<!ELEMENT " + w + "a" + w + " (b" + w + "|" + w + "c)" + w + ">]><a>"
	case 3:
		pre = "<!DOCTYPE a [<!ATTLIST " + w + "a " + w + "b CDATA " + w + "'" + w + "'" + w + ">]><a>"
	case 4:
		pre = "<!DOCTYPE a " + w + "PUBLIC 'p' " + w + "'s'" + w + "><a>"
	case 5:
		pre = "<!DOCTYPE a [<!--" + w + "--><?p " + w + "?>" + w + "]><a>"
	case 6:
		pre = "<!DOCTYPE a [<!ELEMENT a (#PCDATA" + w + "|" + w + "b" + w + ")*><!ENTITY p SYSTEM " + w + "'s'" + w + " NDATA n>]><a>"
	}
	checkLine(pre, "</x>", "\n\n")
}

// P18_Prolog: in the prolog, document type, epilog and XML declaration.
func P18_Prolog() {
	w := blanks("w", 3)
	before, bad, after := "", "", ""
	switch sym.Split(sym.Choice("in", 8)) {
	case 0:
		before, bad = "<!--c-->"+w, "x"
	case 1:
		before, bad = w+"<!--\n-->", "<1>"
	case 2:
		before, bad, after = "<!DOCTYPE a ["+w, "<!X>", "]><a/>"
	case 3:
		before, bad, after = "<!DOCTYPE a ["+w+"<!ELEMENT a EMPTY>", "<!ELEMENT b X>", "\n]><a/>"
	case 4:
		before, bad, after = "<a/>"+w+"<!--c-->", "<b/>", "\n"
	case 5:
		before, bad, after = "<a/>"+w, "x", "\n"
	case 6:
		before, bad, after = "<!DOCTYPE a>"+w, "<!DOCTYPE a>", "\n<a/>"
	case 7:
		before, bad, after = "<!DOCTYPE a ["+w+"<!ATTLIST a b ", "X '1'>", "\n]><a/>"
	}
	checkLine(before, bad, after)
}

// P18_Char: a character that no document may contain, behind up to four markup-free characters, in eight constructs.
func P18_Char() {
	w := calm("w", 4)
	checkLine(sym.Pick("in", "<a>", "<a>\n<b>", "<a><!--", "<a><?p ", "<a><![CDATA[", "<a b='", "<!DOCTYPE a [<!ENTITY e '", "<!DOCTYPE a [<!ATTLIST a b CDATA '")+w, sym.Pick("bad", "\x01", "\uffff"), "\n")
}

// P18_End: the document ends too early, behind up to four markup-free characters.
func P18_End() {
	w := calm("w", 4)
	checkLine(sym.Pick("in", "<a>", "<a>\n<b>", "<a><!--", "<a><?p ", "<a><![CDATA[", "<a b='", "<a>x\n&lt;",
		"<!DOCTYPE a [<!ENTITY e '", "<!DOCTYPE a [<!ENTITY e SYSTEM '", "<!DOCTYPE a [<!ATTLIST a b CDATA '", "<!DOCTYPE a [<!--", "<!DOCTYPE a [<?p ")+w, "", "")
}

// P18_Pad: any number of line ends around the end of the reader's buffer of 40 bytes.
func P18_Pad() {
	pad := sym.Split(30 + sym.Choice("pad", tier(12, 24)))
	w := calm("w", 3)
	checkLine("<a>"+strings.Repeat("\n", pad/2)+strings.Repeat("x", pad-pad/2)+w+"<b/>"+strings.Repeat(" ", 7)+w, "</b>", "\n")
}

// P18_Long: as before, with a number of lines that has up to three digits.
func P18_Long() {
	n := sym.Split(sym.Choice("n", 4))
	k := []int{8, 9, 98, 120}[n]
	w := blanks("w", 2)
	checkLine("<a>"+strings.Repeat("\r\n", k)+w+"<!--"+strings.Repeat("\n", k)+"-->", badContent(), "</a>")
}

// P18_Sizes: behind long lines and long text, names, values and comments of them: all lengths up to 20 and those around powers of two up to 256 (thorough 2048).
func P18_Sizes() {
	n := size(tier(256, 2048))
	w := blanks("w", 2)
	xs := strings.Repeat("x", n)
	if sym.Split(sym.Choice("what", 2)) == 1 {
		xs = strings.Repeat("x\n", n/2)
	}
	pre := ""
	switch sym.Split(sym.Choice("in", 5)) {
	case 0:
		pre = "<a>" + w + xs
	case 1:
		pre = "<a>" + w + "<!--" + xs + "--><b/>"
	case 2:
		pre = "<a b='" + xs + "'" + w + ">"
	case 3:
		pre = "<!DOCTYPE a [<!--" + xs + "-->" + w + "]><a>"
	case 4:
		pre = "<?p " + xs + "?><a>" + w + "<![CDATA[" + xs + "]]>"
	}
	checkLine(pre+" ", "</x>", "\n")
}

// P18_Message: the message of an error has its line number and the underlying error, for line numbers around powers of two and ten up to 10^9.
func P18_Message() {
	var l []int
	for p := 1; p <= 1000000000; p *= 10 {
		l = append(l, p, p+1)
		if p > 1 {
			l = append(l, p-1)
		}
	}
	for p := 2; p <= 1<<29; p *= 2 {
		l = append(l, p-1, p, p+1)
	}
	n := l[sym.Split(sym.Choice("line", len(l)))]
	e := helium.ErrParseError{Err: helium.ErrGtRequired, LineNumber: n, Column: 7, Line: "x"}
	msg := e.Error()
	sym.Note("message", msg)
	sym.Assert(strings.Contains(msg, "line "+itoa(n)+","), "the message has another line number")
	sym.Assert(strings.Contains(msg, helium.ErrGtRequired.Error()), "the message lacks the underlying error")
	sym.Reach("done")
}
