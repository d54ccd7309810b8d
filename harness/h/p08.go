package h

import (
	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

func misc(k string, inside bool) string {
	n := 4
	if inside {
		n = 5
	}
	switch sym.Split(sym.Choice("m"+k, n)) {
	case 0:
		return ""
	case 1:
		return "<!--" + ascii("c"+k, 0, 2) + "-->"
	case 2:
		return "<?p" + ascii("t"+k, 0, 1) + " " + ascii("d"+k, 0, 1) + "?>"
	case 3:
		return "<?" + ascii("n"+k, 1, 1) + "?>\n<!---->"
	}
	return "x"
}

// checkMisc: accepted with the reference tree, which survives serialisation.
func checkMisc(s string) {
	v, form, _ := refParse(s)
	if v == refReject {
		_, err := parse(s)
		sym.Assert(err != nil, "a malformed comment or instruction is accepted")
		sym.Reach("rejected")
		return
	}
	if v != refAccept {
		sym.Reach("other")
		return
	}
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sameTree(doc, form)
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation is rejected")
	}
	sameTree(again, form)
	sym.Reach("accepted")
}

// P08_Places: a comment or instruction with arbitrary characters at each of two places,
// of those before, in and after the root.
func P08_Places() {
	i := sym.Split(sym.Choice("i", 5))
	j := sym.Split(sym.Choice("j", 5))
	sym.Assume(i < j)
	var m [5]string
	m[i] = misc("0", i != 0 && i != 4)
	m[j] = misc("1", j != 4)
	checkMisc(m[0] + "<a>" + m[1] + "<b>" + m[2] + "</b>" + m[3] + "</a>" + m[4])
}

// P08_Comment: up to 4 arbitrary ASCII bytes in a comment (thorough 6).
func P08_Comment() { checkMisc("<a><!--" + ascii("w", 0, tier(4, 6)) + "--></a>") }

// P08_PI: up to 4 arbitrary ASCII bytes in an instruction (thorough 6).
func P08_PI() { checkMisc("<a/><?" + ascii("w", 0, tier(4, 6)) + "?>") }

// P08_PIData: up to 4 arbitrary ASCII bytes as data (thorough 6), blanks and question marks among them.
func P08_PIData() { checkMisc("<?pi " + ascii("w", 0, tier(4, 6)) + "?><a/>") }

// P08_Target: every target of one to three letters in either case, like xml.
func P08_Target() {
	t := ascii("t", 1, 4)
	for i := 0; i < len(t); i++ {
		sym.Assume(sym.In(t[i], "xXmMlL-1a"))
	}
	checkMisc("<a><?" + t + " d?></a>")
}

// P08_UTF8: arbitrary bytes in a comment and as data.
func P08_UTF8() {
	w := bytesW("w", 1, tier(3, 4))
	if sym.Split(sym.Choice("pi", 2)) == 0 {
		checkMisc("<a/><!--" + w + "-->")
	} else {
		checkMisc("<a><?p " + w + "?></a>")
	}
}

// P08_Open: comments and instructions that are not closed are errors.
func P08_Open() {
	w := ascii("w", 0, tier(4, 6))
	switch sym.Split(sym.Choice("kind", 4)) {
	case 0:
		sym.Assume(!sym.Contains(w, "-->"))
		_, err := parse("<a/><!--" + w)
		sym.Assert(err != nil, "an unterminated comment is accepted")
	case 1:
		sym.Assume(!sym.Contains(w, "?>"))
		_, err := parse("<a/><?p " + w)
		sym.Assert(err != nil, "an unterminated instruction is accepted")
	case 2:
		sym.Assume(!sym.Contains(w, "-->"))
		_, err := parse("<a><!--" + w + "</a>")
		sym.Assert(err != nil, "an unterminated comment is accepted")
	case 3:
		sym.Assume(!sym.Contains(w, "?>"))
		_, err := parse("<a><?p" + w + "</a>")
		sym.Assert(err != nil, "an unterminated instruction is accepted")
	}
	sym.Reach("rejected")
}

// P08_Late: special characters up to 65 (thorough 129) characters into a comment or an instruction.
func P08_Late() { checkMisc(late(2 + sym.Split(sym.Choice("kind", 2)))) }
