package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// charsets are the ASCII-compatible encodings that can be declared, in lower case, and more.
var charsets = []string{"utf8", "utf-8", "euc-jp", "shift_jis", "shift-jis", "shiftjis", "cp932", "jis", "iso-2022-jp", "big5", "euc-kr", "hz-gb2312",
	"cp437", "cp866", "iso-8859-1", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-6", "iso-8859-7", "iso-8859-8",
	"iso-8859-10", "iso-8859-13", "iso-8859-14", "iso-8859-15", "iso-8859-16", "koi8r", "koi8u", "koir8u", "macintosh", "macintoshcyrillic",
	"windows1250", "windows1251", "windows1252", "windows1253", "windows1254", "windows1255", "windows1256", "windows1257", "windows1258",
	"windows874", "xuserdefined"}

func lowerASCII(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = byte(sym.Ite(sym.Between(b[i], 'A', 'Z'), int(b[i])+32, int(b[i])))
	}
	return string(b)
}

func isCharset(name string) bool {
	l := lowerASCII(name)
	for _, c := range charsets {
		if len(c) == len(l) && c == l {
			return true
		}
	}
	return false
}

// checkDecl: s, whose body is ASCII, is rejected, or accepted with what the declaration says, also after a round trip.
func checkDecl(s string) {
	v, form, r := refParse(s)
	if v == refDontCare {
		sym.Reach("no opinion")
		return
	}
	doc, err := parse(s)
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if r.enc != "" && !isCharset(r.enc) {
		sym.Assert(err != nil, "an unknown encoding is accepted")
		sym.Reach("unknown encoding")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sameTree(doc, form)
	checkSettings(doc, r)
	d1 := dump(doc)
	v, form2, r2 := refParse(d1)
	if v != refAccept || r2.version != orElse(r.version, "1.0") || r2.enc != r.enc || r2.sa != r.sa || form2 != form {
		sym.Fail("the declaration isn't written back")
	}
	again, err := helium.Parse([]byte(d1))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	checkSettings(again, r)
	sym.Reach("accepted")
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func checkSettings(doc *helium.Document, r *ref) {
	sym.Note("version", sym.Quote(doc.Version()))
	sym.Note("encoding", sym.Quote(doc.Encoding()))
	sym.Assert(doc.Version() == orElse(r.version, "1.0"), "the version is not the declaration's")
	sym.Assert(doc.Encoding() == orElse(r.enc, "utf8"), "the encoding is not the declaration's")
	want := helium.DocumentStandaloneType(helium.StandaloneImplicitNo)
	switch r.sa {
	case "yes":
		want = helium.StandaloneExplicitYes
	case "no":
		want = helium.StandaloneExplicitNo
	}
	sym.Assert(doc.Standalone() == want, "standalone is not the declaration's")
}

// slide replaces n characters of s, at any place before end, with up to n+1 arbitrary ASCII ones.
func slide(s string, end, n int) string {
	at := sym.Split(sym.Choice("at", end))
	to := at + n
	if to > len(s) {
		to = len(s)
	}
	return s[:at] + ascii("w", 0, n+1) + s[to:]
}

// P19_Slide: up to three (thorough five) arbitrary ASCII bytes instead of any two (four) of one of three declarations.
func P19_Slide() {
	s := sym.Pick("decl",
		"<?xml version='1.0' encoding=\"utf-8\" standalone='yes' ?>\n<a/>",
		"<?xml version = \"1.1\" standalone=\"no\"?><a/>",
		"<?xml\nversion='1.0'\tencoding = 'ISO-8859-1'?><a>x</a>")
	checkDecl(slide(s, strings.Index(s, "?>")+2, tier(2, 4)))
}

// P19_Version: up to five arbitrary ASCII bytes as version.
func P19_Version() { checkDecl("<?xml version='" + ascii("w", 0, tier(5, 7)) + "'?><a/>") }

// P19_VersionLong: versions with 1 to 12 arbitrary digits (thorough 30).
func P19_VersionLong() {
	d := sym.StrUpTo("d", 1, tier(12, 30))
	for i := 0; i < len(d); i++ {
		sym.Assume(sym.Between(d[i], '0', '9'))
	}
	checkDecl("<?xml version=\"1." + d + "\"?><a/>")
}

// P19_Encoding: up to four (thorough five) arbitrary ASCII bytes as encoding.
func P19_Encoding() { checkDecl("<?xml version='1.0' encoding='" + ascii("w", 0, tier(4, 5)) + "'?><a/>") }

// P19_EncodingTail: every known encoding, with up to one more arbitrary ASCII byte.
func P19_EncodingTail() {
	c := charsets[sym.Split(sym.Choice("charset", len(charsets)))]
	checkDecl("<?xml version='1.0' encoding=\"" + c + ascii("w", 0, 1) + "\"?><a/>")
}

// P19_Standalone: up to four arbitrary ASCII bytes as standalone.
func P19_Standalone() {
	checkDecl("<?xml version='1.0' standalone='" + ascii("w", 0, tier(4, 5)) + "'?><a/>")
}

// P19_Blanks: up to one arbitrary ASCII byte, or several blanks, at each of two places of a declaration.
func P19_Blanks() {
	at := sym.Split(sym.Choice("at", 12))
	at2 := sym.Split(sym.Choice("at2", 12))
	sym.Assume(at <= at2)
	s := ""
	for i, p := range []string{"<?xml", "version", "=", "'1.0'", "encoding", "=", "\"utf8\"", "standalone", "=", "'no'", "?>", "<a/>"} {
		switch {
		case i == at && i == at2:
			s += blanks("b", 3) + p
		case i == at:
			s += ascii("w", 0, 1) + p
		case i == at2:
			s += ascii("v", 0, 1) + p
		case i == 1 || i == 4 || i == 7:
			s += " " + p
		default:
			s += p
		}
	}
	checkDecl(s)
}

// P19_Order: up to four pseudo-attributes in any order, repeated or unknown, with either or no quotes.
func P19_Order() {
	s := "<?xml"
	n := sym.Split(sym.Choice("n", 5))
	for i := 0; i < n; i++ {
		k := itoa(i)
		s += sym.Pick("p"+k, " version='1.0'", " encoding=\"utf-8\"", " standalone='yes'", " other='1'", "", " version=\"1.0'", " encoding=utf8")
	}
	checkDecl(s + sym.Pick("end", "?>", " ?>", ">", "", "/>") + "<a/>")
}

// P19_Before: something before the declaration, or a second one.
func P19_Before() {
	d := "<?xml version='1.0' encoding='utf-8'?>"
	w := ascii("w", 0, 2)
	switch sym.Split(sym.Choice("where", 4)) {
	case 0:
		checkDecl(w + d + "<a/>")
	case 1:
		checkDecl(d + w + d + "<a/>")
	case 2:
		checkDecl("<a>" + w + d + "</a>")
	case 3:
		checkDecl("<a/>" + w + d)
	}
}

// P19_Created: created documents have the settings they were given, also after serialisation.
func P19_Created() {
	d := sym.StrUpTo("d", 1, 3)
	for i := 0; i < len(d); i++ {
		sym.Assume(sym.Between(d[i], '0', '9'))
	}
	r := &ref{version: "1." + d}
	r.enc = sym.Pick("enc", "", "utf-8", "UTF8", "ISO-8859-1", "koi8r")
	sa := helium.DocumentStandaloneType(helium.StandaloneImplicitNo)
	switch sym.Split(sym.Choice("sa", 3)) {
	case 0:
		r.sa, sa = "yes", helium.StandaloneExplicitYes
	case 1:
		r.sa, sa = "no", helium.StandaloneExplicitNo
	}
	doc := helium.NewDocument(r.version, r.enc, sa)
	checkSettings(doc, r)
	e, _ := doc.CreateElement("a")
	doc.AddChild(e)
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of a created document is rejected")
	}
	checkSettings(again, r)
	sym.Reach("created")
}
