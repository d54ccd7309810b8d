package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// blanksW is an arbitrary string of blanks and x's.
func blanksW(name string, lo, hi int) string {
	w := sym.StrUpTo(name, lo, hi)
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.In(w[i], "\r\n\t x"))
	}
	return w
}

// lineNorm is the text w reads as.
func lineNorm(w string) string {
	var b []byte
	for i := 0; i < len(w); i++ {
		if w[i] == '\r' {
			b = append(b, '\n')
			if i+1 < len(w) && w[i+1] == '\n' {
				i++
			}
			continue
		}
		b = append(b, w[i])
	}
	return string(b)
}

func kidContent(doc *helium.Document) string {
	k := doc.FirstChild().FirstChild()
	if k == nil {
		return ""
	}
	if k.NextSibling() != nil {
		sym.Fail("more than one node")
	}
	return string(k.Content())
}

func checkNorm(s, w string, skipLead bool) {
	want := lineNorm(w)
	if skipLead {
		want = strings.TrimLeft(want, "\t\n ")
	}
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	for i := 0; i < 2; i++ {
		got := kidContent(doc)
		sym.Note("got", sym.Quote(got))
		sym.Note("want", sym.Quote(want))
		if len(got) != len(want) {
			sym.Fail("blanks or line ends are added or lost")
		}
		sym.Assert(sym.Eq(got, want), "line ends are not delivered as line feeds, or other characters changed")
		if i == 0 {
			doc, err = helium.Parse([]byte(dump(doc)))
			if err != nil {
				sym.Fail("the serialisation is rejected")
			}
		}
	}
	sym.Reach("checked")
}

// P27_Text: up to 6 blanks, line ends and letters in text (thorough 8).
func P27_Text() {
	w := blanksW("w", 1, tier(6, 8))
	checkNorm("<a>"+w+"</a>", w, false)
}

// P27_CDATA: likewise in a CDATA section.
func P27_CDATA() {
	w := blanksW("w", 1, tier(6, 8))
	checkNorm("<a><![CDATA["+w+"]]></a>", w, false)
}

// P27_Comment: likewise in a comment.
func P27_Comment() {
	w := blanksW("w", 0, tier(6, 8))
	checkNorm("<a><!--"+w+"--></a>", w, false)
}

// P27_PI: likewise as the data of an instruction, where leading blanks separate the data.
func P27_PI() {
	w := blanksW("w", 0, tier(6, 8))
	checkNorm("<a><?p "+w+"?></a>", w, true)
}

// P27_Between: text on both sides of markup keeps its blanks.
func P27_Between() {
	w, x := blanksW("w", 0, tier(3, 4)), blanksW("x", 0, tier(3, 4))
	s := "<a>" + w + "<b/>" + x + "</a>"
	checkAccept(s)
}

// P27_Long: line ends across the reader's buffer boundaries.
func P27_Long() {
	n := sym.Split(28 + sym.Choice("pad", tier(14, 60)))
	w := blanksW("w", 2, tier(3, 4))
	w = strings.Repeat("x", n) + w
	checkNorm("<a>"+w+"</a>", w, false)
}

// P27_CharRef: carriage returns written as references survive, next to literal line ends.
func P27_CharRef() {
	n := sym.Split(1 + sym.Choice("n", tier(4, 5)))
	var src, want string
	for i := 0; i < n; i++ {
		switch sym.Split(sym.Choice("p"+string(byte('0'+i)), 6)) {
		case 0:
			src += "&#13;"
			want += "\r"
		case 1:
			src += "&#xD;"
			want += "\r"
		case 2:
			src += "\n"
			want += "\n"
		case 3:
			src += "&#10;"
			want += "\n"
		case 4:
			src += "\r\n"
			want += "\n"
		case 5:
			src += "\t"
			want += "\t"
		}
	}
	doc, err := parse("<a b='" + src + "'>" + src + "</a>")
	if err != nil {
		sym.Fail("a well-formed document is rejected")
	}
	for i := 0; i < 2; i++ {
		sym.Note("got", sym.Quote(kidContent(doc)))
		sym.Note("want", sym.Quote(want))
		sym.Assert(kidContent(doc) == want, "a carriage return written as a reference is lost")
		if i == 0 {
			doc, err = helium.Parse([]byte(dump(doc)))
			if err != nil {
				sym.Fail("the serialisation is rejected")
			}
		}
	}
	sym.Reach("checked")
}

// P27_Late: line ends and other blanks up to 65 (thorough 129) characters into text, a section, a comment or an instruction, after others.
func P27_Late() {
	pad := strings.Repeat(sym.Pick("pad", "x", " ", "\n"), few(tier(64, 128)))
	w := pad
	for i := 0; i < 3; i++ {
		w += sym.Pick("t"+itoa(i), "\r", "\n", "\t", " ", "x")
	}
	switch sym.Split(sym.Choice("kind", 4)) {
	case 0:
		checkNorm("<a>"+w+"</a>", w, false)
	case 1:
		checkNorm("<a><![CDATA["+w+"]]></a>", w, false)
	case 2:
		checkNorm("<a><!--"+w+"--></a>", w, false)
	case 3:
		checkNorm("<a><?p "+w+"?></a>", w, true)
	}
}
