package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// valuePiece is one piece of an attribute value as written, and what it means.
func valuePiece(k string) (src, val string) {
	switch sym.Split(sym.Choice("p"+k, 11)) {
	case 0:
		b := sym.Str("b"+k, 1)
		sym.Assume(sym.And(sym.And(b[0] >= 0x20, b[0] < 0x80), !sym.In(b[0], "<&\"'")))
		return b, b
	case 1:
		return "\r\n", " "
	case 2:
		return "\r", " "
	case 3:
		return "\n", " "
	case 4:
		return "\t", " "
	case 5:
		return "&#9;", "\t"
	case 6:
		return "&#10;", "\n"
	case 7:
		return "&#xD;", "\r"
	case 8:
		n := sym.Choice("e"+k, 5)
		i := sym.Split(n)
		return []string{"&lt;", "&gt;", "&amp;", "&apos;", "&quot;"}[i], []string{"<", ">", "&", "'", "\""}[i]
	case 9:
		return "&#38;#60;", "&#60;"
	}
	b := sym.Str("u"+k, 2)
	sym.Assume(sym.And(sym.Between(b[0], 0xC3, 0xDF), sym.Between(b[1], 0x80, 0xBF)))
	return b, b
}

func checkAttrs(s string, names []string, vals []string) {
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	e, ok := doc.FirstChild().(*helium.Element)
	if !ok {
		sym.Fail("the root is not an element")
	}
	as := e.Attributes()
	if len(as) != len(names) {
		sym.Fail("the number of attributes differs")
	}
	for i, a := range as {
		sym.Note("value", sym.Quote(a.Value()))
		sym.Note("expected", sym.Quote(vals[i]))
		sym.Assert(a.Name() == names[i], "the attributes are in another order")
		sym.Assert(sym.Eq(a.Value(), vals[i]), "the attribute's value is not the one written")
	}
	sym.Reach("checked")
}

// P04_Pieces: a value of up to 3 pieces (thorough 4), between two attributes with fixed values;
// a piece is any printable ASCII character, a two byte character, a literal blank, CRLF or a reference.
func P04_Pieces() {
	n := sym.Split(sym.Choice("n", tier(4, 5)))
	var src, val string
	for i := 0; i < n; i++ {
		s, v := valuePiece(string(byte('0' + i)))
		if s == "\n" && strings.HasSuffix(src, "\r") {
			v = "" // a pair after all
		}
		src += s
		val += v
	}
	q := "\""
	if sym.Split(sym.Choice("q", 2)) == 1 {
		q = "'"
	}
	checkAttrs("<a x='1\t2' y="+q+src+q+" z=\"3\"/>", []string{"x", "y", "z"}, []string{"1 2", val, "3"})
}

// P04_Three: three attributes with an arbitrary legal ASCII character each, other quotes around each.
func P04_Three() {
	var v [3]string
	for i := range v {
		b := sym.Str("b"+string(byte('0'+i)), 2)
		for k := 0; k < 2; k++ {
			sym.Assume(sym.And(sym.Or(b[k] >= 0x20, sym.In(b[k], "\t\n")), sym.And(b[k] < 0x80, !sym.In(b[k], "<&"))))
		}
		v[i] = b
	}
	for k := 0; k < 2; k++ {
		sym.Assume(v[0][k] != '"')
		sym.Assume(v[1][k] != '\'')
		sym.Assume(v[2][k] != '"')
	}
	var want []string
	for _, s := range v {
		var b []byte
		for k := 0; k < len(s); k++ {
			b = append(b, byte(sym.Ite(sym.In(s[k], "\t\n"), ' ', int(s[k]))))
		}
		want = append(want, string(b))
	}
	checkAttrs("<a x=\""+v[0]+"\" p:y='"+v[1]+"'\n\tz = \""+v[2]+"\" xmlns:p='u'></a>", []string{"x", "p:y", "z"}, want)
}

// P04_Long: a value across the reader's buffer boundary, of any length from 30 to 45 (thorough 120).
func P04_Long() {
	n := sym.Split(30 + sym.Choice("pad", tier(16, 91)))
	src, val := valuePiece("0")
	pad := strings.Repeat("v", n)
	checkAttrs("<a x='"+pad+src+"w' y='2'/>", []string{"x", "y"}, []string{pad + val + "w", "2"})
}

// P04_Value: any window of ASCII in a value, against the reference reader.
func P04_Value() { checkAccept(winValue()) }

// P04_UTF8Value: any window of bytes in a value, against the reference reader.
func P04_UTF8Value() { checkAccept(winUTF8Value()) }

// P04_Late: special characters and references up to 65 (thorough 129) characters into a value.
func P04_Late() { checkAccept(late(1)) }
