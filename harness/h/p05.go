package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// refPlaces puts a reference into text, an attribute value or an entity value
// and returns what it contributes there.
func refPlaces(place int, r string) (string, bool) {
	switch place {
	case 0:
		doc, err := parse("<a>x" + r + "y</a>")
		if err != nil {
			return "", false
		}
		return string(doc.FirstChild().Content()), true
	case 1:
		doc, err := parse("<a b='x" + r + "y'/>")
		if err != nil {
			return "", false
		}
		return doc.FirstChild().(*helium.Element).Attributes()[0].Value(), true
	}
	doc, err := parse("<!DOCTYPE a [<!ENTITY e 'x" + r + "y'>]><a/>")
	if err != nil {
		return "", false
	}
	ent, ok := doc.GetEntity("e")
	if !ok {
		sym.Fail("the entity is not declared")
	}
	return string(ent.Content()), true
}

func checkCharRef(place int, digits string, base int, v rune) {
	pre := "&#"
	if base == 16 {
		pre = "&#x"
	}
	got, ok := refPlaces(place, pre+digits+";")
	if v > 0x10FFFF || !isXMLChar(v) {
		sym.Assert(!ok, "a reference to something that is not a character is accepted")
		sym.Reach("illegal")
		return
	}
	if !ok {
		sym.Fail("a reference to a character is rejected")
	}
	want := string(appendRune([]byte("x"), v)) + "y"
	sym.Note("got", sym.Quote(got))
	sym.Note("want", sym.Quote(want))
	if len(got) != len(want) {
		sym.Fail("the reference contributes something else")
	}
	sym.Assert(sym.Eq(got, want), "the reference contributes another character")
	sym.Reach("legal")
}

func decDigits(n int) (string, rune) {
	b := make([]byte, n)
	v := rune(0)
	for i := range b {
		c := sym.Byte("d" + string(byte('a'+i)))
		sym.Assume(sym.Between(c, '0', '9'))
		b[i] = c
		v = v*10 + (rune(c) - '0')
	}
	return string(b), v
}

func hexDigit(name string) (byte, rune) {
	c := sym.Byte(name)
	l, u := sym.Between(c, 'a', 'f'), sym.Between(c, 'A', 'F')
	sym.Assume(sym.Or(sym.Between(c, '0', '9'), sym.Or(l, u)))
	return c, rune(sym.Ite(l, int(c)-'a'+10, sym.Ite(u, int(c)-'A'+10, int(c)-'0')))
}

// P05_Dec: every decimal reference of 1 to 7 digits (thorough 9), in text, attribute values and entity values.
func P05_Dec() {
	place := sym.Split(sym.Choice("place", 3))
	n := sym.Split(1 + sym.Choice("n", tier(7, 9)))
	d, v := decDigits(n)
	checkCharRef(place, d, 10, v)
}

// P05_Hex: every hexadecimal reference of 1 to 6 digits (thorough 8), in text, attribute values and entity values.
func P05_Hex() {
	place := sym.Split(sym.Choice("place", 3))
	n := sym.Split(1 + sym.Choice("n", tier(6, 7)))
	var b []byte
	v := rune(0)
	for i := 0; i < n; i++ {
		c, x := hexDigit("d" + string(byte('a'+i)))
		b = append(b, c)
		v = v*16 + x
	}
	checkCharRef(place, string(b), 16, v)
}

// P05_Zeros: 1 to 24 leading zeros before 3 digits.
func P05_Zeros() {
	n := sym.Split(1 + sym.Choice("n", 24))
	z := ""
	for i := 0; i < n; i++ {
		z += "0"
	}
	if sym.Split(sym.Choice("hex", 2)) == 0 {
		d, v := decDigits(3)
		checkCharRef(sym.Split(sym.Choice("place", 3)), z+d, 10, v)
		return
	}
	c, x := hexDigit("h0")
	e, y := hexDigit("h1")
	checkCharRef(sym.Split(sym.Choice("place", 3)), z+string([]byte{c, e}), 16, x*16+y)
}

// P05_Overflow: references to a number that is a multiple of 2^32 or 2^64
// (or just over 0x10FFFF) plus any 16 bit offset.
func P05_Overflow() {
	off := sym.U64("off")
	sym.Assume(off < 0x10000)
	var b []byte
	b = append(b, sym.Pick("pre", "11", "7f", "8000", "ffff", "10000", "100000000", "1000000000000", "8000000000000000000")...)
	for i := 3; i >= 0; i-- {
		d := byte(off>>(4*uint(i))) & 15
		b = append(b, byte(sym.Ite(d < 10, int(d)+'0', int(d)+'a'-10)))
	}
	_, ok := refPlaces(sym.Split(sym.Choice("place", 3)), "&#x"+string(b)+";")
	sym.Assert(!ok, "a reference to something that is not a character is accepted")
	sym.Reach("rejected")
}

// P05_DecOverflow: decimal references of 10 to 20 digits that overflow 32 or 64 bits
// to a small number: a multiple of 2^32 or 2^64 as prefix and 2 arbitrary last digits.
func P05_DecOverflow() {
	pre := sym.Pick("pre", "42949672", "42949673", "85899346", "184467440737095516", "184467440737095517", "92233720368547758", "21474836", "11141")
	d, _ := decDigits(2)
	if pre == "11141" {
		sym.Assume(sym.Or(d[0] > '1', sym.And(d[0] == '1', d[1] >= '2')))
	}
	_, ok := refPlaces(sym.Split(sym.Choice("place", 3)), "&#"+pre+d+";")
	sym.Assert(!ok, "a reference to something that is not a character is accepted")
	sym.Reach("rejected")
}

// P05_Broken: a reference with an arbitrary ASCII window after "&#" or "&#x", against the reference reader.
func P05_Broken() {
	s := sym.Pick("ctx", "<a>&#", "<a>&#x", "<a b='&#", "<a b='&#x") + ascii("w", 0, tier(3, 5))
	if s[3] == 'b' {
		s += "'/>"
	} else {
		s += "</a>"
	}
	v, _, _ := refParse(s)
	_, err := parse(s)
	if v == refReject {
		sym.Assert(err != nil, "a broken character reference is accepted")
		sym.Reach("rejected")
	} else if v == refAccept {
		sym.Assert(err == nil, "a well-formed document is rejected")
		sym.Reach("accepted")
	}
}

// P05_DecLong: decimal references of 8 to 14 digits (thorough 20), all arbitrary, whose first one isn't 0.
func P05_DecLong() {
	n := sym.Split(8 + sym.Choice("n", tier(7, 13)))
	d, _ := decDigits(n)
	sym.Assume(d[0] != '0')
	_, ok := refPlaces(sym.Split(sym.Choice("place", 3)), "&#"+d+";")
	sym.Assert(!ok, "a reference to something that is not a character is accepted")
	sym.Reach("rejected")
}

// P05_HexLong: hexadecimal references of 7 to 10 digits (thorough 17), all arbitrary, whose first one isn't 0.
func P05_HexLong() {
	n := sym.Split(7 + sym.Choice("n", tier(4, 11)))
	var b []byte
	for i := 0; i < n; i++ {
		c, _ := hexDigit("d" + string(byte('a'+i)))
		b = append(b, c)
	}
	sym.Assume(b[0] != '0')
	_, ok := refPlaces(sym.Split(sym.Choice("place", 3)), "&#x"+string(b)+";")
	sym.Assert(!ok, "a reference to something that is not a character is accepted")
	sym.Reach("rejected")
}

// P05_Built: references of up to 3 (thorough 4) arbitrary ASCII characters after "&#" or "&#x", in the value of an attribute that is set: accepted if and only if they are in a document, with the same meaning.
func P05_Built() {
	w := sym.Pick("pre", "&#", "&#x", "x&#0", "&#6") + ascii("w", 0, tier(3, 4)) + ";"
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.And(sym.And(w[i] >= ' ', w[i] != '<'), w[i] != '\''))
	}
	v, _, r := refParse("<a k='" + w + "'/>")
	sym.Note("value", sym.Quote(w))
	d := helium.CreateDocument()
	e, _ := d.CreateElement("a")
	err := e.SetAttribute("k", w)
	if v == refReject {
		if err != nil {
			sym.Reach("rejected")
			return
		}
		// a reference to an entity that isn't declared can be set
		i := 0
		for n := 0; n < len(w); n++ {
			if w[n] == '&' && n+1 < len(w) && w[n+1] != '#' {
				i++
			}
		}
		sym.Assert(i > 0, "a broken character reference is accepted")
		return
	}
	if v == refDontCare {
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a character reference is rejected")
	}
	got := e.Attributes()[0].Value()
	want := string(r.starts[0].attrs[0].value)
	sym.Note("got", sym.Quote(got))
	sym.Assert(len(got) == len(want) && sym.Eq(got, want), "a character reference means something else")
	sym.Reach("accepted")
}

// P05_ManyZeros: up to 257 (thorough 1025) leading zeros: all numbers of them up to 20 and those around powers of two, in text, attribute values and entity values.
func P05_ManyZeros() {
	z := strings.Repeat("0", size(tier(256, 1024)))
	place := sym.Split(sym.Choice("place", 3))
	if sym.Split(sym.Choice("hex", 2)) == 0 {
		d := sym.Pick("dec", "65", "0", "1114111", "1114112", "4294967361")
		checkCharRef(place, z+d, 10, map[string]rune{"65": 65, "1114111": 0x10FFFF, "1114112": 0x110000, "4294967361": 0x110000}[d])
		return
	}
	d := sym.Pick("digits", "41", "0", "10fFfF", "110000", "100000041")
	checkCharRef(place, z+d, 16, map[string]rune{"41": 65, "10fFfF": 0x10FFFF, "110000": 0x110000, "100000041": 0x110000}[d])
}
