package h

import "github.com/lestrrat-go/helium/zz_verif/sym"

// P10_Boundary: the first and the last 16 characters around each boundary of the ranges of characters, given by reference, in text, an attribute, a default or an entity.
func P10_Boundary() {
	c := "&#x" + sym.Pick("block", "", "1", "2", "7", "8", "9", "A", "D", "7F", "80", "FF", "100", "7FF", "800", "FFF", "D7F", "E00", "FDD", "FDE", "FFE", "FFF", "1000", "1FFF", "FFFF", "10000", "10FFE", "10FFF") + string("0123456789ABCDEF"[sym.Split(sym.Choice("digit", 16))]) + ";"
	switch sym.Split(sym.Choice("where", 4)) {
	case 0:
		checkRoundTrip("<a>" + c + "</a>")
	case 1:
		checkRoundTrip("<a b=\"" + c + "\"/>")
	case 2:
		checkRoundTrip("<!DOCTYPE a [<!ATTLIST a b CDATA '" + c + "'>]><a/>")
	case 3:
		checkRoundTrip("<!DOCTYPE a [<!ENTITY e '" + c + "'>]><a>&e;</a>")
	}
}
