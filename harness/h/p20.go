package h

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/zz_verif/sym"
)

// anyCase is s with each letter in either case.
func anyCase(name, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			u := sym.Byte(name + itoa(i))
			sym.Assume(sym.Or(u == b[i], u == b[i]-32))
			b[i] = u
		}
	}
	return string(b)
}

func rootOf(doc *helium.Document) helium.Node {
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		if c.Type() == helium.ElementNode {
			return c
		}
	}
	sym.Fail("an accepted document has no element")
	return nil
}

// sameChar: characters on which the vendors' tables for one set don't agree are either.
func sameChar(got, want string) bool {
	if got == want {
		return true
	}
	for _, p := range [][2]string{{"\u255d", "\u045e"}, {"\u256c", "\u040e"}, {"\u301c", "\uff5e"}, {"\u2016", "\u2225"}, {"\u2212", "\uff0d"}, {"\u00a2", "\uffe0"}, {"\u00a3", "\uffe1"}} {
		if want == p[0] && got == p[1] {
			return true
		}
	}
	return false
}

// readAs: the bytes b, between the letters x and y in s, are read as the character want, or, if that's no character, lead to an error.
func readAs(s, before, after string, want rune, c1 bool) {
	doc, err := parse(s)
	if want < 0xa0 {
		// a control character or not assigned: an error, or the control character with that number
		if err == nil {
			if !c1 {
				sym.Fail("bytes that mean nothing are accepted")
			}
			c := string(rootOf(doc).Content())
			sym.Note("content", sym.Quote(c))
			sym.Assert(len(c) == len(before)+2+len(after) && c[len(before)] == 0xc2 && c[len(before)+1] == s[len(s)-len(after)-5], "a byte that means nothing is read as a character")
		}
		sym.Reach("control")
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	got := string(rootOf(doc).Content())
	sym.Note("content", sym.Quote(got))
	sym.Note("expected", sym.Quote(before+string(want)+after))
	if len(got) < len(before)+len(after)+1 || got[:len(before)] != before || got[len(got)-len(after):] != after {
		sym.Fail("characters next to one outside ASCII are lost")
	}
	sym.Assert(sameChar(got[len(before):len(got)-len(after)], string(want)), "a byte is read as another character")
	sym.Reach("assigned")
}

// P20_Single: every byte from 0x80 up in each single-byte character set, in text, with the first letter of the encoding's name in either case.
func P20_Single() {
	sb := singleBytes[sym.Split(sym.Choice("charset", len(singleBytes)))]
	b := sym.Byte("b")
	sym.Assume(b >= 0x80)
	readAs("<?xml version='1.0' encoding='"+anyCase("c", sb.name[:1])+sb.name[1:]+"'?><a>x"+string([]byte{b})+"y</a>", "x", "y", sb.table[b-0x80], true)
}

// P20_Double: every second byte from 0x40 up after 22 first bytes of four multi-byte character sets.
func P20_Double() {
	db := doubleBytes[sym.Split(sym.Choice("charset", len(doubleBytes)))]
	b := sym.Byte("b")
	sym.Assume(b >= 0x40)
	readAs("<?xml version='1.0' encoding='"+db.name+"'?><a>x"+db.lead+string([]byte{b})+"y</a>", "x", "y", db.table[b], false)
}

// P20_Shift: text that switches character sets with escape sequences.
func P20_Shift() {
	switch sym.Split(sym.Choice("charset", 3)) {
	case 0:
		b := sym.Byte("b")
		sym.Assume(sym.Between(b, 0x21, 0x73)) // hiragana
		readAs("<?xml version='1.0' encoding='ISO-2022-JP'?><a>x\x1b$B$"+string([]byte{b})+"\x1b(By</a>", "x", "y", 0x3041+rune(b)-0x21, false)
	case 1:
		b := sym.Byte("b")
		sym.Assume(sym.Between(b, 0x21, 0x73))
		readAs("<?xml version='1.0' encoding='HZ-GB2312'?><a>x~{$"+string([]byte{b})+"~}y</a>", "x", "y", 0x3041+rune(b)-0x21, false)
	case 2:
		b := sym.Byte("b")
		sym.Assume(sym.Between(b, 0xa1, 0xdf)) // half-width katakana
		readAs("<?xml version='1.0' encoding='shift_jis'?><a>x"+string([]byte{b})+"y</a>", "x", "y", 0xff61+rune(b)-0xa1, false)
	}
}

// P20_ASCII: in every supported encoding, ASCII characters, except some in the ones for Japanese, are themselves.
func P20_ASCII() {
	c := charsets[sym.Split(sym.Choice("charset", len(charsets)))]
	b := sym.Byte("b")
	sym.Assume(sym.And(sym.Between(b, 0x20, 0x7e), !sym.In(b, "<&>~")))
	s := "<?xml version='1.0' encoding='" + c + "'?><a>x" + string([]byte{b}) + "y</a>"
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sym.Assert(string(rootOf(doc).Content()) == "x"+string([]byte{b})+"y", "an ASCII character is read as another one")
	sym.Reach("same")
}

// P20_Case: every encoding's name, in upper or lower case, with any two neighbouring letters (thorough five) in either case, names the same one.
func P20_Case() {
	c := charsets[sym.Split(sym.Choice("charset", len(charsets)))]
	sym.Note("name", c)
	// upper case, but for some letters
	n := len(c)
	at := sym.Split(sym.Choice("at", n))
	to := at + tier(2, 5)
	if to > n {
		to = n
	}
	rest := strings.ToUpper(c)
	if sym.Split(sym.Choice("rest", 2)) == 1 {
		rest = c
	}
	name := rest[:at] + anyCase("c", c[at:to]) + rest[to:]
	sym.Note("as", name)
	if encoding.Load(name) != encoding.Load(c) {
		sym.Fail("the name means another encoding in another case")
	}
	if encoding.Load(c) == nil {
		sym.Fail("the name is not known")
	}
	sym.Reach("known")
}

// P20_Edit: every encoding's name with any one byte replaced by up to two others is known only if it's another one's name.
func P20_Edit() {
	c := charsets[sym.Split(sym.Choice("charset", len(charsets)))]
	name := slide(c, len(c), 1)
	sym.Note("name", sym.Quote(name))
	_, err := parse("<?xml version='1.0' encoding='" + name + "'?><a/>")
	if isCharset(name) {
		sym.Assert(err == nil, "a known encoding is rejected")
		sym.Reach("known")
		return
	}
	sym.Assert(err != nil, "an unknown encoding is accepted")
	sym.Reach("unknown")
}

// P20_Unknown: names of other encodings are errors.
func P20_Unknown() {
	name := sym.Pick("name", "utf-16", "utf-16le", "utf-16be", "ucs-4", "utf-32", "utf-7", "us-ascii", "ascii", "latin1", "iso8859-1", "iso_8859-1", "iso-8859-9", "iso-8859-11", "iso-8859-12", "iso-8859-17", "ebcdic",
		"gb18030x", "koi8", "koi8-x", "windows1259", "cp1", "x", "replacement", "binary", "none", "auto")
	b := sym.Byte("b")
	doc, err := parse("<?xml version='1.0' encoding='" + anyCase("c", name) + "'?><a>x" + string([]byte{b}) + "y</a>")
	if err == nil {
		// if it is supported nevertheless it must not be a guess
		sym.Note("content", sym.Quote(string(rootOf(doc).Content())))
		sym.Fail("an unknown encoding is accepted")
	}
	sym.Reach("unknown")
}

// P20_Mark: an UTF-8 byte order mark, with and without declaration, is not content, and wins over the declaration.
func P20_Mark() {
	w := bytesW("w", 0, tier(3, 4))
	body := "<a>" + w + "</a>"
	decl := sym.Pick("decl", "", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version='1.0' encoding='utf8'?>", "<?xml version='1.0' encoding='iso-8859-1'?>")
	v, form, _ := refParse(decl + body)
	doc, err := parse("\xef\xbb\xbf" + decl + body)
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare {
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document with a byte order mark is rejected")
	}
	sameTree(doc, form)
	sym.Reach("accepted")
}

// P20_Pattern: four bytes that occur in the patterns by which encodings are told apart, before an element.
func P20_Pattern() {
	w := sym.Str("w", 4)
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.In(w[i], "\x00\x3c\x3f\xff\xfe\xef\xbb\xbf"))
	}
	checkStart(w)
}

// P20_Start: up to three (thorough four) arbitrary bytes before an element: byte order marks and other patterns that tell encodings apart are never read as something else.
func P20_Start() {
	checkStart(bytesW("w", 0, tier(3, 4)))
}

func checkStart(w string) {
	s := w + "<a/>"
	t := s
	if len(w) >= 3 && w[0] == 0xef && w[1] == 0xbb && w[2] == 0xbf {
		t = s[3:]
	}
	v, form, _ := refParse(t)
	doc, err := parse(s)
	if v == refReject {
		sym.Assert(err != nil, "a document that is not well-formed is accepted")
		sym.Reach("rejected")
		return
	}
	if v == refDontCare {
		return
	}
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sameTree(doc, form)
	sym.Reach("accepted")
}

// P20_Wide: a document in UTF-16 or UCS-4, with or without a mark, any ASCII character in it: an error, or read right.
func P20_Wide() {
	b := sym.Byte("b")
	sym.Assume(sym.And(sym.Between(b, 0x20, 0x7e), !sym.In(b, "<&>")))
	text := sym.Pick("text", "<a>", "<?xml version='1.0'?><a>", "<?xml version='1.0' encoding='UTF-16'?><a>", "<?xml version='1.0' encoding='utf-8'?><a>") + string([]byte{b}) + "</a>"
	kind := sym.Split(sym.Choice("kind", 6))
	var s []byte
	if sym.Split(sym.Choice("mark", 2)) == 1 {
		switch kind {
		case 0:
			s = append(s, 0xff, 0xfe)
		case 1:
			s = append(s, 0xfe, 0xff)
		case 2:
			s = append(s, 0xff, 0xfe, 0, 0)
		case 3:
			s = append(s, 0, 0, 0xfe, 0xff)
		}
	}
	for i := 0; i < len(text); i++ {
		switch kind {
		case 0:
			s = append(s, text[i], 0)
		case 1:
			s = append(s, 0, text[i])
		case 2:
			s = append(s, text[i], 0, 0, 0)
		case 3:
			s = append(s, 0, 0, 0, text[i])
		case 4:
			s = append(s, 0, 0, text[i], 0)
		case 5:
			s = append(s, 0, text[i], 0, 0)
		}
	}
	doc, err := parse(string(s))
	if err == nil {
		got := string(rootOf(doc).Content())
		sym.Assert(got == string([]byte{b}), "a document in a wide encoding is misread")
		return
	}
	sym.Reach("rejected")
}

// P20_Write: every character of each single-byte character set is written in the declared encoding, and read back.
func P20_Write() {
	sb := singleBytes[sym.Split(sym.Choice("charset", len(singleBytes)))]
	b := sym.Byte("b")
	sym.Assume(b >= 0x80)
	s := "<?xml version=\"1.0\" encoding=\"" + sb.name + "\"?>\n<a b=\"" + string([]byte{b}) + "\">" + string([]byte{b}) + "</a>\n"
	doc, err := parse(s)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	d := dump(doc)
	again, err := helium.Parse([]byte(d))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	sameTree(again, canon(doc))
	sym.Reach("written")
}

// P20_Reference: a character reference to any of 12 characters (thorough 84) is the same, and survives, in every encoding, also if the encoding can't say it.
func P20_Reference() {
	c := charsets[sym.Split(sym.Choice("charset", len(charsets)))]
	k := sym.Int("k", 0, tier(2, 20))
	r := []rune{0xa0, 0x3b1, 0x3041, 0x1f600}[sym.Split(sym.Choice("block", 4))] + rune(k)
	s := "<?xml version='1.0' encoding='" + c + "'?><a>&#" + itoa(int(sym.Split(int(r)))) + ";</a>"
	doc, err := parse(s)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("a well-formed document is rejected")
	}
	sym.Assert(string(rootOf(doc).Content()) == string(r), "a character reference means another character in this encoding")
	again, err := helium.Parse([]byte(dump(doc)))
	if err != nil {
		sym.Note("error", err.Error())
		sym.Fail("the serialisation of an accepted document is rejected")
	}
	sym.Assert(string(rootOf(again).Content()) == string(r), "a character the encoding lacks is lost in serialisation")
	sym.Reach("kept")
}
