#!/usr/bin/env python3
"""Writes harness/h/p20_tables.go: what each byte means in the supported
character sets, taken from Python's codecs (0 = not assigned there)."""
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = {"cp437": "cp437", "cp866": "cp866", "koi8r": "koi8_r", "koi8u": "koi8_u", "koir8u": "koi8_u", "macintosh": "mac_roman", "macintoshcyrillic": "mac_cyrillic", "windows874": "cp874", "xuserdefined": None}
for i in (1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16): names["iso-8859-%d" % i] = "iso8859_%d" % i
for i in range(9): names["windows125%d" % i] = "cp125%d" % i
def row(enc, lead, lo=0x80):
    out = []
    for b in range(lo, 256):
        try:
            s = (lead + bytes([b])).decode(enc)
            out.append(ord(s) if len(s) == 1 else 0)
        except UnicodeDecodeError:
            out.append(0)
    return out
def lit(r): return "{" + ", ".join("0x%x" % c for c in r) + "}"
o = ["package h", "", "// Generated by tools/gen_p20.py from Python's codecs.", "", "type singleByte struct {", "\tname string", "\ttable [128]rune", "}", "", "var singleBytes = []singleByte{"]
for n in sorted(names):
    t = row(names[n], b"") if names[n] else [0xf700 + b for b in range(0x80, 0x100)]
    o.append('\t{"%s", [128]rune%s},' % (n, lit(t)))
o += ["}", "", "type doubleByte struct {", "\tname string", "\tlead string", "\ttable [256]rune // of the second byte", "}", "", "var doubleBytes = []doubleByte{"]
for n, enc, leads in (("euc-jp", "euc_jp", (0xa1, 0xa4, 0xa5, 0xb0, 0xf4, 0x8e)), ("shift_jis", "cp932", (0x82, 0x83, 0x88, 0x9f, 0xe0, 0xea)), ("big5", "big5hkscs", (0xa4, 0xa5, 0xc9, 0xf9)), ("euc-kr", "cp949", (0xb0, 0xc8, 0xca, 0xfd))):
    for l in leads:
        t = row(enc, bytes([l]), 0)
        o.append('\t{"%s", "\\x%02x", [256]rune%s},' % (n, l, lit(t)))
o += ["}", ""]
open(root + "/harness/h/p20_tables.go", "w").write("\n".join(o))
