package main

import (
	"strings"
)

// texts whose content a careless transformation would change.
var textZoo = []string{
	"a", " lead", "trail ", "  ", " ", "a  b", "UPPER", "MiXeD", "a,b", "a, b", "a;b", "a\\,b", "a\\;b", "a\\nb", "\\", "\\\\", "/", "a/b", "//", ".", "..", "a.", ".a", "a.b.", "-", "--", "_", "a-b", "~", "*", "#", "#x", "?", "&", "&amp;", "&#65;", "<b>x</b>", "<>", "%", "%41", "%2f", "%s", "%d", "%!", "%%", "+", "a+b",
	"\"", "\"q\"", "'", "'q'", "`", "(a)", "[a]", "{a}", "{\"a\":1}", "[1,2]", "null", "true", "false", "0", "00", "007", "-1", "1.0", "1e3", "0x10", "NaN", "Inf", "nil", "<nil>", "[unprintable value]", "a: b", ":", "::", ": ", "a:b", "http://x/?a=b&c=d#f", "HTTPS://Example.COM/A%20b", "mailto:A@B", "tel:+1.555;ext=5", "a@b", "@", "=", "a=b", "|", "a|b", "^", "$", "$1", "${x}", "!", "REDACTED", "N/A", "none", "unknown", "-none-", "Unknown", "DATA REDACTED FOR PRIVACY",
	"é", "É", "e\u0301", "ß", "ẞ", "ı", "İ", "ﬁ", "日本語", "xn--e1afmkfd", "\u00a0", "a\u00a0", "\u00ad", "a\u200bb", "\u200e", "\u202e", "\ufeff", "\ufeffa", "\u2028", "\u2029", "\u0085", "\ufffd", "\ufffe", "\U0001F600", "\U0001F468\u200d\U0001F469", "\U0010ffff", "\t", "a\tb", "\v", "\f", "\b", "\x01", "\x1b[31m", "\x7f", "\u0080", "vcard", "domain", "handle", "text", "uri", "voice", "fax", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.000+09:00", "20200102", "192.0.2.1", "2001:DB8::0001", "1.2.3.0/24",
}

// longTexts have lengths around powers of two and common buffer sizes.
func longTexts(max int) []string {
	var out []string
	for n := 16; n <= max; n *= 2 {
		for _, d := range []int{-1, 0, 1} {
			out = append(out, strings.Repeat("abcdefghi ", (n+d)/10+1)[:n+d-1]+"z")
		}
	}
	return append(out, strings.Repeat("é", 40), strings.Repeat("日", 90), strings.Repeat("a", 79)+" "+strings.Repeat("b", 79))
}

// charTexts holds every Unicode character except those skip names, n to a text, each after an "a" so that
// none is at an end.
func charTexts(n int, skip func(r rune) bool) []string {
	var out []string
	var sb strings.Builder
	k := 0
	flush := func() {
		if k > 0 {
			sb.WriteString("a")
			out = append(out, sb.String())
			sb.Reset()
			k = 0
		}
	}
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r < 0xe000 || skip != nil && skip(r) {
			continue
		}
		sb.WriteByte('a')
		sb.WriteRune(r)
		if k++; k == n {
			flush()
		}
	}
	flush()
	return out
}

func breaksLine(r rune) bool { return r == '\n' || r == '\r' || r == 0 }
