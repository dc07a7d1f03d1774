package main

import (
	"math/rand/v2"
	"strings"
)

type gen struct{ *rand.Rand }

func pickOf[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

var poChars = []string{"a", "b", "z", "t", "n", "0", "7", "1f", "x", "X", " ", "  ", "#", ":", ",", "|", "~", ".", "[", "]", "%d", "'", "/",
	"\t", "\v", "\f", "\r", "é", "漢", "😀", "\u00a0", "\u0085", "\u2028", "\ufffd", "\u0007", "\x7f", "ß", "K: v", "msgid", "msgstr \\\"q\\\""}
var poEscapes = []string{`\n`, `\t`, `\"`, `\\`, `\r`, `\a`, `\b`, `\f`, `\v`, `\'`, `\/`, `\q`, `\0`, `\x1b`, `\x41`, `\x4`, `\xff`, `\xg`, `\101`, `\?`}

// body is a random text between quotes.
func (g gen) body() string {
	var b strings.Builder
	k := g.IntN(6)
	if g.IntN(60) == 0 { // a long one, or one of the same part many times
		k = 20 + g.IntN(60)
		if x := pickOf(g.Rand, append(poEscapes, poChars...)...); g.IntN(2) == 0 {
			return strings.Repeat(x, k)
		}
	}
	for ; k > 0; k-- {
		if g.IntN(3) == 0 {
			b.WriteString(pickOf(g.Rand, poEscapes...))
		} else if g.IntN(30) == 0 {
			b.WriteString(strings.NewReplacer(`"`, `\"`, `\`, `\\`).Replace(g.dictWord(fileDirs...)))
		} else {
			b.WriteString(pickOf(g.Rand, poChars...))
		}
	}
	return b.String()
}

func (g gen) field(key string) []string {
	sep := pickOf(g.Rand, " ", " ", " ", " ", " ", " ", " ", " ", "  ", "\t", "")
	out := []string{key + sep + `"` + g.body() + `"`}
	for g.IntN(3) == 0 {
		out = append(out, `"`+g.body()+`"`)
	}
	return out
}

func (g gen) word() string { return pickOf(g.Rand, "a.go", "b/c.go", "C:x", "ü.c", "l.go", "d") }

func (g gen) comment() string {
	switch g.IntN(10) {
	case 0, 1:
		return "#" + pickOf(g.Rand, " ", " ", "  ", "") + pickOf(g.Rand, "note", "n o", "é", "", "\u00a0x\u00a0", "msgid \"a\"", "note ")
	case 2:
		return "#." + pickOf(g.Rand, " ", "", "\t") + pickOf(g.Rand, "ext", "e x", "", "é  ")
	case 3, 4:
		s := "#:"
		for k := 1 + g.IntN(3); k > 0; k-- {
			s += pickOf(g.Rand, " ", " ", "  ", "\t", "\u00a0") + g.word() + pickOf(g.Rand, "", ":1", ":12", ":007", ":-3", ":+4", ":x", ":", "::5", ":0")
		}
		return s
	case 5, 6:
		s := "#,"
		for k := 1 + g.IntN(3); k > 0; k-- {
			s += pickOf(g.Rand, " ", "", ",", ", ") + pickOf(g.Rand, "fuzzy", "c-format", "no-wrap", "x") + pickOf(g.Rand, ",", ", ", " ")
		}
		return s
	case 7:
		return pickOf(g.Rand, "#~ msgid \"o\"", "#~ msgstr \"p\"", "#~", "#")
	case 8:
		return pickOf(g.Rand, "#| msgctxt ", "#| msgid ", "#|  msgid ", "#| ") + `"` + g.body() + `"`
	default:
		return pickOf(g.Rand, "#:", "#,", "#|", "#.", "#", "#|x", "#=")
	}
}

// previous is what msgmerge writes about the former message.
func (g gen) previous() []string {
	var out []string
	for _, key := range []string{"msgctxt", "msgid", "msgid_plural"} {
		if g.IntN(3) > 0 {
			out = append(out, "#| "+key+` "`+g.body()+`"`)
			for g.IntN(2) == 0 {
				out = append(out, `#| "`+g.body()+`"`)
			}
		}
	}
	return out
}

func (g gen) poText() string {
	var lines []string
	blank := g.IntN(3)
	if g.IntN(2) == 0 {
		for g.IntN(3) == 0 {
			lines = append(lines, g.comment())
		}
		lines = append(lines, `msgid ""`, pickOf(g.Rand, `msgstr ""`, `msgstr "A: b\n"`))
		for _, k := range []string{"Language", "language", "Plural-Forms", "X-Odd", "x-odd", "Content-Type", "MIME-Version"} {
			if g.IntN(3) == 0 {
				lines = append(lines, `"`+k+pickOf(g.Rand, ": ", ":", " : ", ": ", ": ")+pickOf(g.Rand, "de", "", "a: b", "nplurals=2; plural=n!=1;", "é", ` \"q\" `)+pickOf(g.Rand, `\n`, `\n`, `\n`, `\n\n`, ``)+`"`)
			}
		}
		lines = append(lines, "")
	}
	ids := []string{`"a"`, `"b"`, `"c"`, `"d"`, `"e"`, `"f"`}
	for k := g.IntN(5); k > 0; k-- {
		for g.IntN(2) == 0 {
			lines = append(lines, g.comment())
		}
		if g.IntN(8) == 0 {
			lines = append(lines, g.previous()...)
		}
		if g.IntN(3) == 0 {
			lines = append(lines, pickOf(g.Rand, `msgctxt "x"`, `msgctxt ""`, `msgctxt "y"`))
			if g.IntN(4) == 0 {
				lines = append(lines, `"`+g.body()+`"`)
			}
		}
		lines = append(lines, "msgid "+ids[k])
		for g.IntN(3) == 0 {
			lines = append(lines, `"`+g.body()+`"`)
		}
		if g.IntN(3) == 0 {
			lines = append(lines, g.field("msgid_plural")...)
			forms := []string{"0", "1", "2", "00", "10", "3"}
			g.Shuffle(len(forms), func(i, j int) { forms[i], forms[j] = forms[j], forms[i] })
			for _, f := range forms[:1+g.IntN(4)] {
				lines = append(lines, g.field("msgstr"+pickOf(g.Rand, "", "", "", "", "", " ")+"["+f+"]")...)
			}
		} else {
			lines = append(lines, g.field("msgstr")...)
		}
		switch blank {
		case 0:
			lines = append(lines, "")
		case 1:
			for g.IntN(2) == 0 {
				lines = append(lines, pickOf(g.Rand, "", " ", "\t", "\u00a0"))
			}
		}
	}
	if g.IntN(5) < 2 && len(lines) > 0 {
		for k := 1 + g.IntN(2); k > 0; k-- {
			i := g.IntN(len(lines))
			switch g.IntN(5) {
			case 0:
				lines = append(lines[:i:i], lines[i+1:]...)
			case 1:
				lines = append(lines[:i+1:i+1], lines[i:]...)
			case 2:
				j := g.IntN(len(lines))
				lines[i], lines[j] = lines[j], lines[i]
			case 3:
				lines = append(lines[:i:i], append([]string{pickOf(g.Rand, g.comment(), "", `"`+g.body()+`"`, "garbage")}, lines[i:]...)...)
			case 4:
				r := []rune(lines[i])
				p := g.IntN(len(r) + 1)
				switch g.IntN(3) {
				case 0:
					lines[i] = string(r[:p]) + pickOf(g.Rand, `"`, `\`, " ", "x", "#", "[", "\t") + string(r[p:])
				case 1:
					lines[i] = string(r[:p])
				default:
					lines[i] = string(r[p:])
				}
			}
			if len(lines) == 0 {
				break
			}
		}
	}
	ends := [][]string{{"\n"}, {"\n"}, {"\r\n"}, {"\n", "\r\n"}}[g.IntN(4)]
	var b strings.Builder
	for i, l := range lines {
		b.WriteString(l)
		if i < len(lines)-1 || g.IntN(2) == 0 {
			b.WriteString(pickOf(g.Rand, ends...))
		}
	}
	return b.String()
}
