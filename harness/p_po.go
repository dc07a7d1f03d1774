package main

import "strings"

func init() {
	props["P08"] = func(c *Ctx) {
		for _, skip := range []string{"FALSE", "TRUE"} {
			c.Forward(TLC{Module: "MC_PoFile", Consts: map[string]string{"MaxLines": c.pickS("4", "5"), "Alphabet": `"wide"`, "Skip": skip}}, 1000)
			c.Forward(TLC{Module: "MC_PoFile", Consts: map[string]string{"MaxLines": c.pickS("6", "7"), "Alphabet": `"deep"`, "Skip": skip}}, 1000)
			c.Forward(TLC{Module: "MC_PoFile", Consts: map[string]string{"MaxLines": c.pickS("3", "3"), "Alphabet": `"odd"`, "Skip": skip}}, 1000)
		}
		c.Forward(TLC{Module: "MC_PoFile", Consts: map[string]string{"MaxLines": c.pickS("4", "6"), "Alphabet": `"prev"`, "Skip": "FALSE"}}, 1000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(30000, 300000); i++ {
			in := poParseIn{Skip: g.IntN(4) == 0, Chunk: pickOf(c.rnd, 0, 0, 1, 2, 3, 7, 40)}
			text := g.poText()
			if g.IntN(20) == 0 && len(text) > 0 { // long lines
				r := []rune(strings.ReplaceAll(text, "Q", "q"))
				p := g.IntN(len(r))
				text = string(r[:p]) + "\x00" + string(r[p:])
				in.Pad = pickOf(c.rnd, 20, 4000, 4095, 4096, 65530+g.IntN(12), 200000)
				in.Chunk = pickOf(c.rnd, 0, 1000, 4096)
			}
			if g.IntN(20) == 0 {
				text = g.malformed(text)
				in.Raw = g.rawByte()
			}
			in.Text = textOf(text)
			cases = append(cases, mk("po.parse", in))
		}
		c.Backward(TLC{Module: "Trace_PoFile"}, cases)
	}
}

func (c *Ctx) pickS(quick, thorough string) string {
	if c.thorough() {
		return thorough
	}
	return quick
}

func init() {
	props["P09"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_PoString", Consts: map[string]string{"MaxLen": c.pickS("4", "5"), "Kind": `"body"`}}, 5000)
		c.tlc(TLC{Module: "MC_PoString", Consts: map[string]string{"MaxLen": c.pickS("4", "5"), "Kind": `"text"`}})
		g := gen{c.rnd}
		var cases []Case
		alphabet := []rune("a \"\\\n\tx1\u0001\u00a0é")
		var all func(prefix []rune, n int)
		widths := []int{-1, 0, 1, 2, 3, 4, 7}
		all = func(prefix []rune, n int) {
			for _, w := range widths {
				cases = append(cases, mk("po.encode", poEncodeIn{Text: textOf(string(prefix)), Width: w}))
			}
			if n > 0 {
				for _, r := range alphabet {
					all(append(prefix[:len(prefix):len(prefix)], r), n-1)
				}
			}
		}
		all(nil, c.pick(3, 4))
		for i := 0; i < c.pick(12000, 100000); i++ {
			var s string
			for k := g.IntN(40); k > 0; k-- {
				switch g.IntN(5) {
				case 0:
					s += pickOf(g.Rand, poChars...)
				case 1:
					s += pickOf(g.Rand, poEscapes...)
				case 2:
					s += pickOf(g.Rand, "word", "longer-word", "w", "schön")
				case 3:
					s += pickOf(g.Rand, " ", "\n", "\"", "\\")
				case 4:
					s += string(rune(pickOf(g.Rand, g.IntN(128), g.IntN(0x3000), g.IntN(0x20000))))
				}
			}
			s = validText(s)
			cases = append(cases, mk("po.encode", poEncodeIn{Text: textOf(s), Width: pickOf(g.Rand, -1, 0, 1, 2, 5, 10, 20, 40, 80, 1+g.IntN(120))}))
		}
		for i := 0; i < c.pick(8000, 100000); i++ {
			var lines []string
			for k := g.IntN(4); k >= 0; k-- {
				lines = append(lines, pickOf(g.Rand, "", "msgid ", "  ", "é", "\\", "#| ")+pickOf(g.Rand, `"`, `"`, `"`, "")+g.body()+pickOf(g.Rand, `"`, `"`, `"`, ``, `\"`)+pickOf(g.Rand, "", "", " ", "x", "\r"))
			}
			in, text := poEncodeIn{}, strings.Join(lines, "\n")
			if g.IntN(8) == 0 {
				text = g.malformed(text)
				in.Raw = g.rawByte()
			}
			in.Text = textOf(text)
			cases = append(cases, mk("po.decode", in))
		}
		c.Backward(TLC{Module: "Trace_PoString"}, cases)
	}
}

// validText drops what is not a Unicode scalar value.
func validText(s string) string { return strings.ToValidUTF8(s, "") }

func init() {
	props["P10"] = func(c *Ctx) {
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(8000, 80000); i++ {
			cases = append(cases, mk("po.roundtrip", g.roundIn()))
		}
		c.Backward(TLC{Module: "Trace_PoRound"}, cases)
	}
}

func init() {
	props["P11"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_PoMerge", Consts: map[string]string{"MaxOps": c.pickS("4", "5")}}, 1000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(8000, 80000); i++ {
			cases = append(cases, mk("po.merge", g.mergeIn()))
		}
		c.Backward(TLC{Module: "Trace_PoMerge"}, cases)
	}
}
