package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

type gcForm struct {
	I int  `json:"i"`
	S Text `json:"s"`
}

type gcMsg struct {
	C     Text     `json:"c"`
	M     Text     `json:"m"`
	F     []gcForm `json:"f"`
	Flags []Text   `json:"flags"`
	Obs   bool     `json:"obs"`
}

type gcFile struct {
	Kind string  `json:"kind"`
	Cldr bool    `json:"cldr"`
	Head bool    `json:"head"`
	Pf   Text    `json:"pf"`
	X    Text    `json:"x"`
	Msgs []gcMsg `json:"msgs"`
}

type gcIn struct {
	Lang   string    `json:"lang"`
	Domain string    `json:"domain"`
	File   gcFile    `json:"file"`
	Style  int       `json:"style"`
	Qs     []jsQuery `json:"qs"`
}

// gcErr is an errRec with texts and a number of any size.
type gcErr struct {
	K string `json:"k"`
	L string `json:"l"`
	D string `json:"d"`
	C Text   `json:"c"`
	M Text   `json:"m"`
	I Bytes  `json:"i"`
}

func askGettext(cat catalog.Catalog, q jsQuery) any {
	a := askCatalog(cat, q)
	return map[string]any{"s": a.S, "e": gcErr{a.E.K, a.E.L, a.E.D, a.E.C, a.E.M, digitsOf(a.E.I)}}
}

// poLines writes a text as one or more quoted lines.
func poLines(r *rand.Rand, s string) string {
	esc := func(s string) string {
		return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`, "\r", `\r`, "\a", `\a`, "\b", `\b`, "\f", `\f`, "\v", `\v`).Replace(s) + `"`
	}
	if r.IntN(3) > 0 || s == "" {
		return esc(s)
	}
	rs := []rune(s)
	i := r.IntN(len(rs))
	out := []string{}
	if i == 0 || r.IntN(2) == 0 {
		out = append(out, `""`)
	}
	if i > 0 {
		out = append(out, esc(string(rs[:i])))
	}
	return strings.Join(append(out, esc(string(rs[i:]))), "\n")
}

func (f gcFile) header(r *rand.Rand) string {
	fields := []string{"Language: xx\n", "Content-Type: text/plain; charset=UTF-8\n"}
	name := func(s string) string {
		return pickOf(r, s, s, s, strings.ToLower(s), strings.ToUpper(s))
	}
	if len(f.Pf) > 0 {
		fields = append(fields, name("Plural-Forms")+": "+f.Pf.String()+"\n")
	}
	if len(f.X) > 0 {
		fields = append(fields, name("X-spreak-use-CLDR")+pickOf(r, ": ", ":", ":  ")+f.X.String()+pickOf(r, "", "", " ")+"\n")
	}
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	return strings.Join(fields, "")
}

func (f gcFile) po(r *rand.Rand) []byte {
	var b strings.Builder
	if f.Head {
		if r.IntN(3) == 0 {
			b.WriteString("# Translations\n#\n")
		}
		if r.IntN(3) == 0 {
			b.WriteString("#, fuzzy\n")
		}
		b.WriteString("msgid \"\"\nmsgstr " + poLines(r, f.header(r)) + "\n\n")
	}
	for _, m := range f.Msgs {
		var e []string
		if r.IntN(4) == 0 {
			e = append(e, "# note")
		}
		if r.IntN(4) == 0 {
			e = append(e, "#. extracted")
		}
		if r.IntN(4) == 0 {
			e = append(e, "#: a.go:1 b.go:22")
		}
		if len(m.Flags) > 0 {
			line, sep := "#,", pickOf(r, " ", "")
			var fs []string
			for _, fl := range m.Flags {
				if r.IntN(4) == 0 && len(fs) > 0 {
					e = append(e, line+sep+strings.Join(fs, ", "))
					fs = nil
				}
				fs = append(fs, fl.String())
			}
			e = append(e, line+sep+strings.Join(fs, pickOf(r, ", ", ",", " , ")))
		}
		if r.IntN(4) == 0 {
			e = append(e, `#| msgid "before"`)
		}
		pre := ""
		if m.Obs {
			pre = "#~ "
		}
		add := func(k, v string) { e = append(e, pre+k+" "+strings.ReplaceAll(v, "\n", "\n"+pre)) }
		if len(m.C) > 0 || r.IntN(20) == 0 {
			add("msgctxt", poLines(r, m.C.String()))
		}
		add("msgid", poLines(r, m.M.String()))
		if len(m.F) == 1 && m.F[0].I == 0 && r.IntN(3) > 0 {
			add("msgstr", poLines(r, m.F[0].S.String()))
		} else {
			add("msgid_plural", poLines(r, m.M.String()+"s"))
			for _, f := range m.F {
				add(fmt.Sprintf("msgstr[%d]", f.I), poLines(r, f.S.String()))
			}
		}
		b.WriteString(strings.Join(e, "\n") + "\n\n")
	}
	s := b.String()
	if r.IntN(4) == 0 {
		s = strings.TrimRight(s, "\n")
	}
	if r.IntN(8) == 0 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

func (f gcFile) mo(r *rand.Rand) []byte {
	var pairs [][2]string
	if f.Head {
		pairs = append(pairs, [2]string{"", f.header(r)})
	}
	for _, m := range f.Msgs {
		id := m.M.String()
		if len(m.C) > 0 {
			id = m.C.String() + "\x04" + id
		}
		if len(m.F) > 1 {
			id += "\x00" + m.M.String() + "s"
		}
		max := 0
		for _, f := range m.F {
			if f.I > max {
				max = f.I
			}
		}
		forms := make([]string, max+1)
		for _, f := range m.F {
			forms[f.I] = f.S.String()
		}
		pairs = append(pairs, [2]string{id, strings.Join(forms, "\x00")})
	}
	return gen{r}.moImage(pairs, r.IntN(2) == 0)
}

// Files that a decoder has read before: one with the CLDR rules, one of another rule, one it rejects.
var gcEarlier = []gcFile{
	{Head: true, Pf: textOf("nplurals=3; plural=n%3;"), X: textOf("true"), Msgs: []gcMsg{{M: textOf("a"), F: []gcForm{{S: textOf("earlier")}}}}},
	{Head: true, Pf: textOf("nplurals=4; plural=n%4;"), Msgs: []gcMsg{{C: textOf("c"), M: textOf("a"), F: []gcForm{{S: textOf("earlier")}}, Flags: []Text{textOf("fuzzy")}}}},
	{Head: true, Pf: textOf("nplurals=x"), Msgs: []gcMsg{{M: textOf("b"), F: []gcForm{{S: textOf("earlier")}}}}},
}

func init() {
	decode := func(in gcIn) any {
		r := rand.New(rand.NewPCG(uint64(in.Style), 3))
		tag := language.Make(in.Lang)
		if tag.String() != in.Lang {
			return "bad language " + in.Lang
		}
		var data []byte
		var dec catalog.Decoder
		if in.File.Kind == "po" {
			data, dec = in.File.po(r), catalog.NewPoDecoder()
			if in.File.Cldr {
				dec = catalog.NewPoCLDRDecoder()
			}
		} else {
			data, dec = in.File.mo(r), catalog.NewMoDecoder()
			if in.File.Cldr {
				dec = catalog.NewMoCLDRDecoder()
			}
		}
		// a decoder can be used again, whatever it has read before
		if in.Style%3 > 0 {
			for _, f := range gcEarlier[:in.Style/3%(len(gcEarlier)+1)] {
				data := f.po(r)
				if in.File.Kind == "mo" {
					data = f.mo(r)
				}
				_, _ = dec.Decode(tag, in.Domain, data)
			}
		}
		var first any
		for k := range 3 {
			cat, err := dec.Decode(tag, in.Domain, bytes.Clone(data))
			if k == 2 {
				cat, err = dec.(catalog.DecoderV2).DecodeReader(tag, in.Domain, &parts{data: data, n: 7})
			}
			if (cat == nil) == (err == nil) {
				return "neither or both of catalog and error"
			}
			var out any = errOut{true}
			if err == nil {
				gc, ok := cat.(*catalog.GettextCatalog)
				if !ok || gc.Domain() != in.Domain || gc.Language() != tag || cat.Language() != tag {
					return "not a catalog of this language and domain"
				}
				ans := each(len(in.Qs), func(i int) any { return askGettext(cat, in.Qs[i]) })
				// what the catalog hands out is not its own
				for _, ms := range gc.Messages() {
					for id, m := range ms {
						m.Translations()[0] = "changed"
						delete(ms, id)
					}
				}
				for i, q := range in.Qs {
					if !reflect.DeepEqual(ans[i], askGettext(cat, q)) {
						return "a lookup has another result when repeated"
					}
				}
				out = map[string]any{"err": false, "ans": ans}
			}
			if first == nil {
				first = out
			} else if !reflect.DeepEqual(first, out) {
				return "different results for the same file"
			}
		}
		return first
	}
	reg("gc.known", decode)
	reg("gc.decode", func(in gcIn) any {
		out := decode(in)
		m, ok := out.(map[string]any)
		if _, failed := out.(errOut); failed {
			m, ok = map[string]any{"err": true}, true
		}
		if !ok {
			return out
		}
		m["chain"] = chainOf(language.Make(in.Lang))
		return m
	})
	props["P19"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_GettextRule"}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(25000, 200000); i++ {
			cases = append(cases, mk("gc.decode", g.gettext(true)))
		}
		c.Backward(TLC{Module: "Trace_GettextCatalog"}, cases)
	}
	props["P13"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_GettextEntries", Consts: map[string]string{"MaxEntries": c.pickS("2", "3")}}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(25000, 200000); i++ {
			cases = append(cases, mk("gc.decode", g.gettext(false)))
		}
		c.Backward(TLC{Module: "Trace_GettextCatalog"}, cases)
		cases = nil
		for i := 0; i < c.pick(10000, 50000); i++ {
			cases = append(cases, mk("js.decode", g.jsDecode()))
		}
		c.Backward(TLC{Module: "Trace_JsonCatalog"}, cases)
	}
}

func (g gen) gcWord() string {
	if g.IntN(15) == 0 {
		return g.dictWord(fileDirs...)
	}
	return pickOf(g.Rand, "a", "b", "c", "msg %d", "é", "日本", "x\ny", "tab\t", "\"q\"", "back\\", " lead", "trail ", "#, fuzzy", "fuzzy", "msgid", "😀", "%")
}

// gettext is a random file; rule: mostly about the plural rule.
func (g gen) gettext(rule bool) gcIn {
	in := gcIn{Lang: language.Make(g.variantTag()).String(), Domain: pickOf(g.Rand, "", "d"), Style: g.IntN(1000000)}
	f := gcFile{Kind: pickOf(g.Rand, "po", "po", "mo"), Cldr: g.IntN(4) == 0, Head: g.IntN(8) > 0, Pf: Text{}, X: Text{}, Msgs: []gcMsg{}}
	if f.Head && g.IntN(4) > 0 {
		f.Pf = textOf("nplurals=" + strconv.Itoa(1+g.IntN(4)) + "; plural=" + knownFormulas[g.IntN(len(knownFormulas))] + ";")
		if g.IntN(4) == 0 || rule && g.IntN(2) == 0 {
			f.Pf = textOf(g.pluralHeader())
		}
		for i, c := range f.Pf { // the value of a header field
			if c == '\n' || c == 0 || c == 0xfffd {
				f.Pf[i] = ' '
			}
		}
	}
	if f.Head && (g.IntN(5) == 0 || rule && g.IntN(3) > 0) {
		f.X = textOf(pickOf(g.Rand, "true", "true", "TRUE", "True", "truE", "false", "no", "true!", "\u00a0true", "t", "FALSE", "1", "yes", "on", "0", "y", g.dictWord("catalog"), g.dictWord("catalog/po")))
	}
	ctxs := []string{"", "", "k", g.gcWord()}
	seen := map[string]bool{}
	for k := 1 + g.IntN(5); k > 0; k-- {
		m := gcMsg{C: textOf(ctxs[g.IntN(4)]), M: textOf(g.gcWord()), F: []gcForm{}, Flags: []Text{}}
		key := m.C.String() + "\x00" + m.M.String()
		if seen[key] {
			continue
		}
		seen[key] = true
		n := 1
		if rule || g.IntN(2) == 0 {
			n = 1 + g.IntN(6)
		}
		text := func() Text {
			if g.IntN(4) == 0 {
				return Text{}
			}
			return textOf(g.gcWord() + strconv.Itoa(g.IntN(100)))
		}
		for i := 0; i < n; i++ {
			if f.Kind == "po" && n > 1 && g.IntN(8) == 0 {
				continue
			}
			m.F = append(m.F, gcForm{i, text()})
		}
		if len(m.F) == 0 {
			m.F = append(m.F, gcForm{0, text()})
		}
		if f.Kind == "po" {
			if g.IntN(8) == 0 {
				g.Shuffle(len(m.F), func(i, j int) { m.F[i], m.F[j] = m.F[j], m.F[i] })
			}
			for k := g.IntN(4); k > 0; k-- {
				m.Flags = append(m.Flags, textOf(pickOf(g.Rand, "fuzzy", "c-format", "no-wrap", "go-format", "unfuzzy", "fuzzy-x", "range:0..10", "Fuzzy", "FUZZY")))
			}
			m.Obs = g.IntN(8) == 0
		}
		f.Msgs = append(f.Msgs, m)
	}
	in.File = f
	for k := 0; k < 8; k++ {
		q := jsQuery{C: textOf(ctxs[g.IntN(4)]), M: textOf(g.gcWord()), Pl: g.IntN(4) > 0, N: g.decimal()}
		if i := g.IntN(len(f.Msgs) + 1); i < len(f.Msgs) && g.IntN(8) > 0 {
			q.C, q.M = f.Msgs[i].C, f.Msgs[i].M
		} else if g.IntN(4) == 0 {
			q.M = Text{}
		}
		if g.IntN(2) == 0 {
			q.N = numRec{pickOf(g.Rand, "int", "uint8", "int64", "str"), textOf(strconv.Itoa(pickOf(g.Rand, 0, 1, 2, 3, 5, 11, 12, 21, 100, 101)))}
		}
		if g.IntN(20) == 0 {
			q.N = g.oddNumber()
		}
		in.Qs = append(in.Qs, q)
	}
	return in
}
