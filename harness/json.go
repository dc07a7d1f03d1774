package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"unicode/utf16"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// jsVal is a JSON value; only the kind of numbers, booleans and arrays matters.
type jsVal struct {
	K string    `json:"k"`
	S Text      `json:"s"`
	M []jsField `json:"m"`
}

type jsField struct {
	N Text  `json:"n"`
	V jsVal `json:"v"`
}

func jsText(s string) jsVal { return jsVal{"str", textOf(s), []jsField{}} }

// jsQuote writes a string literal; the style decides which characters are escaped.
func jsQuote(r *rand.Rand, style int, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`, '/': `\/`}[c]
		must := c < 32 || c == '"' || c == '\\'
		switch {
		case short != "" && (must || style%3 == 2) && r.IntN(3) > 0:
			b.WriteString(short)
		case must || style%3 == 2 && r.IntN(2) == 0:
			for _, u := range utf16.Encode([]rune{c}) {
				fmt.Fprintf(&b, pickOf(r, `\u%04x`, `\u%04X`), u)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func jsSpace(r *rand.Rand, style int) string {
	if style%2 == 0 {
		return ""
	}
	return pickOf(r, "", " ", "\n", "\t", "\r\n  ", "   ")
}

func jsWrite(r *rand.Rand, style int, v jsVal) string {
	ws := func() string { return jsSpace(r, style) }
	switch v.K {
	case "str":
		return ws() + jsQuote(r, style, v.S.String()) + ws()
	case "num":
		return ws() + pickOf(r, "0", "1", "-1", "3.5", "1e3") + ws()
	case "bool":
		return ws() + pickOf(r, "true", "false") + ws()
	case "arr":
		return ws() + pickOf(r, "[]", `["x"]`, "[null]", `[{"other":"x"}]`) + ws()
	case "obj":
		var parts []string
		for _, f := range v.M {
			parts = append(parts, ws()+jsQuote(r, style, f.N.String())+ws()+":"+jsWrite(r, style, f.V))
		}
		return ws() + "{" + strings.Join(parts, ",") + ws() + "}" + ws()
	}
	return ws() + "null" + ws()
}

// jsBreak makes the text of a JSON object malformed.
func jsBreak(r *rand.Rand, fault, s string) string {
	s = strings.TrimSpace(s)
	switch fault {
	case "empty":
		return pickOf(r, "", " ", "\n")
	case "cut":
		return s[:r.IntN(len(s))]
	case "tail":
		return s + pickOf(r, "x", "}", "{}", ",", "null", "\x00", "//")
	case "head":
		return pickOf(r, "\ufeff", ",", "x", "{", "{}", "\x00") + s
	case "comma":
		return s[:len(s)-1] + ",}"
	case "colon":
		return "{" + `"k"` + pickOf(r, "", "=", " ") + `"x"}`
	case "quote":
		return `{k:"x"}`
	case "apos":
		return `{'k':'x'}`
	case "control":
		return "{\"k\":\"a\nb\"}"
	}
	return s
}

var jsFaults = []string{"empty", "cut", "tail", "head", "comma", "colon", "quote", "apos", "control"}

type jsAns struct {
	S Text    `json:"s"`
	E textErr `json:"e"`
}

// textErr is an errRec with texts.
type textErr struct {
	K string `json:"k"`
	L string `json:"l"`
	D string `json:"d"`
	C Text   `json:"c"`
	M Text   `json:"m"`
	I int    `json:"i"`
}

func classifyText(err error) textErr {
	e := classify(err)
	return textErr{e.K, e.L, e.D, textOf(e.C), textOf(e.M), e.I}
}

type jsQuery struct {
	C  Text   `json:"c"`
	M  Text   `json:"m"`
	Pl bool   `json:"pl"`
	N  numRec `json:"n"`
}

func askCatalog(cat catalog.Catalog, q jsQuery) jsAns {
	if q.Pl {
		s, err := cat.LookupPlural(q.C.String(), q.M.String(), q.N.value())
		return jsAns{textOf(s), classifyText(err)}
	}
	s, err := cat.Lookup(q.C.String(), q.M.String())
	return jsAns{textOf(s), classifyText(err)}
}

type jsTr struct {
	C int  `json:"c"`
	S Text `json:"s"`
}

type jsMsg struct {
	Key     Text   `json:"key"`
	Comment Text   `json:"comment"`
	Ctx     Text   `json:"ctx"`
	Tr      []jsTr `json:"tr"`
}

func jsMsgOf(key string, m *catalog.JSONMessage) jsMsg {
	out := jsMsg{Key: textOf(key), Comment: textOf(m.Comment), Ctx: textOf(m.Context), Tr: []jsTr{}}
	for c, s := range m.Translations {
		out.Tr = append(out.Tr, jsTr{int(c), textOf(s)})
	}
	sort.Slice(out.Tr, func(i, j int) bool { return out.Tr[i].C < out.Tr[j].C })
	return out
}

func jsMsgsOf(ms catalog.JSONMessages) []jsMsg {
	out := []jsMsg{}
	for k, m := range ms {
		out = append(out, jsMsgOf(k, m))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key.String() < out[j].Key.String() })
	return out
}

type jsDecodeIn struct {
	Lang   string    `json:"lang"`
	Domain string    `json:"domain"`
	Doc    jsVal     `json:"doc"`
	Fault  string    `json:"fault"`
	Style  int       `json:"style"`
	Qs     []jsQuery `json:"qs"`
}

func init() {
	decode := func(in jsDecodeIn) any {
		r := rand.New(rand.NewPCG(uint64(in.Style), 5))
		text := []byte(jsBreak(r, in.Fault, jsWrite(r, in.Style, in.Doc)))
		tag := language.Make(in.Lang)
		if tag.String() != in.Lang {
			return "bad language " + in.Lang
		}
		var first map[string]any
		for range 4 {
			out := map[string]any{"err": true}
			cat, err := catalog.NewJSONDecoder().Decode(tag, in.Domain, bytes.Clone(text))
			if (cat == nil) == (err == nil) {
				return "neither or both of catalog and error"
			}
			if err == nil {
				jc, ok := cat.(catalog.JSONCatalog)
				if !ok || jc.Domain() != in.Domain || jc.Language() != tag {
					return "not a JSON catalog of this language and domain"
				}
				ans := each(len(in.Qs), func(i int) any { return askCatalog(cat, in.Qs[i]) })
				out = map[string]any{"err": false, "msgs_set": jsMsgsOf(jc.Messages()), "ans": ans}
			}
			// a fresh catalog filled by encoding/json is the same
			empty := catalog.NewJSONCatalog(tag, in.Domain)
			if err2 := json.Unmarshal(text, empty); (err2 == nil) != (err == nil) {
				return "json.Unmarshal and the decoder disagree"
			} else if err == nil && !reflect.DeepEqual(jsMsgsOf(empty.Messages()), out["msgs_set"]) {
				return "json.Unmarshal and the decoder read different messages"
			}
			if first == nil {
				first = out
			} else if !reflect.DeepEqual(first, out) {
				return "different results for the same document"
			}
		}
		return first
	}
	reg("js.known", decode)
	reg("js.decode", func(in jsDecodeIn) any {
		out := decode(in)
		if m, ok := out.(map[string]any); ok {
			m["chain"] = chainOf(language.Make(in.Lang))
		}
		return out
	})
	props["P20"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_JsonCatalog", Consts: map[string]string{"MaxFields": c.pickS("3", "4"), "Langs": c.pickS(`{"en", "ar"}`, `{"en", "ja", "ar", "ru"}`)}}, 20000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(40000, 400000); i++ {
			cases = append(cases, mk("js.decode", g.jsDecode()))
		}
		c.Backward(TLC{Module: "Trace_JsonCatalog"}, cases)
	}
}

// jsWord is a key, context or text.
func (g gen) jsWord() string {
	if g.IntN(15) == 0 {
		return g.dictWord(".", "catalog", "catalog/cldrplural")
	}
	return pickOf(g.Rand, "a", "b", "app", "app.name", "k", "ctx", "other", "One", "_", "x_y", "é", "日本", "A", "%d", "\"", "\\", "a b", "😀", "\u2028", "<&>", "\t", "\n", "\x00", "comment", "null", "\u212a")
}

func (g gen) jsCase(s string) string {
	if s == "" {
		return s
	}
	switch g.IntN(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g gen) jsDecode() jsDecodeIn {
	in := jsDecodeIn{Lang: g.jsLang(), Domain: pickOf(g.Rand, "", "d", "app"), Style: g.IntN(1000000), Doc: jsVal{"obj", Text{}, []jsField{}}}
	ctxs := []string{"", "", g.jsWord(), g.jsWord()}
	var keys []string
	for k := 1 + g.IntN(4); k > 0; k-- {
		ctx := ctxs[g.IntN(4)]
		key := g.jsWord()
		if ctx != "" {
			key += "_" + ctx
		}
		if g.IntN(30) == 0 {
			key = pickOf(g.Rand, "", "_"+ctx, key+"x", key+ctx, key+"_x", key+"_"+g.jsWord(), "_"+ctx+"_", strings.ToUpper(key), key+" ", strings.TrimSuffix(key, "_"+ctx)+ctx, strings.TrimSuffix(key, ctx), ctx)
		}
		keys = append(keys, strings.TrimSuffix(key, "_"+ctx), key)
		v := jsVal{pickOf(g.Rand, "str", "str", "obj", "obj", "obj", "obj"), Text{}, []jsField{}}
		if g.IntN(60) == 0 {
			v.K = pickOf(g.Rand, "null", "num", "bool", "arr")
		}
		if v.K == "str" {
			v.S = textOf(pickOf(g.Rand, "", g.jsWord(), g.jsWord()))
		}
		if v.K == "obj" {
			add := func(n string) {
				leaf := jsText(pickOf(g.Rand, "", g.jsWord(), g.jsWord(), g.jsWord()))
				if n == "context" {
					leaf = jsText(ctx)
				}
				if g.IntN(150) == 0 {
					leaf = jsVal{pickOf(g.Rand, "null", "num", "bool", "arr", "obj"), Text{}, []jsField{}}
				}
				v.M = append(v.M, jsField{textOf(g.jsCase(n)), leaf})
			}
			if g.IntN(30) > 0 {
				add("other")
			}
			if ctx != "" && g.IntN(15) > 0 || g.IntN(20) == 0 {
				add("context")
			}
			for _, n := range []string{"zero", "one", "two", "few", "many"} {
				if g.IntN(3) == 0 {
					add(n)
				}
			}
			if g.IntN(3) == 0 {
				add("comment")
			}
			if g.IntN(5) == 0 {
				add(pickOf(g.Rand, g.dictWord("catalog"), g.dictWord("catalog"), "dual", "note", "others", "on", "plural", "", "key", "translations", "ot\u0127er", "one ", "\u212aey"))
			}
			if g.IntN(12) == 0 {
				add(pickOf(g.Rand, "other", "one", "comment", "many"))
			}
			g.Shuffle(len(v.M), func(i, j int) { v.M[i], v.M[j] = v.M[j], v.M[i] })
			seen := map[string]bool{}
			for i := 0; i < len(v.M); i++ {
				if seen[v.M[i].N.String()] {
					v.M = append(v.M[:i], v.M[i+1:]...)
					i--
					continue
				}
				seen[v.M[i].N.String()] = true
			}
		}
		in.Doc.M = append(in.Doc.M, jsField{textOf(key), v})
	}
	switch g.IntN(40) {
	case 0:
		in.Doc = jsVal{pickOf(g.Rand, "null", "null", "num", "bool", "arr", "str"), Text{}, []jsField{}}
	case 1:
		in.Doc.M = []jsField{}
	case 2, 3:
		in.Fault = jsFaults[g.IntN(len(jsFaults))]
	}
	for k := 0; k < 8; k++ {
		q := jsQuery{C: textOf(ctxs[g.IntN(4)]), M: textOf(pickOf(g.Rand, keys...)), Pl: g.IntN(3) > 0, N: g.decimal()}
		if g.IntN(8) == 0 {
			q.M = textOf(g.jsWord())
		}
		if g.IntN(20) == 0 {
			q.N = g.oddNumber()
		}
		in.Qs = append(in.Qs, q)
	}
	return in
}

// jsLang is a language, mostly one with plural rules of its own.
func (g gen) jsLang() string {
	return pickOf(g.Rand, "en", "de", "ja", "ar", "ru", "fr", "pt-BR", "pt-PT", "de-AT", "cy", "lv", "zh-Hans", "sr-Latn", "tlh", "la", "pl", "mt", "und", "sl", "ga", "en-US-u-co-phonebk")
}
