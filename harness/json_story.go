package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
)

type jsIn struct {
	Key Text  `json:"key"`
	Nil bool  `json:"nil"`
	M   jsBod `json:"m"`
}

type jsBod struct {
	Comment Text   `json:"comment"`
	Ctx     Text   `json:"ctx"`
	Tr      []jsTr `json:"tr"`
}

type jsStep struct {
	K   string  `json:"k"`
	I   int     `json:"i"`
	J   int     `json:"j"`
	Key Text    `json:"key"`
	F   string  `json:"f"`
	C   int     `json:"c"`
	S   Text    `json:"s"`
	Q   jsQuery `json:"q"`
	Ms  []jsIn  `json:"ms"`
}

type jsStoryIn struct {
	Lang   string   `json:"lang"`
	Domain string   `json:"domain"`
	Style  int      `json:"style"`
	Ins    []jsIn   `json:"ins"`
	Steps  []jsStep `json:"steps"`
}

func (m jsBod) message() *catalog.JSONMessage {
	out := &catalog.JSONMessage{Comment: m.Comment.String(), Context: m.Ctx.String()}
	if len(m.Tr) > 0 {
		out.Translations = map[cldrplural.Category]string{}
	}
	for _, t := range m.Tr {
		out.Translations[cldrplural.Category(t.C)] = t.S.String()
	}
	return out
}

// jsEntry is a message as it stands in encoded form.
func jsEntry(raw json.RawMessage) (comment, ctx Text, tr []jsTr, err error) {
	comment, ctx, tr = Text{}, Text{}, []jsTr{}
	var s string
	if json.Unmarshal(raw, &s) == nil {
		return comment, ctx, []jsTr{{5, textOf(s)}}, nil
	}
	fields, err := jsFields(raw)
	if err != nil {
		return nil, nil, nil, err
	}
	names := []string{"zero", "one", "two", "few", "many", "other"}
	for _, f := range fields {
		var v string
		if err := json.Unmarshal(f.raw, &v); err != nil {
			return nil, nil, nil, err
		}
		switch f.name {
		case "comment":
			comment = textOf(v)
		case "context":
			ctx = textOf(v)
		default:
			c := -1
			for i, n := range names {
				if n == f.name {
					c = i
				}
			}
			tr = append(tr, jsTr{c, textOf(v)})
		}
	}
	return comment, ctx, tr, nil
}

type rawField struct {
	name string
	raw  json.RawMessage
}

// jsFields are the fields of a JSON object in the order of the text.
func jsFields(text []byte) ([]rawField, error) {
	if !json.Valid(text) {
		return nil, errors.New("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(text))
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		return nil, errors.New("no object")
	}
	var out []rawField
	for d.More() {
		name, err := d.Token()
		if err != nil {
			return nil, err
		}
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			return nil, err
		}
		out = append(out, rawField{name.(string), raw})
	}
	return out, nil
}

func jsCatalogText(text []byte) ([]jsMsg, error) {
	fields, err := jsFields(text)
	if err != nil {
		return nil, err
	}
	out := []jsMsg{}
	for _, f := range fields {
		m := jsMsg{Key: textOf(f.name)}
		if m.Comment, m.Ctx, m.Tr, err = jsEntry(f.raw); err != nil {
			return nil, err
		}
		out = append(out, m)
	}
	return out, nil
}

type failingWriter struct{ left int }

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.left -= len(p); w.left < 0 {
		return 0, io.ErrShortWrite
	}
	return len(p), nil
}

type jsStory struct {
	jsStoryIn
	tag  language.Tag
	ins  []*catalog.JSONMessage
	keys []string
	cat  catalog.JSONCatalog
	outs []catalog.JSONMessages
	r    *rand.Rand
}

func (st *jsStory) build() (catalog.JSONCatalog, error) {
	ms := catalog.JSONMessages{}
	for i, k := range st.keys {
		ms[k] = st.ins[i]
	}
	cat, err := catalog.NewJSONCatalogWithMessages(st.tag, st.Domain, ms)
	if (cat == nil) == (err == nil) {
		panic("neither or both of catalog and error")
	}
	// the caller may do with its map what it wants
	clear(ms)
	return cat, err
}

// encode writes the catalog, more than once and in several ways.
func (st *jsStory) encode() ([]byte, []jsMsg, error) {
	var first []byte
	for range 3 {
		var b bytes.Buffer
		if err := catalog.NewJSONEncoder(&b).Encode(st.cat); err != nil {
			return nil, nil, err
		}
		if first == nil {
			first = b.Bytes()
		} else if !bytes.Equal(first, b.Bytes()) {
			return nil, nil, errors.New("two encodings differ")
		}
	}
	doc, err := jsCatalogText(first)
	if err != nil {
		return nil, nil, err
	}
	plain, err := json.Marshal(st.cat)
	if err != nil {
		return nil, nil, err
	}
	doc2, err := jsCatalogText(plain)
	if err != nil {
		return nil, nil, err
	}
	if string(mustJSON(doc)) != string(mustJSON(doc2)) {
		return nil, nil, errors.New("json.Marshal and the encoder differ")
	}
	return first, doc, nil
}

var jsNothing = map[string]any{"k": "none"}

func (st *jsStory) do(x jsStep) (any, error) {
	onIn := func(f func(m *catalog.JSONMessage)) (any, error) {
		if x.I <= len(st.ins) && st.ins[x.I-1] != nil {
			f(st.ins[x.I-1])
		}
		return jsNothing, nil
	}
	onOut := func(f func(m *catalog.JSONMessage)) (any, error) {
		if x.J <= len(st.outs) {
			if m := st.outs[x.J-1][x.Key.String()]; m != nil {
				f(m)
			}
		}
		return jsNothing, nil
	}
	put := func(m *catalog.JSONMessage) {
		if m.Translations == nil {
			m.Translations = map[cldrplural.Category]string{}
		}
		m.Translations[cldrplural.Category(x.C)] = x.S.String()
	}
	set := func(m *catalog.JSONMessage) {
		if x.F == "comment" {
			m.Comment = x.S.String()
		} else {
			m.Context = x.S.String()
		}
	}
	remove := func(m *catalog.JSONMessage) { delete(m.Translations, cldrplural.Category(x.C)) }
	failed := func(err error) any { return map[string]any{"err": err != nil} }
	switch x.K {
	case "setin":
		return onIn(set)
	case "trin":
		return onIn(put)
	case "delin":
		return onIn(remove)
	case "nilin":
		return onIn(func(m *catalog.JSONMessage) { m.Translations = nil })
	case "apply":
		return onIn(func(m *catalog.JSONMessage) {
			if len(m.Translations) > 0 {
				catalog.ApplyPluralCategoriesToJSONMessage(st.tag, m)
			}
		})
	case "clone":
		return onIn(func(m *catalog.JSONMessage) {
			st.ins, st.keys = append(st.ins, m.Clone()), append(st.keys, x.Key.String())
		})
	case "msgenc":
		var out any = jsNothing
		var err error
		_, _ = onIn(func(m *catalog.JSONMessage) {
			var raw, again []byte
			if raw, err = json.Marshal(m); err != nil {
				return
			}
			if again, err = json.Marshal(*m); err == nil && !bytes.Equal(raw, again) {
				err = errors.New("two encodings differ")
			}
			if err != nil {
				return
			}
			comment, ctx, tr, e := jsEntry(raw)
			out, err = map[string]any{"comment": comment, "ctx": ctx, "tr": tr}, e
		})
		return out, err
	case "get":
		st.outs = append(st.outs, st.cat.Messages())
		return jsNothing, nil
	case "setout":
		return onOut(set)
	case "trout":
		return onOut(put)
	case "delout":
		return onOut(remove)
	case "rmout":
		if x.J <= len(st.outs) {
			delete(st.outs[x.J-1], x.Key.String())
		}
		return jsNothing, nil
	case "enc":
		_, doc, err := st.encode()
		return doc, err
	case "wfail":
		text, _, err := st.encode()
		if err != nil {
			return nil, err
		}
		return failed(catalog.NewJSONEncoder(&failingWriter{st.r.IntN(len(text))}).Encode(st.cat)), nil
	case "dec":
		text, _, err := st.encode()
		if err != nil {
			return nil, err
		}
		cat, err := catalog.NewJSONDecoder().Decode(st.tag, st.Domain, text)
		if err == nil {
			// the catalog does not depend on the bytes it was read from
			for i := range text {
				text[i] = 'x'
			}
			st.cat = cat.(catalog.JSONCatalog)
		}
		return failed(err), nil
	case "fill":
		doc := jsVal{"obj", Text{}, []jsField{}}
		for _, m := range x.Ms {
			v := jsVal{"obj", Text{}, []jsField{}}
			for _, t := range m.M.Tr {
				v.M = append(v.M, jsField{textOf([]string{"zero", "one", "two", "few", "many", "other"}[t.C]), jsText(t.S.String())})
			}
			if len(m.M.Comment) > 0 {
				v.M = append(v.M, jsField{textOf("comment"), jsText(m.M.Comment.String())})
			}
			if len(m.M.Ctx) > 0 {
				v.M = append(v.M, jsField{textOf("context"), jsText(m.M.Ctx.String())})
			}
			doc.M = append(doc.M, jsField{m.Key, v})
		}
		return failed(json.Unmarshal([]byte(jsWrite(st.r, st.Style, doc)), st.cat)), nil
	case "build":
		cat, err := st.build()
		if err == nil {
			st.cat = cat
		}
		return failed(err), nil
	case "look":
		return askCatalog(st.cat, x.Q), nil
	}
	return nil, fmt.Errorf("unknown step %s", x.K)
}

func init() {
	story := func(in jsStoryIn) any {
		st := &jsStory{jsStoryIn: in, tag: language.Make(in.Lang), r: rand.New(rand.NewPCG(uint64(in.Style), 9))}
		if st.tag.String() != in.Lang {
			return "bad language " + in.Lang
		}
		for _, m := range in.Ins {
			st.keys = append(st.keys, m.Key.String())
			if m.Nil {
				st.ins = append(st.ins, nil)
			} else {
				st.ins = append(st.ins, m.M.message())
			}
		}
		cat, err := st.build()
		if err != nil {
			return map[string]any{"err": true}
		}
		st.cat = cat
		res := []any{}
		for i, x := range in.Steps {
			r, err := st.do(x)
			if err != nil {
				return fmt.Sprintf("step %d: %v", i+1, err)
			}
			res = append(res, r)
		}
		ins := []any{}
		for i, m := range st.ins {
			if m == nil {
				m = &catalog.JSONMessage{}
			}
			s := jsMsgOf(st.keys[i], m)
			ins = append(ins, map[string]any{"key": s.Key, "nil": st.ins[i] == nil, "comment": s.Comment, "ctx": s.Ctx, "tr": s.Tr})
		}
		sorted := func(ms catalog.JSONMessages) []jsMsg {
			out := []jsMsg{}
			keys := []string{}
			for k := range ms {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				out = append(out, jsMsgOf(k, ms[k]))
			}
			return out
		}
		outs := []any{}
		for _, o := range st.outs {
			outs = append(outs, sorted(o))
		}
		return map[string]any{"err": false, "res": res, "fin": map[string]any{"ins": ins, "cat": sorted(st.cat.Messages()), "outs": outs}}
	}
	reg("js.story", story)
	reg("js.history", func(in jsStoryIn) any {
		out := story(in)
		if m, ok := out.(map[string]any); ok {
			m["chain"] = chainOf(language.Make(in.Lang))
		}
		return out
	})
	props["P21"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_JsonHistory", Consts: map[string]string{"MaxSteps": c.pickS("3", "4")}}, 20000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(20000, 150000); i++ {
			cases = append(cases, mk("js.history", g.jsHistory()))
		}
		c.Backward(TLC{Module: "Trace_JsonHistory"}, cases)
	}
}

func (g gen) jsMessages(n int, ctxs []string, valid bool) []jsIn {
	out := []jsIn{}
	for ; n > 0; n-- {
		ctx := ctxs[g.IntN(len(ctxs))]
		m := jsIn{Key: textOf(g.jsWord()), M: jsBod{Comment: Text{}, Ctx: textOf(ctx), Tr: []jsTr{}}}
		if ctx != "" {
			m.Key = append(m.Key, textOf("_"+ctx)...)
		}
		if g.IntN(3) == 0 {
			m.M.Comment = textOf(g.jsWord())
		}
		few := g.IntN(2) * 3
		for cat := range 6 {
			if cat == 5 || g.IntN(2) < few && g.IntN(2) == 0 {
				m.M.Tr = append(m.M.Tr, jsTr{cat, textOf(pickOf(g.Rand, "", g.jsWord(), g.jsWord()))})
			}
		}
		if !valid && g.IntN(60) == 0 {
			switch g.IntN(4) {
			case 0:
				m.Nil, m.M = true, jsBod{Text{}, Text{}, []jsTr{}}
			case 1:
				m.Key = Text{}
			case 2:
				m.M.Ctx = append(m.M.Ctx, 'x')
			default:
				m.M.Tr = m.M.Tr[:len(m.M.Tr)-1]
			}
		}
		out = append(out, m)
	}
	return out
}

func (g gen) jsHistory() jsStoryIn {
	ctxs := []string{"", "", g.jsWord()}
	in := jsStoryIn{Lang: g.jsLang(), Domain: pickOf(g.Rand, "", "d"), Style: g.IntN(100000), Ins: g.jsMessages(g.IntN(5), ctxs, false), Steps: []jsStep{}}
	if in.Lang == "und" {
		in.Lang = "en"
	}
	fills := []jsIn{}
	for k := 1 + g.IntN(12); k > 0; k-- {
		x := jsStep{K: pickOf(g.Rand, "setin", "trin", "trin", "delin", "nilin", "apply", "clone", "msgenc", "get", "get", "setout", "trout", "trout", "delout", "rmout", "enc", "wfail", "dec", "dec", "fill", "build", "look", "look"),
			I: 1 + g.IntN(4), J: 1 + g.IntN(3), F: pickOf(g.Rand, "comment", "ctx"), C: g.IntN(6), S: textOf(pickOf(g.Rand, "", g.jsWord())), Ms: []jsIn{}}
		if x.K == "fill" {
			x.Ms = g.jsMessages(1+g.IntN(2), ctxs, true)
			if len(x.Ms) == 2 && x.Ms[0].Key.String() == x.Ms[1].Key.String() {
				x.Ms = x.Ms[:1]
			}
			fills = append(fills, x.Ms...)
		}
		// keys are mostly those in use
		ms := append(append([]jsIn{}, in.Ins...), fills...)
		x.Key = textOf(g.jsWord())
		if len(ms) > 0 && x.K != "clone" || g.IntN(4) == 0 && len(ms) > 0 {
			x.Key = ms[g.IntN(len(ms))].Key
		}
		x.Q = jsQuery{C: textOf(ctxs[g.IntN(3)]), M: x.Key, Pl: g.IntN(2) == 0, N: g.decimal()}
		if c := x.Q.C.String(); c != "" && g.IntN(8) > 0 {
			x.Q.M = textOf(strings.TrimSuffix(x.Key.String(), "_"+c))
		}
		in.Steps = append(in.Steps, x)
	}
	return in
}
