package main

import (
	"sort"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

type mergeRef struct {
	Path Text `json:"path"`
	Line int  `json:"line"`
	Col  int  `json:"col"`
}

type mergeMsg struct {
	Ctx   Text       `json:"ctx"`
	ID    Text       `json:"id"`
	Pl    Text       `json:"pl"`
	Str   []poStr    `json:"str"`
	Tr    []Text     `json:"tr"`
	Ex    []Text     `json:"ex"`
	Refs  []mergeRef `json:"refs"`
	Flags []Text     `json:"flags"`
	NoCom bool       `json:"nocom"`
}

type mergeOp struct {
	K    string    `json:"k"`
	M    *mergeMsg `json:"m,omitempty"`
	Ctx  Text      `json:"ctx"`
	ID   Text      `json:"id"`
	Ref  *mergeRef `json:"ref,omitempty"`
	Flag Text      `json:"flag"`
}

type mergeIn struct {
	Ops   []mergeOp `json:"ops"`
	Fresh bool      `json:"fresh"`
}

func joinLines(ls []Text) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	return strings.Join(s, "\n")
}

func splitLines(s string) []Text {
	out := []Text{}
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, textOf(l))
		}
	}
	return out
}

func (r mergeRef) build() *po.Reference {
	return &po.Reference{Path: r.Path.String(), Line: r.Line, Column: r.Col}
}

func (m mergeMsg) build() *po.Message {
	out := &po.Message{Context: m.Ctx.String(), ID: m.ID.String(), IDPlural: m.Pl.String(), Str: map[int]string{}}
	for _, s := range m.Str {
		out.Str[atoi(s.Idx)] = s.V.String()
	}
	if !m.NoCom {
		out.Comment = &po.Comment{Translator: joinLines(m.Tr), Extracted: joinLines(m.Ex)}
		for _, r := range m.Refs {
			out.Comment.References = append(out.Comment.References, r.build())
		}
		for _, f := range m.Flags {
			out.Comment.Flags = append(out.Comment.Flags, f.String())
		}
	}
	return out
}

func mergeMsgOut(m *po.Message) map[string]any {
	str := []poStr{}
	for i, v := range m.Str {
		str = append(str, poStr{textOf(strconv.Itoa(i)), textOf(v)})
	}
	sort.Slice(str, func(i, j int) bool { return str[i].Idx.String() < str[j].Idx.String() })
	out := map[string]any{"ctx": textOf(m.Context), "id": textOf(m.ID), "pl": textOf(m.IDPlural), "str_set": str,
		"tr": []Text{}, "ex": []Text{}, "refs": []mergeRef{}, "flags": []Text{}}
	if c := m.Comment; c != nil {
		refs, flags := []mergeRef{}, []Text{}
		for _, r := range c.References {
			refs = append(refs, mergeRef{textOf(r.Path), r.Line, r.Column})
		}
		for _, f := range c.Flags {
			flags = append(flags, textOf(f))
		}
		out["tr"], out["ex"], out["refs"], out["flags"] = splitLines(c.Translator), splitLines(c.Extracted), refs, flags
	}
	return out
}

func init() {
	reg("po.merge", func(in mergeIn) any {
		f := po.NewFile()
		if !in.Fresh {
			f = &po.File{}
		}
		type arg struct {
			m      *po.Message
			before string
		}
		var args []arg
		for _, o := range in.Ops {
			switch o.K {
			case "add":
				m := o.M.build()
				if f.GetMessage(m.Context, m.ID) != nil || m.ID == "" {
					args = append(args, arg{m, string(mustJSON(mergeMsgOut(m)))})
				}
				f.AddMessage(m)
			case "ref":
				if m := f.GetMessage(o.Ctx.String(), o.ID.String()); m != nil {
					m.AddReference(o.Ref.build())
				}
			case "flag":
				if m := f.GetMessage(o.Ctx.String(), o.ID.String()); m != nil && m.Comment != nil {
					m.Comment.AddFlag(o.Flag.String())
				}
			}
		}
		msgs := []any{}
		for ctx := range f.Messages {
			for id, m := range f.Messages[ctx] {
				if m.Context != ctx || m.ID != id {
					return "stored under another context or id"
				}
				msgs = append(msgs, mergeMsgOut(m))
			}
		}
		kept := true // messages merged into another one are not changed
		for _, a := range args {
			kept = kept && a.before == string(mustJSON(mergeMsgOut(a.m)))
		}
		return map[string]any{"messages_set": msgs, "argskept": kept}
	})
}

func (g gen) mergeIn() mergeIn {
	in := mergeIn{Ops: []mergeOp{}, Fresh: g.IntN(2) == 0}
	ctx := func() Text { return textOf(pickOf(g.Rand, "", "", "x", "é")) }
	id := func() Text { return textOf(pickOf(g.Rand, "a", "a", "a", "b", "ß", "")) }
	ref := func() mergeRef {
		return mergeRef{textOf(pickOf(g.Rand, "a.go", "b.go", "b.go", "ä.go", "a")), g.IntN(12) - 1, g.IntN(2)}
	}
	lines := func() []Text {
		out := []Text{}
		for k := g.IntN(4); k > 0; k-- {
			out = append(out, textOf(pickOf(g.Rand, "one", "two", "three", "t wo", "é")))
		}
		return dedupe(out)
	}
	for k := 1 + g.IntN(9); k > 0; k-- {
		switch g.IntN(6) {
		case 0:
			r := ref()
			in.Ops = append(in.Ops, mergeOp{K: "ref", Ctx: ctx(), ID: id(), Ref: &r, Flag: Text{}})
		case 1:
			in.Ops = append(in.Ops, mergeOp{K: "flag", Ctx: ctx(), ID: id(), Flag: textOf(pickOf(g.Rand, "fuzzy", "c", "a", "é"))})
		default:
			m := mergeMsg{Ctx: ctx(), ID: id(), Pl: textOf(pickOf(g.Rand, "", "", "p", "q")), Str: []poStr{}, Tr: lines(), Ex: lines(), Refs: []mergeRef{}, Flags: []Text{}}
			for i := 0; i < 3; i++ {
				if g.IntN(3) == 0 {
					m.Str = append(m.Str, poStr{textOf(strconv.Itoa(i)), textOf(pickOf(g.Rand, "", "t", "u"))})
				}
			}
			for k := g.IntN(4); k > 0; k-- {
				m.Refs = append(m.Refs, ref())
			}
			m.Refs = dedupe(m.Refs)
			for k := g.IntN(4); k > 0; k-- {
				m.Flags = append(m.Flags, textOf(pickOf(g.Rand, "fuzzy", "c", "a", "é")))
			}
			m.Flags = dedupe(m.Flags)
			if g.IntN(6) == 0 {
				m.NoCom, m.Tr, m.Ex, m.Refs, m.Flags = true, []Text{}, []Text{}, []mergeRef{}, []Text{}
			}
			in.Ops = append(in.Ops, mergeOp{K: "add", M: &m, Ctx: Text{}, ID: Text{}, Flag: Text{}})
		}
	}
	return in
}

func dedupe[T any](s []T) []T {
	seen := map[string]bool{}
	out := []T{}
	for _, x := range s {
		k := string(mustJSON(x))
		if !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	return out
}
