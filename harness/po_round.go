package main

import (
	"bytes"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

type poOpt struct {
	Width       int    `json:"width"`
	Header      bool   `json:"header"`
	EmptyHeader bool   `json:"emptyheader"`
	Refs        bool   `json:"refs"`
	Sort        string `json:"sort"` // default, none, id
}

type poRoundIn struct {
	Header   *poHeader   `json:"header"`
	Messages []poMessage `json:"messages"`
	Orders   [][]int     `json:"orders"` // orders in which messages and header fields are added
	Opt      poOpt       `json:"opt"`
}

func atoi(t Text) int {
	n, neg := 0, false
	for _, c := range t {
		if c == '-' {
			neg = true
		} else {
			n = n*10 + c - '0'
		}
	}
	if neg {
		return -n
	}
	return n
}

func (c poComment) build() *po.Comment {
	out := &po.Comment{Translator: c.Tr.String(), Extracted: c.Ex.String()}
	for _, r := range c.Refs {
		out.References = append(out.References, &po.Reference{Path: r.Path.String(), Line: atoi(r.Line)})
	}
	for _, f := range c.Flags {
		out.Flags = append(out.Flags, f.String())
	}
	return out
}

func (c poComment) empty() bool {
	return len(c.Tr)+len(c.Ex)+len(c.Refs)+len(c.Flags)+len(c.PCtx)+len(c.PID) == 0
}

func (m poMessage) build() *po.Message {
	out := po.NewMessage()
	out.Context, out.ID, out.IDPlural = m.Ctx.String(), m.ID.String(), m.Pl.String()
	for _, s := range m.Str {
		out.Str[atoi(s.Idx)] = s.V.String()
	}
	if m.Com.empty() {
		if len(m.ID)%2 == 0 {
			out.Comment = nil
		}
	} else {
		out.Comment = m.Com.build()
	}
	return out
}

func (in poRoundIn) encode(order []int) []byte {
	f := po.NewFile()
	if len(order)%2 == 0 {
		f = &po.File{}
	}
	if in.Header != nil {
		f.Header = &po.Header{}
		if !in.Header.Com.empty() {
			f.Header.Comment = in.Header.Com.build()
		}
		n := len(in.Header.Fields)
		for k := 0; k < n; k++ {
			// the order of the fields follows the order of the messages
			i := k
			if len(order) > 0 {
				i = (k + order[0]) % n
				if order[0]%2 == 1 {
					i = n - 1 - i
				}
			}
			f.Header.Set(in.Header.Fields[i].K.String(), in.Header.Fields[i].V.String())
		}
	} else {
		f.Header = nil
	}
	for _, i := range order {
		f.AddMessage(in.Messages[i].build())
	}
	var b bytes.Buffer
	e := po.NewEncoder(&b)
	e.SetWrapWidth(in.Opt.Width)
	e.SetWriteHeader(in.Opt.Header)
	e.SetWriteEmptyHeader(in.Opt.EmptyHeader)
	e.SetWriteReferences(in.Opt.Refs)
	switch in.Opt.Sort {
	case "none":
		e.SetSortFunction(nil)
	case "id":
		e.SetSortFunction(func(a, b *po.Message) int { return strings.Compare(b.ID, a.ID) })
	}
	if err := e.Encode(f); err != nil {
		panic(err)
	}
	first := bytes.Clone(b.Bytes())
	b.Reset()
	if err := e.Encode(f); err != nil {
		panic(err)
	}
	if !bytes.Equal(first, b.Bytes()) {
		return append(append(first, "\n--- the second encoding of the same file:\n"...), b.Bytes()...)
	}
	return first
}

func init() {
	reg("po.roundtrip", func(in poRoundIn) any {
		text := in.encode(in.Orders[0])
		same := true
		for _, o := range in.Orders {
			same = same && bytes.Equal(text, in.encode(o))
		}
		var file any = errOut{true}
		if f, err := po.Parse(text); err == nil {
			file = fileOut(f)
		}
		return map[string]any{"same": same, "text": textOf(string(text)), "file": file}
	})
}

var poTextParts = []string{"a", "b", "hello", "w", " ", " ", "  ", "\n", "\"", "\\", "\t", "\r", "%d", "é", "漢", "\u00a0", "\u0001", "\\n", "msgid", "#", "longer-word-without-break", ":", "x1"}

func (g gen) text(max int) string {
	var b strings.Builder
	for k := g.IntN(max + 1); k > 0; k-- {
		b.WriteString(pickOf(g.Rand, poTextParts...))
	}
	return b.String()
}

func (g gen) commentText() string {
	var b strings.Builder
	for k := g.IntN(8); k > 0; k-- {
		b.WriteString(pickOf(g.Rand, "a", "note", " ", " ", "  ", "\n", "\n", "\t", "é", "http://example.org/long/path", ",", ".x", ":", "|", "\"q\"", "\\n", "\u00a0", "#"))
	}
	return b.String()
}

func (g gen) roundComment() poComment {
	c := commentOut(nil)
	if g.IntN(3) == 0 {
		return c
	}
	if g.IntN(2) == 0 {
		c.Tr = textOf(g.commentText())
	}
	if g.IntN(2) == 0 {
		c.Ex = textOf(g.commentText())
	}
	for k := g.IntN(4); k > 0; k-- {
		c.Refs = append(c.Refs, poRef{textOf(pickOf(g.Rand, "a.go", "b/c.go", "C:x.go", "ü.c", "http://h/very/long/path/to/file.go", ":", "a,b", "#")), textOf(pickOf(g.Rand, "1", "2", "10", "0", "-1", "-7"))})
	}
	for k := g.IntN(4); k > 0; k-- {
		c.Flags = append(c.Flags, textOf(pickOf(g.Rand, "fuzzy", "go-format", "no-wrap", "range:0..10", "é", "#")))
	}
	return c
}

func (g gen) roundIn() poRoundIn {
	in := poRoundIn{Messages: []poMessage{}}
	in.Opt = poOpt{Width: pickOf(g.Rand, -1, 0, 1, 3, 5, 10, 20, 40, 80), Header: g.IntN(4) > 0, EmptyHeader: g.IntN(3) > 0, Refs: g.IntN(4) > 0,
		Sort: pickOf(g.Rand, "default", "default", "none", "id")}
	in.Header = &poHeader{Fields: []poField{}, Com: g.roundComment()}
	for _, k := range append(append([]string{}, poKnownFields...), "X-Odd", "é", "X-Poedit-Base Path", "Z", "x\"q\\") {
		if g.IntN(4) == 0 {
			v := strings.TrimSpace(strings.NewReplacer("\n", "", "\r", "").Replace(g.text(4)))
			in.Header.Fields = append(in.Header.Fields, poField{textOf(k), textOf(v)})
		}
	}
	seen := map[string]bool{}
	for k := 1 + g.IntN(5); k > 0; k-- {
		m := poMessage{Ctx: Text{}, Pl: Text{}, Str: []poStr{}, Com: g.roundComment()}
		if g.IntN(2) == 0 {
			m.Ctx = textOf(pickOf(g.Rand, "c", "d", g.text(3)))
		}
		m.ID = textOf(pickOf(g.Rand, "a", "b", "c", g.text(8), g.text(8)))
		if len(m.ID) == 0 || seen[m.Ctx.String()+"\x04"+m.ID.String()] {
			k++
			continue
		}
		seen[m.Ctx.String()+"\x04"+m.ID.String()] = true
		if g.IntN(3) == 0 {
			m.Pl = textOf(g.text(6))
		}
		idx := []string{"0", "1", "2", "3", "5", "11"}
		if g.IntN(2) == 0 {
			idx = idx[:1+g.IntN(2)]
		}
		for _, i := range idx {
			if g.IntN(3) > 0 {
				m.Str = append(m.Str, poStr{textOf(i), textOf(g.text(8))})
			}
		}
		in.Messages = append(in.Messages, m)
	}
	n := len(in.Messages)
	for k := 0; k < 3; k++ {
		in.Orders = append(in.Orders, g.Perm(n))
	}
	return in
}
