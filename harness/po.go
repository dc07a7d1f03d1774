package main

import (
	"bytes"
	"encoding/json"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

// Text is a text as Unicode code points, as the specifications see it.
type Text []int

func textOf(s string) Text {
	t := Text{}
	for _, r := range s {
		t = append(t, int(r))
	}
	return t
}

func (t Text) String() string {
	var b strings.Builder
	for _, c := range t {
		b.WriteRune(rune(c))
	}
	return b.String()
}

type poParseIn struct {
	Text  Text `json:"text"`
	Skip  bool `json:"skip"`
	Chunk int  `json:"chunk,omitempty"` // deliver the text in parts of this size
	Pad   int  `json:"pad,omitempty"`   // a character 0 stands for this many letters Q
	Raw   int  `json:"raw,omitempty"`   // the characters U+FFFD are written as this byte, which is never part of UTF-8
}

// rawByte is a byte that is never part of UTF-8.
func (g gen) rawByte() int { return pickOf(g.Rand, 0xff, 0xfe, 0xc0, 0xc1, 0xf8) }

// malformed puts U+FFFD in some places of the text.
func (g gen) malformed(s string) string {
	r := []rune(s)
	for k := pickOf(g.Rand, 1, 2, 5, 40); k > 0 && len(r) > 0; k-- {
		i := g.IntN(len(r))
		r = append(r[:i:i], append([]rune{0xfffd}, r[i:]...)...)
	}
	return string(r)
}

func rawBytes(s string, raw int) string {
	if raw == 0 {
		return s
	}
	return strings.ReplaceAll(s, "\ufffd", string([]byte{byte(raw)}))
}

// The specifications see a very long run of one letter as a single character 0.
func unpad(s string, n int) string {
	if n == 0 {
		return s
	}
	return strings.ReplaceAll(s, "\x00", strings.Repeat("Q", n))
}

func repad(v any, n int) any {
	if n == 0 {
		return v
	}
	b := mustJSON(v)
	run := bytes.TrimSuffix(bytes.Repeat([]byte("81,"), n), []byte(","))
	return json.RawMessage(bytes.ReplaceAll(b, run, []byte("0")))
}

type poRef struct {
	Path Text `json:"path"`
	Line Text `json:"line"`
}

type poComment struct {
	Tr    Text    `json:"tr"`
	Ex    Text    `json:"ex"`
	Refs  []poRef `json:"refs"`
	Flags []Text  `json:"flags"`
	PCtx  Text    `json:"pctx"`
	PID   Text    `json:"pid"`
}

type poStr struct {
	Idx Text `json:"idx"`
	V   Text `json:"v"`
}

type poMessage struct {
	Ctx Text      `json:"ctx"`
	ID  Text      `json:"id"`
	Pl  Text      `json:"pl"`
	Str []poStr   `json:"str_set"`
	Com poComment `json:"com"`
}

type poField struct {
	K Text `json:"k"`
	V Text `json:"v"`
}

type poHeader struct {
	Fields []poField `json:"fields_set"`
	Com    poComment `json:"com"`
}

type poFileOut struct {
	Err      bool        `json:"err"`
	Header   *poHeader   `json:"header,omitempty"`
	Messages []poMessage `json:"messages_set,omitempty"`
}

type errOut struct {
	Err bool `json:"err"`
}

// visible drops the lines of obsolete entries from a translator comment.
func visible(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "~") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func commentOut(c *po.Comment) poComment {
	out := poComment{Tr: Text{}, Ex: Text{}, Refs: []poRef{}, Flags: []Text{}, PCtx: Text{}, PID: Text{}}
	if c == nil {
		return out
	}
	out.Tr, out.Ex = textOf(visible(c.Translator)), textOf(c.Extracted)
	for _, r := range c.References {
		out.Refs = append(out.Refs, poRef{textOf(r.Path), textOf(strconv.Itoa(r.Line))})
	}
	for _, f := range c.Flags {
		out.Flags = append(out.Flags, textOf(f))
	}
	out.PCtx, out.PID = textOf(c.PrevMsgContext), textOf(c.PrevMsgID)
	return out
}

var poKnownFields = []string{po.HeaderProjectIDVersion, po.HeaderReportMsgIDBugsTo, po.HeaderPOTCreationDate, po.HeaderPORevisionDate,
	po.HeaderLastTranslator, po.HeaderLanguageTeam, po.HeaderLanguage, po.HeaderMIMEVersion, po.HeaderContentType,
	po.HeaderContentTransferEncoding, po.HeaderPluralForms, po.HeaderXGenerator}

// headerFields are the fields of poKnownFields.
func headerFields(h *po.Header) []string {
	return []string{h.ProjectIDVersion, h.ReportMsgidBugsTo, h.POTCreationDate, h.PORevisionDate, h.LastTranslator, h.LanguageTeam,
		h.Language, h.MimeVersion, h.ContentType, h.ContentTransferEncoding, h.PluralForms, h.XGenerator}
}

func headerOut(h *po.Header) *poHeader {
	out := &poHeader{Fields: []poField{}, Com: commentOut(nil)}
	if h == nil {
		return out
	}
	direct := headerFields(h)
	for i, k := range poKnownFields {
		v := h.Get(strings.ToLower(k))
		if v != direct[i] {
			v = "Get: " + v + " field: " + direct[i]
		}
		if v != "" {
			out.Fields = append(out.Fields, poField{textOf(k), textOf(v)})
		}
	}
	for k, v := range h.UnknownFields {
		if g := h.Get(strings.ToUpper(k)); g != v {
			v = "Get: " + g + " field: " + v
		}
		if v != "" {
			out.Fields = append(out.Fields, poField{textOf(k), textOf(v)})
		}
	}
	out.Com = commentOut(h.Comment)
	return out
}

func messageOut(m *po.Message) poMessage {
	out := poMessage{Ctx: textOf(m.Context), ID: textOf(m.ID), Pl: textOf(m.IDPlural), Str: []poStr{}, Com: commentOut(m.Comment)}
	for i, v := range m.Str {
		out.Str = append(out.Str, poStr{textOf(strconv.Itoa(i)), textOf(v)})
	}
	sort.Slice(out.Str, func(i, j int) bool { return out.Str[i].Idx.String() < out.Str[j].Idx.String() })
	return out
}

func fileOut(f *po.File) any {
	out := poFileOut{Header: headerOut(f.Header), Messages: []poMessage{}}
	for ctx := range f.Messages {
		for id, m := range f.Messages[ctx] {
			mo := messageOut(m)
			if f.GetMessage(ctx, id) != m || m.Context != ctx || m.ID != id {
				mo.Ctx = textOf("stored under " + ctx + " / " + id + ": " + m.Context)
			}
			out.Messages = append(out.Messages, mo)
		}
	}
	return struct {
		Err      bool        `json:"err"`
		Header   *poHeader   `json:"header"`
		Messages []poMessage `json:"messages_set"`
	}{false, out.Header, out.Messages}
}

// parts delivers data in pieces of n bytes, every other time preceded by an
// empty read, and the last one together with end-of-file.
type parts struct {
	data  []byte
	n     int
	empty bool
	err   error
}

func (p *parts) Read(b []byte) (int, error) {
	if p.empty = !p.empty; p.empty {
		return 0, nil
	}
	k := min(p.n, len(p.data), len(b))
	copy(b, p.data[:k])
	p.data = p.data[k:]
	if len(p.data) == 0 {
		if p.err != nil {
			return k, p.err
		}
		return k, io.EOF
	}
	return k, nil
}

func init() {
	reg("po.parse", func(in poParseIn) any {
		s := rawBytes(unpad(in.Text.String(), in.Pad), in.Raw)
		var r io.Reader = strings.NewReader(s)
		if in.Chunk > 0 {
			r = &parts{data: []byte(s), n: in.Chunk}
		}
		p := po.NewParser()
		if in.Chunk > 2 { // a parser can be used again, also after a text it rejected
			_, _ = p.Parse(strings.NewReader("msgid \"x\"\nmsgstr \"y\"\n# c\nmsgid \"x\"\nmsgstr \"y\"\n# d\n"))
		}
		p.SetIgnoreComments(in.Skip)
		f, err := p.Parse(r)
		if (f == nil) == (err == nil) {
			return "neither or both of file and error"
		}
		if !in.Skip && in.Chunk == 0 {
			f2, err2 := po.Parse([]byte(s))
			if (err == nil) != (err2 == nil) {
				return "Parse and Parser.Parse differ"
			}
			if err == nil && !bytes.Equal(mustJSONCanon(fileOut(f)), mustJSONCanon(fileOut(f2))) {
				return "Parse and Parser.Parse differ"
			}
		}
		if err != nil {
			return errOut{true}
		}
		return repad(fileOut(f), in.Pad)
	})
}

func mustJSONCanon(v any) []byte { return []byte(canon(mustJSON(v))) }

type poEncodeIn struct {
	Text  Text `json:"text"`
	Width int  `json:"width"`
	Raw   int  `json:"raw,omitempty"`
}

func init() {
	reg("po.encode", func(in poEncodeIn) any {
		q := po.EncodePoString(in.Text.String(), in.Width)
		return map[string]any{"quoted": textOf(q), "back": textOf(po.DecodePoString(q))}
	})
	reg("po.decode", func(in poEncodeIn) any { return textOf(po.DecodePoString(rawBytes(in.Text.String(), in.Raw))) })
}
