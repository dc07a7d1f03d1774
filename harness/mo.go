package main

import (
	"bytes"
	"io"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/mo"
)

// Bytes are bytes as numbers.
type Bytes []int

func bytesOf(s string) Bytes {
	b := make(Bytes, len(s))
	for i := range b {
		b[i] = int(s[i])
	}
	return b
}

func (b Bytes) raw() []byte {
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = byte(c)
	}
	return out
}

type moIn struct {
	Image Bytes `json:"image"`
	Chunk int   `json:"chunk"`
}

type moStr struct {
	Idx int   `json:"idx"`
	V   Bytes `json:"v"`
}

func moStrs(m map[int]string) []moStr {
	out := []moStr{}
	for i, v := range m {
		out = append(out, moStr{i, bytesOf(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Idx < out[j].Idx })
	return out
}

func moFileOut(f *po.File) map[string]any {
	fields := []any{}
	if h := f.Header; h != nil {
		add := func(k, v, other string) {
			if v != other {
				v = "Get: " + v + " field: " + other
			}
			if v != "" {
				fields = append(fields, map[string]any{"k": bytesOf(k), "v": bytesOf(v)})
			}
		}
		direct := headerFields(h)
		for i, k := range poKnownFields {
			add(k, h.Get(strings.ToLower(k)), direct[i])
		}
		for k, v := range h.UnknownFields {
			add(k, h.Get(k), v)
		}
	}
	msgs := []any{}
	for ctx := range f.Messages {
		for id, m := range f.Messages[ctx] {
			if m.Context != ctx || m.ID != id {
				return map[string]any{"err": "stored under another context or id"}
			}
			msgs = append(msgs, map[string]any{"ctx": bytesOf(ctx), "id": bytesOf(id), "pl": bytesOf(m.IDPlural), "str_set": moStrs(m.Str)})
		}
	}
	return map[string]any{"err": false, "fields_set": fields, "messages_set": msgs}
}

// chunkSeeker is an io.ReadSeeker that delivers few bytes at a time.
type chunkSeeker struct {
	r     *bytes.Reader
	n     int
	empty bool
}

func (c *chunkSeeker) Read(b []byte) (int, error) {
	if c.empty = !c.empty; c.empty {
		return 0, nil
	}
	return c.r.Read(b[:min(len(b), c.n)])
}
func (c *chunkSeeker) Seek(o int64, w int) (int64, error) { return c.r.Seek(o, w) }

func init() {
	reg("mo.parse", func(in moIn) any {
		data := in.Image.raw()
		f, err := mo.ParseBytes(data)
		if in.Chunk > 0 {
			f, err = mo.ParseReader(&chunkSeeker{r: bytes.NewReader(data), n: in.Chunk})
		}
		if (f == nil) == (err == nil) {
			return "neither or both of file and error"
		}
		var r io.Reader = bytes.NewReader(data)
		if in.Chunk > 0 {
			r = &parts{data: data, n: in.Chunk}
		}
		cat, errC := catalog.NewMoCLDRDecoder().(catalog.DecoderV2).DecodeReader(language.German, "d", r)
		if (errC == nil) != (err == nil) || (cat == nil) == (errC == nil) {
			return "parser and decoder disagree"
		}
		if err != nil {
			return errOut{true}
		}
		out := moFileOut(f)
		served := []any{}
		for ctx, ms := range cat.(*catalog.GettextCatalog).Messages() {
			for id, m := range ms {
				served = append(served, map[string]any{"ctx": bytesOf(ctx), "id": bytesOf(id), "str_set": moStrs(m.Translations())})
			}
		}
		out["served_set"] = served
		return out
	})
}

// moImage lays the texts of pairs out in a file, in a random layout.
func (g gen) moImage(pairs [][2]string, big bool) []byte {
	put := func(b []byte, at, v int) {
		for k := 0; k < 4; k++ {
			s := 8 * k
			if big {
				s = 24 - 8*k
			}
			b[at+k] = byte(v >> s)
		}
	}
	n := len(pairs)
	type region struct {
		data []byte
		set  func(at int)
	}
	var regions []region
	idT, strT := make([]byte, 8*n), make([]byte, 8*n)
	img := make([]byte, 28)
	regions = append(regions, region{idT, func(at int) { put(img, 12, at) }}, region{strT, func(at int) { put(img, 16, at) }})
	shared := map[string]int{}
	for i := range pairs {
		for k, t := range [][]byte{idT, strT} {
			s := pairs[i][k]
			at := 8 * i
			put(t, at, len(s))
			if j, ok := shared[s]; ok && g.IntN(2) == 0 {
				old := regions[j]
				regions[j].set = func(p int) { old.set(p); put(t, at+4, p) }
				continue
			}
			shared[s] = len(regions)
			end := "\x00"
			if g.IntN(4) == 0 {
				end = pickOf(g.Rand, "", "\x00\x00", "x")
			}
			regions = append(regions, region{[]byte(s + end), func(p int) { put(t, at+4, p) }})
		}
	}
	order := g.Perm(len(regions))
	if g.IntN(2) == 0 { // the usual layout
		for i := range order {
			order[i] = i
		}
	}
	at := 28
	var places []int
	for _, i := range order {
		if g.IntN(8) == 0 {
			at += g.IntN(9)
		}
		places = append(places, at)
		regions[i].set(at)
		at += len(regions[i].data)
	}
	img = append(img, make([]byte, at-28)...)
	for k, i := range order {
		regions[i].set(places[k])
		copy(img[places[k]:], regions[i].data)
	}
	// the tables have been copied while their entries were still being set
	for k, i := range order {
		copy(img[places[k]:], regions[i].data)
	}
	put(img, 0, 0x950412de)
	put(img, 4, pickOf(g.Rand, 0, 0, 0, 1, 0x10000))
	put(img, 8, n)
	put(img, 20, pickOf(g.Rand, 0, 0, 5))
	put(img, 24, g.IntN(at))
	return img
}

func (g gen) moText(nul bool) string {
	s := ""
	for k := g.IntN(5); k > 0; k-- {
		s += pickOf(g.Rand, "a", "b", "é", "漢", " ", "\n", "%d", "\xff")
	}
	if nul {
		for k := g.IntN(4); k > 0; k-- {
			s += "\x00" + pickOf(g.Rand, "", "f", "g\x04")
		}
	}
	return s
}

func (g gen) moIn() moIn {
	var pairs [][2]string
	for k := g.IntN(6); k > 0; k-- {
		id := pickOf(g.Rand, "m", "n", "o", g.moText(false)) + strconv.Itoa(k)
		switch g.IntN(6) {
		case 0:
			id = "c\x04" + id
		case 1:
			id = "\x04" + id
		case 2:
			id = "c\x04d\x04" + id
		}
		if g.IntN(3) == 0 {
			id += "\x00" + pickOf(g.Rand, "p", "", "p\x00q", "p\x04")
		}
		pairs = append(pairs, [2]string{id, g.moText(g.IntN(2) == 0)})
	}
	if g.IntN(2) == 0 {
		h := ""
		for _, k := range []string{"Language", "plural-forms", "X-Odd", "nonsense", "Content-Type"} {
			if g.IntN(2) == 0 {
				h += k + pickOf(g.Rand, ": ", ":", " : ") + pickOf(g.Rand, "de", "", "a: b", "éx") + pickOf(g.Rand, "\n", "\n", "\n\n", "")
			}
		}
		i := g.IntN(len(pairs) + 1)
		pairs = append(pairs[:i:i], append([][2]string{{"", h}}, pairs[i:]...)...)
	}
	img := g.moImage(pairs, g.IntN(2) == 0)
	switch g.IntN(4) {
	case 0:
		img = img[:g.IntN(len(img)+1)]
	case 1:
		p := g.IntN(len(img))
		if g.IntN(2) == 0 {
			p = g.IntN(28)
		}
		img[p] = pickOf(g.Rand, 0, 1, 255, img[p]+1, img[p]-1, byte(g.IntN(256)))
	}
	return moIn{bytesOf(string(img)), pickOf(g.Rand, 0, 0, 1, 3, 8)}
}

var _ = rand.IntN

func init() {
	props["P12"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_MoFile", Consts: map[string]string{"Depth": c.pickS("1", "2")}}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(8000, 100000); i++ {
			cases = append(cases, mk("mo.parse", g.moIn()))
		}
		c.Backward(TLC{Module: "Trace_MoFile"}, cases)
	}
}
