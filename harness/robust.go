package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing/iotest"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	clast "github.com/vorlif/spreak/catalog/cldrplural/ast"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	plast "github.com/vorlif/spreak/catalog/poplural/ast"
)

// Parsers given anything (P30).

type rbIn struct {
	Fmt  string   `json:"fmt"`
	Toks []string `json:"toks"`
}

type rbRun struct {
	E    string `json:"e"`
	Val  bool   `json:"val"`
	Err  bool   `json:"err"`
	Bad  string `json:"bad"`
	Uses int    `json:"uses"`
	KB   int    `json:"kb"`
}

// rbText writes tokens; <..> are characters that TLA+ strings or JSON cannot hold.
func rbText(toks []string, big bool) []byte {
	var b bytes.Buffer
	for _, t := range toks {
		for t != "" {
			i := strings.IndexByte(t, '<')
			if i < 0 {
				b.WriteString(t)
				break
			}
			b.WriteString(t[:i])
			j := i + strings.IndexByte(t[i:], '>')
			name := t[i+1 : j]
			t = t[j+1:]
			switch name {
			case "nl":
				b.WriteByte('\n')
			case "cr":
				b.WriteByte('\r')
			case "nul":
				b.WriteByte(0)
			case "lt":
				b.WriteByte('<')
			case "bom":
				b.WriteString("\ufeff")
			case "reset":
				b.Reset()
			default:
				raw, err := hex.DecodeString(strings.TrimPrefix(name, "w"))
				if err != nil {
					panic("harness: bad token " + name)
				}
				if name[0] == 'w' && !big {
					raw = []byte{raw[3], raw[2], raw[1], raw[0]}
				}
				b.Write(raw)
			}
		}
	}
	return b.Bytes()
}

// rbDoc is the document of a format with the given content.
func rbDoc(format string, toks []string) []byte {
	if format == "pl" {
		toks = append([]string{"nplurals=2; plural="}, toks...)
	}
	return rbText(toks, format == "mobe")
}

// isNil: nothing, or a nil pointer or map in an interface.
func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return (r.Kind() == reflect.Pointer || r.Kind() == reflect.Map) && r.IsNil()
}

var rbNumbers = []any{0, 1, 2, 5, 11, 100, 1000000, -1, int64(math.MinInt64), uint64(math.MaxUint64), 1.5, -0.0, 1e300, math.NaN(), math.Inf(1), math.Inf(-1),
	"1", "1.50", "1c3", "1e999999999", "1e-999999999", "1c999999999", "", "x", strings.Repeat("9", 400), nil, (*int)(nil), true, struct{}{}, []int{1}, float32(0.1), int8(-128), errors.New("x"), json.Number("7")}

// use asks a value everything and counts the answers. What it returns is wrong with the value.
func use(v any, uses *int) string {
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	lookups := func(c catalog.Catalog, ctx, id string) {
		_, _ = c.Lookup(ctx, id)
		for _, n := range rbNumbers {
			_, _ = c.LookupPlural(ctx, id, n)
		}
		*uses += 1 + len(rbNumbers)
	}
	someLookups := func(c catalog.Catalog) {
		for _, k := range [][2]string{{"", ""}, {"", "no"}, {"no", "a"}, {"\x00", "\xff"}} {
			lookups(c, k[0], k[1])
		}
		_ = c.Language()
	}
	switch v := v.(type) {
	case *po.File:
		if v.Header == nil || v.Messages == nil {
			note("a file without header or messages")
			break
		}
		_ = v.String()
		v.Header.Get("X")
		for _, k := range []string{"Plural-Forms", "x", ""} {
			v.Header.Get(k)
		}
		for ctx, ms := range v.Messages {
			for id, m := range ms {
				if m == nil || v.GetMessage(ctx, id) != m {
					note("a message that is not there")
				}
				*uses++
			}
		}
		v.GetMessage("no", "no")
		if _, err := po.Marshal(v); err != nil {
			note("cannot be written: %v", err)
		}
		*uses += 3
	case *catalog.GettextCatalog:
		someLookups(v)
		for ctx, ms := range v.Messages() {
			for id, m := range ms {
				m.Translations()
				m.Clone()
				lookups(v, ctx, id)
			}
		}
	case catalog.JSONCatalog:
		someLookups(v)
		for key, m := range v.Messages() {
			m.Clone()
			id := key
			if m.Context != "" {
				id = strings.TrimSuffix(key, "_"+m.Context)
			}
			lookups(v, m.Context, id)
			lookups(v, m.Context, key)
		}
		if err := catalog.NewJSONEncoder(&bytes.Buffer{}).Encode(v); err != nil {
			note("cannot be written: %v", err)
		}
		*uses++
	case *catalog.JSONMessage:
		v.Clone()
		if _, err := json.Marshal(v); err != nil {
			note("cannot be written: %v", err)
		}
		catalog.ApplyPluralCategoriesToJSONMessage(language.Arabic, v)
		*uses++
	case *poplural.Rule:
		for _, n := range rbNumbers {
			if i, err := v.Evaluate(n); err == nil && i < 0 {
				note("form %d for %v", i, n)
			}
			*uses++
		}
		for _, n := range []int64{0, 1, math.MaxInt64} {
			v.FormFunc(n)
		}
	case *plast.Forms:
		if v.Root == nil {
			note("forms without a formula")
			break
		}
		plast.CompileToString(v)
		*uses++
	case *cldrplural.RuleSet:
		for _, n := range rbNumbers {
			if c, err := v.Evaluate(n); err == nil && (c < cldrplural.Zero || c > cldrplural.Other) {
				note("category %d for %v", c, n)
			}
			*uses++
		}
	case *clast.Rule:
		clast.Inspect(v.Root, func(clast.Node) bool { *uses++; return true })
		_ = len(v.Samples)
		*uses++
	default:
		note("not usable: %T", v)
	}
	return bad
}

type rbEntry struct {
	name  string
	parse func(doc []byte) (any, error)
}

var rbEntries = func() map[string][]rbEntry {
	decoder := func(name string, mk func() catalog.Decoder) rbEntry {
		return rbEntry{name, func(doc []byte) (any, error) { return mk().Decode(language.German, "d", doc) }}
	}
	poE := []rbEntry{
		{"po", func(doc []byte) (any, error) { return po.Parse(doc) }},
		{"poplain", func(doc []byte) (any, error) {
			p := po.NewParser()
			p.SetIgnoreComments(true)
			return p.Parse(iotest.HalfReader(bytes.NewReader(doc)))
		}},
		decoder("podec", catalog.NewPoDecoder),
		decoder("pocldr", catalog.NewPoCLDRDecoder),
	}
	moE := []rbEntry{decoder("modec", catalog.NewMoDecoder), decoder("mocldr", catalog.NewMoCLDRDecoder)}
	return map[string][]rbEntry{
		"po": poE, "pochars": poE, "mo": moE, "mobe": moE,
		"js": {
			decoder("jsdec", func() catalog.Decoder { return catalog.NewJSONDecoder() }),
			{"jscat", func(doc []byte) (any, error) {
				c := catalog.NewJSONCatalog(language.Russian, "")
				if err := json.Unmarshal(doc, c); err != nil {
					return nil, err
				}
				return c, nil
			}},
			{"jsmsg", func(doc []byte) (any, error) {
				m := &catalog.JSONMessage{}
				if err := m.UnmarshalJSON(doc); err != nil {
					return nil, err
				}
				return m, nil
			}},
		},
		"pl": {
			{"pl", func(doc []byte) (any, error) { return poplural.Parse(string(doc)) }},
			{"plast", func(doc []byte) (any, error) { return plast.Parse(string(doc)) }},
		},
		"cl": {
			{"cl", func(doc []byte) (any, error) {
				return cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: string(doc)})
			}},
			{"clast", func(doc []byte) (any, error) { return clast.Parse(string(doc)) }},
		},
	}
}()

func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int((b.TotalAlloc - a.TotalAlloc) >> 10)
}

func cpuMillis() int {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return int(u.Utime.Sec*1000 + u.Utime.Usec/1000 + u.Stime.Sec*1000 + u.Stime.Usec/1000)
}

func rbParse(in rbIn) any {
	doc := rbDoc(in.Fmt, in.Toks)
	runs := []rbRun{}
	for _, e := range rbEntries[in.Fmt] {
		r := rbRun{E: e.name}
		var v any
		var err error
		given := bytes.Clone(doc)
		r.KB = allocated(func() { v, err = e.parse(given) })
		r.Val, r.Err = !isNil(v), err != nil
		if err != nil {
			_ = err.Error()
		} else if r.Val {
			r.Bad = use(v, &r.Uses)
		}
		runs = append(runs, r)
	}
	return map[string]any{"len": len(doc), "runs": runs}
}

type growIn struct {
	Fmt  string `json:"fmt"`
	Pre  string `json:"pre"`
	Unit string `json:"unit"`
	Suf  string `json:"suf"`
	N1   int    `json:"n1"`
	N2   int    `json:"n2"`
}

func (in growIn) doc(n int) []byte {
	var unit strings.Builder
	for i := range n {
		unit.WriteString(strings.ReplaceAll(in.Unit, "#", strconv.Itoa(i)))
	}
	if in.Fmt != "mo" {
		if in.Fmt == "po" || in.Fmt == "js" || in.Fmt == "cl" || in.Fmt == "pl" {
			return rbDoc(in.Fmt, []string{in.Pre + unit.String() + in.Suf})
		}
		panic("harness: growth of " + in.Fmt)
	}
	var pairs [][2]string
	switch in.Pre {
	case "<image>":
		for i := range n {
			pairs = append(pairs, [2]string{string(rbText([]string{strings.ReplaceAll(in.Unit, "#", strconv.Itoa(i))}, false)), string(rbText([]string{in.Suf}, false))})
		}
	case "<long>":
		pairs = [][2]string{{unit.String(), unit.String() + in.Suf}}
	case "<head>":
		pairs = [][2]string{{"", string(rbText([]string{unit.String()}, false))}}
	case "<forms>":
		pairs = [][2]string{{"a\x00b", string(rbText([]string{unit.String()}, false))}}
	}
	return moPlain(pairs)
}

// moPlain is a little-endian MO file.
func moPlain(pairs [][2]string) []byte {
	var b, data bytes.Buffer
	word := func(n int) { _ = binary.Write(&b, binary.LittleEndian, uint32(n)) }
	for _, w := range []int{0x950412de, 0, len(pairs), 28, 28 + 8*len(pairs), 0, 28 + 16*len(pairs)} {
		word(w)
	}
	for k := range 2 {
		for _, p := range pairs {
			word(len(p[k]))
			word(28 + 16*len(pairs) + data.Len())
			data.WriteString(p[k] + "\x00")
		}
	}
	return append(b.Bytes(), data.Bytes()...)
}

func rbGrow(in growIn) any {
	runs := []map[string]any{}
	small, large := in.doc(in.N1), in.doc(in.N2)
	entries := rbEntries[in.Fmt]
	if in.N2 < 100000 { // a family that is known to take long
		entries = entries[:1]
	}
	for _, e := range entries {
		var v any
		var err error
		cost := func(doc []byte) (kb, ms int) {
			runtime.GC()
			before := cpuMillis()
			kb = allocated(func() { v, err = e.parse(doc) })
			return kb, cpuMillis() - before
		}
		kb1, ms1 := cost(small)
		kb2, ms2 := cost(large)
		runs = append(runs, map[string]any{"e": e.name, "val": !isNil(v), "err": err != nil, "len1": len(small), "len2": len(large), "kb1": kb1, "kb2": kb2, "ms1": ms1, "ms2": ms2})
	}
	return map[string]any{"runs": runs}
}

// damage changes bytes of a document.
func (g gen) damage(b []byte) []byte {
	b = bytes.Clone(b)
	for k := g.IntN(4); k > 0; k-- {
		i, j := g.IntN(len(b)+1), g.IntN(len(b)+1)
		if i > j {
			i, j = j, i
		}
		switch g.IntN(8) {
		case 0:
			b = b[:j]
		case 1:
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = append(b[:j:j], b[i:]...) // once more
		case 3, 4:
			if i < len(b) {
				b[i] = byte(g.IntN(256))
			}
		case 5:
			if i < len(b) {
				b[i] ^= 1 << g.IntN(8)
			}
		case 6:
			s := pickOf(g.Rand, "\x00", "\xff", "\r", "\r\n", "\n", "\"", "\\", "\\x", "\\777", "#", "#~", "#|", "#,", "msgid", "msgstr[", "]", "[99999999999999999999]", "[-1]", "{", "}", "null", "\ufeff", "\u2028", "99999999999999999999", "@", "..", "~", "…", "c", "?", ":", "(", "%0", "\x04", "\"\"", "nplurals=0;")
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		case 7:
			if i < j && j-i < 200 {
				b = append(b[:j:j], append(bytes.Repeat(b[i:j], 1+g.IntN(20)), b[j:]...)...)
			}
		}
	}
	return b
}

func (g gen) robust() rbIn {
	f := pickOf(g.Rand, "po", "po", "mo", "js", "pl", "cl")
	var doc []byte
	switch f {
	case "po":
		doc = []byte(g.poText())
	case "mo":
		doc = g.moIn().Image.raw()
	case "js":
		d := g.jsDecode()
		r := rand.New(rand.NewPCG(uint64(d.Style), 5))
		doc = []byte(jsBreak(r, d.Fault, jsWrite(r, d.Style, d.Doc)))
	case "pl":
		doc = append([]byte(nil), g.pluralHeader()...)
	case "cl":
		doc = []byte(g.condition())
	}
	doc = g.damage(doc)
	toks := []string{"<reset>"}
	for _, c := range doc { // as bytes
		if c >= 0x20 && c < 0x7f && c != '<' {
			toks[len(toks)-1] += string(rune(c))
		} else {
			toks[len(toks)-1] += fmt.Sprintf("<%02x>", c)
		}
	}
	return rbIn{f, toks}
}

// Generate has TLC enumerate calls; what they should do is said by a trace specification.
func (c *Ctx) Generate(t TLC, minCases int) []Case {
	file := filepath.Join(c.work, t.Module+strconv.Itoa(len(c.specs))+".cases")
	t.Out = file
	defer os.Remove(file)
	c.tlc(t)
	cases := readCases(file)
	if len(cases) < minCases {
		fail("%s emitted only %d cases (expected at least %d)", t.Module, len(cases), minCases)
	}
	return cases
}

func init() {
	reg("rb.parse", rbParse)
	reg("rb.grow", rbGrow)
	props["P30"] = func(c *Ctx) {
		cases := c.Generate(TLC{Module: "MC_Parsers", Consts: map[string]string{
			"Formats": `{"po", "pochars", "pl", "cl", "js", "mo", "mobe"}`, "Alphabets": "<-MyAlphabets", "Templates": "<-MyTemplates",
			"MaxLen": c.pickS("3", "4"), "MaxMut": "1"}}, 10000)
		if c.thorough() {
			cases = append(cases, c.Generate(TLC{Module: "MC_Parsers", Consts: map[string]string{
				"Formats": `{"pl", "js", "mo"}`, "Alphabets": "<-MyAlphabets", "Templates": "<-MyTemplates", "MaxLen": "1", "MaxMut": "2"}}, 10000)...)
		}
		g := gen{c.rnd}
		for n := c.pick(15000, 300000); n > 0; n-- {
			cases = append(cases, mk("rb.parse", g.robust()))
		}
		c.Backward(TLC{Module: "Trace_Parsers"}, cases)
	}
}
