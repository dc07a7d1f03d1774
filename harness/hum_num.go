package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/vorlif/spreak/humanize"
)

// humN is a number: sign, integer digits, fraction digits.
type humN struct {
	Neg bool   `json:"neg"`
	I   string `json:"i"`
	F   string `json:"f"`
}

func (n humN) text() string {
	s := n.I
	if n.F != "" {
		s += "." + n.F
	}
	if n.Neg {
		s = "-" + s
	}
	return s
}

type humNumber struct {
	Lang  string `json:"lang"`
	What  string `json:"what"`
	N     humN   `json:"n"`
	T     string `json:"t"`
	Style int    `json:"style"`
}

type humNumberOut struct {
	Text string `json:"text"`
	Alts []humN `json:"alts"`
}

type humStringer struct{ s string }

func (s humStringer) String() string { return s.s }

// carrier is a Go value with the given number, nil if there is none of that type.
func (n humN) carrier(t string) any {
	s := n.text()
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	i, errI := strconv.ParseInt(s, 10, 64)
	u, errU := strconv.ParseUint(s, 10, 64)
	fits := func(bits uint) bool { return errI == nil && i>>(bits-1) == i>>63 }
	fitsU := func(bits uint) bool { return errU == nil && (bits == 64 || u>>bits == 0) }
	exact := func(x float64) bool {
		r, ok := new(big.Rat).SetString(s)
		y := new(big.Rat)
		return ok && y.SetFloat64(x) != nil && y.Cmp(r) == 0
	}
	switch {
	case t == "int" && fits(64):
		return int(i)
	case t == "int8" && fits(8):
		return int8(i)
	case t == "int16" && fits(16):
		return int16(i)
	case t == "int32" && fits(32):
		return int32(i)
	case t == "int64" && fits(64):
		return i
	case t == "named int" && fits(64):
		return namedInt(i)
	case t == "duration" && fits(64):
		return humDuration(i)
	case t == "ptr int" && fits(64):
		return &i
	case t == "ptr ptr uint" && fitsU(64):
		p := &u
		return &p
	case t == "uint" && fitsU(64):
		return uint(u)
	case t == "uint8" && fitsU(8):
		return uint8(u)
	case t == "uint16" && fitsU(16):
		return uint16(u)
	case t == "uint32" && fitsU(32):
		return uint32(u)
	case t == "uint64" && fitsU(64):
		return u
	case t == "float32" && exact(float64(float32(f))):
		return float32(f)
	case t == "complex64" && exact(float64(float32(f))):
		return complex(float32(f), 1)
	case t == "float64":
		return f
	case t == "named float" && exact(f):
		return namedFloat(f)
	case t == "ptr float64":
		return &f
	case t == "complex128":
		return complex(f, -2.5)
	case t == "json":
		return json.Number(s)
	case t == "named string":
		return namedStr(s)
	case t == "stringer":
		return humStringer{s}
	case t == "exp str":
		d := n.I + n.F
		sign := ""
		if n.Neg {
			sign = "-"
		}
		return fmt.Sprintf("%s%s.%se%d", sign, d[:1], d[1:]+"0", len(n.I)-1)
	case t == "plus str" && !n.Neg:
		return "+" + s
	case t == "zero str":
		return s + map[bool]string{true: "0", false: ".0"}[n.F != ""]
	case t == "ptr str":
		return &s
	}
	return s
}

type humDuration int32OrMore

type int32OrMore int64

func humNumberCall(h *humanize.Humanizer, what string, v any) string {
	switch what {
	case "comma":
		return h.Intcomma(v)
	case "ap":
		return h.Apnumber(v)
	case "ordinal":
		return h.Ordinal(v)
	case "word":
		return h.Intword(v)
	}
	return h.FilesizeFormat(v)
}

// alts: the number, and what the nearest floating-point number stands for: its shortest digits and all of them.
func (n humN) alts() []humN {
	alts := []humN{n}
	abs := n
	abs.Neg = false
	f, _ := strconv.ParseFloat(abs.text(), 64)
	for _, s := range []string{strconv.FormatFloat(f, 'f', -1, 64), new(big.Rat).SetFloat64(f).FloatString(20)} {
		n := humN{Neg: n.Neg}
		n.I, n.F, _ = strings.Cut(s, ".")
		n.F = strings.TrimRight(n.F, "0")
		if !slices.Contains(alts, n) {
			alts = append(alts, n)
		}
	}
	return alts
}

func (in humNumber) run() any {
	return humNumberOut{Text: humNumberCall(humFor(in.Lang, in.Style), in.What, in.N.carrier(in.T)), Alts: in.N.alts()}
}

// ---- no numbers ----

type humNoNumber struct {
	Lang  string `json:"lang"`
	What  string `json:"what"` // a number's or a time's function
	V     string `json:"v"`
	S     string `json:"s"`
	Style int    `json:"style"`
}

var humNoNumbers = []string{"nil", "str", "str", "struct", "slice", "bytes", "bool", "map", "nan", "inf", "-inf", "nan str", "named", "nilptr", "err", "time", "nilfloat"}

func (in humNoNumber) value() any {
	switch in.V {
	case "nil":
		return nil
	case "struct":
		return struct{ A string }{in.S}
	case "slice":
		return []string{in.S}
	case "bytes":
		return []byte(in.S)
	case "bool":
		return in.Style%2 == 0
	case "map":
		return map[string]int{in.S: 1}
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return float32(math.Inf(-1))
	case "nan str":
		return []string{"NaN", "Inf", "-Inf", "+infinity"}[in.Style%4]
	case "named":
		return namedStr(in.S)
	case "nilptr":
		return (*int)(nil)
	case "nilfloat":
		return (**float64)(nil)
	case "err":
		return fmt.Errorf("%s", in.S)
	case "time":
		return time.Unix(int64(in.Style), 0).UTC()
	}
	return in.S
}

type humNoNumberOut struct {
	Text  string `json:"text"`
	Type  string `json:"type"`
	Value string `json:"value"`
}

func (in humNoNumber) run() any {
	h := humFor(in.Lang, in.Style)
	v := in.value()
	o := humNoNumberOut{}
	if v != nil {
		o.Type, o.Value = fmt.Sprintf("%T", v), fmt.Sprintf("%v", v)
	}
	switch in.What {
	case "day":
		o.Text = h.NaturalDay(v)
	case "time":
		o.Text = h.NaturalTime(v)
	case "since":
		o.Text = h.TimeSince(v)
	case "until":
		o.Text = h.TimeUntil(v)
	case "sinceFrom":
		o.Text = h.TimeSinceFrom(v, time.Unix(int64(in.Style), 0))
	case "untilFrom":
		o.Text = h.TimeUntilFrom(v, time.Unix(int64(in.Style), 0))
	default:
		o.Text = humNumberCall(h, in.What, v)
	}
	return o
}

type humBytes struct {
	Lang string `json:"lang"`
	Len  int    `json:"len"`
}

func (g gen) humDigits(n int) string {
	r := g.Rand
	var b strings.Builder
	for b.Len() < n {
		d := pickOf(r, '0', '0', '9', '9', '5', '4', rune('0'+r.IntN(10)), rune('0'+r.IntN(10)), rune('0'+r.IntN(10)))
		for k := pickOf(r, 1, 1, 1, 2, 3, 6); k > 0 && b.Len() < n; k-- {
			b.WriteRune(d)
		}
	}
	s := strings.TrimLeft(b.String(), "0")
	if s == "" {
		return "0"
	}
	return s
}

func (g gen) humNumber() humNumber {
	r := g.Rand
	in := humNumber{Lang: pickOf(r, "en", "de"), What: pickOf(r, "comma", "ap", "ordinal", "word", "size"), Style: r.IntN(1 << 20)}
	in.N.Neg = r.IntN(3) == 0
	in.N.I = g.humDigits(pickOf(r, 1, 1, 2, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 12, 13, 14, 15))
	around := func(b *big.Int) {
		b.Add(b, big.NewInt(pickOf[int64](r, -1, 0, 0, 1)))
		in.N.I = b.Abs(b).String()
	}
	switch r.IntN(10) {
	case 0:
		around(new(big.Int).Lsh(big.NewInt(1), uint(pickOf(r, 10, 20, 30, 40, 50, 53, 62, 63, 64, r.IntN(65)))))
	case 1:
		around(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(3*r.IntN(36))), nil))
	case 2:
		in.N.I = g.humDigits(16 + r.IntN(95))
	case 3: // in the middle between two tenths of a unit
		b := new(big.Int).Lsh(big.NewInt(int64(1+r.IntN(2000))), uint(10*r.IntN(5)))
		in.N.I = b.Div(b.Mul(b, big.NewInt(1024)), big.NewInt(20)).String()
	}
	if in.What == "word" && len(in.N.I) > 46 && len(in.N.I) <= 100 { // more decillions than a floating-point number has digits
		in.N.I = in.N.I[:46]
	}
	if len(in.N.I) < 15 && r.IntN(2) == 0 {
		in.N.F = g.humDigits(1 + r.IntN(min(8, 15-len(in.N.I))))
		if r.IntN(2) == 0 {
			in.N.F = pickOf(r, "5", "05", "25", "95", "75", "50", "125", "001")
		}
		in.N.F = in.N.F[:min(len(in.N.F), 15-len(in.N.I))]
	}
	in.T = pickOf(r, "int", "int8", "int16", "int32", "int64", "named int", "duration", "ptr int", "ptr ptr uint", "uint", "uint8", "uint16", "uint32", "uint64",
		"float32", "complex64", "float64", "float64", "named float", "ptr float64", "complex128", "json", "named string", "stringer", "str", "exp str", "plus str", "zero str", "ptr str")
	return in
}

func init() {
	reg("hum.number", humNumber.run)
	reg("hum.nonumber", humNoNumber.run)
	reg("hum.numberknown", func(in humNumber) any { return humText{in.run().(humNumberOut).Text} })
	reg("hum.bytes", func(in humBytes) any { return humText{humFor(in.Lang, in.Len).FilesizeFormat(make([]byte, in.Len))} })
	props["P28"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_Numbers", Consts: map[string]string{"Size": c.pickS(`"small"`, `"big"`)}}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for n := c.pick(24000, 300000); n > 0; n-- {
			cases = append(cases, mk("hum.number", g.humNumber()))
		}
		for n := c.pick(700, 5000); n > 0; n-- {
			in := humNoNumber{Lang: pickOf(c.rnd, "en", "de"), V: pickOf(c.rnd, humNoNumbers...), S: pickOf(c.rnd, "abc", "", "12 ", "1,5", "1.2.3", "--1", "0x", "ü%d", "one", "1e", "5 %s"), Style: c.rnd.IntN(1 << 20),
				What: pickOf(c.rnd, "comma", "ap", "ordinal", "word", "size")}
			switch in.V {
			case "nan", "inf", "-inf", "nan str":
				if in.What == "comma" || in.What == "word" {
					in.What = "ordinal"
				}
			case "bytes":
				if in.What == "size" {
					in.What = "word"
				}
			default:
				in.What = pickOf(c.rnd, in.What, in.What, "day", "time", "since", "until", "sinceFrom", "untilFrom")
				if in.V == "time" {
					in.What = pickOf(c.rnd, "comma", "ap", "ordinal", "word", "size")
				}
			}
			cases = append(cases, mk("hum.nonumber", in))
		}
		for n := c.pick(200, 1000); n > 0; n-- {
			cases = append(cases, mk("hum.bytes", humBytes{pickOf(c.rnd, "en", "de"), pickOf(c.rnd, 0, 1, 2, 1000, 1023, 1024, 1025, 1536, 1<<20-1, 1<<20, c.rnd.IntN(3000), c.rnd.IntN(5_000_000))}))
		}
		c.Backward(TLC{Module: "Trace_Humanize"}, cases)
	}
}
