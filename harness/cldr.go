package main

import (
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// opsOut describes operands; all numbers are decimal texts.
func opsOut(o *cldrplural.Operands) map[string]any {
	i := func(v int64) Text { return textOf(strconv.FormatInt(v, 10)) }
	return map[string]any{"err": false, "n": textOf(strconv.FormatFloat(o.N, 'f', -1, 64)), "i": i(o.I), "v": i(o.V), "w": i(o.W), "f": i(o.F), "t": i(o.T), "c": i(o.C)}
}

// digits is a random digit sequence, often with zeros at its ends.
func (g gen) digits(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pickOf(g.Rand, "0", "0", "0", "1", "2", "5", "9", strconv.Itoa(g.IntN(10))))
	}
	return b.String()
}

// decimal is a random number with few significant digits, with visible fractions and exponents.
func (g gen) decimal() numRec {
	neg := pickOf(g.Rand, "", "", "", "-")
	switch g.IntN(5) {
	case 0:
		return numRec{pickOf(g.Rand, "str", "pstr", "named string"), textOf(neg + pickOf(g.Rand, "", "1", "3") + g.digits(1+g.IntN(3)) + "." + g.digits(1+g.IntN(8)))}
	case 1:
		s := strconv.Itoa(g.IntN(1300))
		if g.IntN(2) == 0 {
			s += "." + g.digits(1+g.IntN(7))
		}
		return numRec{"str", textOf(neg + s + "c" + strconv.Itoa(g.IntN(8)))}
	case 2:
		k := math.Pow(10, float64(g.IntN(12)))
		f := float64(g.IntN(200000)) / k
		if g.IntN(2) == 0 {
			f = -f
		}
		return numRec{pickOf(g.Rand, "float64", "pfloat64", "namedfloat"), textOf(strconv.FormatFloat(f, 'f', -1, 64))}
	case 3:
		f := float32(g.IntN(70000)) / float32(math.Pow(2, float64(g.IntN(16))))
		return numRec{"float32", textOf(strconv.FormatFloat(float64(f), 'f', -1, 32))}
	}
	for {
		s := neg + bigInt(g.Rand)
		t := pickOf(g.Rand, "int", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "named", "dur", "pint", "ppint64", "puint8", "str")
		if t == "str" || fits(t, s) {
			return numRec{t, textOf(s)}
		}
	}
}

// extreme is a number near the limits of its type or with many digits.
func (g gen) extreme() numRec {
	neg := pickOf(g.Rand, "", "", "-")
	switch g.IntN(6) {
	case 0:
		f := math.Float64frombits(g.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return numRec{pickOf(g.Rand, "float64", "float32", "namedfloat"), textOf(pickOf(g.Rand, "NaN", "Inf", "-Inf"))}
		}
		return numRec{"float64", textOf(strconv.FormatFloat(f, 'f', -1, 64))}
	case 1:
		f := math.Float32frombits(g.Uint32())
		if f != f || math.IsInf(float64(f), 0) {
			f = 1.5
		}
		return numRec{"float32", textOf(strconv.FormatFloat(float64(f), 'f', -1, 32))}
	case 2:
		return numRec{"str", textOf(neg + g.digits(g.IntN(25)) + pickOf(g.Rand, ".", "") + g.digits(g.IntN(25)))}
	case 3:
		return numRec{"str", textOf(neg + g.digits(1+g.IntN(5)) + pickOf(g.Rand, ".", "") + g.digits(g.IntN(25)) + "c" + pickOf(g.Rand, "", "-", "+", "", "") + strconv.Itoa(g.IntN(30)))}
	case 4:
		return numRec{"str", textOf(g.mutate(g.decimal().S.String()))}
	}
	t := pickOf(g.Rand, "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "named", "dur")
	bits := intTypes[t]
	switch {
	case bits == 64:
		return numRec{t, textOf(strconv.FormatUint(math.MaxUint64-g.Uint64N(4)*pickOf(g.Rand, uint64(1), 1<<61), 10))}
	case bits > 0:
		return numRec{t, textOf(strconv.FormatUint(1<<bits-1-g.Uint64N(3), 10))}
	}
	v := int64(math.MinInt64) >> (63 + bits)
	if g.IntN(2) == 0 {
		v = -(v + 1)
	}
	return numRec{t, textOf(strconv.FormatInt(v, 10))}
}

func init() {
	reg("cl.ops", func(in numRec) any {
		o, err := cldrplural.NewOperands(in.value())
		if (o == nil) == (err == nil) {
			return "neither or both of operands and error"
		}
		if err != nil {
			return errOut{true}
		}
		return opsOut(o)
	})
	props["P16"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_CldrOperands", Consts: map[string]string{"MaxLen": c.pickS("5", "6")}}, 20000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(60000, 600000); i++ {
			var n numRec
			switch i % 4 {
			case 0:
				n = g.oddNumber()
			case 1:
				n = g.extreme()
			default:
				n = g.decimal()
			}
			cases = append(cases, mk("cl.ops", n))
		}
		c.Backward(TLC{Module: "Trace_CldrOperands"}, cases)
	}
}

// knownRules are conditions of the CLDR.
var knownRules = []string{
	"e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5",
	"f != 0",
	"i = 0 or n = 1",
	"i = 0,1",
	"i = 0,1 and n != 0",
	"i = 0..1",
	"i = 1 and v = 0",
	"i = 1 and v = 0 or i = 0 and v != 0",
	"i = 2 and v = 0",
	"i = 2..4 and v = 0",
	"n != 0 and n % 1000000 = 0",
	"n != 1 and n % 100 = 1,21,41,61,81",
	"n % 10 = 0 or n % 10 = 5..9 or n % 100 = 11..14",
	"n % 10 = 0 or n % 100 = 11..19 or v = 2 and f % 100 = 11..19",
	"n % 10 = 1 and n % 100 != 11",
	"n % 10 = 1 and n % 100 != 11 or v = 2 and f % 10 = 1 and f % 100 != 11 or v != 2 and f % 10 = 1",
	"n % 10 = 1 and n % 100 != 11,71,91",
	"n % 10 = 1 and n % 100 != 11..19",
	"n % 10 = 2 and n % 100 != 12,72,92",
	"n % 10 = 2..4 and n % 100 != 12..14",
	"n % 10 = 2..9 and n % 100 != 11..19",
	"n % 10 = 3..4,9 and n % 100 != 10..19,70..79,90..99",
	"n % 100 = 11..19",
	"n % 100 = 11..99",
	"n % 100 = 2,22,42,62,82 or n % 1000 = 0 and n % 100000 = 1000..20000,40000,60000,80000 or n != 0 and n % 1000000 = 100000",
	"n % 100 = 3,23,43,63,83",
	"n % 100 = 3..10",
	"n = 0",
	"n = 0 or n % 100 = 3..10",
	"n = 0,1 or i = 0 and f = 1",
	"n = 0..1",
	"n = 0..1 or n = 11..99",
	"n = 1",
	"n = 1 or t != 0 and i = 0,1",
	"n = 1,11",
	"n = 2",
	"n = 2,12",
	"n = 2..10",
	"n = 3",
	"n = 3..10,13..19",
	"n = 3..6",
	"n = 6",
	"n = 7..10",
	"t = 0 and i % 10 = 1 and i % 100 != 11 or t % 10 = 1 and t % 100 != 11",
	"v != 0",
	"v != 0 or n = 0 or n != 1 and n % 100 = 1..19",
	"v = 0 and i != 1 and i % 10 = 0..1 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 12..14",
	"v = 0 and i % 10 = 0 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 11..14",
	"v = 0 and i % 10 = 1",
	"v = 0 and i % 10 = 1 and i % 100 != 11",
	"v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11",
	"v = 0 and i % 10 = 2",
	"v = 0 and i % 10 = 2..4 and i % 100 != 12..14",
	"v = 0 and i % 10 = 2..4 and i % 100 != 12..14 or f % 10 = 2..4 and f % 100 != 12..14",
	"v = 0 and i % 100 = 0,20,40,60,80",
	"v = 0 and i % 100 = 1",
	"v = 0 and i % 100 = 1 or f % 100 = 1",
	"v = 0 and i % 100 = 2",
	"v = 0 and i % 100 = 2 or f % 100 = 2",
	"v = 0 and i % 100 = 3..4 or f % 100 = 3..4",
	"v = 0 and i % 100 = 3..4 or v != 0",
	"v = 0 and i = 1,2,3 or v = 0 and i % 10 != 4,6,9 or v != 0 and f % 10 != 4,6,9",
}

type ruleRec struct {
	C int  `json:"c"`
	S Text `json:"s"`
}

type rulesIn struct {
	Rules []ruleRec `json:"rules"`
	Nums  []numRec  `json:"nums"`
}

func catOut(cat cldrplural.Category, err error) any {
	if err != nil {
		return map[string]any{"e": true}
	}
	return map[string]any{"v": int(cat)}
}

// relation is a random relation of a condition.
func (g gen) relation() string {
	var b strings.Builder
	b.WriteString(pickOf(g.Rand, "n", "n", "i", "i", "v", "w", "f", "t", "c", "e"))
	if g.IntN(2) == 0 {
		b.WriteString(pickOf(g.Rand, " % ", " % ", " mod ") + pickOf(g.Rand, "10", "100", "1000", "1000000", "2", "3", "7", strconv.Itoa(1+g.IntN(20))))
	}
	b.WriteString(pickOf(g.Rand, " = ", " = ", " != "))
	for k := 1 + g.IntN(3)*g.IntN(2); k > 0; k-- {
		from := g.IntN(12) * pickOf(g.Rand, 1, 1, 1, 1, 1, 1, 10, 10, 1000000, 1000000000000)
		b.WriteString(strconv.Itoa(from))
		if g.IntN(3) == 0 {
			b.WriteString(".." + strconv.Itoa(from+1+g.IntN(20)))
		}
		if k > 1 {
			b.WriteString(pickOf(g.Rand, ",", ", ", " , "))
		}
	}
	return b.String()
}

// condition is a random condition: one of the CLDR, random ones, and changed ones.
func (g gen) condition() string {
	s := knownRules[g.IntN(len(knownRules))]
	if g.IntN(2) == 0 {
		s = g.relation()
		for k := g.IntN(5) * g.IntN(2); k > 0; k-- {
			s += pickOf(g.Rand, " and ", " and ", " or ") + g.relation()
		}
	}
	if g.IntN(4) == 0 {
		s += pickOf(g.Rand, " @integer 1", " @integer 0, 2~16, 100, 1000, … @decimal 0.0~1.5, 10.0, …", " @decimal 1.0, 1.00", " @integer 1c6, 2c6, …", "  @integer 3~10, 103~110, 1003 ...", " @decimal 1.1c6")
	}
	switch g.IntN(14) {
	case 0:
		s = strings.ReplaceAll(s, " ", pickOf(g.Rand, "  ", "\t", "\n", "\u00a0"))
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ReplaceAll(s, " ", "")
	case 3:
		s = strings.NewReplacer(" = ", pickOf(g.Rand, " is ", " in ", " within "), " != ", pickOf(g.Rand, " is not ", " not in ", " not within ")).Replace(s)
	case 4:
		s = g.mutateRule(s)
	}
	return s
}

// mutateRule changes, removes, inserts or repeats single words or characters.
func (g gen) mutateRule(s string) string {
	for k := 1 + g.IntN(2); k > 0; k-- {
		w := strings.Split(s, " ")
		i := g.IntN(len(w))
		x := pickOf(g.Rand, "and", "or", "not", "n", "N", "=", "==", "!=", "!", "%", "0", "1", "00", "1..2", "2..1", "0..0", "1...2", "1..", "..2", "1.5", ",", "…", "...", ".", "@integer", "@decimal", "@foo",
			"1~3", "3~1", "1.5~3", "1~99999999999", "9223372036854775808", "99999999999999999999", "9223372036854775807", "-1", "x", "is", "in", "within", "% 0", "(", "é", "")
		switch g.IntN(5) {
		case 0:
			w = append(w[:i], w[i+1:]...)
		case 1:
			w[i] = x
		case 2:
			w = append(w[:i], append([]string{x}, w[i:]...)...)
		case 3:
			w[i] += x
		default:
			w[i] = x + w[i]
		}
		s = strings.Join(w, " ")
	}
	return s
}

func init() {
	reg("cl.rules", func(in rulesIn) any {
		var first any
		for range 4 {
			raw := map[cldrplural.Category]string{}
			for _, r := range in.Rules {
				raw[cldrplural.Category(r.C)] = r.S.String()
			}
			set, err := cldrplural.ParseRules(raw)
			if (set == nil) == (err == nil) {
				return "neither or both of rules and error"
			}
			var out any = errOut{true}
			if err == nil {
				cats := []int{}
				for _, c := range set.Categories {
					cats = append(cats, int(c))
				}
				vals := each(len(in.Nums), func(i int) any {
					n := in.Nums[i]
					v := catOut(set.Evaluate(n.value()))
					for range 3 {
						if w := catOut(set.Evaluate(n.value())); !reflect.DeepEqual(v, w) {
							v = map[string]any{"v": -1}
						}
					}
					return v
				})
				out = map[string]any{"err": false, "cats": cats, "vals": vals}
			}
			if first == nil {
				first = out
			} else if !reflect.DeepEqual(first, out) {
				return map[string]any{"err": false, "cats": []int{-1}, "vals": []any{}}
			}
		}
		return first
	})
	props["P17"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_CldrRules", Consts: map[string]string{"Rels_": c.pickS("2", "3")}}, 150)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(20000, 200000); i++ {
			in := rulesIn{Rules: []ruleRec{}}
			for cat := range 5 {
				if g.IntN(3) == 0 {
					in.Rules = append(in.Rules, ruleRec{cat, textOf(g.condition())})
				}
			}
			if g.IntN(3) > 0 {
				in.Rules = append(in.Rules, ruleRec{5, textOf(pickOf(g.Rand, "@integer 0, 2~16", " @integer 2~17, 100, 1000, … @decimal 0.0~1.5, 10.0, …", "@decimal 0.0", "", " "))})
			}
			if g.IntN(6) == 0 && len(in.Rules) > 0 {
				// a condition of its own for other, or none for another category
				in.Rules[len(in.Rules)-1].S = textOf(pickOf(g.Rand, g.condition(), "", "n != 1"))
			}
			if g.IntN(20) == 0 && len(in.Rules) > 0 {
				in.Rules[0].S = textOf("@integer 1, 2")
			}
			g.Shuffle(len(in.Rules), func(i, j int) { in.Rules[i], in.Rules[j] = in.Rules[j], in.Rules[i] })
			for k := 0; k < 8; k++ {
				switch g.IntN(12) {
				case 0:
					in.Nums = append(in.Nums, g.oddNumber())
				case 1, 2:
					if len(in.Rules) > 0 {
						in.Nums = append(in.Nums, g.near(in.Rules[g.IntN(len(in.Rules))].S.String()))
						break
					}
					fallthrough
				default:
					in.Nums = append(in.Nums, g.decimal())
				}
			}
			cases = append(cases, mk("cl.rules", in))
		}
		c.Backward(TLC{Module: "Trace_CldrRules"}, cases)
	}
}

func init() {
	eval := func(in langIn) (language.Tag, map[string]any) {
		tag := language.Make(in.Lang)
		set, found := cldrplural.ForLanguage(tag)
		cats := []int{}
		for _, c := range set.Categories {
			cats = append(cats, int(c))
		}
		vals := each(len(in.Nums), func(i int) any { return catOut(set.Evaluate(in.Nums[i].value())) })
		return tag, map[string]any{"found": found, "cats": cats, "vals": vals}
	}
	reg("cl.known", func(in langIn) any {
		_, out := eval(in)
		return out
	})
	reg("cl.lang", func(in langIn) any {
		tag, out := eval(in)
		out["chain"] = chainOf(tag)
		return out
	})
	props["P18"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_CldrTable", Consts: map[string]string{"Upto": c.pickS("1100", "12000")}}, 600)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(15000, 150000); i++ {
			in := langIn{Lang: g.variantTag()}
			for k := 0; k < 10; k++ {
				if g.IntN(12) == 0 {
					in.Nums = append(in.Nums, g.oddNumber())
				} else {
					in.Nums = append(in.Nums, g.decimal())
				}
			}
			cases = append(cases, mk("cl.lang", in))
		}
		c.Backward(TLC{Module: "Trace_CldrTable"}, cases)
	}
}
