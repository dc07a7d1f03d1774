package main

import (
	"math"
	"math/rand/v2"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/poplural"
	plast "github.com/vorlif/spreak/catalog/poplural/ast"
)

// numRec describes a Go value that carries a number: its type and its decimal text.
type numRec struct {
	T string `json:"t"`
	S Text   `json:"s"`
}

type (
	namedInt   int64
	namedFloat float64
	namedStr   string
)

func ptr[T any](v T) *T { return &v }

func (r numRec) value() any {
	s := r.S.String()
	i, _ := strconv.ParseInt(s, 10, 64)
	u, _ := strconv.ParseUint(s, 10, 64)
	f, _ := strconv.ParseFloat(s, 64)
	switch r.T {
	case "int":
		return int(i)
	case "int8":
		return int8(i)
	case "int16":
		return int16(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(u)
	case "uint8":
		return uint8(u)
	case "uint16":
		return uint16(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "float32":
		return float32(f)
	case "float64":
		return f
	case "str":
		return s
	case "named string":
		return namedStr(s)
	case "named":
		return namedInt(i)
	case "namedfloat":
		return namedFloat(f)
	case "dur":
		return time.Duration(i)
	case "pint":
		return ptr(int(i))
	case "ppint64":
		return ptr(ptr(i))
	case "puint8":
		return ptr(uint8(u))
	case "pfloat64":
		return ptr(f)
	case "pstr":
		return ptr(s)
	case "nil":
		return nil
	case "nilptr":
		return (*int)(nil)
	case "nilpp":
		return ptr((*string)(nil))
	case "bool":
		return i != 0
	case "struct":
		return struct{ N int }{int(i)}
	case "slice":
		return []int{int(i)}
	}
	panic("unknown type " + r.T)
}

// limits of the integer types, as bits and sign
var intTypes = map[string]int{"int": -63, "int8": -7, "int16": -15, "int32": -31, "int64": -63, "uint": 64, "uint8": 8, "uint16": 16,
	"uint32": 32, "uint64": 64, "named": -63, "dur": -63, "pint": -63, "ppint64": -63, "puint8": 8}

func fits(t string, s string) bool {
	bits := intTypes[t]
	if bits < 0 {
		v, err := strconv.ParseInt(s, 10, 64)
		return err == nil && v >= -1<<-bits && v <= 1<<(-bits)-1
	}
	_, err := strconv.ParseUint(s, 10, bits)
	return err == nil
}

// bigInt is a random integer of any magnitude that a plural rule may meet.
func bigInt(r *rand.Rand) string {
	switch r.IntN(7) {
	case 6:
		return strconv.FormatUint(gen{r}.dictInt(pluralDirs...), 10)
	case 0, 1:
		return strconv.Itoa(r.IntN(25))
	case 2:
		return strconv.Itoa(r.IntN(1200))
	case 3:
		return strconv.Itoa((1+r.IntN(30))*pickOf(r, 1000, 100000, 1000000, 1000000, 10000000, 1000000000, 1000000000000, 1000000000000000, 100000000000000000) + []int{0, 0, 1, 5}[r.IntN(4)])
	case 4:
		return strconv.FormatUint(r.Uint64()>>r.IntN(64), 10)
	default:
		return pickOf(r, "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807",
			"9223372036854775808", "18446744073709551615", "999999", "1000000", "1000001", "10000000", "255", "256", "127", "128")
	}
}

var reDigits = regexp.MustCompile("[0-9]+")

// near is an integer close to one that occurs in the text, or to a multiple of it.
func (g gen) near(text string) numRec {
	consts := reDigits.FindAllString(text, -1)
	if len(consts) == 0 {
		return g.number()
	}
	k, err := strconv.ParseInt(consts[g.IntN(len(consts))], 10, 64)
	if err != nil || k > math.MaxInt64/4 {
		return g.number()
	}
	return numRec{pickOf(g.Rand, "int64", "int64", "str"), textOf(strconv.FormatInt(max(0, k*pickOf[int64](g.Rand, 1, 1, 1, 1, 2, 3)+pickOf[int64](g.Rand, 0, 0, 1, 1, -1, -2, 2, 10, -10)), 10))}
}

// number is a random number in a random representation.
func (g gen) number() numRec {
	neg := pickOf(g.Rand, "", "", "", "-")
	switch g.IntN(8) {
	case 0: // fractions
		s := neg + strconv.Itoa(g.IntN(120)) + "." + pickOf(g.Rand, "0", "5", "50", "25", "75", "00", "125", "10", "1", "49", "51")
		t := pickOf(g.Rand, "float64", "str", "str", "pfloat64", "namedfloat", "pstr")
		if t != "str" && t != "pstr" {
			f, _ := strconv.ParseFloat(s, 64)
			s = strconv.FormatFloat(f, 'f', -1, 64)
		}
		return numRec{t, textOf(s)}
	case 1: // whole floats
		s := neg + strconv.FormatUint(g.Uint64()>>(11+g.IntN(53)), 10)
		return numRec{pickOf(g.Rand, "float64", "pfloat64", "namedfloat"), textOf(s)}
	case 2:
		return numRec{"float32", textOf(neg + strconv.Itoa(g.IntN(1<<g.IntN(24))))}
	case 3:
		return numRec{pickOf(g.Rand, "str", "str", "pstr"), textOf(neg + bigInt(g.Rand))}
	default:
		for {
			s := neg + bigInt(g.Rand)
			t := pickOf(g.Rand, "int", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "named", "dur", "pint", "ppint64", "puint8")
			if fits(t, s) {
				return numRec{t, textOf(s)}
			}
		}
	}
}

// oddNumber is also something that is not a number, or in unusual syntax.
func (g gen) oddNumber() numRec {
	switch g.IntN(10) {
	case 0:
		return numRec{pickOf(g.Rand, "nil", "nilptr", "nilpp", "bool", "struct", "slice"), textOf("1")}
	case 1:
		return numRec{pickOf(g.Rand, "str", "pstr"), textOf(pickOf(g.Rand, "", "abc", "1 2", " 1", "1,5", "--1", "1.2.3", "NaN", "Inf", "-Inf", "one", "+", ".", "1c3", "e5", "5e", "0x", "٣", "½"))}
	case 2:
		return numRec{"str", textOf(pickOf(g.Rand, "1e3", "2e6", "15e-1", "25E-1", "+7", ".5", "5.", "007", "1e0", "-0", "0.50", "1.5e1", "1234567e-3"))}
	}
	return g.number()
}

type plIn struct {
	Text Text     `json:"text"`
	Nums []numRec `json:"nums"`
}

func digitsOf(n int) Bytes {
	s := strconv.Itoa(n)
	out := Bytes{}
	for i := range s {
		out = append(out, int(s[i])-'0')
	}
	return out
}

func formOut(n int, err error) any {
	if err != nil {
		return map[string]any{"e": true}
	}
	return map[string]any{"v": digitsOf(n)}
}

func init() {
	reg("pl.parse", func(in plIn) any {
		rule, err := poplural.Parse(in.Text.String())
		if (rule == nil) == (err == nil) {
			return "neither or both of rule and error"
		}
		if err != nil {
			return errOut{true}
		}
		vals := each(len(in.Nums), func(i int) any { return formOut(rule.Evaluate(in.Nums[i].value())) })
		out := map[string]any{"err": false, "np": digitsOf(rule.NPlurals), "vals": vals}
		if len(in.Text) > 2000 {
			return out
		}
		forms, err := plast.Parse(in.Text.String()) // its text means the same
		if err != nil {
			return "a rule from a formula that has an error"
		}
		text := plast.CompileToString(forms)
		again, err := poplural.Parse(text)
		if err != nil || again.NPlurals != rule.NPlurals {
			return "another rule: " + text
		}
		if !reflect.DeepEqual(each(len(in.Nums), func(i int) any { return formOut(again.Evaluate(in.Nums[i].value())) }), vals) {
			return "another value: " + text
		}
		return out
	})
	props["P14"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_PluralForms", Consts: map[string]string{"Ops": "1", "Wide": "TRUE"}}, 200)
		c.Forward(TLC{Module: "MC_PluralForms", Consts: map[string]string{"Ops": "2", "Wide": "FALSE"}}, 5000)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(25000, 200000); i++ {
			in := plIn{Text: textOf(g.pluralHeader())}
			for k := 0; k < 6; k++ {
				if g.IntN(3) == 0 {
					in.Nums = append(in.Nums, g.near(in.Text.String()))
				} else {
					in.Nums = append(in.Nums, g.oddNumber())
				}
			}
			cases = append(cases, Case{Op: "pl.parse", In: mustJSON(in)})
		}
		c.Backward(TLC{Module: "Trace_PluralForms"}, cases)
	}
}

// knownFormulas are formulas in use.
var knownFormulas = []string{
	"0", "n != 1", "n > 1", "n>1", "n==1 ? 0 : 1", "n%10!=1 || n%100==11", "n != 0", "n==0 || n==1 ? 0 : 1",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100>=3 && n%100<=4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 && n%100<=99 ? 4 : 5",
	"n == 0 ? 0 : n == 1 ? 1 : 2", "n == 0 ? 0 : (n == 0 || n == 1) && n != 0 ? 1 : 2",
	"n == 1 ? 0 : n != 0 && n % 1000000 == 0 ? 1 : 2", "(n == 0 || n == 1) ? 0 : n != 0 && n % 1000000 == 0 ? 1 : 2",
	"n != 1 && n != 2 && n != 3 && (n % 10 == 4 || n % 10 == 6 || n % 10 == 9)",
	"n == 1 || n == 2 || n == 3 || n % 10 != 4 && n % 10 != 6 && n % 10 != 9",
	"n >= 2 && (n < 11 || n > 99)", "n <= 1 || n >= 11 && n <= 99", "n % 10 == 1 && n % 100 != 11",
	"n % 10 == 0 || n % 100 >= 11 && n % 100 <= 19 ? 0 : n % 10 == 1 && n % 100 != 11 ? 1 : 2",
	"n % 10 == 1 && (n % 100 < 11 || n % 100 > 19) ? 0 : n % 10 >= 2 && n % 10 <= 9 && (n % 100 < 11 || n % 100 > 19) ? 1 : 2",
	"n == 1 ? 0 : n == 0 || n != 1 && n % 100 >= 1 && n % 100 <= 19 ? 1 : 2",
	"n == 0 || n == 1 ? 0 : n >= 2 && n <= 10 ? 1 : 2", "n == 1 || n == 11 ? 0 : n == 2 || n == 12 ? 1 : n >= 3 && n <= 10 || n >= 13 && n <= 19 ? 2 : 3",
	"n % 10 == 1 ? 0 : n % 10 == 2 ? 1 : n % 100 == 0 || n % 100 == 20 || n % 100 == 40 || n % 100 == 60 || n % 100 == 80 ? 2 : 3",
	"n == 1 ? 0 : n == 2 ? 1 : n >= 3 && n <= 6 ? 2 : n >= 7 && n <= 10 ? 3 : 4",
	"n == 1 ? 0 : n == 2 ? 1 : n == 0 || n % 100 >= 3 && n % 100 <= 10 ? 2 : n % 100 >= 11 && n % 100 <= 19 ? 3 : 4",
	"n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 3 : n == 6 ? 4 : 5",
	"n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91 ? 0 : n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92 ? 1 : (n % 10 == 3 || n % 10 == 4 || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99) ? 2 : n != 0 && n % 1000000 == 0 ? 3 : 4",
}

// expr is a random formula of the given size, with more or fewer brackets than needed.
func (g gen) expr(size int) string {
	if size <= 0 {
		return pickOf(g.Rand, "n", "n", "n", "n", "0", "1", "2", "3", "10", "100", strconv.Itoa(g.IntN(30)), "1000000", bigInt(g.Rand))
	}
	sp := pickOf(g.Rand, "", " ", " ", "  ")
	br := func(s string) string {
		if g.IntN(3) > 0 {
			return "(" + s + ")"
		}
		return s
	}
	if g.IntN(5) == 0 {
		a, b := g.IntN(size), g.IntN(size)
		return br(g.expr(a)) + sp + "?" + sp + br(g.expr(b)) + sp + ":" + sp + br(g.expr(max(0, size-1-a-b)))
	}
	a := g.IntN(size)
	return br(g.expr(a)) + sp + pickOf(g.Rand, "||", "&&", "==", "!=", "<", ">", "<=", ">=", "%", "%", "&&", "||", "==") + sp + br(g.expr(size-1-a))
}

// pluralHeader is a random header: known formulas with other brackets, random formulas, and mutations.
func (g gen) pluralHeader() string {
	f := ""
	np := strconv.Itoa(1 + g.IntN(6))
	switch g.IntN(8) {
	case 0:
		// one comparison, on either side
		op := pickOf(g.Rand, "==", "!=", "<", ">", "<=", ">=", "%")
		c := bigInt(g.Rand)
		f = pickOf(g.Rand, "n "+op+" "+c, c+" "+op+" n", "n "+op+" "+c+" ? 1 : 2", "n % "+bigInt(g.Rand)+" "+op+" "+c, c+" "+op+" n ? n : 0")
	case 1, 2, 3:
		f = knownFormulas[g.IntN(len(knownFormulas))]
		if g.IntN(3) == 0 {
			f = g.rebracket(f)
		}
		if g.IntN(3) == 0 {
			f = strings.ReplaceAll(f, " ", "")
		}
	default:
		f = g.expr(g.IntN(9))
	}
	h := "nplurals=" + np + ";" + pickOf(g.Rand, "", " ") + "plural=" + pickOf(g.Rand, "", " ") + f + ";"
	if g.IntN(5) == 0 {
		h = g.mutate(h)
	}
	return h
}

// rebracket inserts a bracket pair around a random part between two operands.
func (g gen) rebracket(f string) string {
	var at []int // starts of tokens
	for i := range f {
		if (f[i] == 'n' || f[i] >= '0' && f[i] <= '9') && (i == 0 || f[i-1] < '0' || f[i-1] > '9') {
			at = append(at, i)
		}
	}
	a, b := g.IntN(len(at)), g.IntN(len(at))
	if a > b {
		a, b = b, a
	}
	end := at[b] + 1
	for end < len(f) && f[end] >= '0' && f[end] <= '9' {
		end++
	}
	return f[:at[a]] + "(" + f[at[a]:end] + ")" + f[end:]
}

// mutate changes, removes, inserts or swaps single characters.
func (g gen) mutate(s string) string {
	b := []rune(s)
	for k := 1 + g.IntN(2); k > 0 && len(b) > 1; k-- {
		i := g.IntN(len(b))
		c := []rune(pickOf(g.Rand, "n", "1", "0", "_", "(", ")", "?", ":", ";", "=", "!", "&", "|", "<", ">", "%", " ", "\t", "\r", "\x00", "N", "x", "+", "99999999999999999999", "é", "\n", "-", "plural", "nplurals="))
		switch g.IntN(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = c[0]
		case 2:
			b = append(b[:i], append(c, b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return string(b)
}

type langIn struct {
	Lang string   `json:"lang"`
	Nums []numRec `json:"nums"`
}

type chainRec struct {
	S    string `json:"s"`
	Base string `json:"base"`
}

// chainOf describes a tag and its parents.
func chainOf(tag language.Tag) []chainRec {
	out := []chainRec{}
	for n := tag; !n.IsRoot(); n = n.Parent() {
		r := chainRec{S: n.String()}
		if base, conf := n.Base(); conf >= language.High {
			r.Base = base.String()
		}
		out = append(out, r)
	}
	return out
}

// variantTag is a random language, often a variant of a known one.
func (g gen) variantTag() string {
	base := ruleLangs[g.IntN(len(ruleLangs))]
	switch g.IntN(8) {
	case 0:
		base += pickOf(g.Rand, "-Latn", "-Cyrl", "-Arab", "-Hant", "-Hans")
	case 1, 2:
		base += pickOf(g.Rand, "-US", "-AO", "-MZ", "-419", "-001", "-DE", "-CH", "-ME", "-BR", "-PT", "-CD", "-XX", "-TW", "-MO", "-IN")
	case 3:
		base += pickOf(g.Rand, "-Latn", "-Cyrl", "-Hant", "-Hans") + pickOf(g.Rand, "-US", "-RS", "-TW", "-HK", "-BA", "-DE")
	case 4:
		base += pickOf(g.Rand, "-u-nu-latn", "-x-private", "-1996", "-US-u-co-phonebk")
	}
	return base
}

var ruleLangs = strings.Fields(`bm bo dz id ig ii ja jbo jv jw kde kea km ko lkt lo ms my nqo osa sah ses sg su th to tpi und vi wo yo yue zh zh-Hans zh-Hant
 af an asa ast az bal bem bez bg brx ce cgg chr ckb da de de-AT dv ee el en en-AU eo et eu fi fo fur fy gl gsw ha haw hu ia io jgo jmc ka kaj kcg kk kkj kl
 ks ksb ku ky lb lg lij mas mgo ml mn mr nah nb nd ne nl nl-BE nn nnh no nr ny nyn om or os pap ps rm rof rwk saq sc sd sdh seh sn so sq ss ssy st sv sw
 sw-CD syr ta te teo tig tk tn tr ts ug ur uz ve vo vun wae xh xog yi ak am as bho bn csw doi fa fa-AF ff gu guw hi hi-Latn hy kab kn ln mg nso pa pcm si
 ti wa zu ceb fil tl is mk tzm be bs hr ru sh sr sr-Latn sr-ME uk blo ksh lag ca es es-419 es-MX it lld pt-PT scn vec cs sk fr fr-CA pt pt-BR he iw iu naq
 sat se sma smi smj smn sms lt lv prg pl ro ro-MD mo shi dsb hsb sl gd gv br ga mt ar ar-001 ars cy kw in
 tlh xx-YY la co qaa art und-US und-Cyrl mul aa zza cr hnj`)

func init() {
	eval := func(in langIn) (language.Tag, bool, []any) {
		tag := language.Make(in.Lang)
		f, found := poplural.ForLanguage(tag)
		vals := each(len(in.Nums), func(i int) any { return formOut(f(in.Nums[i].value())) })
		return tag, found, vals
	}
	reg("pl.known", func(in langIn) any {
		_, found, vals := eval(in)
		return map[string]any{"found": found, "vals": vals}
	})
	reg("pl.lang", func(in langIn) any {
		tag, found, vals := eval(in)
		return map[string]any{"found": found, "vals": vals, "chain": chainOf(tag)}
	})
	props["P15"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_PluralTable", Consts: map[string]string{"Upto": c.pickS("1100", "12000")}}, 600)
		g := gen{c.rnd}
		var cases []Case
		for i := 0; i < c.pick(12000, 120000); i++ {
			in := langIn{Lang: g.variantTag()}
			for k := 0; k < 10; k++ {
				in.Nums = append(in.Nums, g.oddNumber())
			}
			cases = append(cases, mk("pl.lang", in))
		}
		c.Backward(TLC{Module: "Trace_PluralTable"}, cases)
	}
}
