package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"golang.org/x/text/number"

	"github.com/vorlif/spreak/humanize"
)

// packTag is the language that the package dir is named after: enAU stands for en-AU.
func packTag(dir string) language.Tag {
	if i := strings.IndexFunc(dir, unicode.IsUpper); i > 0 {
		return language.MustParse(dir[:i] + "-" + dir[i:])
	}
	return language.MustParse(dir)
}

var shippedNames = func() (n []string) {
	for d := range shipped {
		n = append(n, d)
	}
	slices.Sort(n)
	return
}()

var shippedOnce = sync.OnceValue(func() *humanize.Collection {
	var all []humanize.Option
	for _, d := range shippedNames {
		all = append(all, humanize.WithLocale(shipped[d]()))
	}
	return humanize.MustNew(all...)
})

func humShipped(dir string, style int) *humanize.Humanizer {
	c := shippedOnce()
	if style%8 == 3 {
		c = humanize.MustNew(humanize.WithLocale(shipped[dir]()))
	}
	if style%2 == 0 {
		return c.CreateHumanizer(packTag(dir))
	}
	return c.CreateHumanizer(packTag(dir).String())
}

// ---- what a pack is made of ----

type poEntry struct {
	ctx, id, plural string
	strs            []string
}

// packEntries reads a catalog, without what is fuzzy or obsolete.
func packEntries(text string) (out []poEntry, err error) {
	var e poEntry
	var at *string
	fuzzy, filled := false, false
	flush := func() {
		if filled && !fuzzy {
			out = append(out, e)
		}
		e, at, filled = poEntry{}, nil, false
	}
	for n, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case line == "":
			continue
		case strings.HasPrefix(line, "#"):
			if filled {
				flush()
				fuzzy = false
			}
			if strings.HasPrefix(line, "#,") && strings.Contains(line, "fuzzy") {
				fuzzy = true
			}
			continue
		}
		if line[0] != '"' {
			word, rest, ok := strings.Cut(line, " ")
			if !ok {
				return nil, fmt.Errorf("line %d: %q", n+1, line)
			}
			line = strings.TrimSpace(rest)
			if filled && (word == "msgctxt" || word == "msgid") {
				flush()
				fuzzy = false
			}
			switch {
			case word == "msgctxt":
				at = &e.ctx
			case word == "msgid":
				at = &e.id
			case word == "msgid_plural":
				at = &e.plural
			case strings.HasPrefix(word, "msgstr"):
				filled = true
				e.strs = append(e.strs, "")
				at = &e.strs[len(e.strs)-1]
			default:
				return nil, fmt.Errorf("line %d: %q", n+1, line)
			}
		}
		s, err := strconv.Unquote(line)
		if err != nil || at == nil {
			return nil, fmt.Errorf("line %d: %q", n+1, line)
		}
		*at += s
	}
	flush()
	return out, nil
}

type packIn struct {
	Dir  string   `json:"dir"`
	Nums []string `json:"nums"` // 12, -12.5; 12.5! with exactly one digit after the point
}

type packPlural struct {
	Key  string `json:"key"`
	Many string `json:"many"`
}

type packFacts struct {
	Lang     string              `json:"lang"`
	Dir      string              `json:"dir"`
	Tag      string              `json:"tag"`
	Header   string              `json:"header"`
	Plural   []int               `json:"plural"`
	Texts    map[string][]string `json:"texts"`
	Plurals  []packPlural        `json:"plurals"`
	Formats  map[string]string   `json:"formats"`
	Capitals []string            `json:"capitals"`
	Nums     map[string]string   `json:"nums"`
}

var months3 = strings.Fields("jan feb mar apr may jun jul aug sep oct nov dec")

func (in packIn) facts() any {
	d := shipped[in.Dir]()
	o := packFacts{Lang: "pack:" + in.Dir, Dir: in.Dir, Tag: d.Lang.String(), Texts: map[string][]string{}, Plurals: []packPlural{}, Nums: map[string]string{}, Formats: map[string]string{}}
	b, err := fs.ReadFile(d.Fs, "django.po")
	if err != nil {
		return err.Error()
	}
	entries, err := packEntries(string(b))
	if err != nil {
		return err.Error()
	}
	for _, e := range entries {
		if e.id == "" && e.ctx == "" {
			for _, l := range strings.Split(e.strs[0], "\n") {
				k, v, _ := strings.Cut(l, ":")
				switch v = strings.TrimSpace(v); k {
				case "Language":
					o.Header = v
				case "Plural-Forms":
					for _, c := range v {
						o.Plural = append(o.Plural, int(c))
					}
				}
			}
			continue
		}
		key := e.ctx + "|" + e.id
		if _, twice := o.Texts[key]; twice {
			return "twice in the catalog: " + key
		}
		o.Texts[key] = e.strs
		if e.plural != "" {
			o.Plurals = append(o.Plurals, packPlural{key, e.plural})
		}
	}
	if len(o.Plural) == 0 || len(o.Plurals) == 0 {
		return "a catalog without plural forms"
	}
	var f humanize.FormatData
	if d.Format != nil {
		f = *d.Format
	}
	o.Formats["DATE_FORMAT"] = f.DateFormat
	o.Formats["TIME_FORMAT"] = f.TimeFormat
	o.Formats["DATETIME_FORMAT"] = f.DateTimeFormat
	o.Formats["YEAR_MONTH_FORMAT"] = f.YearMonthFormat
	o.Formats["MONTH_DAY_FORMAT"] = f.MonthDayFormat
	o.Formats["SHORT_DATE_FORMAT"] = f.ShortDateFormat
	o.Formats["SHORT_DATETIME_FORMAT"] = f.ShortDatetimeFormat
	for _, m := range months3 {
		t := ""
		if s := o.Texts["|"+m]; len(s) > 0 && s[0] != "" {
			r := []rune(s[0])
			t = string(unicode.ToUpper(r[0])) + string(r[1:])
		}
		o.Capitals = append(o.Capitals, t)
	}
	p := message.NewPrinter(packTag(in.Dir))
	for _, n := range in.Nums {
		s, fixed := strings.CutSuffix(n, "!")
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return err.Error()
		}
		i, err := strconv.ParseInt(s, 10, 64)
		switch {
		case fixed:
			o.Nums[n] = p.Sprintf("%.1f", v)
		case err == nil:
			o.Nums[n] = p.Sprintf("%d", i)
		default:
			_, frac, _ := strings.Cut(s, ".")
			o.Nums[n] = p.Sprint(number.Decimal(v, number.MaxFractionDigits(len(frac))))
		}
	}
	return o
}

// packsFile writes the facts of all packs, for the calls given; packs without facts are reported and left out.
func packsFile(c *Ctx, cases []Case) (string, map[string]bool) {
	need := map[string]map[string]bool{}
	for _, d := range shippedNames {
		need[d] = map[string]bool{}
		for i := 0; i <= 200; i++ {
			need[d][strconv.Itoa(i)] = true
		}
	}
	for _, cs := range cases {
		if cs.Op == "hum.number" {
			var in humNumber
			if err := json.Unmarshal(cs.In, &in); err != nil {
				fail("%v", err)
			}
			for _, k := range in.numbers() {
				need[in.Lang[5:]][k] = true
			}
		}
	}
	var facts []Case
	for i, d := range shippedNames {
		var nums []string
		for k := range need[d] {
			nums = append(nums, k)
		}
		slices.Sort(nums)
		cs := mk("pack.facts", packIn{d, nums})
		cs.ID = i + 1
		facts = append(facts, cs)
	}
	name := filepath.Join(c.work, "packs")
	f, err := os.Create(name)
	if err != nil {
		fail("%v", err)
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	good := map[string]bool{}
	for i, r := range c.Execute(facts) {
		if r.St != "ok" || r.V[0] == '"' {
			facts[i].In = mustJSON(packIn{Dir: shippedNames[i]})
			c.violate("Shipped", facts[i], r, []json.RawMessage{json.RawMessage(`"a language pack with a catalog"`)})
			continue
		}
		good[shippedNames[i]] = true
		w.Write(r.V)
		w.WriteByte('\n')
	}
	return name, good
}

// numbers: the numbers whose texts may be needed.
func (in humNumber) numbers() (out []string) {
	sign := ""
	if in.N.Neg {
		sign = "-"
	}
	near := func(v *big.Rat, digits int, sign, tail string) { // v rounded down and up
		scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)
		x := new(big.Int).Quo(new(big.Int).Mul(v.Num(), scale), v.Denom())
		for range 2 {
			s := new(big.Rat).SetFrac(x, scale).FloatString(digits)
			if tail == "" && digits > 0 {
				s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
			}
			out = append(out, sign+s+tail)
			x = new(big.Int).Add(x, big.NewInt(1))
		}
	}
	for _, n := range in.N.alts() {
		n.Neg = false
		v, ok := new(big.Rat).SetString(n.text())
		if !ok {
			fail("number %s", n.text())
		}
		switch in.What {
		case "comma":
			near(v, 6, sign, "")
		case "ap", "ordinal":
			near(v, 0, sign, "")
		case "word":
			if len(n.I) <= 6 {
				near(v, 6, sign, "")
				break
			}
			e := min((len(n.I)-1)/3*3, 33)
			near(new(big.Rat).Quo(v, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil))), 1, sign, "!")
		case "size":
			kilo, k := big.NewRat(1024, 1), 0
			v = new(big.Rat).SetInt(new(big.Int).Quo(v.Num(), v.Denom()))
			for ; k < 5 && v.Cmp(kilo) >= 0; k++ {
				v.Quo(v, kilo)
			}
			if k == 0 {
				near(v, 0, "", "")
			} else {
				near(v, 1, "", "")
			}
		}
	}
	return
}

// ---- calls ----

type packLanguage struct {
	Code string `json:"code"`
	Name string `json:"name"`
}

// packLanguages: the languages that the humanizers know by their codes.
func packLanguages(c *Ctx) (out []packLanguage) {
	readLines(filepath.Join(c.root, "specs", "languages.ndjson"), func(l []byte) {
		var x packLanguage
		if err := json.Unmarshal(l, &x); err != nil {
			fail("%v", err)
		}
		out = append(out, x)
	})
	return
}

type humName struct {
	Lang  string `json:"lang"`
	Name  string `json:"name"`
	Code  string `json:"code"` // asked for by its code, unless that is empty
	Style int    `json:"style"`
}

func (in humName) run() any {
	h := humFor(in.Lang, in.Style)
	if in.Code != "" {
		return humText{h.LanguageNameByCode(in.Code)}
	}
	return humText{h.LanguageName(in.Name)}
}

type packClaim struct {
	Lang string `json:"lang"`
	What string `json:"what"`
}

type packClaimOut struct {
	Lang string `json:"lang"`
}

func (g gen) pack() string { return "pack:" + pickOf(g.Rand, shippedNames...) }

func (g gen) shippedCall(known []packLanguage) Case {
	r := g.Rand
	switch r.IntN(10) {
	case 0, 1:
		in := g.elapsedIn(1950, 2009)
		in.Lang = g.pack()
		return mk("hum.elapsed", in)
	case 2:
		in := g.relative()
		in.Lang = g.pack()
		return mk("hum.rel", in)
	case 3, 4, 5:
		in := g.format()
		in.Lang = g.pack()
		in.Fmt = g.humFmt(false, true)
		return mk("hum.format", in)
	case 6:
		x := pickOf(r, known...)
		in := humName{Lang: g.pack(), Style: r.IntN(1 << 20), Code: x.Code}
		switch r.IntN(6) {
		case 0:
			in.Code, in.Name = "", x.Name
		case 1:
			in.Code += "-none"
		}
		return mk("hum.name", in)
	}
	for {
		in := g.humNumber()
		if len(in.N.I) > 46 || len(in.N.F) > 3 || in.N.Neg && in.N.I == "0" {
			continue
		}
		in.Lang = g.pack()
		if in.What == "ap" || in.What == "ordinal" || in.What == "size" && r.IntN(4) == 0 {
			if r.IntN(4) != 0 {
				in.N.I = strconv.Itoa(r.IntN(130))
				in.N.Neg = in.N.Neg && in.N.I != "0"
			}
		}
		return mk("hum.number", in)
	}
}

// tour: every text of a pack.
func (g gen) tour(dir string, known []packLanguage) (out []Case) {
	r := g.Rand
	lang := "pack:" + dir
	style := func() int { return r.IntN(1<<20)&^7 | pickOf(r, 0, 1) }
	counts := func(n int64) (l []int64) {
		for _, x := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 24, 25, 31, 40, 41, 42, 50, 51, 52, 59} {
			if x < n && (x < 6 || r.IntN(2) == 0) {
				l = append(l, x)
			}
		}
		return
	}
	day := func(y, m, d, s int) humInst {
		t := instOf(time.Date(y, time.Month(m), d, 0, 0, s, 0, time.UTC))
		return t
	}
	for i, u := range humUnits[:6] {
		for _, n := range counts([]int64{60, 13, 6, 8, 25, 61}[i]) {
			in := humElapsed{Lang: lang, Depth: 1, Form: pickOf(r, "sinceFrom", "since", "reverse"), Kind: "time", Style: style()}
			if in.D.T = day(2023, 3, 1, 0); i == 0 {
				in.D.T = day(1971, 3, 1, 0)
			}
			in.Now.T = in.D.T.plus(n * u)
			if in.Form == "reverse" {
				in.D.T, in.Now.T = in.Now.T, in.D.T
			}
			out = append(out, mk("hum.elapsed", in))
		}
	}
	for i, u := range humUnits {
		for _, n := range counts([]int64{6, 13, 5, 8, 25, 61, 61}[i]) {
			in := humRelIn{Lang: lang, What: "time", Kind: pickOf(r, "time", "duration"), Style: style(), Zone: g.zone(), Secs: n*u + min(u/2, 40), Nanos: 300_000_000}
			if r.IntN(2) == 0 {
				in.Secs, in.Nanos = -in.Secs, -in.Nanos
			}
			out = append(out, mk("hum.rel", in))
		}
	}
	for d := -1; d <= 1; d++ {
		out = append(out, mk("hum.rel", humRelIn{Lang: lang, What: "day", Kind: "time", Style: style(), Zone: g.zone(), On: true, Days: d, Secs: 43200}))
	}
	out = append(out, mk("hum.rel", humRelIn{Lang: lang, What: "time", Kind: "time", Style: style(), Zone: g.zone()}))
	format := func(t humInst, f string) {
		out = append(out, mk("hum.format", humFormat{Lang: lang, T: t, Name: "UTC", Fmt: f, Style: style()}))
	}
	for m := 1; m <= 12; m++ {
		format(day(2024, m, 1+r.IntN(28), r.IntN(86400)), "F E N b M")
	}
	for d := 1; d <= 7; d++ {
		format(day(2024, 1+r.IntN(12), d, r.IntN(86400)), "l D")
	}
	for _, s := range []int{0, 60, 43200, 43260, 46800} {
		format(day(2024, 3, 5, s), "P a A f")
	}
	for _, f := range []string{"DATE_FORMAT", "TIME_FORMAT", "DATETIME_FORMAT", "YEAR_MONTH_FORMAT", "MONTH_DAY_FORMAT", "SHORT_DATE_FORMAT", "SHORT_DATETIME_FORMAT"} {
		format(day(2024, 1+r.IntN(12), 1+r.IntN(28), r.IntN(86400)), f)
		format(day(1990+r.IntN(40), 1+r.IntN(12), 1+r.IntN(28), pickOf(r, 0, 43200, 3600*r.IntN(24))), f)
	}
	num := func(what, i, f string) {
		out = append(out, mk("hum.number", humNumber{Lang: lang, What: what, N: humN{I: i, F: f}, T: pickOf(r, "int", "str", "float64"), Style: style()}))
	}
	for i := 0; i <= 24; i++ {
		num("ordinal", strconv.Itoa(i), "")
	}
	for i := 0; i <= 10; i++ {
		num("ap", strconv.Itoa(i), "")
		num("ordinal", strconv.Itoa(100+r.IntN(900)), "")
		num("comma", g.humDigits(4+r.IntN(10)), pickOf(r, "", "5", "25"))
	}
	for e := 6; e <= 33; e += 3 {
		num("word", "1"+strings.Repeat("0", e), "")
		num("word", pickOf(r, "2", "12", "3", "105")+pickOf(r, "0", "5")+strings.Repeat("0", e-1), "")
	}
	num("word", "1"+strings.Repeat("0", 100), "")
	for _, n := range append([]int64{0}, counts(60)...) {
		num("size", strconv.FormatInt(n, 10), "")
	}
	for k := uint(1); k <= 5; k++ {
		num("size", strconv.FormatInt((1+r.Int64N(400))<<(10*k)/pickOf[int64](r, 1, 1, 2)+1<<(10*k), 10), "")
	}
	for _, x := range known {
		if r.IntN(4) == 0 {
			out = append(out, mk("hum.name", humName{Lang: lang, Name: x.Name, Style: style()}))
		} else {
			out = append(out, mk("hum.name", humName{Lang: lang, Code: x.Code, Style: style()}))
		}
	}
	return
}

func init() {
	reg("pack.facts", packIn.facts)
	reg("pack.claim", func(in packClaim) any { return packClaimOut{humFor(in.Lang, 1).Language().String()} })
	reg("hum.name", humName.run)
	props["P31"] = func(c *Ctx) {
		file, good := packsFile(c, nil)
		var cases []Case
		for _, d := range shippedNames {
			if good[d] {
				for _, what := range []string{"language", "values", "forms", "formats"} {
					cases = append(cases, mk("pack.claim", packClaim{"pack:" + d, what}))
				}
			}
		}
		c.Backward(TLC{Module: "Trace_Packs", Env: map[string]string{"PACKS": file}}, cases)
	}
	props["P32"] = func(c *Ctx) {
		g := gen{c.rnd}
		var cases []Case
		known := packLanguages(c)
		for range c.pick(1, 10) {
			for _, d := range shippedNames {
				cases = append(cases, g.tour(d, known)...)
			}
		}
		for n := c.pick(12000, 200000); n > 0; n-- {
			cases = append(cases, g.shippedCall(known))
		}
		file, good := packsFile(c, cases)
		cases = slices.DeleteFunc(cases, func(cs Case) bool {
			var in struct{ Lang string }
			_ = json.Unmarshal(cs.In, &in)
			return !good[in.Lang[5:]]
		})
		c.Backward(TLC{Module: "Trace_Shipped", Env: map[string]string{"PACKS": file}}, cases)
	}
}
