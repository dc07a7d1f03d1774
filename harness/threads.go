package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
)

// Concurrent use (P05): goroutines that run freely under the race detector, goroutines that
// run in the order that Threads.tla prescribes, and values handed out (Sharing.tla).

// threads is the number of goroutines among which calls are spread; one, except in workers
// with the race detector.
var threads = func() int {
	n, _ := strconv.Atoi(os.Getenv("VH_THREADS"))
	return max(n, 1)
}()

// each computes f(0) .. f(n-1). With several threads every goroutine computes all of them,
// in an order of its own, and all have to agree.
func each(n int, f func(i int) any) []any {
	out := make([]any, n)
	if threads == 1 {
		for i := range out {
			out[i] = f(i)
		}
		return out
	}
	outs := make([][]any, threads)
	panics := make([]any, threads)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for t := range threads {
		outs[t] = make([]any, n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[t] = recover() }()
			<-start
			for k := range n {
				i := (k + t*n/threads) % n
				if t%2 == 1 {
					i = n - 1 - i
				}
				outs[t][i] = f(i)
			}
		}()
	}
	close(start)
	wg.Wait()
	for t := range threads {
		if panics[t] != nil {
			panic(panics[t])
		}
		for i := range n {
			if !reflect.DeepEqual(outs[0][i], outs[t][i]) {
				panic(fmt.Sprintf("goroutines get different answers: %v and %v", outs[0][i], outs[t][i]))
			}
		}
	}
	return outs[0]
}

// ---- a batch: different calls at the same time ----

type batchIn struct {
	Cases []Case `json:"cases"`
}

func runBatch(in batchIn) any {
	res := make([]Result, len(in.Cases))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, c := range in.Cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = execCase(c)
		}()
	}
	close(start)
	wg.Wait()
	return res
}

// ---- goroutines in a prescribed order ----

// goid is the number of the current goroutine.
func goid() int64 {
	var buf [64]byte
	b := buf[len("goroutine "):runtime.Stack(buf[:], false)]
	n := int64(0)
	for _, d := range b {
		if d < '0' || d > '9' {
			break
		}
		n = 10*n + int64(d-'0')
	}
	return n
}

type gateKeeper struct {
	resume []chan struct{}
	event  chan int // goroutine t waits at a gate, or -1-t: has finished
	ids    sync.Map // goroutine number -> t
}

var gates atomic.Pointer[gateKeeper]

// gate suspends a gated goroutine until it is resumed. It stands wherever the library calls code of its user.
func gate() {
	g := gates.Load()
	if g == nil {
		return
	}
	if t, ok := g.ids.Load(goid()); ok {
		g.event <- t.(int)
		<-g.resume[t.(int)]
	}
}

// gatedCatalog is a catalog of the user's own.
type gatedCatalog struct{ catalog.Catalog }

func (c gatedCatalog) Lookup(ctx, id string) (string, error) {
	gate()
	s, err := c.Catalog.Lookup(ctx, id)
	gate()
	return s, err
}

func (c gatedCatalog) LookupPlural(ctx, id string, n any) (string, error) {
	gate()
	s, err := c.Catalog.LookupPlural(ctx, id, n)
	gate()
	return s, err
}

type stepRange struct {
	Lo int `json:"lo"`
	Hi int `json:"hi"`
}

type threadsIn struct {
	Cfg struct {
		sessionIn
		Ranges []stepRange `json:"ranges"`
	} `json:"cfg"`
	Sched []int `json:"sched"`
}

func runThreads(in threadsIn) any {
	n := len(in.Cfg.Ranges)
	g := &gateKeeper{event: make(chan int)}
	for range n {
		g.resume = append(g.resume, make(chan struct{}))
	}
	gates.Store(g)
	defer gates.Store(nil)
	rec := &recorder{}
	var m *testMatcher
	var pr *tagPrinter
	bundle, err := spreak.NewBundle(bundleOptions(in.Cfg.sessionIn, rec, &m, &pr)...)
	out := sessionOut{Outs: []stepOut{}}
	out.New = describeNew(bundle, err, rec, m, pr)
	if err != nil {
		return out
	}
	shared := map[string]*spreak.KeyLocalizer{}
	for _, s := range in.Cfg.Steps {
		if in.Cfg.Shared {
			if key := string(mustJSON(s.Req)); shared[key] == nil {
				shared[key] = newLocalizer(bundle, s)
			}
		}
	}
	outs := make([]stepOut, len(in.Cfg.Steps))
	problem := make([]any, n)
	for t, r := range in.Cfg.Ranges {
		go func() {
			defer func() { problem[t] = recover(); g.event <- -1 - t }()
			g.ids.Store(goid(), t)
			<-g.resume[t]
			for i := r.Lo - 1; i < r.Hi; i++ {
				s := in.Cfg.Steps[i]
				kl := shared[string(mustJSON(s.Req))]
				if kl == nil {
					kl = newLocalizer(bundle, s)
				}
				outs[i] = runStep(bundle, kl, s, in.Cfg.sessionIn)
				outs[i].CB = rec.take()
			}
		}()
	}
	const (
		waiting = iota
		running
		finished
	)
	state := make([]int, n)
	left := n
	note := func(e int) int {
		if e < 0 {
			e = -1 - e
			state[e] = finished
			left--
		} else {
			state[e] = waiting
		}
		return e
	}
	// step lets t run to its next gate. A goroutine that does not get there (because another
	// one holds a lock, say) is left alone.
	step := func(t int) {
		if state[t] != waiting {
			return
		}
		g.resume[t] <- struct{}{}
		state[t] = running
		limit := time.After(200 * time.Millisecond)
		for state[t] == running {
			select {
			case e := <-g.event:
				note(e)
			case <-limit:
				return
			}
		}
	}
	for _, t := range in.Sched {
		step(t - 1)
	}
	for left > 0 {
		idle := true
		for t := range n {
			if state[t] == waiting {
				idle = false
				step(t)
			}
		}
		if idle && left > 0 {
			select {
			case e := <-g.event:
				note(e)
			case <-time.After(10 * time.Second):
				return "the goroutines wait for each other"
			}
		}
	}
	for _, p := range problem {
		if p != nil {
			panic(p)
		}
	}
	out.Outs = outs
	return out
}

// ---- values handed out ----

type shareRow struct {
	C string `json:"c"`
	M string `json:"m"`
	I int    `json:"i"`
	T string `json:"t"`
}

type shareStep struct {
	K   string `json:"k"`
	A   int    `json:"a"`
	How string `json:"how"`
}

type shareIn struct {
	Gettext []shareRow  `json:"gettext"`
	JSON    []shareRow  `json:"json"`
	Steps   []shareStep `json:"steps"`
}

type shareVal struct {
	Rows []shareRow `json:"rows_set"`
}

func rowsOf(v any) []shareRow {
	rows := []shareRow{}
	switch v := v.(type) {
	case []string:
		for _, s := range v {
			rows = append(rows, shareRow{M: s})
		}
	case []language.Tag:
		for _, t := range v {
			s := t.String()
			if t == language.Zulu {
				s = "!"
			}
			rows = append(rows, shareRow{M: s})
		}
	case catalog.PoLookupMap:
		for c, ms := range v {
			for id, m := range ms {
				for i, t := range m.Translations() {
					rows = append(rows, shareRow{c, id, i, t})
				}
			}
		}
	case catalog.JSONMessages:
		for id, m := range v {
			for i, t := range m.Translations {
				if t != "" {
					rows = append(rows, shareRow{m.Context, id, int(i), t})
				}
			}
		}
	case map[int]string:
		for i, t := range v {
			rows = append(rows, shareRow{I: i, T: t})
		}
	case *catalog.JSONMessage:
		for i, t := range v.Translations {
			if t != "" {
				rows = append(rows, shareRow{I: int(i), T: t})
			}
		}
	}
	sort.Slice(rows, func(i, j int) bool { return fmt.Sprint(rows[i]) < fmt.Sprint(rows[j]) })
	return slices.Compact(rows)
}

// spoil changes a value in every way its type allows.
func spoil(v any, how string) any {
	switch v := v.(type) {
	case []string:
		for i := range v {
			v[i] = "!"
		}
		_ = append(v[:0:cap(v)], "!")
	case []language.Tag:
		for i := range v {
			v[i] = language.Zulu
		}
	case catalog.PoLookupMap:
		switch how {
		case "add":
			m, err := catalog.NewPoDecoder().Decode(language.German, "", []byte("msgctxt \"new\"\nmsgid \"new\"\nmsgid_plural \"n\"\nmsgstr[1] \"new\"\n"))
			if err != nil {
				panic("harness: " + err.Error())
			}
			v["new"] = m.(*catalog.GettextCatalog).Messages()["new"]
			for c := range v {
				if c != "new" {
					v[c]["new too"] = &catalog.GettextMessage{}
				}
			}
		default:
			for c, ms := range v {
				for id, m := range ms {
					if t := m.Translations(); t != nil {
						t[0] = "!"
					}
					if how == "change" {
						*m = catalog.GettextMessage{}
					} else {
						delete(ms, id)
					}
				}
				if how == "drop" {
					delete(v, c)
				}
			}
		}
	case catalog.JSONMessages:
		switch how {
		case "add":
			v["new"] = &catalog.JSONMessage{Context: "new", Translations: map[cldrplural.Category]string{1: "new"}}
		case "drop":
			clear(v)
		case "change":
			for _, m := range v {
				for c, t := range m.Translations {
					if t != "" {
						m.Translations[c] = "!"
					}
				}
			}
		}
	case map[int]string:
		switch how {
		case "add":
			v[1] = "new"
		case "drop":
			clear(v)
		case "change":
			for i := range v {
				v[i] = "!"
			}
		}
	case *catalog.JSONMessage:
		switch how {
		case "add":
			v.Translations[1] = "new"
		case "drop":
			clear(v.Translations)
		case "change":
			for i := range v.Translations {
				if v.Translations[i] != "" {
					v.Translations[i] = "!"
				}
			}
		}
	}
	return v
}

func shareCatalogs(in shareIn) (*catalog.GettextCatalog, catalog.JSONCatalog) {
	po := "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n"
	ids := map[[2]string]map[int]string{}
	var keys [][2]string
	for _, r := range in.Gettext {
		k := [2]string{r.C, r.M}
		if ids[k] == nil {
			ids[k] = map[int]string{}
			keys = append(keys, k)
		}
		ids[k][r.I] = r.T
	}
	for _, k := range keys {
		po += "\n"
		if k[0] != "" {
			po += "msgctxt " + poQuote(k[0]) + "\n"
		}
		po += "msgid " + poQuote(k[1]) + "\nmsgid_plural \"p\"\n"
		for i := range 3 {
			if t, ok := ids[k][i]; ok {
				po += fmt.Sprintf("msgstr[%d] %s\n", i, poQuote(t))
			}
		}
	}
	gc, err := catalog.NewPoDecoder().Decode(language.German, "", []byte(po))
	if err != nil {
		panic("harness: " + err.Error())
	}
	js := map[string]*catalog.JSONMessage{}
	for _, r := range in.JSON {
		if js[r.M] == nil {
			js[r.M] = &catalog.JSONMessage{Context: r.C, Translations: map[cldrplural.Category]string{}}
		}
		js[r.M].Translations[cldrplural.Category(r.I)] = r.T
	}
	jc, err := catalog.NewJSONCatalogWithMessages(language.German, "j", js)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, m := range js { // the caller keeps what it passed
		m.Context = "!"
		for c := range m.Translations {
			m.Translations[c] = "!"
		}
	}
	clear(js)
	return gc.(*catalog.GettextCatalog), jc
}

type givenLoader map[string]catalog.Catalog

func (l givenLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if c, ok := l[lang.String()+domain]; ok {
		return c, nil
	}
	return nil, spreak.NewErrNotFound(lang, "x", "%s", domain)
}

func runShare(in shareIn) any {
	gc, jc := shareCatalogs(in)
	gc2, jc2 := shareCatalogs(in)
	loader := givenLoader{"de": gc, "dej": jc, "fr": gc2, "frj": jc2}
	bundle, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithDomainLoader("", loader), spreak.WithDomainLoader("j", loader), spreak.WithLanguage("de", language.French))
	if err != nil {
		panic("harness: " + err.Error())
	}
	l := spreak.NewLocalizer(bundle, "de")
	kl := spreak.NewKeyLocalizerForDomain(bundle, "j", "de")
	take := []func() any{
		func() any { return bundle.SupportedLanguages() },
		func() any { return bundle.Domains() },
		func() any { return l.Domains() },
		func() any { return gc.Messages() },
		func() any { return jc.Messages() },
	}
	vals := []any{nil, nil, nil, nil, nil}
	for _, s := range in.Steps {
		v := vals[min(s.A, len(vals))-1]
		switch s.K {
		case "take":
			vals = append(vals, take[s.A-1]())
		case "derive":
			for _, r := range rowsOf(v) {
				if r.C+"/"+r.M != s.How {
					continue
				}
				switch v := v.(type) {
				case catalog.PoLookupMap:
					vals = append(vals, v[r.C][r.M].Clone().Translations())
				case catalog.JSONMessages:
					vals = append(vals, v[r.M].Clone())
				}
				break
			}
		case "spoil":
			vals[s.A-1] = spoil(v, s.How)
		}
	}
	out := []shareVal{}
	for i, v := range vals {
		if i < 3 {
			v = take[i]()
		}
		switch i {
		default:
			out = append(out, shareVal{rowsOf(v)})
		case 3, 4: // by lookups, through the bundle and directly
			found := []shareRow{}
			base, kinds, get := in.Gettext, 3, func(r shareRow) (string, error) {
				t, err := gc.LookupPlural(r.C, r.M, r.I)
				if err == nil && t != l.NPGet(r.C, r.M, "", r.I) {
					t += " (otherwise by the localizer)"
				}
				return t, err
			}
			if i == 4 {
				base, kinds, get = in.JSON, 6, func(r shareRow) (string, error) {
					key := r.M
					if r.C != "" && len(key) > len(r.C) {
						key = key[:len(key)-len(r.C)-1]
					}
					n := r.I
					if n != 1 && n != 5 { // German has no other categories
						return "", fmt.Errorf("none")
					}
					t, err := jc.LookupPlural(r.C, key, n)
					if err == nil && t != kl.NPGet(r.C, key, n) {
						t += " (otherwise by the localizer)"
					}
					return t, err
				}
			}
			seen := map[shareRow]bool{}
			for _, r := range append(slices.Clone(base), shareRow{"new", "new", 0, ""}, shareRow{"", "new", 0, ""}, shareRow{"", "new too", 0, ""}) {
				for k := range kinds {
					q := shareRow{r.C, r.M, k, ""}
					if seen[q] {
						continue
					}
					seen[q] = true
					if t, err := get(q); err == nil {
						q.T = t
						found = append(found, q)
					}
				}
			}
			if rows := rowsOf(take[i]()); !reflect.DeepEqual(rows, rowsSorted(found)) {
				return fmt.Sprintf("lookups find %v, the accessor has %v", found, rows)
			}
			out = append(out, shareVal{found})
		}
	}
	return map[string]any{"vals": out}
}

func rowsSorted(rows []shareRow) []shareRow {
	sort.Slice(rows, func(i, j int) bool { return fmt.Sprint(rows[i]) < fmt.Sprint(rows[j]) })
	return rows
}

// ---- printing ----

type printIn struct {
	Lang string   `json:"lang"`
	Fs   []string `json:"fs"`
}

var printArgs = []any{1234567, -5, 3.14159, uint8(7), "x", true, 1e21, 'c', []byte("b"), 12345.678, nil, struct{ A int }{4711}}

// runPrint: what a bundle's printer prints for goroutines together and for one alone.
func runPrint(in printIn) any {
	lang := language.MustParse(in.Lang)
	make := func() *spreak.Localizer {
		gc, _ := shareCatalogs(shareIn{Gettext: []shareRow{{"", "m", 0, "x"}}})
		b, err := spreak.NewBundle(spreak.WithSourceLanguage(lang), spreak.WithDomainLoader("", givenLoader{"de": gc, "fr": gc, "hi": gc, "en": gc}), spreak.WithLanguage("de", "fr", "hi"))
		if err != nil {
			panic("harness: " + err.Error())
		}
		return spreak.NewLocalizer(b, in.Lang)
	}
	call := func(l *spreak.Localizer, i int) any {
		f := in.Fs[i]
		k := (i * 7) % len(printArgs)
		if i%2 == 0 {
			return l.Print(f, printArgs[k], printArgs[(k+3)%len(printArgs)])
		}
		return l.Getf(f, printArgs[k], printArgs[(k+3)%len(printArgs)])
	}
	l, alone := make(), make()
	together := each(len(in.Fs), func(i int) any { return call(l, i) })
	out := []any{}
	for i := range in.Fs {
		out = append(out, map[string]any{"together": together[i], "alone": call(alone, i)})
	}
	return out
}

// ---- the check ----

func (c *Ctx) withRace(f func()) {
	if c.racePool == nil {
		c.racePool = newRacePool(6, 60*time.Second, filepath.Join(c.work, "vhrace"))
	}
	p := c.pool
	c.pool = c.racePool
	f()
	c.pool = p
}

// Together executes the cases of several trace specifications at the same time, in batches,
// with the race detector, and has every outcome judged by its specification.
func (c *Ctx) Together(size int, parts map[string][]Case) {
	type slot struct {
		module string
		c      Case
	}
	var modules []string
	for m := range parts {
		modules = append(modules, m)
	}
	sort.Strings(modules)
	var all []slot
	for _, m := range modules {
		for _, cs := range parts[m] {
			all = append(all, slot{m, cs}, slot{m, cs})
		}
	}
	c.rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var batches []Case
	var of [][]slot
	for len(all) > 0 {
		n := min(size, len(all))
		var in batchIn
		for _, s := range all[:n] {
			in.Cases = append(in.Cases, s.c)
		}
		if c.rnd.IntN(2) == 0 { // the same call twice at the same time
			all = append(all, all[0])
			in.Cases = append(in.Cases, in.Cases[0])
			all[len(all)-1], all[n] = all[n], all[len(all)-1]
			n++
		}
		batches, of = append(batches, mk("batch", in)), append(of, all[:n])
		all = all[n:]
	}
	var res []Result
	c.withRace(func() { res = c.pool.run(batches) })
	bad := 0
	cases, results := map[string][]Case{}, map[string][]Result{}
	for i, r := range res {
		var rs []Result
		if r.St == "ok" {
			if err := json.Unmarshal(r.V, &rs); err != nil {
				fail("batch: %v", err)
			}
		} else {
			bad++
			c.violate("Threads", batches[i], r, []json.RawMessage{json.RawMessage(`"the calls return"`)})
			continue
		}
		for j, s := range of[i] {
			s.c.ID = len(cases[s.module]) + 1
			cases[s.module] = append(cases[s.module], s.c)
			results[s.module] = append(results[s.module], rs[j])
		}
	}
	c.log("%d batches of concurrent calls, %d failed", len(batches), bad)
	for _, m := range modules {
		h := m == "Trace_Session" || m == "Trace_HumanStory"
		if len(cases[m]) > 0 {
			c.BackwardResults(TLC{Module: m, Histories: h}, cases[m], results[m])
		}
	}
}

func init() {
	reg("batch", runBatch)
	reg("threads", runThreads)
	reg("share.story", runShare)
	reg("print.race", runPrint)
	props["P05"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_Sharing", Consts: map[string]string{"MaxSteps": c.pickS("4", "5"), "Accessors": "<-World", "HowList": "{}", "HowMap": `{"add", "drop", "change"}`}}, 1000)
		shapes, full := `{"1+1", "2+1"}`, "FALSE"
		if c.thorough() {
			shapes, full = `{"1+1", "2+1", "1+1+1", "3+1"}`, "TRUE"
		}
		c.Forward(TLC{Module: "MC_Threads", Consts: map[string]string{"Shapes": shapes, "Full": full}}, 2000)
		g := gen{c.rnd}
		// goroutines sharing one object
		var cases []Case
		p := defaultProfile()
		p.silent, p.steps = true, 24
		for n := c.pick(600, 6000); n > 0; n-- {
			in := genSession(c.rnd, p)
			in.Par = true
			cases = append(cases, mk("session", in))
		}
		c.withRace(func() { c.Backward(TLC{Module: "Trace_Session", Histories: true}, cases) })
		cases = nil
		for n := c.pick(150, 1500); n > 0; n-- {
			cases = append(cases, mk("print.race", genPrint(c.rnd)))
		}
		c.withRace(func() { c.Backward(TLC{Module: "Trace_Print"}, cases) })
		// different calls, and the same calls on objects of their own
		parts := map[string][]Case{}
		add := func(n int, module, op string, f func() any) {
			for ; n > 0; n-- {
				parts[module] = append(parts[module], mk(op, f()))
			}
		}
		k := c.pick(1, 10)
		add(400*k, "Trace_GettextCatalog", "gc.decode", func() any { return g.gettext(c.rnd.IntN(2) == 0) })
		add(400*k, "Trace_JsonCatalog", "js.decode", func() any { return g.jsDecode() })
		add(300*k, "Trace_PluralTable", "pl.lang", func() any {
			in := langIn{Lang: g.variantTag()}
			for range 10 {
				in.Nums = append(in.Nums, g.oddNumber())
			}
			return in
		})
		add(200*k, "Trace_HumanStory", "hum.storyrec", func() any { return g.humStory() })
		add(600*k, "Trace_Humanize", "hum.number", func() any { return g.humNumber() })
		add(600*k, "Trace_Humanize", "hum.rel", func() any { return g.relative() })
		add(600*k, "Trace_Humanize", "hum.format", func() any { return g.format() })
		add(600*k, "Trace_Humanize", "hum.elapsed", func() any { return g.elapsed() })
		add(100*k, "Trace_Session", "session", func() any {
			in := genSession(c.rnd, p)
			in.Par = c.rnd.IntN(2) == 0
			return in
		})
		c.Together(12, parts)
	}
}

func genPrint(r *rand.Rand) printIn {
	in := printIn{Lang: pickOf(r, "en", "de", "fr", "hi")}
	for n := 4 + r.IntN(12); n > 0; n-- {
		f := pickOf(r, "a ", "", "%% ")
		for k := 1 + r.IntN(2); k > 0; k-- {
			f += "%" + pickOf(r, "", "", "", "+", "#", "-", "0", " ") + pickOf(r, "", "", "", "3", "12") + pickOf(r, "", "", "", ".0", ".1", ".2", ".8") + pickOf(r, "d", "d", "f", "f", "e", "g", "v", "s", "q", "x", "t", "c", "T") + pickOf(r, "", " z")
		}
		in.Fs = append(in.Fs, f)
	}
	return in
}
