package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io/fs"
	"slices"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"
)

// The op "session": creating a bundle and using it, as specified by Bundle.tla and Lookup.tla.

type errRec struct {
	K string `json:"k"`
	L string `json:"l"`
	D string `json:"d"`
	C string `json:"c"`
	M string `json:"m"`
	I int    `json:"i"`
}

type langItem struct {
	K string `json:"k"`
	T string `json:"t"`
}

type optRec struct {
	K   string     `json:"k"`
	S   string     `json:"s"`
	Req bool       `json:"req"`
	Ls  []langItem `json:"ls"`
}

type formRec struct {
	I int    `json:"i"`
	T string `json:"t"`
}

type msgRec struct {
	C  string    `json:"c"`
	M  string    `json:"m"`
	Pl bool      `json:"pl,omitempty"` // written with a plural id even if only form 0 exists
	F  []formRec `json:"f"`
}

type catRec struct {
	L    string   `json:"l"`
	D    string   `json:"d"`
	St   string   `json:"st"`
	Kind string   `json:"kind"`
	Rule string   `json:"rule"`
	Msgs []msgRec `json:"msgs"`
}

type reqRec struct {
	K string `json:"k"`
	T string `json:"t"`
	Q []struct {
		T string `json:"t"`
		W int    `json:"w"`
	} `json:"q"`
}

type accRec struct {
	D bool `json:"d"`
	N bool `json:"n"`
	C bool `json:"c"`
	F bool `json:"f"`
}

type valRec struct {
	K string `json:"k"`
	I int    `json:"i"`
	S string `json:"s"`
}

func (v valRec) value() any {
	switch v.K {
	case "int":
		return v.I
	case "str":
		return v.S
	case "nil":
		return nil
	default:
		return "not a number"
	}
}

type stepRec struct {
	K     string   `json:"k"`
	Req   []reqRec `json:"req"`
	HasLD bool     `json:"hasld"`
	LD    string   `json:"ld"`
	Key   bool     `json:"key"`
	A     accRec   `json:"a"`
	D     string   `json:"d"`
	C     string   `json:"c"`
	S     string   `json:"s"`
	P     string   `json:"p"`
	N     valRec   `json:"n"`
	V     []valRec `json:"v"`
	HasD  bool     `json:"hasd"`
}

type sessionIn struct {
	Opts    []optRec  `json:"opts"`
	Cats    []catRec  `json:"cats"`
	Matcher string    `json:"matcher"`
	Steps   []stepRec `json:"steps"`
	Shared  bool      `json:"shared,omitempty"` // reuse one localizer per request
	Par     bool      `json:"par,omitempty"`    // make the steps from several goroutines
	Ans     []ansRec  `json:"ans,omitempty"`
}

type ansRec struct {
	L  string `json:"l"`
	OK bool   `json:"ok"`
}

type newOut struct {
	OK     bool     `json:"ok"`
	Err    errRec   `json:"err"`
	Log    []errRec `json:"log"`
	Langs  []string `json:"langs"`
	Sup    []string `json:"sup_set"`
	Doms   []string `json:"doms_set"`
	Can    bool     `json:"can"`
	PInit  []string `json:"pinit_set"`
	PEarly int      `json:"pearly"`
}

type stepOut struct {
	S    string   `json:"s"`
	E    errRec   `json:"e"`
	CB   []errRec `json:"cb"`
	L    string   `json:"l"`
	H    bool     `json:"h"`
	DD   string   `json:"dd"`
	Same bool     `json:"same"`
	Un   bool     `json:"un"`
	Doms []string `json:"doms_set"`
}

type sessionOut struct {
	New  newOut    `json:"new"`
	Outs []stepOut `json:"outs"`
	Ans  []ansRec  `json:"ans,omitempty"`
}

func classify(err error) errRec {
	if err == nil {
		return errRec{}
	}
	var (
		nf  *spreak.ErrNotFound
		ml  *spreak.ErrMissingLanguage
		md  *spreak.ErrMissingDomain
		mc  *catalog.ErrMissingContext
		mm  *catalog.ErrMissingMessageID
		mt  *catalog.ErrMissingTranslation
		rec errRec
	)
	switch {
	case errors.As(err, &nf):
		rec = errRec{K: "notfound", L: nf.Language.String(), D: nf.Identifier}
	case errors.As(err, &ml):
		rec = errRec{K: "lang", L: ml.Language.String()}
	case errors.As(err, &md):
		rec = errRec{K: "dom", L: md.Language.String(), D: md.Domain}
	case errors.As(err, &mc):
		rec = errRec{K: "ctx", L: mc.Language.String(), D: mc.Domain, C: mc.Context}
	case errors.As(err, &mm):
		rec = errRec{K: "msg", L: mm.Language.String(), D: mm.Domain, C: mm.Context, M: mm.MsgID}
	case errors.As(err, &mt):
		rec = errRec{K: "tr", L: mt.Language.String(), D: mt.Domain, C: mt.Context, M: mt.MsgID, I: mt.Idx}
	default:
		rec = errRec{K: "other"}
	}
	return rec
}

type tableLoader struct {
	cats   []catRec
	domain string
}

func (l *tableLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if domain != l.domain {
		return nil, fmt.Errorf("loader of %q was asked for %q", l.domain, domain)
	}
	for _, c := range l.cats {
		if c.L == lang.String() && c.D == domain {
			if c.St == "broken" {
				return nil, errors.New("broken catalog")
			}
			cat, err := buildCatalog(c)
			if gates.Load() != nil && err == nil {
				return gatedCatalog{cat}, nil
			}
			return cat, err
		}
	}
	return nil, spreak.NewErrNotFound(lang, "file", "%s", domain)
}

var ruleText = map[string]string{
	"ne1":  "nplurals=2; plural=n != 1;",
	"gt1":  "nplurals=2; plural=n > 1;",
	"zero": "nplurals=1; plural=0;",
	"ru":   "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
	"cldr": "",
}

func buildCatalog(c catRec) (catalog.Catalog, error) {
	tag := language.MustParse(c.L)
	switch c.Kind {
	case "json":
		return catalog.NewJSONDecoder().Decode(tag, c.D, writeJSON(c))
	case "mo":
		return catalog.NewMoDecoder().Decode(tag, c.D, writeMO(c))
	default:
		return catalog.NewPoDecoder().Decode(tag, c.D, writePO(c))
	}
}

func header(c catRec) string {
	h := "Language: " + c.L + "\n"
	if r := ruleText[c.Rule]; r != "" {
		h += "Plural-Forms: " + r + "\n"
	}
	return h
}

func poQuote(s string) string {
	r := strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`)
	return `"` + r.Replace(s) + `"`
}

func isPlural(m msgRec) bool {
	if m.Pl {
		return true
	}
	for _, f := range m.F {
		if f.I > 0 {
			return true
		}
	}
	return false
}

func writePO(c catRec) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr %s\n\n", poQuote(header(c)))
	for _, m := range c.Msgs {
		if m.C != "" {
			fmt.Fprintf(&b, "msgctxt %s\n", poQuote(m.C))
		}
		fmt.Fprintf(&b, "msgid %s\n", poQuote(m.M))
		if isPlural(m) {
			fmt.Fprintf(&b, "msgid_plural %s\n", poQuote(m.M+"s"))
			for _, f := range m.F {
				fmt.Fprintf(&b, "msgstr[%d] %s\n", f.I, poQuote(f.T))
			}
			if len(m.F) == 0 {
				b.WriteString("msgstr[0] \"\"\n")
			}
		} else {
			t := ""
			if len(m.F) > 0 {
				t = m.F[0].T
			}
			fmt.Fprintf(&b, "msgstr %s\n", poQuote(t))
		}
		b.WriteString("\n")
	}
	return []byte(b.String())
}

type moEntry struct{ id, str string }

func writeMO(c catRec) []byte {
	entries := []moEntry{{"", header(c)}}
	for _, m := range c.Msgs {
		id := m.M
		if m.C != "" {
			id = m.C + "\x04" + id
		}
		if isPlural(m) {
			id += "\x00" + m.M + "s"
		}
		n := 0
		for _, f := range m.F {
			if f.I+1 > n {
				n = f.I + 1
			}
		}
		if n == 0 {
			n = 1
		}
		forms := make([]string, n)
		for _, f := range m.F {
			forms[f.I] = f.T
		}
		entries = append(entries, moEntry{id, strings.Join(forms, "\x00")})
	}
	sort.SliceStable(entries, func(i, j int) bool { return entries[i].id < entries[j].id })
	return moImage(entries, false)
}

func moImage(entries []moEntry, big bool) []byte {
	put := func(b []byte, v int) []byte {
		if big {
			return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		}
		return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	n := len(entries)
	var out []byte
	out = put(out, int(uint32(0x950412de)))
	out = put(out, 0)
	out = put(out, n)
	out = put(out, 28)
	out = put(out, 28+8*n)
	out = put(out, 0)
	out = put(out, 28+16*n)
	pos := 28 + 16*n
	var data []byte
	for _, e := range entries {
		out = put(out, len(e.id))
		out = put(out, pos+len(data))
		data = append(append(data, e.id...), 0)
	}
	for _, e := range entries {
		out = put(out, len(e.str))
		out = put(out, pos+len(data))
		data = append(append(data, e.str...), 0)
	}
	return append(out, data...)
}

var categoryName = []string{"zero", "one", "two", "few", "many", "other"}

func writeJSON(c catRec) []byte {
	doc := map[string]any{}
	for _, m := range c.Msgs {
		if m.C == "" && len(m.F) == 1 && m.F[0].I == 5 && !m.Pl {
			doc[m.M] = m.F[0].T
			continue
		}
		o := map[string]string{}
		if m.C != "" {
			o["context"] = m.C
		}
		for _, f := range m.F {
			o[categoryName[f.I]] = f.T
		}
		doc[m.M] = o
	}
	return mustJSON(doc)
}

// A printer that shows who was asked to print what.
type tagPrinter struct {
	langs  []language.Tag
	inited bool
	early  int
}

func (p *tagPrinter) Init(l []language.Tag) {
	p.langs, p.inited = append([]language.Tag(nil), l...), true
}

func (p *tagPrinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	if !p.inited {
		p.early++
	}
	l := lang.String()
	return func(s string, vars ...any) string { gate(); return "<" + l + "|" + s + "|" + joinVars(vars) + ">" }
}

func joinVars(vars []any) string {
	parts := make([]string, len(vars))
	for i, v := range vars {
		parts[i] = fmt.Sprint(v)
	}
	return strings.Join(parts, ",")
}

// matchers
type testMatcher struct {
	kind  string
	langs []language.Tag
	inner language.Matcher
}

func (m *testMatcher) Match(tags ...language.Tag) (language.Tag, int, language.Confidence) {
	gate()
	if m.kind == "std" {
		return m.inner.Match(tags...)
	}
	for _, t := range tags {
		for i, l := range m.langs {
			if t == l {
				return l, i, language.Exact
			}
		}
	}
	if len(m.langs) == 0 {
		return language.Und, 0, language.No
	}
	i := len(m.langs) - 1
	if m.kind == "low" && len(tags) > 0 {
		return m.langs[i], i, language.Low
	}
	return m.langs[i], i, language.No
}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

type msgErr struct {
	localize.Message
	dom    string
	hasDom bool
}

// quietErr is a message value without a text of its own.
type quietErr struct{ msgErr }

func (e *quietErr) Error() string { return "" }

func (e *msgErr) Error() string     { return e.Singular }
func (e *msgErr) HasDomain() bool   { gate(); return e.hasDom }
func (e *msgErr) GetDomain() string { gate(); return e.dom }

func langValue(it langItem) any {
	switch it.K {
	case "str":
		return it.T
	case "posix": // with an encoding, a modifier and alternatives, as in LANGUAGE variables
		return " " + strings.ReplaceAll(it.T, "-", "_") + ".UTF-8@euro:xx"
	case "list":
		return it.T + ":xx"
	case "empties":
		return it.T + "::xx.UTF-8"
	case "modifier":
		return it.T + "@euro"
	case "encoding":
		return strings.ReplaceAll(it.T, "-", "_") + ".ISO-8859-1"
	case "swapped":
		return it.T + "@euro.UTF-8:xx@yy"
	case "spaced":
		return "\t" + it.T + " \n"
	case "bad":
		return "d!e"
	case "type":
		return 42
	default:
		return language.MustParse(it.T)
	}
}

func reqValue(r reqRec) any {
	switch r.K {
	case "tag":
		return language.MustParse(r.T)
	case "al":
		var parts []string
		for _, q := range r.Q {
			p := q.T
			if q.W != 10 {
				p += fmt.Sprintf(";q=%.1f", float64(q.W)/10)
			}
			parts = append(parts, p)
		}
		return strings.Join(parts, ", ")
	case "raw":
		return r.T
	case "bad":
		if r.T != "" {
			return r.T
		}
		return "de;q=x"
	default:
		return 3.5
	}
}

// recorder keeps what a callback was told, for each goroutine on its own when they are gated.
type recorder struct {
	mu    sync.Mutex
	lists map[int64][]errRec
}

func (r *recorder) who() int64 {
	if gates.Load() == nil {
		return 0
	}
	return goid()
}

func (r *recorder) add(err error) {
	e := errRec{K: "nil"}
	if err != nil {
		e = classify(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.lists == nil {
		r.lists = map[int64][]errRec{}
	}
	r.lists[r.who()] = append(r.lists[r.who()], e)
}

func (r *recorder) take() []errRec {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.lists[r.who()]
	delete(r.lists, r.who())
	if l == nil {
		l = []errRec{}
	}
	return l
}

type nopLoader struct{}

func bundleOptions(in sessionIn, rec *recorder, m **testMatcher, pr **tagPrinter) []spreak.BundleOption {
	var opts []spreak.BundleOption
	if in.Matcher != "default" {
		opts = append(opts, spreak.WithLanguageMatcherBuilder(func(t []language.Tag, o ...language.MatchOption) language.Matcher {
			*m = &testMatcher{kind: in.Matcher, langs: append([]language.Tag(nil), t...)}
			if in.Matcher == "std" {
				(*m).inner = language.NewMatcher(t, o...)
			}
			return *m
		}))
	}
	for _, o := range in.Opts {
		var values []any
		for _, it := range o.Ls {
			values = append(values, langValue(it))
		}
		switch o.K {
		case "lang":
			if o.Req {
				opts = append(opts, spreak.WithRequiredLanguage(values...))
			} else {
				opts = append(opts, spreak.WithLanguage(values...))
			}
		case "src":
			opts = append(opts, spreak.WithSourceLanguage(language.MustParse(o.Ls[0].T)))
		case "fb":
			opts = append(opts, spreak.WithFallbackLanguage(values[0]))
		case "cb":
			opts = append(opts, spreak.WithMissingTranslationCallback(func(err error) {
				gate()
				rec.add(err)
			}))
		case "nocb":
			opts = append(opts, spreak.WithMissingTranslationCallback(nil))
		case "dom":
			opts = append(opts, spreak.WithDefaultDomain(o.S))
		case "ectx":
			opts = append(opts, spreak.WithErrorContext(o.S))
		case "loader":
			opts = append(opts, spreak.WithDomainLoader(o.S, &tableLoader{cats: in.Cats, domain: o.S}))
		case "printer":
			switch o.S {
			case "tag":
				*pr = &tagPrinter{}
				opts = append(opts, spreak.WithPrinter(*pr))
			case "func":
				opts = append(opts, spreak.WithPrintFunction(func(s string, v ...any) string { return "{" + s + "|" + joinVars(v) + "}" }))
			case "default":
				opts = append(opts, spreak.WithPrinter(spreak.NewDefaultPrinter()))
			}
		case "invalid":
			switch o.S {
			case "nilopt":
				opts = append(opts, nil)
			case "nilprinter":
				opts = append(opts, spreak.WithPrinter(nil))
			case "nilfunc":
				opts = append(opts, spreak.WithPrintFunction(nil))
			case "nilmatcher":
				opts = append(opts, spreak.WithLanguageMatcherBuilder(nil))
			case "nilloader":
				opts = append(opts, spreak.WithDomainLoader("nilloader", nil))
			case "nilfs":
				opts = append(opts, spreak.WithDomainFs("nilfs", fs.FS(nil)))
			case "emptyfs":
				opts = append(opts, spreak.WithFilesystemLoader("emptyfs"))
			}
		}
	}
	return opts
}

func tagStrings(tags []language.Tag, dedupe bool) []string {
	out := []string{}
	seen := map[string]bool{}
	for _, t := range tags {
		if dedupe && seen[t.String()] {
			continue
		}
		seen[t.String()] = true
		out = append(out, t.String())
	}
	return out
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// describeNew is the outcome of a creation.
func describeNew(bundle *spreak.Bundle, err error, rec *recorder, m *testMatcher, pr *tagPrinter) newOut {
	out := newOut{OK: err == nil, Err: classify(err), Log: rec.take(), Langs: []string{}, Sup: []string{}, Doms: []string{}, PInit: []string{}}
	if err != nil {
		if bundle != nil {
			out.Err.K += "+bundle"
		}
		return out
	}
	out.Sup = tagStrings(bundle.SupportedLanguages(), false)
	out.Doms = append([]string{}, bundle.Domains()...)
	spoilAccessors(bundle, nil)
	out.Can = bundle.CanLocalize()
	if m != nil {
		out.Langs = tagStrings(m.langs, true)
	}
	if pr != nil {
		out.PInit = tagStrings(pr.langs, true)
		out.PEarly = pr.early
	}
	return out
}

func runSession(in sessionIn) sessionOut {
	rec := &recorder{}
	var m *testMatcher
	var pr *tagPrinter
	bundle, err := spreak.NewBundle(bundleOptions(in, rec, &m, &pr)...)
	out := sessionOut{Outs: []stepOut{}}
	out.New = describeNew(bundle, err, rec, m, pr)
	if err != nil {
		return out
	}
	if in.Matcher == "default" {
		// A twin with a recording matcher tells what the standard matcher answers.
		twin := in
		twin.Matcher, twin.Steps = "std", nil
		t := runSession(twin)
		out.New.Langs = t.New.Langs
	}
	if in.Matcher == "default" || in.Matcher == "std" {
		out.Ans = standardAnswers(out.New.Langs, in.Steps)
	}
	shared := map[string]*spreak.KeyLocalizer{}
	local := func(i int) *spreak.KeyLocalizer {
		s := in.Steps[i]
		if s.K == "supp" {
			return nil
		}
		key := string(mustJSON([]any{s.Req, s.HasLD, s.LD}))
		if !in.Shared {
			return newLocalizer(bundle, s)
		}
		if shared[key] == nil {
			shared[key] = newLocalizer(bundle, s)
		}
		return shared[key]
	}
	if in.Par {
		kls := make([]*spreak.KeyLocalizer, len(in.Steps))
		for i := range in.Steps {
			if in.Shared {
				kls[i] = local(i)
			}
		}
		for _, o := range each(len(in.Steps), func(i int) any {
			kl := kls[i]
			if !in.Shared {
				kl = local(i)
			}
			return runStep(bundle, kl, in.Steps[i], in)
		}) {
			out.Outs = append(out.Outs, o.(stepOut))
		}
		return out
	}
	for i, s := range in.Steps {
		o := runStep(bundle, local(i), s, in)
		o.CB = rec.take()
		out.Outs = append(out.Outs, o)
	}
	return out
}

// spoilAccessors overwrites everything that was handed out.
func spoilAccessors(bundle *spreak.Bundle, l *spreak.Localizer) {
	for _, ds := range [][]string{bundle.Domains(), domainsOf(l)} {
		for i := range ds {
			ds[i] = "spoiled"
		}
		_ = append(ds[:0], "spoiled")
	}
	ts := bundle.SupportedLanguages()
	for i := range ts {
		ts[i] = language.Zulu
	}
}

func domainsOf(l *spreak.Localizer) []string {
	if l == nil {
		return nil
	}
	return l.Domains()
}

// standardAnswers: what x/text's matcher over the languages says to the requests of each step.
func standardAnswers(langs []string, steps []stepRec) []ansRec {
	var known []language.Tag
	for _, l := range langs {
		known = append(known, language.MustParse(l))
	}
	ans := []ansRec{}
	for _, s := range steps {
		var tags []language.Tag
		for _, r := range s.Req {
			switch v := reqValue(r).(type) {
			case language.Tag:
				tags = append(tags, v)
			case string:
				if ts, _, err := language.ParseAcceptLanguage(v); err == nil {
					tags = append(tags, ts...)
				}
			}
		}
		a := ansRec{}
		if _, i, c := language.NewMatcher(known).Match(tags...); c > language.No && len(known) > 0 {
			a = ansRec{langs[i], true}
		}
		ans = append(ans, a)
	}
	return ans
}

func newLocalizer(bundle *spreak.Bundle, s stepRec) *spreak.KeyLocalizer {
	var req []any
	for _, r := range s.Req {
		req = append(req, reqValue(r))
	}
	switch {
	case s.HasLD && s.Key:
		return spreak.NewKeyLocalizerForDomain(bundle, s.LD, req...)
	case s.HasLD:
		return &spreak.KeyLocalizer{Localizer: spreak.NewLocalizerForDomain(bundle, s.LD, req...)}
	case s.Key:
		return spreak.NewKeyLocalizer(bundle, req...)
	default:
		return &spreak.KeyLocalizer{Localizer: spreak.NewLocalizer(bundle, req...)}
	}
}

func runStep(bundle *spreak.Bundle, kl *spreak.KeyLocalizer, s stepRec, in sessionIn) stepOut {
	o := stepOut{CB: []errRec{}, Doms: []string{}}
	if s.K == "supp" {
		o.H = bundle.IsLanguageSupported(language.MustParse(s.Req[0].T))
		return o
	}
	l := kl.Localizer
	o.L, o.H, o.DD = l.Language().String(), l.HasLocale(), l.DefaultDomain()
	vars := []any{}
	for _, v := range s.V {
		vars = append(vars, v.value())
	}
	msg := &msgErr{Message: localize.Message{Singular: s.S, Plural: s.P, Context: s.C, Vars: vars, Count: s.N.I}, dom: s.D, hasDom: s.HasD}
	localized := func(err error) {
		r := l.LocalizeError(err)
		if r == nil {
			o.Same = err == nil
			return
		}
		o.S = r.Error()
		o.Same = r == err
		o.Un = errors.Is(r, err)
		if !o.Same {
			if e, ok := r.(*localize.Error); !ok || e.Translation != o.S || e.Wrapped != err {
				o.S += " (not a localize.Error)"
			}
		}
	}
	switch s.K {
	case "get":
		o.S = access(kl, s, vars)
	case "loc":
		var e error
		o.S, e = l.LocalizeWithError(msg)
		o.E = classify(e)
	case "nil":
		var e error
		o.S, e = l.LocalizeWithError(nil)
		o.E = classify(e)
	case "err":
		localized(&plainErr{s.S})
	case "errw":
		// what is wrapped makes no difference, the text of the whole error is looked up
		inner := []error{&plainErr{""}, &quietErr{msgErr: *msg}, &localize.Error{Wrapped: msg}, errors.Join(&plainErr{""}), fmt.Errorf("%w", &quietErr{msgErr: *msg})}
		localized(fmt.Errorf("%s%w", s.S, inner[crc32.ChecksumIEEE(mustJSON(in))%5]))
	case "errm":
		localized(msg)
	case "errnil":
		localized(nil)
	case "print":
		o.S = l.Print(s.S, vars...)
	case "info":
		o.Doms = append([]string{}, l.Domains()...)
		slices.Sort(o.Doms)
		spoilAccessors(bundle, l)
		has := map[string]bool{}
		for _, d := range o.Doms {
			has[d] = true
		}
		for _, c := range in.Cats {
			if l.HasDomain(c.D) != has[c.D] {
				o.Doms = append(o.Doms, "HasDomain disagrees: "+c.D)
				break
			}
		}
	}
	o.S = strings.NewReplacer("\u00a0", "~", "\u202f", "~", "\u2019", "'", "\u2212", "-").Replace(o.S)
	return o
}

func access(kl *spreak.KeyLocalizer, s stepRec, v []any) string {
	l := kl.Localizer
	n := s.N.value()
	name := ""
	for _, x := range []struct {
		b bool
		s string
	}{{s.A.D, "D"}, {s.A.N, "N"}, {s.A.C, "P"}} {
		if x.b {
			name += x.s
		}
	}
	if s.A.F {
		name += "f"
	}
	if s.Key {
		switch name {
		case "":
			return kl.Get(s.S)
		case "f":
			return kl.Getf(s.S, v...)
		case "D":
			return kl.DGet(s.D, s.S)
		case "Df":
			return kl.DGetf(s.D, s.S, v...)
		case "N":
			return kl.NGet(s.S, n)
		case "Nf":
			return kl.NGetf(s.S, n, v...)
		case "DN":
			return kl.DNGet(s.D, s.S, n)
		case "DNf":
			return kl.DNGetf(s.D, s.S, n, v...)
		case "P":
			return kl.PGet(s.C, s.S)
		case "Pf":
			return kl.PGetf(s.C, s.S, v...)
		case "DP":
			return kl.DPGet(s.D, s.C, s.S)
		case "DPf":
			return kl.DPGetf(s.D, s.C, s.S, v...)
		case "NP":
			return kl.NPGet(s.C, s.S, n)
		case "NPf":
			return kl.NPGetf(s.C, s.S, n, v...)
		case "DNP":
			return kl.DNPGet(s.D, s.C, s.S, n)
		case "DNPf":
			return kl.DNPGetf(s.D, s.C, s.S, n, v...)
		}
	}
	switch name {
	case "":
		return l.Get(s.S)
	case "f":
		return l.Getf(s.S, v...)
	case "D":
		return l.DGet(s.D, s.S)
	case "Df":
		return l.DGetf(s.D, s.S, v...)
	case "N":
		return l.NGet(s.S, s.P, n)
	case "Nf":
		return l.NGetf(s.S, s.P, n, v...)
	case "DN":
		return l.DNGet(s.D, s.S, s.P, n)
	case "DNf":
		return l.DNGetf(s.D, s.S, s.P, n, v...)
	case "P":
		return l.PGet(s.C, s.S)
	case "Pf":
		return l.PGetf(s.C, s.S, v...)
	case "DP":
		return l.DPGet(s.D, s.C, s.S)
	case "DPf":
		return l.DPGetf(s.D, s.C, s.S, v...)
	case "NP":
		return l.NPGet(s.C, s.S, s.P, n)
	case "NPf":
		return l.NPGetf(s.C, s.S, s.P, n, v...)
	case "DNP":
		return l.DNPGet(s.D, s.C, s.S, s.P, n)
	default:
		return l.DNPGetf(s.D, s.C, s.S, s.P, n, v...)
	}
}

func init() { reg("session", runSession) }
