package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"golang.org/x/text/language"
)

// Random sessions: larger than what the model checker enumerates.

func oneOf[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func chance(r *rand.Rand, percent int) bool { return r.IntN(100) < percent }

type sessionProfile struct {
	langs    []string
	doms     []string
	ctxs     []string
	msgs     []string
	steps    int
	matchers []string
	printers []string
	plainOpt bool // no failing options
	kinds    []string
	errsOnly bool
	requests func(r *rand.Rand) []reqRec
	rules    []string
	stepKs   []string
	silent   bool // no callback
	formats  bool // texts with directives
	families bool // sometimes variants of the languages
}

// genFormat is a text with directives.
func genFormat(r *rand.Rand) string {
	var b strings.Builder
	for k := r.IntN(6); k >= 0; k-- {
		b.WriteString(oneOf(r, "%d", "%d", "%d", "%s", "%v", "%x", "%%", "%[1]d", "%[2]v", "%[3]s", "a", " ", "é", "日本", "! ", "d", "[1]", "{0}"))
	}
	if chance(r, 5) {
		b.WriteString("%")
	}
	return b.String()
}

func defaultProfile() sessionProfile {
	return sessionProfile{
		langs: []string{"de", "en", "fr", "ja", "ru"}, families: true, doms: []string{"", "a", "b"},
		ctxs: []string{"", "c", "errors"}, msgs: []string{"m", "m_c", "x", "c"}, steps: 12,
		matchers: []string{"exact", "exact", "low", "no"}, printers: []string{"tag", "tag", "func", "default"},
		kinds: []string{"po", "po", "mo", "json"}, rules: []string{"ne1", "gt1", "zero", "ru", "cldr", "cldr"},
		stepKs: []string{"get", "get", "get", "get", "loc", "loc", "err", "errw", "errm", "info", "print"},
	}
}

// variants of languages have their rules and nothing else in common with them.
var variants = map[string][]string{
	"de": {"de-AT", "de-CH", "de-DE", "de-u-co-phonebk", "de-1996", "de-AT-x-wien"},
	"en": {"en-US", "en-GB", "en-001", "en-u-hc-h12", "en-Latn-US", "en-x-formal"},
	"fr": {"fr-CA", "fr-FR", "fr-u-co-standard", "fr-Latn", "fr-CA-x-mtl"},
	"ja": {"ja-JP", "ja-u-ca-japanese", "ja-Jpan-JP", "ja-Latn"},
	"ru": {"ru-RU", "ru-UA", "ru-Cyrl", "ru-x-old"},
}

// family replaces the languages by variants of few of them.
func (p sessionProfile) family(r *rand.Rand) sessionProfile {
	base := oneOf(r, p.langs...)
	other := oneOf(r, p.langs...)
	langs := append([]string{base, other}, oneOf(r, variants[other]...))
	p.langs = append(langs, pickSome(r, variants[base], 3)...)
	return p
}

func pickSome(r *rand.Rand, xs []string, n int) []string {
	var out []string
	for _, i := range r.Perm(len(xs)) {
		if len(out) < n {
			out = append(out, xs[i])
		}
	}
	return out
}

func genCat(r *rand.Rand, p sessionProfile, l, d string) catRec {
	c := catRec{L: l, D: d, St: "ok", Kind: oneOf(r, p.kinds...), Rule: oneOf(r, p.rules...), Msgs: []msgRec{}}
	n := r.IntN(6)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		m := msgRec{C: oneOf(r, p.ctxs...), M: oneOf(r, p.msgs...), F: []formRec{}}
		if c.Kind == "json" && m.C != "" {
			m.M += "_" + m.C
		}
		key := m.C + "\x00" + m.M
		if c.Kind == "json" {
			key = m.M
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		text := func(i int) string {
			if chance(r, 20) {
				return ""
			}
			if p.formats && chance(r, 80) {
				return genFormat(r)
			}
			return fmt.Sprintf("%s/%s/%s/%s/%d", l, d, m.C, m.M, i)
		}
		if c.Kind == "json" {
			m.F = append(m.F, formRec{5, text(5)})
			if chance(r, 60) {
				m.Pl = true
				for _, i := range []int{1, 3, 4} {
					if chance(r, 60) {
						m.F = append(m.F, formRec{i, text(i)})
					}
				}
			}
		} else {
			m.Pl = chance(r, 60)
			if m.Pl {
				for i := 0; i < 3; i++ {
					if chance(r, 75) {
						m.F = append(m.F, formRec{i, text(i)})
					}
				}
			} else {
				m.F = append(m.F, formRec{0, text(0)})
			}
		}
		c.Msgs = append(c.Msgs, m)
	}
	if c.Kind == "json" && len(c.Msgs) == 0 { // a JSON catalog must not be empty
		c.Msgs = append(c.Msgs, msgRec{M: "only", F: []formRec{{5, "only"}}})
	}
	return c
}

func genSession(r *rand.Rand, p sessionProfile) sessionIn {
	sources := []string{"en", "en", "de", "fr", "ja", "ru"}
	if p.families && chance(r, 35) {
		p = p.family(r)
		sources = append(sources, p.langs...)
	}
	in := sessionIn{Matcher: oneOf(r, p.matchers...), Opts: []optRec{}, Cats: []catRec{}, Steps: []stepRec{}}
	item := func(l string) langItem {
		return langItem{oneOf(r, "tag", "tag", "str", "posix", "list", "empties", "modifier", "encoding", "swapped", "spaced"), l}
	}
	for _, l := range p.langs {
		for _, d := range p.doms {
			switch {
			case chance(r, 55):
				in.Cats = append(in.Cats, genCat(r, p, l, d))
			case !p.plainOpt && chance(r, 5):
				in.Cats = append(in.Cats, catRec{L: l, D: d, St: "broken", Kind: "po", Msgs: []msgRec{}})
			}
		}
	}
	for _, d := range p.doms {
		if chance(r, 85) {
			in.Opts = append(in.Opts, optRec{K: "loader", S: d})
		}
	}
	if chance(r, 70) {
		in.Opts = append(in.Opts, optRec{K: "src", Ls: []langItem{{"tag", oneOf(r, sources...)}}})
	}
	for k := 0; k < 3; k++ {
		o := optRec{K: "lang", Req: chance(r, 12)}
		for j := r.IntN(4); j > 0; j-- {
			o.Ls = append(o.Ls, item(oneOf(r, p.langs...)))
		}
		if !p.plainOpt && chance(r, 6) {
			o.Ls = append(o.Ls, langItem{oneOf(r, "bad", "type"), "x"})
		}
		if chance(r, 3) {
			o.Ls = append(o.Ls, langItem{"tag", "und"})
		}
		in.Opts = append(in.Opts, o)
	}
	if chance(r, 40) {
		in.Opts = append(in.Opts, optRec{K: "fb", Ls: []langItem{item(oneOf(r, p.langs...))}})
	}
	if chance(r, 75) && !p.silent {
		in.Opts = append(in.Opts, optRec{K: "cb"})
	}
	if chance(r, 5) {
		in.Opts = append(in.Opts, optRec{K: "nocb"})
	}
	if chance(r, 50) {
		in.Opts = append(in.Opts, optRec{K: "dom", S: oneOf(r, append(p.doms, "zz")...)})
	}
	if chance(r, 30) {
		in.Opts = append(in.Opts, optRec{K: "ectx", S: oneOf(r, p.ctxs...)})
	}
	if pr := oneOf(r, p.printers...); pr != "default" || chance(r, 50) {
		in.Opts = append(in.Opts, optRec{K: "printer", S: pr})
	}
	if !p.plainOpt && chance(r, 3) {
		in.Opts = append(in.Opts, optRec{K: "invalid", S: oneOf(r, "nilopt", "nilprinter", "nilfunc", "nilmatcher", "nilloader", "nilfs", "emptyfs")})
	}
	r.Shuffle(len(in.Opts), func(i, j int) { in.Opts[i], in.Opts[j] = in.Opts[j], in.Opts[i] })
	for i := range in.Opts {
		if in.Opts[i].Ls == nil {
			in.Opts[i].Ls = []langItem{}
		}
	}
	for i := 0; i < p.steps; i++ {
		in.Steps = append(in.Steps, genStep(r, p))
	}
	in.Shared = chance(r, 50)
	return in
}

func genRequest(r *rand.Rand, p sessionProfile) []reqRec {
	req := []reqRec{}
	lang := func() string { return oneOf(r, append(p.langs, "sv")...) }
	for k := 1 + r.IntN(2); k > 0; k-- {
		switch r.IntN(8) {
		case 0:
			req = append(req, reqRec{K: "bad", T: oneOf(r, "de;q=x", "d!e", "fr, d!e", "en;q")})
		case 1:
			req = append(req, reqRec{K: "type"})
		case 2, 3:
			q := reqRec{K: "al"}
			for j := r.IntN(3); j >= 0; j-- {
				q.Q = append(q.Q, struct {
					T string `json:"t"`
					W int    `json:"w"`
				}{lang(), r.IntN(11)})
			}
			req = append(req, q)
		default:
			req = append(req, reqRec{K: "tag", T: lang()})
		}
	}
	for i := range req {
		if req[i].Q == nil {
			req[i].Q = []struct {
				T string `json:"t"`
				W int    `json:"w"`
			}{}
		}
	}
	return req
}

func genStep(r *rand.Rand, p sessionProfile) stepRec {
	s := stepRec{K: oneOf(r, p.stepKs...), V: []valRec{}}
	if p.errsOnly {
		s.K = oneOf(r, "err", "errw", "errm", "loc", "nil", "errnil")
	}
	if chance(r, 3) {
		s.K = oneOf(r, "nil", "errnil", "supp")
	}
	if p.requests != nil {
		s.Req = p.requests(r)
	} else {
		s.Req = genRequest(r, p)
	}
	if p.requests != nil && s.K == "supp" {
		if len(s.Req) != 1 || s.Req[0].K != "tag" {
			s.Req = []reqRec{{K: "tag", T: oneOf(r, p.langs...), Q: s.Req[0].Q}}
		}
	} else if s.K == "supp" {
		s.Req = []reqRec{{K: "tag", T: oneOf(r, append(p.langs, "sv")...), Q: []struct {
			T string `json:"t"`
			W int    `json:"w"`
		}{}}}
	}
	s.HasLD = chance(r, 30)
	s.LD = oneOf(r, append(p.doms, "zz")...)
	s.Key = chance(r, 40)
	s.A = accRec{chance(r, 50), chance(r, 50), chance(r, 50), chance(r, 50)}
	s.D = oneOf(r, append(p.doms, "zz")...)
	s.C = oneOf(r, append(p.ctxs, "zz")...)
	s.S = oneOf(r, append(p.msgs, "zz")...)
	s.P = s.S + "s"
	if chance(r, 20) {
		s.P = ""
	}
	s.N = valRec{K: "int", I: oneOf(r, 0, 1, 2, 3, 5, 11, 12, 21, 22, 100, 101, 111, 1000000)}
	if s.K == "get" && chance(r, 8) {
		s.N = valRec{K: "bad"}
	}
	vars, ints := r.IntN(3), 100
	if p.formats {
		vars, ints = r.IntN(5), pickOf(r, 100, 10000, 2000000000)
		if chance(r, 50) {
			s.S = oneOf(r, genFormat(r), genFormat(r), s.S)
			s.P = oneOf(r, genFormat(r), s.P)
		}
	}
	for j := vars; j > 0 && (s.K != "get" || s.A.F); j-- {
		s.V = append(s.V, oneOf(r, valRec{K: "int", I: r.IntN(ints)}, valRec{K: "str", S: "v"}))
		if v := &s.V[len(s.V)-1]; p.formats && chance(r, 15) && v.K == "int" {
			v.I = -v.I
		} else if p.formats && chance(r, 15) && v.K == "str" {
			v.S = oneOf(r, "%d", "%", "", "5000", "v5%%")
		}
	}
	s.HasD = chance(r, 50)
	return s
}

// genBrowserRequest: tags, Accept-Language lists and what is left of them after a typing error.
func genBrowserRequest(r *rand.Rand, langs []string) []reqRec {
	reqs := []reqRec{}
	lang := func() string {
		if chance(r, 50) {
			return oneOf(r, langs...)
		}
		return oneOf(r, "de-LI", "gsw", "de-DE", "en-AU", "en-IN", "en-001", "pt-PT", "pt-AO", "zh", "zh-TW", "zh-HK", "zh-CN", "zh-Hant-HK", "sr-Cyrl", "sr-ME", "sh", "hr", "bs", "nn", "nn-NO", "no-NO",
			"es", "es-MX", "es-ES", "ko", "und", "und-DE", "mul", "iw", "he", "fil", "tl", "nl-BE", "zu", "xh", "fo", "lb", "sco", "x-custom", "de-1996", "de-DE-u-co-phonebk", "en-US-u-rg-gbzzzz", "art-lojban", "i-klingon", "ro-MD", "mo")
	}
	// now and then a long list whose supported languages come late
	unknown := func() string { return oneOf(r, "xh", "zu", "fo", "cy", "ga", "mt", "is", "sw", "ta", "te", "am") }
	long := chance(r, 12)
	k := oneOf(r, 1, 1, 1, 2, 2, 3)
	if long && chance(r, 30) {
		k = 4 + r.IntN(12)
	}
	for ; k > 0; k-- {
		switch r.IntN(10) {
		case 0, 1, 2, 3:
			t := lang()
			if long && k > 1 {
				t = unknown()
			}
			if _, err := language.Parse(t); err != nil {
				t = "de"
			}
			reqs = append(reqs, reqRec{K: "tag", T: t})
		case 4:
			reqs = append(reqs, reqRec{K: "type"})
		default:
			var parts []string
			j := oneOf(r, 0, 0, 1, 2, 3)
			if long {
				j = oneOf(r, 4, 8, 9, 12, 16, 17, 31, 40)
			}
			for ; j >= 0; j-- {
				t := lang()
				if long && (j > 0 || k > 1) && chance(r, 95) {
					t = unknown()
				}
				if chance(r, 10) {
					t = strings.ToUpper(t)
				}
				if chance(r, 10) {
					t = strings.ReplaceAll(t, "-", "_")
				}
				if chance(r, 50) {
					t += oneOf(r, ";q=", "; q=", ";q= ", " ;q=") + oneOf(r, "0", "0.0", "0.1", "0.5", "0.5", "0.50", "0.8", "0.9", "1", "1.0", "0.001", "-0.5", "2")
				}
				if chance(r, 3) {
					t = oneOf(r, "*", "*;q=0.1", "", " ", "d!e", "en;q=x", "en;q", "en;", ";q=1", "de;v=1", "toolongalanguage", "de-", "-", "a", "C", "POSIX", "de_DE.UTF-8")
				}
				parts = append(parts, t)
			}
			reqs = append(reqs, reqRec{K: "raw", T: strings.Join(parts, oneOf(r, ",", ", ", " , "))})
		}
	}
	for i := range reqs {
		reqs[i].Q = []struct {
			T string `json:"t"`
			W int    `json:"w"`
		}{}
	}
	return reqs
}
