package main

import (
	"fmt"
	"slices"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/humanize"
)

// The op "hum.story": collections and humanizers, as specified by HumanStory.tla.

type humData struct {
	Tag  string `json:"tag"`
	File string `json:"file"`
	Part bool   `json:"part"`
	Fmt  [7]int `json:"fmt"`
	Nil  bool   `json:"nil,omitempty"`
}

type humStep struct {
	K    string   `json:"k"`
	Ls   []int    `json:"ls"`
	P    int      `json:"p"`
	N    int      `json:"n"`
	V    int      `json:"v"`
	C    int      `json:"c"`
	Fb   string   `json:"fb"`
	Req  []reqRec `json:"req"`
	H    int      `json:"h"`
	What string   `json:"what"`
}

type humStoryIn struct {
	Pool  []humData `json:"pool"`
	Steps []humStep `json:"steps"`
}

type humStoryOut struct {
	Res   []string   `json:"res"`
	Ans   []ansRec   `json:"ans,omitempty"`
	Langs [][]string `json:"langs,omitempty"`
}

var humFormatNames = []string{humanize.DateFormat, humanize.TimeFormat, humanize.DateTimeFormat, humanize.YearMonthFormat, humanize.MonthDayFormat, humanize.ShortDateFormat, humanize.ShortDatetimeFormat}

func humFormatField(f *humanize.FormatData, n int) *string {
	return []*string{&f.DateFormat, &f.TimeFormat, &f.DateTimeFormat, &f.YearMonthFormat, &f.MonthDayFormat, &f.ShortDateFormat, &f.ShortDatetimeFormat}[n-1]
}

func (d humData) locale(id int) *humanize.LocaleData {
	files := fstest.MapFS{}
	switch d.File {
	case "ok":
		files["django.po"] = &fstest.MapFile{Data: humPO(fmt.Sprintf("p%d", id), func(ctx, s string) bool { return ctx == "" && (s == "today" || s == "%[1]d byte" && !d.Part) })}
	case "broken":
		files["django.po"] = &fstest.MapFile{Data: []byte("msgid \"a\"\nmsgstr \"b\nmsgid")}
	}
	l := &humanize.LocaleData{Lang: language.MustParse(d.Tag), Fs: files}
	for i, v := range d.Fmt {
		if v != 0 || l.Format == nil && !d.Nil {
			if l.Format == nil {
				l.Format = &humanize.FormatData{}
			}
		}
		if v != 0 {
			*humFormatField(l.Format, i+1) = fmt.Sprintf("<%d:%d>", i+1, v)
		}
	}
	return l
}

func (in humStoryIn) run(ref bool) any {
	var pool []*humanize.LocaleData
	for i, d := range in.Pool {
		d.Nil = d.Nil || !ref && i%2 == 0
		pool = append(pool, d.locale(i+1))
	}
	var colls []*humanize.Collection
	var hums []*humanize.Humanizer
	o := humStoryOut{}
	at := time.Date(2003, 2, 4, 16, 5, 0, 0, time.UTC)
	for k, s := range in.Steps {
		res, a := "", ansRec{}
		switch s.K {
		case "new":
			var opts []humanize.Option
			var list []*humanize.LocaleData
			langs := []string{"en"}
			if s.Fb != "" && s.Fb != "en" {
				langs = []string{s.Fb, "en"}
			}
			for j, p := range s.Ls {
				list = append(list, pool[p-1])
				if j%2 == k%2 { // in one option or several
					opts = append(opts, humanize.WithLocale(list...))
					list = nil
				}
				if d := in.Pool[p-1]; d.Tag != "und" && d.File != "missing" && !slices.Contains(langs, d.Tag) {
					langs = append(langs, d.Tag)
				}
			}
			if s.Fb != "" {
				opts = append(opts, humanize.WithBundleOption(spreak.WithFallbackLanguage(s.Fb)))
			}
			c, err := humanize.New(append(opts, humanize.WithLocale(list...))...)
			if err != nil {
				res = "error"
				if c != nil {
					res = "error and collection"
				}
				break
			}
			res = "ok"
			colls = append(colls, c)
			o.Langs = append(o.Langs, langs)
		case "edit":
			if pool[s.P-1].Format == nil {
				pool[s.P-1].Format = &humanize.FormatData{}
			}
			*humFormatField(pool[s.P-1].Format, s.N) = fmt.Sprintf("<%d:%d>", s.N, s.V)
		case "hum":
			if s.C > len(colls) {
				break
			}
			var req []any
			for _, r := range s.Req {
				req = append(req, reqValue(r))
			}
			a = standardAnswers(o.Langs[s.C-1], []stepRec{{Req: s.Req}})[0]
			h := colls[s.C-1].CreateHumanizer(req...)
			hums = append(hums, h)
			res = h.Language().String()
		case "ask":
			if s.H > len(hums) {
				break
			}
			h := hums[s.H-1]
			switch s.What {
			case "lang":
				res = h.Language().String()
			case "today":
				res = h.NaturalDay(time.Now())
			case "bytes":
				res = h.FilesizeFormat(s.N)
			case "format":
				res = h.FormatTime(at, humFormatNames[s.N-1])
			}
		}
		o.Res, o.Ans = append(o.Res, res), append(o.Ans, a)
	}
	if !ref {
		o.Ans, o.Langs = nil, nil
	}
	return o
}

func (g gen) humStory() humStoryIn {
	r := g.Rand
	in := humStoryIn{}
	tags := []string{"de", "de-AT", "fr", "fr-CA", "pt", "pt-BR", "pt-PT", "zh-Hans", "zh-Hant", "en-GB", "en-AU", "en", "es", "es-MX", "sr", "sr-Latn", "ja", "und"}
	for n := 2 + r.IntN(5); n > 0; n-- {
		d := humData{Tag: pickOf(r, tags...), File: pickOf(r, "ok", "ok", "ok", "ok", "ok", "ok", "missing"), Part: r.IntN(3) == 0, Nil: r.IntN(2) == 0}
		if r.IntN(25) == 0 {
			d.File = "broken"
		}
		for i := range d.Fmt {
			if r.IntN(2) == 0 {
				d.Fmt[i] = 10*len(in.Pool) + i + 10
			}
		}
		if r.IntN(4) == 0 {
			d.Fmt = [7]int{}
		}
		in.Pool = append(in.Pool, d)
	}
	colls, hums := 0, 0
	for n := 6 + r.IntN(20); n > 0; n-- {
		s := humStep{K: pickOf(r, "new", "edit", "hum", "hum", "ask", "ask", "ask", "ask", "ask"), Ls: []int{}, Req: []reqRec{}, P: 1 + r.IntN(len(in.Pool)), N: 1 + r.IntN(7), V: 100 + n, What: pickOf(r, "lang", "today", "bytes", "format", "format", "format")}
		if colls == 0 {
			s.K = "new"
		} else if s.K == "ask" && hums == 0 {
			s.K = "hum"
		}
		switch s.K {
		case "new":
			used := map[string]int{}
			for m := r.IntN(6); m > 0; m-- {
				p := 1 + r.IntN(len(in.Pool))
				if q, ok := used[in.Pool[p-1].Tag]; ok && q != p { // each language from one source
					continue
				}
				used[in.Pool[p-1].Tag] = p
				s.Ls = append(s.Ls, p)
			}
			if r.IntN(3) == 0 {
				s.Fb = pickOf(r, tags[:len(tags)-1]...)
				if len(s.Ls) > 0 && r.IntN(8) > 0 {
					if s.Fb = in.Pool[pickOf(r, s.Ls...)-1].Tag; s.Fb == "und" {
						s.Fb = ""
					}
				}
			}
			colls++
		case "hum":
			s.C = 1 + r.IntN(colls)
			if r.IntN(8) > 0 {
				s.Req = genBrowserRequest(r, []string{"de", "de-CH", "fr", "pt", "pt-AO", "pt-BR", "zh", "zh-TW", "zh-SG", "en", "en-NZ", "en-US", "es-AR", "es", "es-ES", "sr-ME", "sr", "ja", "ko"})
			}
			hums++
		case "ask":
			s.H = 1 + r.IntN(hums)
		}
		in.Steps = append(in.Steps, s)
	}
	return in
}

func init() {
	reg("hum.story", func(in humStoryIn) any { return in.run(false) })
	reg("hum.storyrec", func(in humStoryIn) any { return in.run(true) })
	props["P29"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_HumanStory", Consts: map[string]string{"MaxSteps": c.pickS("3", "4"), "MaxNew": c.pickS("2", "3")}}, 1000)
		g := gen{c.rnd}
		var cases []Case
		for n := c.pick(3000, 40000); n > 0; n-- {
			cases = append(cases, mk("hum.storyrec", g.humStory()))
		}
		c.Backward(TLC{Module: "Trace_HumanStory", Histories: true}, cases)
	}
}
