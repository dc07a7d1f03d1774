package main

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/humanize"
)

// humTexts: the texts of the humanizers, by context; a plural form follows after a bar.
var humTexts = func() map[string][]string {
	m := map[string][]string{
		"": {", ", "now", "today", "tomorrow", "yesterday", "noon", "midnight", "a.m.", "p.m.", "AM", "PM", "%[1]v ago", "%[1]v from now",
			"one", "two", "three", "four", "five", "six", "seven", "eight", "nine",
			"%[1]d byte|%[1]d bytes", "%s KB", "%s MB", "%s GB", "%s TB", "%s PB",
			"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December",
			"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec",
			"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat",
			"German", "English", "French"},
		"alt. month":         {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"},
		"abbrev. month":      {"Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec."},
		"ordinal 11, 12, 13": {"%vth"},
	}
	for i, s := range strings.Fields("th st nd rd th th th th th th") {
		m["ordinal "+strconv.Itoa(i)] = []string{"%v" + s}
	}
	for _, w := range strings.Fields("million billion trillion quadrillion quintillion sextillion septillion octillion nonillion decillion googol") {
		m[""] = append(m[""], "%[1]s "+w+"|%[1]s "+w)
	}
	for _, tail := range []string{"ago", "from now"} {
		for _, u := range []string{"second", "minute"} {
			m[""] = append(m[""], "a "+u+" "+tail+"|%[1]v "+u+"s "+tail)
		}
		m[""] = append(m[""], "an hour "+tail+"|%[1]v hours "+tail)
	}
	for _, ctx := range []string{"", "naturaltime-past", "naturaltime-future"} {
		for _, u := range strings.Fields("year month week day hour minute") {
			m[ctx] = append(m[ctx], "%[1]v "+u+"|%[1]v "+u+"s")
		}
	}
	return m
}()

// humPO is a catalog in which every text is put in braces behind a prefix and its context.
func humPO(prefix string, keep func(ctx, id string) bool) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n")
	var ctxs []string
	for ctx := range humTexts {
		ctxs = append(ctxs, ctx)
	}
	slices.Sort(ctxs)
	for _, ctx := range ctxs {
		for _, t := range humTexts[ctx] {
			one, many, plural := strings.Cut(t, "|")
			if keep != nil && !keep(ctx, one) {
				continue
			}
			b.WriteString("\n")
			if ctx != "" {
				fmt.Fprintf(&b, "msgctxt %q\n", ctx)
			}
			fmt.Fprintf(&b, "msgid %q\n", one)
			tr := func(s string) string { return fmt.Sprintf("%s{%s|%s}", prefix, ctx, s) }
			if plural {
				fmt.Fprintf(&b, "msgid_plural %q\nmsgstr[0] %q\nmsgstr[1] %q\n", many, tr(one), tr(many))
			} else {
				fmt.Fprintf(&b, "msgstr %q\n", tr(one))
			}
		}
	}
	return []byte(b.String())
}

func humLocale(tag language.Tag, prefix string, format *humanize.FormatData) *humanize.LocaleData {
	return &humanize.LocaleData{Lang: tag, Fs: fstest.MapFS{"django.po": &fstest.MapFile{Data: humPO(prefix, nil)}}, Format: format}
}

func humGerman() *humanize.LocaleData {
	return humLocale(language.German, "", &humanize.FormatData{DateFormat: "j. F Y", TimeFormat: "H:i", DateTimeFormat: "j. F Y H:i",
		MonthDayFormat: "j. F", ShortDateFormat: "d.m.Y", FirstDayOfWeek: 1})
}

var humOnce = sync.OnceValue(func() *humanize.Collection { return humanize.MustNew(humanize.WithLocale(humGerman())) })

var humShared = map[string]func() *humanize.Humanizer{
	"en": sync.OnceValue(func() *humanize.Humanizer { return humOnce().CreateHumanizer("en") }),
	"de": sync.OnceValue(func() *humanize.Humanizer { return humOnce().CreateHumanizer("de") }),
}

func humFor(lang string, style int) *humanize.Humanizer {
	if dir, ok := strings.CutPrefix(lang, "pack:"); ok {
		return humShipped(dir, style)
	}
	if style%16 == 5 {
		return humanize.MustNew(humanize.WithLocale(humGerman())).CreateHumanizer(lang)
	}
	if threads > 1 && style%2 == 0 { // one humanizer for all
		if h, ok := humShared[lang]; ok {
			return h()
		}
	}
	if lang == "en" && style%4 == 1 {
		return humOnce().CreateHumanizer()
	}
	return humOnce().CreateHumanizer(lang)
}

// ---- instants ----

type humInst struct {
	D int64 `json:"d"`
	S int64 `json:"s"`
	N int64 `json:"n"`
}

func (i humInst) time() time.Time { return time.Unix(i.D*86400+i.S, i.N) }

func instOf(t time.Time) humInst {
	u := t.Unix()
	d := u / 86400
	if u%86400 < 0 {
		d--
	}
	return humInst{d, u - d*86400, int64(t.Nanosecond())}
}

// humAt is an instant as seen in a place.
type humAt struct {
	T   humInst `json:"t"`
	Off int     `json:"off"`
}

func (a humAt) time() time.Time {
	if a.Off == 0 {
		return a.T.time().UTC()
	}
	return a.T.time().In(time.FixedZone("X", a.Off))
}

// as gives a time in one of the forms that are accepted; whole: it has no fraction.
func humAs(kind string, t time.Time) any {
	u := t.Unix()
	switch kind {
	case "ptr":
		return &t
	case "int":
		return u
	case "str":
		return strconv.FormatInt(u, 10)
	case "float":
		return float64(u)
	case "floatstr":
		return strconv.FormatFloat(float64(u), 'f', 1, 64)
	case "uptr":
		p := &u
		return &p
	}
	return t
}

type humElapsed struct {
	Lang  string `json:"lang"`
	D     humAt  `json:"d"`
	Now   humAt  `json:"now"`
	Depth int    `json:"depth"`
	Adj   bool   `json:"adj"`
	Form  string `json:"form"`
	Kind  string `json:"kind"`
	Style int    `json:"style"`
}

type humBad struct{ s string }

func (in humElapsed) run() (out any) {
	h := humFor(in.Lang, in.Style)
	if in.D.T.time().Year() != in.D.time().Year() { // a number has no place but the machine's
		in.Kind = pickOf(rand.New(rand.NewPCG(uint64(in.Style), 4)), "time", "ptr")
	}
	d := humAs(in.Kind, in.D.time())
	now := in.Now.time()
	r := rand.New(rand.NewPCG(uint64(in.Style), 3))
	var opts []humanize.TimeOption
	if in.Depth != 0 || r.IntN(2) == 0 {
		opts = append(opts, humanize.WithDepth(in.Depth))
	}
	if !in.Adj {
		opts = append(opts, humanize.WithoutAdjacentCheck())
	}
	withNow := func() {
		opts = append(opts, humanize.WithNow(now))
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	}
	call := func(f func(opts ...humanize.TimeOption) string) string {
		own := make([]humanize.TimeOption, len(opts), len(opts)+3)
		copy(own, opts)
		s := f(own...)
		for _, o := range own[len(opts):cap(own)] {
			if o != nil {
				out = "the caller's options were overwritten"
			}
		}
		return s
	}
	var s string
	switch in.Form {
	case "since":
		withNow()
		s = call(func(o ...humanize.TimeOption) string { return h.TimeSince(d, o...) })
	case "sinceFrom":
		s = call(func(o ...humanize.TimeOption) string { return h.TimeSinceFrom(d, now, o...) })
	case "until":
		withNow()
		s = call(func(o ...humanize.TimeOption) string { return h.TimeUntil(d, o...) })
	case "untilFrom":
		s = call(func(o ...humanize.TimeOption) string { return h.TimeUntilFrom(d, now, o...) })
	case "reverse":
		opts = append(opts, humanize.WithReverse(true))
		withNow()
		s = call(func(o ...humanize.TimeOption) string { return h.TimeSince(d, o...) })
	}
	if out != nil {
		return out
	}
	return humText{s}
}

type humText struct {
	Text string `json:"text"`
}

// humUnit lengths in seconds
var humUnits = []int64{365 * 86400, 30 * 86400, 7 * 86400, 86400, 3600, 60, 1}

func (g gen) inst(lo, hi int) humInst {
	y := lo + g.IntN(hi-lo+1)
	t := time.Date(y, time.Month(1+g.IntN(12)), 1+g.IntN(31), g.IntN(24), g.IntN(60), g.IntN(60), 0, time.UTC)
	switch g.IntN(6) {
	case 0:
		t = time.Date(y, pickOf(g.Rand, time.January, time.March, time.December), pickOf(g.Rand, 1, 31), pickOf(g.Rand, 0, 0, 12, 23), pickOf(g.Rand, 0, 0, 59), pickOf(g.Rand, 0, 59), 0, time.UTC)
	case 1:
		t = time.Date(y, time.February, 28+g.IntN(2), pickOf(g.Rand, 0, 12, 23), pickOf(g.Rand, 0, 30), 0, 0, time.UTC)
	}
	i := instOf(t)
	i.N = pickOf(g.Rand, 0, 0, 1, 999, 1000, 499999999, 500000000, 123456789, 999999999, g.Int64N(1e9))
	return i
}

func (g gen) offset() int {
	return pickOf(g.Rand, 0, 0, 0, 3600, 7200, -18000, 19800, 20700, -34200, 50400, -43200, 3600*(g.IntN(27)-12), g.IntN(86399)-43200)
}

func (i humInst) plus(secs int64) humInst {
	x := i.S + secs
	d := x / 86400
	if x%86400 < 0 {
		d--
	}
	return humInst{i.D + d, x - d*86400, i.N}
}

const (
	humFirst = -719162     // 0001-01-01
	humLast  = 2932896 - 1 // before 9999-12-31
)

func (g gen) elapsed() humElapsed {
	if g.IntN(3) == 0 {
		return g.elapsedIn(2, 9997)
	}
	return g.elapsedIn(1900, 2100)
}

func (g gen) elapsedIn(lo, hi int) humElapsed {
	r := g.Rand
	in := humElapsed{Lang: pickOf(r, "en", "de"), Adj: r.IntN(2) == 0, Depth: pickOf(r, 0, 1, 2, 2, 3, 4, 5, 6, 7, -1, -3, 100, r.IntN(9)),
		Form: pickOf(r, "since", "sinceFrom", "until", "untilFrom", "reverse"), Kind: pickOf(r, "time", "time", "time", "ptr", "int", "str", "float", "floatstr", "uptr"), Style: r.IntN(1 << 20)}
	for {
		a := g.inst(lo, hi)
		var secs int64
		for i, u := range humUnits {
			if r.IntN(3) == 0 {
				secs += u * pickOf(r, 1, 1, 2, r.Int64N(60), r.Int64N([]int64{60, 13, 6, 8, 25, 61, 61}[i]))
			}
		}
		if r.IntN(2) == 0 {
			secs += pickOf[int64](r, -1, 1, 59, -60, 60, 3599, 86399)
		}
		b := a.plus(secs)
		switch r.IntN(8) {
		case 0:
			b = g.inst(lo, hi)
		case 1:
			b = g.inst(max(2, int(lo)), hi)
			b.D = a.D + r.Int64N(800) - 400
		}
		if r.IntN(3) == 0 {
			b.N = r.Int64N(1e9)
		}
		since := strings.HasPrefix(in.Form, "since")
		if since != (r.IntN(16) == 0) {
			in.D.T, in.Now.T = a, b
		} else {
			in.D.T, in.Now.T = b, a
		}
		if min(a.D, b.D) > humFirst+400 && max(a.D, b.D) < humLast-400 {
			break
		}
	}
	in.D.Off, in.Now.Off = g.offset(), g.offset()
	if r.IntN(2) == 0 {
		in.Now.Off = in.D.Off
	}
	switch in.Kind {
	case "time", "ptr":
	default:
		in.D.T.N = 0
		_, in.D.Off = in.D.T.time().Zone()
	}
	return in
}

// ---- relative to now ----

// tzif is a zone with the given transitions.
func tzif(name string, offs []int, at []int64) *time.Location {
	var b []byte
	u32 := func(v int) { b = binary.BigEndian.AppendUint32(b, uint32(v)) }
	b = append(b, "TZif\x00"...)
	b = append(b, make([]byte, 15)...)
	u32(0)
	u32(0)
	u32(0)
	u32(len(at))
	u32(len(offs))
	u32(4 * len(offs))
	for _, t := range at {
		u32(int(int32(t)))
	}
	for i := range at {
		b = append(b, byte(i+1))
	}
	for i, o := range offs {
		u32(o)
		b = append(b, byte(i%2), byte(4*i))
	}
	for i := range offs {
		b = append(b, fmt.Sprintf("Z%02d\x00", i)...)
	}
	loc, err := time.LoadLocationFromTZData(name, b)
	if err != nil {
		panic(err)
	}
	return loc
}

// humZone is a zone with changes relative to now (hours before or after it).
type humZone struct {
	Offs []int `json:"offs"`
	At   []int `json:"at"` // seconds from now
}

func (z humZone) location(now time.Time) *time.Location {
	if len(z.At) == 0 {
		if z.Offs[0] == 0 {
			return time.UTC
		}
		return time.FixedZone("F", z.Offs[0])
	}
	var at []int64
	for _, a := range z.At {
		at = append(at, now.Unix()+int64(a))
	}
	return tzif("Zone", z.Offs, at)
}

func (g gen) zone() humZone {
	r := g.Rand
	z := humZone{Offs: []int{g.offset()}, At: []int{}}
	if r.IntN(4) == 0 {
		return z
	}
	at := -86400*pickOf(r, 1, 2, 3) - r.IntN(86400)
	for n := 1 + r.IntN(3); n > 0; n-- {
		last := z.Offs[len(z.Offs)-1]
		next := last + pickOf(r, 3600, -3600, 1800, -1800, 7200, 86400, -86400, 60, -82800)
		if next > 54000 || next < -54000 {
			next = last - (next - last)
		}
		if next > 54000 || next < -54000 {
			continue
		}
		z.Offs = append(z.Offs, next)
		z.At = append(z.At, at)
		at += pickOf(r, 3600, 20*3600, 30*3600, 50*3600) + r.IntN(40*3600)
	}
	return z
}

type humRelIn struct {
	Lang  string  `json:"lang"`
	What  string  `json:"what"` // day, time, since, until or a format of the current time
	Kind  string  `json:"kind"`
	Zone  humZone `json:"zone"`
	Secs  int64   `json:"secs"` // from now
	Nanos int64   `json:"nanos"`
	Days  int     `json:"days"` // from the current date, at second Secs (what = day and on = true)
	On    bool    `json:"on"`
	Style int     `json:"style"`
	apart bool    // the fractions of now and of the value are not to add up to a second
}

// humRelOut: the text, the instants around the call and how the place of the value sees them.
type humRelOut struct {
	Text string   `json:"text"`
	V    humAt    `json:"v"`
	Name string   `json:"name"`
	Dst  bool     `json:"dst"`
	Now  [2]humAt `json:"now"`
	Off  [2]int   `json:"local"` // offset of the machine's zone
	Dur  bool     `json:"dur"`
	Diff humInst  `json:"diff"` // of a duration
}

func offOf(t time.Time) int { _, o := t.Zone(); return o }

func (in humRelIn) run() any {
	h := humFor(in.Lang, in.Style)
	for try := 0; ; try++ {
		base := time.Now()
		if over := in.Nanos + int64(base.Nanosecond()) - 900_000_000; in.apart && over > 0 && over < 100_000_000+in.Nanos {
			time.Sleep(time.Duration(1_000_000_000 - base.Nanosecond()))
			base = time.Now()
		}
		loc := in.Zone.location(base)
		var v time.Time
		var arg any
		if in.What == "day" && in.On {
			n := base.In(loc)
			v = time.Date(n.Year(), n.Month(), n.Day()+in.Days, 0, 0, int(in.Secs), int(in.Nanos), loc)
			if noon := time.Date(n.Year(), n.Month(), n.Day()+in.Days, 12, 0, 0, 0, loc); noon.Day() != v.Day() {
				v = noon // a midnight that the clock change leaves out
			}
		} else {
			v = base.Add(time.Duration(in.Secs)*time.Second + time.Duration(in.Nanos)).In(loc)
		}
		o := humRelOut{}
		switch in.Kind {
		case "duration":
			d := time.Duration(in.Secs)*time.Second + time.Duration(in.Nanos)
			arg, loc, o.Dur = d, time.Local, true
			o.Diff = instOf(time.Unix(in.Secs, in.Nanos))
		case "time", "ptr":
			arg = humAs(in.Kind, v)
		default:
			v = v.Truncate(time.Second).In(time.Local)
			arg, loc = humAs(in.Kind, v), time.Local
		}
		before := time.Now()
		switch in.What {
		case "day":
			o.Text = h.NaturalDay(arg)
		case "time":
			o.Text = h.NaturalTime(arg)
		case "since":
			o.Text = h.TimeSince(arg)
		case "until":
			o.Text = h.TimeUntil(arg)
		case "DATETIME_FORMAT":
			o.Text = h.Now()
		case "DATE_FORMAT":
			o.Text = h.Date()
		case "TIME_FORMAT":
			o.Text = h.Time()
		}
		after := time.Now()
		if after.Sub(before) > 40*time.Millisecond && try < 50 {
			continue
		}
		if o.Dur {
			v = before.Add(arg.(time.Duration)).In(loc)
			if w := after.Add(arg.(time.Duration)).In(loc); w.Day() != v.Day() || w.Second() != v.Second() || before.Second() != after.Second() {
				time.Sleep(time.Millisecond)
				continue
			}
		}
		o.V = humAt{instOf(v), offOf(v)}
		o.Name, _ = v.Zone()
		o.Dst = v.IsDST()
		if strings.HasSuffix(in.What, "FORMAT") { // of the clock
			o.Name, _ = before.Zone()
			o.Dst = before.IsDST()
		}
		for i, n := range []time.Time{before, after} {
			o.Now[i] = humAt{instOf(n), offOf(n.In(loc))}
			o.Off[i] = offOf(n.In(time.Local))
		}
		return o
	}
}

// humRelKnown: with a known text, up to the date of other days.
func (in humRelIn) known() any {
	in.apart = true
	o, ok := in.run().(humRelOut)
	if !ok {
		return "no outcome"
	}
	h := humFor(in.Lang, 0)
	if in.What == "day" {
		if o.Text == h.FormatTime(o.V.time().In(time.FixedZone(o.Name, o.V.Off)), humanize.DateFormat) {
			return humText{"date"}
		}
	}
	return humText{o.Text}
}

func (g gen) relative() humRelIn {
	r := g.Rand
	in := humRelIn{Lang: pickOf(r, "en", "de"), What: pickOf(r, "time", "time", "time", "day", "day", "day", "since", "until"), Kind: pickOf(r, "time", "time", "time", "ptr", "duration", "int", "str", "float", "uptr"), Zone: g.zone(), Style: r.IntN(1 << 20)}
	in.Nanos = pickOf(r, 0, 0, 1, 499_000_000, 400_000_000, 500_000_000, 600_000_000, 990_000_000, r.Int64N(1e9))
	if r.IntN(40) == 0 {
		in.What = pickOf(r, "DATETIME_FORMAT", "DATE_FORMAT", "TIME_FORMAT")
	}
	if in.What == "day" {
		in.On = r.IntN(3) != 0 && in.Kind != "duration"
		if in.On {
			in.Days = pickOf(r, -3, -2, -1, -1, 0, 0, 1, 1, 2, 3, r.IntN(800)-400)
			in.Secs = pickOf(r, 0, 0, 1, 86399, 3600, 43200, r.Int64N(86400))
			return in
		}
		in.Secs = pickOf(r, 0, 86400, -86400, 172800, -172800, r.Int64N(400000)-200000, r.Int64N(400000)-200000, r.Int64N(1e9)-5e8)
		return in
	}
	unit := pickOf(r, humUnits...)
	in.Secs = unit*pickOf(r, 0, 1, 1, 2, r.Int64N(30), r.Int64N(60)) + pickOf[int64](r, 0, 0, 1, -1, 29, 30, 59, -30, 3599, 1800, r.Int64N(86400))
	if r.IntN(2) == 0 {
		in.Secs, in.Nanos = -in.Secs, -in.Nanos
	}
	return in
}

// ---- formats ----

type humFormat struct {
	Lang  string  `json:"lang"`
	T     humInst `json:"t"`
	Loc   string  `json:"loc"` // "" is a zone of its own
	Off   int     `json:"off"`
	Name  string  `json:"name"`
	Dst   bool    `json:"dst"`
	Fmt   string  `json:"fmt"`
	Style int     `json:"style"`
}

type humFormatOut struct {
	Text  string `json:"text"`
	Local string `json:"local"`
}

func (in humFormat) time() time.Time {
	if in.Loc != "" {
		loc, err := time.LoadLocation(in.Loc)
		if err != nil {
			panic(err)
		}
		return in.T.time().In(loc)
	}
	if in.Name == "UTC" && in.Off == 0 {
		return in.T.time().UTC()
	}
	return in.T.time().In(time.FixedZone(in.Name, in.Off))
}

func (in humFormat) run() any {
	t := in.time()
	name, off := t.Zone()
	if name != in.Name || off != in.Off || t.IsDST() != in.Dst {
		return fmt.Sprintf("the place has zone %s %d %v", name, off, t.IsDST())
	}
	return humFormatOut{humFor(in.Lang, in.Style).FormatTime(t, in.Fmt), time.Local.String()}
}

const humLetters = "aAbcdDeEfFgGhHiIjlLmMnNoOPrsStTuUwWyYzZ"

func (g gen) humFmt(c, i bool) string {
	r := g.Rand
	if r.IntN(8) == 0 {
		return pickOf(r, "DATE_FORMAT", "TIME_FORMAT", "DATETIME_FORMAT", "YEAR_MONTH_FORMAT", "MONTH_DAY_FORMAT", "SHORT_DATE_FORMAT", "SHORT_DATETIME_FORMAT")
	}
	var b strings.Builder
	n := pickOf(r, 0, 1, 2, 3, 5, 8, 12)
	var runes []rune
	for ; n > 0; n-- {
		x := rune(humLetters[r.IntN(len(humLetters))])
		if x == 'c' && !c || x == 'I' && !i {
			continue
		}
		switch r.IntN(6) {
		case 0:
			x = pickOf(r, ' ', ',', '-', '/', 'B', 'k', 'K', 'q', 'Q', 'R', 'v', 'V', 'x', 'X', 'C', 'J', 'p', '0', '9', '%', '{', 'ü', '日', '\n', '"')
		case 1:
			runes = append(runes, '\\')
			if r.IntN(4) == 0 {
				x = '\\'
			}
		}
		runes = append(runes, x)
	}
	if r.IntN(12) == 0 {
		runes = append(runes, '\\')
	}
	b.WriteString(string(runes))
	return b.String()
}

var humPlaces = []string{"Europe/Berlin", "America/New_York", "Australia/Sydney", "Asia/Kolkata", "Pacific/Chatham", "America/St_Johns", "Africa/Nairobi",
	"America/Asuncion", "America/Sao_Paulo", "America/Santiago", "Pacific/Auckland", "Australia/Lord_Howe", "Antarctica/Troll", "Europe/Moscow", "America/Caracas", "Europe/Istanbul", "Asia/Tehran",
	"Asia/Pyongyang", "Pacific/Apia", "Europe/London", "Europe/Lisbon", "Asia/Amman", "America/Havana", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Kathmandu", "America/Los_Angeles", "Asia/Tokyo"}

func (g gen) format() humFormat {
	r := g.Rand
	in := humFormat{Lang: pickOf(r, "en", "de"), Style: r.IntN(1 << 20)}
	if r.IntN(3) == 0 {
		in.T, in.Loc = g.inst(1990, 2035), pickOf(r, humPlaces...)
		t := in.time()
		in.Name, in.Off = t.Zone()
		in.Dst = t.IsDST()
	} else {
		in.T = g.inst(2, 9998)
		if r.IntN(2) == 0 {
			in.T = g.inst(1960, 2050)
		}
		in.Name, in.Off = pickOf(r, "UTC", "ABC", "XYZW", "Zeit"), g.offset()
	}
	if r.IntN(3) == 0 { // exactly midnight or noon there
		s := in.T.S + int64(in.Off)
		in.T = in.T.plus(pickOf[int64](r, 0, 43200, 43199, 86399) - s)
		if in.Loc != "" {
			t := in.time()
			in.Name, in.Off = t.Zone()
			in.Dst = t.IsDST()
		}
	}
	if in.Loc != "" && r.IntN(4) == 0 { // near a change of the zone
		if a, b := in.time().ZoneBounds(); !a.IsZero() && !b.IsZero() && b.Year() < 2038 {
			at := pickOf(r, a, b).Unix() + pickOf[int64](r, 0, -1, 1, 3599, 3600, -3600, 86400)
			in.T = in.T.plus(at - in.T.S)
			t := in.time()
			in.Name, in.Off = t.Zone()
			in.Dst = t.IsDST()
		}
	}
	in.Fmt = g.humFmt(in.T.N == 0 || in.T.N >= 100_000_000, true)
	if r.IntN(40) == 0 {
		in.Fmt = "c"
	}
	return in
}

func init() {
	reg("hum.elapsed", humElapsed.run)
	reg("hum.rel", humRelIn.run)
	reg("hum.relknown", humRelIn.known)
	reg("hum.format", humFormat.run)
	reg("hum.formatknown", func(in humFormat) any {
		switch o := in.run().(type) {
		case humFormatOut:
			return humText{o.Text}
		default:
			return o
		}
	})
	backward := func(c *Ctx, op string, n int, f func(g gen) any) {
		var cases []Case
		for i := 0; i < n; i++ {
			cases = append(cases, mk(op, f(gen{c.rnd})))
		}
		c.Backward(TLC{Module: "Trace_Humanize"}, cases)
	}
	props["P25"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_Elapsed", Consts: map[string]string{"Size": c.pickS(`"small"`, `"big"`)}}, 5000)
		backward(c, "hum.elapsed", c.pick(25000, 400000), func(g gen) any { return g.elapsed() })
	}
	props["P26"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_Relative", Consts: map[string]string{"Size": c.pickS(`"small"`, `"big"`)}}, 1000)
		backward(c, "hum.rel", c.pick(20000, 300000), func(g gen) any { return g.relative() })
	}
	props["P27"] = func(c *Ctx) {
		c.Forward(TLC{Module: "MC_Dates", Consts: map[string]string{"Size": c.pickS(`"small"`, `"big"`)}}, 2000)
		backward(c, "hum.format", c.pick(20000, 300000), func(g gen) any { return g.format() })
	}
}
