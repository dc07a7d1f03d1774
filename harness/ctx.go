package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkError string

func fail(format string, a ...any) { panic(checkError(fmt.Sprintf(format, a...))) }

// A Violation is a real call whose outcome the specification does not allow.
type Violation struct {
	Property string            `json:"property"`
	Spec     string            `json:"spec"`
	Op       string            `json:"op"`
	In       json.RawMessage   `json:"in"`
	Got      Result            `json:"got"`
	Exp      []json.RawMessage `json:"exp"`
	Repro    string            `json:"reproduced"`
	Known    string            `json:"known,omitempty"` // the deviation the specification recognises
}

type Ctx struct {
	id, tier   string
	seed       int64
	root, work string
	rnd        *rand.Rand
	pool       *Pool
	racePool   *Pool
	start      time.Time

	states, transitions int64
	validated           int64
	forward, backward   int64
	distinct            map[uint64]bool
	samples             []any
	specs               []string
	notes               []string
	violations          []Violation
	seenViol            map[string]bool
	opCount             map[string]int
}

func newCtx(id, tier string, seed int64, root, work string) *Ctx {
	if work == "" {
		work, _ = os.MkdirTemp("", "vh")
	}
	h := fnv.New64a()
	h.Write([]byte(id))
	return &Ctx{id: id, tier: tier, seed: seed, root: root, work: work,
		rnd:  rand.New(rand.NewPCG(uint64(seed), h.Sum64())),
		pool: newPool(8, 20*time.Second, ""), start: time.Now(),
		distinct: map[uint64]bool{}, seenViol: map[string]bool{}, opCount: map[string]int{}}
}

func (c *Ctx) close() {}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// pick chooses a bound by tier.
func (c *Ctx) pick(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) log(format string, a ...any) {
	fmt.Printf("[%s %5.1fs] %s\n", c.id, time.Since(c.start).Seconds(), fmt.Sprintf(format, a...))
}

// TLC runs a specification; consts are written into the configuration.
type TLC struct {
	Module  string            // module in specs/
	Cfg     string            // configuration in specs/ (default Module.cfg)
	Consts  map[string]string // CONSTANT assignments appended to the configuration
	Env     map[string]string
	Workers int
	Timeout time.Duration
	Args    []string

	Out string // file for the lines the specification emits

	Histories bool // see reject

	undefined func(log string) bool // what to do when the specification cannot be evaluated
}

// splitter separates the lines a specification emits (module Emit) from TLC's own messages.
type splitter struct {
	emitted *bufio.Writer
	log     *bytes.Buffer
	rest    []byte
}

func (s *splitter) Write(p []byte) (int, error) {
	s.rest = append(s.rest, p...)
	for {
		i := bytes.IndexByte(s.rest, '\n')
		if i < 0 {
			return len(p), nil
		}
		s.line(s.rest[:i+1])
		s.rest = s.rest[i+1:]
	}
}

func (s *splitter) line(l []byte) {
	if s.emitted != nil && bytes.HasPrefix(l, []byte(`"{`)) {
		s.emitted.Write(l)
		return
	}
	s.log.Write(l)
}

func (s *splitter) flush() {
	if len(s.rest) > 0 {
		s.line(append(s.rest, '\n'))
		s.rest = nil
	}
	if s.emitted != nil {
		s.emitted.Flush()
	}
}

var (
	reStates = regexp.MustCompile(`(?m)^(\d+) states generated, (\d+) distinct states found`)
	reSim    = regexp.MustCompile(`(?m)^The number of states generated: (\d+)`)
)

var (
	reEvent  = regexp.MustCompile(`(?m)^(?:/\\ )?(?:l|ev) = (\d+)`)
	reEventI = regexp.MustCompile(`(?m)^(?:/\\ )?i = (\d+)`)
)

func (c *Ctx) tlc(t TLC) (generated, distinct int64) {
	specs := filepath.Join(c.root, "specs")
	cfgName := t.Cfg
	if cfgName == "" {
		cfgName = t.Module + ".cfg"
	}
	cfg, err := os.ReadFile(filepath.Join(specs, cfgName))
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	b.Write(cfg)
	if len(t.Consts) > 0 {
		b.WriteString("\nCONSTANTS\n")
		keys := make([]string, 0)
		for k := range t.Consts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if d, ok := strings.CutPrefix(t.Consts[k], "<-"); ok { // a definition
				fmt.Fprintf(&b, "  %s <- %s\n", k, d)
				continue
			}
			fmt.Fprintf(&b, "  %s = %s\n", k, t.Consts[k])
		}
	}
	dir, err := os.MkdirTemp(c.work, "tlc")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	cfgFile := filepath.Join(dir, "m.cfg")
	if err := os.WriteFile(cfgFile, b.Bytes(), 0o644); err != nil {
		fail("%v", err)
	}
	if t.Workers == 0 {
		t.Workers = 8
	}
	if t.Timeout == 0 {
		t.Timeout = 800 * time.Second
	}
	args := []string{"-Xmx10g", "-Xss256m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + dir, "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
		"-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
		"-config", cfgFile, "-metadir", filepath.Join(dir, "meta"), "-workers", strconv.Itoa(t.Workers), "-deadlock", "-noGenerateSpecTE"}
	args = append(args, t.Args...)
	args = append(args, t.Module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = specs
	cmd.Env = os.Environ()
	for k, v := range t.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var out bytes.Buffer
	split := &splitter{log: &out}
	if t.Out != "" {
		f, err := os.Create(t.Out)
		if err != nil {
			fail("%v", err)
		}
		defer f.Close()
		split.emitted = bufio.NewWriterSize(f, 1<<20)
	}
	cmd.Stdout, cmd.Stderr = split, split
	began := time.Now()
	if err := cmd.Start(); err != nil {
		fail("%v", err)
	}
	timer := time.AfterFunc(t.Timeout, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	split.flush()
	if err != nil || !strings.Contains(out.String(), "No error has been found") {
		var exit *exec.ExitError
		if t.undefined != nil && errors.As(err, &exit) && (exit.ExitCode() == 75 || exit.ExitCode() == 76) && t.undefined(out.String()) {
			return 0, 0
		}
		s := regexp.MustCompile(`(?m)^(Parsing file|Semantic processing|Linting of|Running breadth|Computed|Finished computing|Progress|Starting\.\.\.|TLC2 Version).*\n`).ReplaceAllString(out.String(), "")
		if len(s) > 6000 {
			s = s[:3000] + "\n...\n" + s[len(s)-3000:]
		}
		fail("TLC %s (%v after %s):\n%s", t.Module, err, time.Since(began).Round(time.Second), s)
	}
	m := reStates.FindAllStringSubmatch(out.String(), -1)
	if m == nil {
		fail("TLC %s: no statistics:\n%s", t.Module, out.String())
	}
	last := m[len(m)-1]
	generated, _ = strconv.ParseInt(last[1], 10, 64)
	distinct, _ = strconv.ParseInt(last[2], 10, 64)
	c.states += distinct
	c.transitions += generated
	c.addSpec(t.Module)
	c.log("TLC %s: %d states generated, %d distinct, %.1fs", t.Module, generated, distinct, time.Since(began).Seconds())
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Println(out.String())
	}
	return
}

func (c *Ctx) addSpec(m string) {
	for _, s := range c.specs {
		if s == m {
			return
		}
	}
	c.specs = append(c.specs, m)
}

// Forward model-checks a specification exhaustively within its constants and
// replays every case it emits (operation, arguments, allowed outcomes) into the
// real code.
func (c *Ctx) Forward(t TLC, minCases int) {
	file := filepath.Join(c.work, t.Module+strconv.Itoa(len(c.specs))+strconv.FormatInt(c.forward, 10)+".cases")
	t.Out = file
	defer os.Remove(file)
	c.tlc(t)
	cases := readCases(file)
	if len(cases) < minCases {
		fail("%s emitted only %d cases (expected at least %d)", t.Module, len(cases), minCases)
	}
	c.Replay(t.Module, cases)
}

// run executes the cases. Once many of them did not return, the rest is left out.
func (c *Ctx) run(cases []Case) ([]Case, []Result) {
	res := c.pool.run(cases)
	hangs := 0
	for _, r := range res {
		if r.St == "hang" {
			hangs++
		}
	}
	if hangs <= maxHangs {
		return cases, res
	}
	var ran []Case
	var results []Result
	for i, r := range res {
		if r.St != "skip" {
			ran, results = append(ran, cases[i]), append(results, r)
		}
	}
	c.log("%d of %d calls did not return, %d calls left out", hangs, len(cases), len(cases)-len(ran))
	return ran, results
}

// Replay executes cases with known allowed outcomes and compares.
func (c *Ctx) Replay(spec string, cases []Case) {
	before := len(c.violations)
	cases, res := c.run(cases)
	for i := range cases {
		c.count(cases[i])
		if !matches(res[i], cases[i].Exp) {
			c.violate(spec, cases[i], res[i], cases[i].Exp)
		}
	}
	c.forward += int64(len(cases))
	c.validated += int64(len(cases))
	c.sample(spec, cases, res)
	c.log("replayed %d behaviours of %s into the code, %d mismatches", len(cases), spec, len(c.violations)-before)
}

func (c *Ctx) count(cs Case) {
	h := fnv.New64a()
	h.Write([]byte(cs.Op))
	h.Write(cs.In)
	c.distinct[h.Sum64()] = true
	c.opCount[cs.Op]++
}

func (c *Ctx) sample(spec string, cases []Case, res []Result) {
	for k := 0; k < 2 && k < len(cases); k++ {
		i := k * (len(cases) / 2)
		if len(c.samples) < 24 {
			c.samples = append(c.samples, map[string]any{"spec": spec, "op": cases[i].Op, "in": short(cases[i].In), "out": short(res[i].V)})
		}
	}
}

// Execute runs the real code only; used when a later input depends on an observed output.
func (c *Ctx) Execute(cases []Case) []Result { return c.pool.run(cases) }

// Backward runs the given calls in the real code, records them with their
// outcomes as a trace and lets TLC check every event against the trace
// specification, which writes a line {"id":..,"exp":[..]} for each event it rejects.
func (c *Ctx) Backward(t TLC, cases []Case) {
	if len(cases) == 0 {
		fail("no cases for %s", t.Module)
	}
	for i := range cases {
		cases[i].ID = i + 1
	}
	cases, res := c.run(cases)
	c.BackwardResults(t, cases, res)
}

// maxTrace is the largest number of events that TLC reads at once.
const maxTrace = 25000

func (c *Ctx) BackwardResults(t TLC, cases []Case, res []Result) {
	for len(cases) > maxTrace {
		c.backwardPart(t, cases[:maxTrace], res[:maxTrace])
		cases, res = cases[maxTrace:], res[maxTrace:]
		if time.Since(c.start) > 40*time.Minute {
			c.log("%d events left unjudged for lack of time", len(cases))
			return
		}
	}
	c.backwardPart(t, cases, res)
}

func (c *Ctx) backwardPart(t TLC, cases []Case, res []Result) {
	before := len(c.violations)
	trace := filepath.Join(c.work, fmt.Sprintf("%s%d.trace", t.Module, c.backward))
	out := trace + ".rej"
	defer os.Remove(trace)
	defer os.Remove(out)
	f, err := os.Create(trace)
	if err != nil {
		fail("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	n := 0
	byID := map[int]int{}
	for i := range cases {
		c.count(cases[i])
		byID[cases[i].ID] = i
		if res[i].St != "ok" { // the specification has no transition for a call that does not return
			c.violate(t.Module, cases[i], res[i], []json.RawMessage{json.RawMessage(`"the call returns normally"`)})
			continue
		}
		if res[i].V[0] == '"' { // the harness saw the code contradict itself
			c.violate(t.Module, cases[i], res[i], []json.RawMessage{json.RawMessage(`"consistent results"`)})
			continue
		}
		n++
		b, _ := json.Marshal(struct {
			ID  int             `json:"id"`
			Op  string          `json:"op"`
			In  json.RawMessage `json:"in"`
			Out json.RawMessage `json:"out"`
		}{cases[i].ID, cases[i].Op, cases[i].In, res[i].V})
		w.Write(b)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
	c.backward += int64(len(cases))
	c.validated += int64(len(cases))
	c.sample(t.Module, cases, res)
	if n == 0 {
		return
	}
	if t.Env == nil {
		t.Env = map[string]string{}
	}
	t.Env["TRACE"] = trace
	t.Out = out
	// A recorded event on which the specification has no value at all (a record
	// without the expected fields, say) is no behaviour of it either.
	undefined := 0
	t.undefined = func(log string) bool {
		if strings.Contains(log, "StackOverflow") || strings.Contains(log, "OutOfMemory") {
			return false
		}
		m := reEvent.FindAllStringSubmatch(log, -1)
		if m == nil {
			m = reEventI.FindAllStringSubmatch(log, -1)
		}
		if m == nil {
			return false
		}
		undefined, _ = strconv.Atoi(m[len(m)-1][1])
		return undefined >= 1 && undefined <= n
	}
	_, distinct := c.tlc(t)
	if undefined > 0 {
		k := 0
		for i := range cases {
			if res[i].St != "ok" || res[i].V[0] == '"' {
				continue
			}
			if k++; k == undefined {
				c.violate(t.Module, cases[i], res[i], []json.RawMessage{json.RawMessage(`"an event the specification can evaluate"`)})
			}
		}
	} else if distinct < int64(n) {
		fail("%s judged only %d of %d events", t.Module, distinct, n)
	}
	exps := map[int][]json.RawMessage{}
	deviation := map[int]string{}
	accepted := map[int]bool{}
	for _, r := range readRejects(out) {
		if _, ok := byID[r.ID]; !ok {
			fail("%s judged unknown event %d", t.Module, r.ID)
		}
		if r.OK {
			accepted[r.ID] = true
		} else {
			exps[r.ID] = append(exps[r.ID], r.Exp...)
			deviation[r.ID] = r.Known
		}
	}
	for i := range cases {
		id := cases[i].ID
		if res[i].St != "ok" || res[i].V[0] == '"' || accepted[id] {
			continue
		}
		e, rejected := exps[id]
		if t.Histories && !rejected && undefined > 0 {
			continue // not reached
		}
		if t.Histories && !rejected {
			e = []json.RawMessage{json.RawMessage(`"no behaviour of the specification ends like this"`)}
		} else if !rejected {
			continue
		}
		n := len(c.violations)
		c.violate(t.Module, cases[i], res[i], e)
		if len(c.violations) > n {
			c.violations[n].Known = deviation[id]
		}
	}
	c.log("validated %d recorded events against %s, %d mismatches", n, t.Module, len(c.violations)-before)
}

// A verdict of a trace specification about one event. Without Histories every
// rejected event is listed; with Histories every way an event can be explained
// is listed as accepted (ok), every other end of a behaviour as an alternative.
type reject struct {
	ID int  `json:"id"`
	OK bool `json:"ok"`
	// Known names the deviation, described in the specification, that the outcome exactly is;
	// whether it is a known finding is up to known_findings.json.
	Known string            `json:"known"`
	Exp   []json.RawMessage `json:"exp"`
}

func readRejects(file string) []reject {
	var out []reject
	readLines(file, func(line []byte) {
		var r reject
		if err := json.Unmarshal(line, &r); err != nil {
			fail("bad reject line %q: %v", line, err)
		}
		out = append(out, r)
	})
	return out
}

func readLines(file string, f func([]byte)) {
	fh, err := os.Open(file)
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		fail("%v", err)
	}
	defer fh.Close()
	r := bufio.NewReaderSize(fh, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 && line[0] == '"' { // CSVWrite prints the string as a TLA+ value
			var inner string
			if e := json.Unmarshal(line, &inner); e != nil {
				fail("bad line %q: %v", line, e)
			}
			line = []byte(inner)
		}
		if len(line) > 0 {
			f(line)
		}
		if err != nil {
			return
		}
	}
}

func readCases(file string) []Case {
	var out []Case
	index := map[string]int{} // several behaviours may start from the same input
	readLines(file, func(line []byte) {
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			fail("bad case line %q: %v", line, err)
		}
		key := c.Op + string(c.In)
		if i, ok := index[key]; ok {
			out[i].Exp = append(out[i].Exp, c.Exp...)
			return
		}
		index[key] = len(out)
		c.ID = len(out) + 1
		out = append(out, c)
	})
	return out
}

func canon(raw json.RawMessage) string {
	var v any
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return "!" + string(raw)
	}
	b, _ := json.Marshal(normalize("", v))
	return string(b)
}

// normalize orders the arrays that stand for sets (keys ending in "_set").
func normalize(key string, v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = normalize(k, x[k])
		}
	case []any:
		for i := range x {
			x[i] = normalize("", x[i])
		}
		if strings.HasSuffix(key, "_set") {
			sort.Slice(x, func(i, j int) bool {
				a, _ := json.Marshal(x[i])
				b, _ := json.Marshal(x[j])
				return string(a) < string(b)
			})
		}
	}
	return v
}

func matches(r Result, exp []json.RawMessage) bool {
	if r.St != "ok" {
		return false
	}
	got := canon(r.V)
	for _, e := range exp {
		if canon(e) == got {
			return true
		}
	}
	return false
}

func (c *Ctx) violate(spec string, cs Case, got Result, exp []json.RawMessage) {
	key := cs.Op + string(cs.In)
	if c.seenViol[key] {
		return
	}
	c.seenViol[key] = true
	c.violations = append(c.violations, Violation{Property: c.id, Spec: spec, Op: cs.Op, In: cs.In, Got: got, Exp: exp})
}

type finding struct {
	Property string          `json:"property"`
	Status   string          `json:"status"` // "known" or "fixed"
	Op       string          `json:"op"`     // the call that fails ...
	In       json.RawMessage `json:"in"`
	Known    string          `json:"deviation"` // ... or the deviation described in the specification
	What     string          `json:"what"`
}

func (c *Ctx) finish() int {
	var known []finding
	if data, err := os.ReadFile(filepath.Join(c.root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(data, &known); err != nil {
			fail("known_findings.json: %v", err)
		}
	}
	if f := os.Getenv("VH_DUMP"); f != "" {
		_ = os.WriteFile(f, mustJSON(c.violations), 0o644)
	}
	var real []Violation
	reported := map[string]bool{}
	for _, v := range c.violations {
		isKnown := false
		for _, k := range known {
			same := k.Known != "" && k.Known == v.Known || k.Known == "" && k.Op == v.Op && canon(k.In) == canon(v.In)
			if k.Status != "known" || !same {
				continue
			}
			if c.racePool != nil && k.Known != "" {
				isKnown = true // wrong alone as well: the matter of another property
			} else if k.Property == c.id {
				isKnown = true
				if !reported[k.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.What)
					reported[k.What] = true
				}
			}
		}
		if !isKnown {
			real = append(real, v)
		}
	}
	// Verdicts come from the real code only: execute the first violations again.
	slow := newPool(4, 60*time.Second, "")
	if c.racePool != nil {
		slow = newRacePool(4, 60*time.Second, c.racePool.bin)
	}
	if len(real) > 200 {
		sort.SliceStable(real, func(i, j int) bool { return len(real[i].In) < len(real[j].In) })
	}
	var confirmed []Violation
	excused := 0
	for i := range real {
		v := real[i]
		if len(confirmed) >= 5 || len(confirmed) > 0 && v.Got.St == "hang" { // repeating a hang takes its time
			break
		}
		res := slow.run([]Case{{Op: v.Op, In: v.In}, {Op: v.Op, In: v.In}})
		again := 0
		for _, r := range res {
			if r.St == v.Got.St && (r.St != "ok" || canon(r.V) == canon(v.Got.V)) {
				again++
			}
		}
		if again == 0 && v.Got.St == "hang" {
			c.notes = append(c.notes, "a call was slow once but returned when repeated; not counted")
			excused++
			continue
		}
		if again == 0 && (v.Got.St == "crash") {
			c.notes = append(c.notes, "a worker ended once but not when repeated; not counted")
			excused++
			continue
		}
		v.Repro = fmt.Sprintf("%d of %d repetitions gave the same outcome", again, len(res))
		confirmed = append(confirmed, v)
	}
	if len(confirmed) > 0 {
		dir := filepath.Join(c.root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range confirmed {
			file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, i+1))
			b, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(file, b, 0o644); err != nil {
				fail("%v", err)
			}
			in, got := string(v.In), string(v.Got.V)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, file)
			fmt.Printf("  %s %s\n  got %s %s %s\n  specification allows %s\n", v.Op, clip(in), v.Got.St, clip(got), v.Got.Msg, clip(joinRaw(v.Exp)))
		}
	} else if len(real) > excused {
		fail("%d suspected violations did not reproduce", len(real))
	}
	c.writeEvidence(len(confirmed), len(real))
	if len(confirmed) > 0 {
		return 1
	}
	c.log("held: %d states, %d real calls/histories validated", c.states, c.validated)
	return 0
}

func short(raw json.RawMessage) any {
	if len(raw) > 6000 {
		return string(raw[:6000]) + "..."
	}
	if len(raw) == 0 {
		return nil
	}
	return raw
}

func clip(s string) string {
	if len(s) > 2500 {
		return s[:2500] + "..."
	}
	return s
}

func (c *Ctx) writeEvidence(confirmed, all int) {
	if c.states == 0 || c.validated == 0 {
		fail("nothing was explored")
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        c.states,
			"transitions":                   c.transitions,
			"traces_validated_against_impl": c.validated,
			"samples":                       c.samples,
			"specifications":                c.specs,
			"behaviours_replayed":           c.forward,
			"events_trace_checked":          c.backward,
			"distinct_inputs":               len(c.distinct),
			"calls_by_operation":            c.opCount,
		},
		"assumptions": append([]string{"TLC evaluates the specification correctly; the Go toolchain and the harness' recording of calls are trusted"}, c.notes...),
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  all,
	}
	_ = os.MkdirAll(filepath.Join(c.root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.root, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		fail("%v", err)
	}
	return b
}

func mk(op string, in any) Case { return Case{Op: op, In: mustJSON(in)} }
