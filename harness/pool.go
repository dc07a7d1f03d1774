package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Case is one call (or one history of calls) of the real code.
type Case struct {
	ID  int               `json:"id"`
	Op  string            `json:"op"`
	In  json.RawMessage   `json:"in"`
	Exp []json.RawMessage `json:"exp,omitempty"` // acceptable values of Result.V (forward direction)
}

// A Result is what the real code did: St is "ok", "panic", "hang" or "crash".
type Result struct {
	St  string          `json:"st"`
	V   json.RawMessage `json:"v,omitempty"`
	Msg string          `json:"msg,omitempty"`
}

type opFunc func(in json.RawMessage) any

var ops = map[string]opFunc{}

// reg registers an executor of the real code under a name.
func reg[I, O any](name string, f func(I) O) {
	ops[name] = func(raw json.RawMessage) any {
		var in I
		if err := json.Unmarshal(raw, &in); err != nil {
			panic("harness: bad op input for " + name + ": " + err.Error() + ": " + string(raw))
		}
		return f(in)
	}
}

func workerMain() {
	debug.SetMaxStack(512 << 20)
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	dec := json.NewDecoder(r)
	for {
		var c Case
		if err := dec.Decode(&c); err != nil {
			return
		}
		res := execCase(c)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

func execCase(c Case) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			res = Result{St: "panic", Msg: fmt.Sprint(r)}
		}
	}()
	f, ok := ops[c.Op]
	if !ok {
		return Result{St: "panic", Msg: "harness: unknown op " + c.Op}
	}
	v, err := json.Marshal(f(c.In))
	if err != nil {
		return Result{St: "panic", Msg: "harness: " + err.Error()}
	}
	return Result{St: "ok", V: v}
}

// Pool executes cases in child processes, so that hangs, fatal errors and
// excessive allocations of the code under test are observations, not accidents.
type Pool struct {
	n       int
	timeout time.Duration
	bin     string
	race    bool // bin detects data races
}

type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *head
}

// head keeps the beginning of what is written to it.
type head struct {
	mu sync.Mutex
	b  []byte
}

func (h *head) Write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if n := 6000 - len(h.b); n > 0 {
		h.b = append(h.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func (h *head) String() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return string(h.b)
}

func newPool(n int, timeout time.Duration, bin string) *Pool {
	if bin == "" {
		bin, _ = os.Executable()
	}
	return &Pool{n: n, timeout: timeout, bin: bin}
}

// newRacePool executes cases with the race detector.
func newRacePool(n int, timeout time.Duration, bin string) *Pool {
	p := newPool(n, timeout, bin)
	p.race = true
	return p
}

func (p *Pool) close() {}

func (p *Pool) start() *child {
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 8000000; exec \""+p.bin+"\" worker")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB", "GOTRACEBACK=none")
	errs := &head{}
	if p.race { // the race detector maps a lot of memory
		cmd = exec.Command(p.bin, "worker")
		cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1 exitcode=66 history_size=4", "VH_THREADS=4")
		cmd.Stderr = errs
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(checkError(err.Error()))
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(checkError(err.Error()))
	}
	if os.Getenv("VH_DEBUG") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		panic(checkError(err.Error()))
	}
	return &child{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), err: errs}
}

func (c *child) stop() {
	c.in.Close()
	_ = c.cmd.Process.Kill()
	_ = c.cmd.Wait()
}

// maxHangs is the number of calls that may fail to return before a run ends early.
const maxHangs = 20

func (p *Pool) run(cases []Case) []Result {
	res := make([]Result, len(cases))
	next := make(chan int, 64)
	var hangs atomic.Int64
	var wg sync.WaitGroup
	n := p.n
	if n > len(cases) {
		n = len(cases)
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ch *child
			for i := range next {
				if hangs.Load() > maxHangs {
					res[i] = Result{St: "skip", Msg: "left out"}
					continue
				}
				if ch == nil {
					ch = p.start()
				}
				r, alive := p.one(ch, cases[i])
				res[i] = r
				if r.St == "hang" {
					hangs.Add(1)
				}
				if !alive {
					ch.stop()
					ch = nil
				}
			}
			if ch != nil {
				ch.stop()
			}
		}()
	}
	for i := range cases {
		next <- i
	}
	close(next)
	wg.Wait()
	return res
}

func (p *Pool) one(ch *child, c Case) (Result, bool) {
	b, _ := json.Marshal(Case{ID: c.ID, Op: c.Op, In: c.In})
	type reply struct {
		line []byte
		err  error
	}
	done := make(chan reply, 1)
	go func() {
		if _, err := ch.in.Write(append(b, '\n')); err != nil {
			done <- reply{nil, err}
			return
		}
		line, err := ch.out.ReadBytes('\n')
		done <- reply{line, err}
	}()
	t := time.NewTimer(p.timeout)
	defer t.Stop()
	select {
	case r := <-done:
		if r.err != nil {
			_ = ch.cmd.Wait() // and all its output read
			if msg := ch.err.String(); strings.Contains(msg, "DATA RACE") || strings.Contains(msg, "fatal error: concurrent map") {
				return Result{St: "race", Msg: msg}, false
			}
			return Result{St: "crash", Msg: "the process ended"}, false
		}
		var res Result
		if err := json.Unmarshal(r.line, &res); err != nil {
			return Result{St: "crash", Msg: err.Error()}, false
		}
		return res, true
	case <-t.C:
		_ = ch.cmd.Process.Kill()
		<-done
		return Result{St: "hang", Msg: fmt.Sprintf("no answer within %s", p.timeout)}, false
	}
}
