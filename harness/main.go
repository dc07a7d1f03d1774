// Command vh binds the TLA+ specifications in /verif/specs to the Go code in /repo.
//
//	vh check -prop P01 -tier quick -seed 1 -root /verif -work DIR   decide a property
//	vh worker                                                       execute real calls (child process)
//	vh replay FILE                                                  re-execute a recorded violation
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|replay|list")
		os.Exit(2)
	}
	// a machine whose zone is not UTC and changes
	loc, err := time.LoadLocation("America/St_Johns")
	if err != nil {
		panic(err)
	}
	time.Local = loc
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "property id")
		tier := fs.String("tier", "quick", "quick or thorough")
		seed := fs.Int64("seed", 1, "seed")
		root := fs.String("root", "/verif", "verification root")
		work := fs.String("work", "", "scratch directory")
		_ = fs.Parse(os.Args[2:])
		os.Exit(checkMain(*prop, *tier, *seed, *root, *work))
	default:
		os.Exit(2)
	}
}

type propFunc func(c *Ctx)

var props = map[string]propFunc{}

func checkMain(id, tier string, seed int64, root, work string) (code int) {
	f, ok := props[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return 2
	}
	c := newCtx(id, tier, seed, root, work)
	defer c.close()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(checkError); ok {
				fmt.Fprintf(os.Stderr, "CHECK ERROR property=%s: %s\n", id, string(e))
				code = 2
				return
			}
			panic(r)
		}
	}()
	f(c)
	return c.finish()
}

func replayMain(file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := newPool(1, 60*time.Second, "")
	defer p.close()
	res := p.run([]Case{{Op: v.Op, In: v.In}})[0]
	fmt.Printf("property: %s\nop:       %s\ninput:    %s\nexpected: %s\nrecorded: %s %s\nnow:      %s %s\n", v.Property, v.Op, v.In, joinRaw(v.Exp), v.Got.St, v.Got.V, res.St, res.V)
	if matches(res, v.Exp) {
		fmt.Println("the real code now conforms to the specification")
		return 0
	}
	fmt.Println("the violation is reproduced")
	return 1
}

func joinRaw(r []json.RawMessage) string {
	s := ""
	for i, x := range r {
		if i > 0 {
			s += "  |  "
		}
		s += string(x)
	}
	return s
}
