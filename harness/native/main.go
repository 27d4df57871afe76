// Command native replays harness paths against the real code: a JSON list of jobs on stdin, one
// result line per job on stdout.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"

	"vharness/h"
	"vharness/vsym"
)

type job struct {
	Harness  string
	Choices  []int
	Mode     int
	Seed     int64
	Force    map[string]uint64
	Thorough bool
}
type res struct {
	Fails   []string
	Checks  int
	Panic   string
	Abandon bool
}

func run(j job) (r res) {
	vsym.St = &vsym.State{Choices: j.Choices, Mode: j.Mode, Rnd: rand.New(rand.NewSource(j.Seed*1000 + int64(j.Mode))), Force: j.Force, Thorough: j.Thorough}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(vsym.Abandon); ok {
				r.Abandon = true
			} else {
				r.Panic = fmt.Sprint(x)
				if r.Panic == "" {
					r.Panic = "panic"
				}
				if os.Getenv("NATIVE_STACK") != "" {
					r.Panic += "\n" + string(debug.Stack())
				}
			}
		}
		r.Fails = vsym.St.Fails
		r.Checks = vsym.St.Checks
	}()
	h.All[j.Harness]()
	return
}

func main() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := os.Stdout
	os.Stdout = os.Stderr // the library prints
	for _, j := range jobs {
		b, _ := json.Marshal(run(j))
		fmt.Fprintf(out, "@%s\n", b)
	}
}
