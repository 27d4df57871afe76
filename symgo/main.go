package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pathRes struct {
	fn      *ssa.Function
	choices []int
	points  []Point
	obls    []*Obl
	status  string // ok unsupported panic abandoned internal
	msg     string
	steps   int64
	touched map[string]int64
	stats   map[string]int
	notes   []string
	force   []map[string]uint64
}

func (r *pathRes) label() string {
	var sb strings.Builder
	sb.WriteString(r.fn.Name())
	for i, p := range r.points {
		if p.N > 1 {
			fmt.Fprintf(&sb, " %s=%d", p.Name, r.choices[i])
		}
	}
	return sb.String()
}

func runPath(P *Program, fn *ssa.Function, prefix []int, thorough bool, maxSteps int64, verbose bool) (res *pathRes) {
	it := NewInterp(P)
	it.maxSteps = maxSteps
	it.thorough = thorough
	it.contracts = P.contractsFor(fn.Name())
	h := &HCtx{choices: prefix, fills: map[*Atom]string{}, lemma: map[string]bool{}}
	it.H = h
	res = &pathRes{fn: fn, status: "ok"}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				res.status, res.msg = "unsupported", x.msg
				if verbose {
					res.msg += "\n" + it.where()
				}
			case targetPanic:
				res.status, res.msg = "panic", x.msg
				if i, ok := x.v.P.(*Iface); ok && res.msg == "" {
					if s, ok := i.v.P.(string); ok {
						res.msg = s
					}
				}
				if verbose {
					res.msg += "\n" + it.panicAt
				}
			case abandonT:
				res.status = "abandoned"
			default:
				res.status, res.msg = "internal", fmt.Sprintf("%v", r)
				if verbose {
					res.msg += "\n" + it.where() + string(debug.Stack())
				}
			}
		}
		res.points = h.points
		res.choices = append([]int(nil), prefix...)
		for len(res.choices) < len(h.points) {
			res.choices = append(res.choices, 0)
		}
		res.obls = h.obls
		res.steps = it.steps
		res.touched = it.touched
		res.stats = it.S.stats
		res.notes = h.notes
		if res.status == "abandoned" {
			res.obls = nil
		}
	}()
	it.callSSA(fn, nil, nil, nil)
	return
}

// native replay ------------------------------------------------------------------------------------

type job struct {
	Harness  string
	Choices  []int
	Mode     int
	Seed     int64
	Force    map[string]uint64 `json:",omitempty"`
	Thorough bool
}
type jobRes struct {
	Fails   []string
	Checks  int
	Panic   string
	Abandon bool
	Done    bool
}

// runNative executes jobs in order in one child process; a crash or timeout ends the batch.
func runNative(bin string, jobs []job, limit time.Duration) ([]jobRes, bool) {
	out := make([]jobRes, len(jobs))
	if len(jobs) == 0 {
		return out, true
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	in, _ := json.Marshal(jobs)
	c.Stdin = bytes.NewReader(in)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	i := 0
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "@") || i >= len(out) {
			continue
		}
		json.Unmarshal([]byte(l[1:]), &out[i])
		out[i].Done = true
		i++
	}
	if err != nil && i < len(out) {
		if ctx.Err() != nil {
			out[i].Panic = "TIMEOUT"
		} else {
			m := se.String()
			if len(m) > 400 {
				m = m[:400]
			}
			out[i].Panic = "process died: " + m
			out[i].Done = true
		}
		return out, false
	}
	return out, true
}

type violation struct {
	Property string
	Harness  string
	Label    string
	Job      job
	Fails    []string
	Symbolic []string
	Replay   string
}

// openJobs are the native runs of an undecided path: the solver's counterexamples, then many inputs.
func openJobs(r *pathRes, seed int64, thorough bool) []job {
	var jobs []job
	for _, f := range r.force {
		jobs = append(jobs, job{r.fn.Name(), nil, 0, seed, f, thorough})
		if len(jobs) > 20 {
			break
		}
	}
	var ch []int
	for i, f := range r.points {
		if !strings.HasPrefix(f.Name, "?") { // data-dependent forks do not exist natively
			ch = append(ch, r.choices[i])
		}
	}
	for i := range jobs {
		jobs[i].Choices = ch
	}
	for sd := int64(0); sd < 3; sd++ {
		for m := 0; m < 8; m++ {
			jobs = append(jobs, job{r.fn.Name(), ch, m, seed + sd, nil, thorough})
		}
	}
	return jobs
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "one harness")
	verbose := flag.Bool("v", false, "verbose")
	native := flag.String("native", "", "native replay binary")
	choicesF := flag.String("choices", "", "run one path: comma separated choices")
	budget := flag.Duration("budget", 0, "time budget for exploration")
	replay := flag.String("replay", "", "replay a violation file")
	workers := flag.Int("j", 8, "workers")
	flag.Parse()
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(24 << 30)
	if *replay != "" {
		os.Exit(doReplay(*native, *replay))
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 420 * time.Second
	}
	ev := &evidence{prop: *prop, tier: *tier, seed: seed, dir: filepath.Join(*verif, "evidence"), t0: t0}
	P, err := LoadProgram(filepath.Join(*verif, "harness"))
	if err != nil {
		fmt.Println("INCONCLUSIVE: the code or the harness does not load:", err)
		ev.note = "nothing decided: the code or the harness does not load: " + err.Error()
		ev.write(nil, nil, nil, 0, 0)
		return
	}
	if *verbose {
		fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0))
	}
	fns := P.harnesses(*prop)
	if *only != "" {
		var f2 []*ssa.Function
		for _, f := range fns {
			if f.Name() == *only {
				f2 = append(f2, f)
			}
		}
		fns = f2
	}
	if len(fns) == 0 {
		fmt.Println("no harness for", *prop)
		os.Exit(2)
	}
	deadline := t0.Add(*budget)
	sol := NewSolver(runtime.NumCPU())
	maxSteps := int64(300_000_000)
	if thorough {
		maxSteps = 3_000_000_000
	}

	// explore
	type work struct {
		fn     *ssa.Function
		prefix []int
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []work
	active, big := 0, 0
	isBig := func(f *ssa.Function) bool { return strings.Contains(f.Name(), "_Large") }
	var results []*pathRes
	skipped := 0
	stop := false // a violation has been confirmed on the real code
	forked := map[string]int{}
	probes := 0   // open paths replayed during exploration
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"), *prop)
	probe := func(r *pathRes) bool {
		if *native == "" {
			return false
		}
		mu.Lock()
		p := probes
		probes++
		mu.Unlock()
		if p >= 24 {
			return false
		}
		res, _ := runNative(*native, openJobs(r, seed, thorough), 60*time.Second)
		for _, x := range res {
			if x.Panic != "" && x.Panic != "TIMEOUT" {
				x.Fails = append(x.Fails, "unexpected panic: "+x.Panic)
			}
			for _, f := range x.Fails {
				fresh := true
				for _, k := range known {
					fresh = fresh && !k.match(r.fn.Name(), r.label(), f)
				}
				if fresh {
					return true
				}
			}
		}
		return false
	}
	if *choicesF != "" {
		var cs []int
		for _, x := range strings.Split(*choicesF, ",") {
			v := 0
			fmt.Sscan(x, &v)
			cs = append(cs, v)
		}
		queue = []work{{fns[0], cs}}
	} else {
		for _, f := range fns {
			queue = append(queue, work{f, nil})
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				// take from the front: breadth over harnesses; few of those at large degrees at a time
				at := -1
				for {
					for i, wk := range queue {
						if big < 3 || !isBig(wk.fn) {
							at = i
							break
						}
					}
					if at >= 0 || active == 0 {
						break
					}
					cond.Wait()
				}
				if at < 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				wk := queue[at]
				if at == 0 {
					queue = queue[1:]
				} else {
					queue = append(queue[:at:at], queue[at+1:]...)
				}
				if stop || time.Now().After(deadline) {
					skipped++
					mu.Unlock()
					continue
				}
				active++
				if isBig(wk.fn) {
					big++
				}
				mu.Unlock()
				tp := time.Now()
				r := runPath(P, wk.fn, wk.prefix, thorough, maxSteps, *verbose)
				for _, o := range r.obls {
					if o.Broken != "" {
						o.result = "broken: " + o.Broken
						continue
					}
					ans, model := sol.Check(o.SMT)
					o.result = ans
					if ans == "sat" && len(o.Inputs) > 0 {
						f := map[string]uint64{}
						for _, in := range o.Inputs {
							k := strings.SplitN(in, "=", 2)
							if v, ok := model[k[0]]; ok {
								var u uint64
								fmt.Sscan(v, &u)
								f[k[1]] = u
							}
						}
						if len(f) > 0 {
							r.force = append(r.force, f)
						}
					}
					o.SMT = ""
				}
				if *verbose {
					bad := 0
					for _, o := range r.obls {
						if o.result != "unsat" {
							bad++
						}
					}
					fmt.Fprintf(os.Stderr, "%-60s %s %s obls=%d bad=%d steps=%d %.1fs\n", r.label(), r.status, r.msg, len(r.obls), bad, r.steps, time.Since(tp).Seconds())
					n := 0
					for _, o := range r.obls {
						if o.result != "unsat" {
							n++
							if n > 6 {
								break
							}
							note := o.Note
							if len(note) > 1500 {
								note = note[:1500]
							}
							fmt.Fprintf(os.Stderr, "   %s [%s] %s: %s\n", o.result, o.Kind, o.Name, note)
						}
					}
				}
				bad := r.status != "ok" && r.status != "abandoned"
				for _, o := range r.obls {
					bad = bad || r.status != "abandoned" && o.result != "unsat"
				}
				found := bad && probe(r)
				mu.Lock()
				stop = stop || found
				results = append(results, r)
				if *choicesF == "" {
					for i := len(wk.prefix); i < len(r.points); i++ {
						if r.points[i].Name == "?branch" {
							// data-dependent forks: a bounded number per configuration
							b := 0
							for r.points[b].Name != "?branch" {
								b++
							}
							k := fmt.Sprint(wk.fn.Name(), r.choices[:b])
							if forked[k]++; forked[k] > 24 {
								skipped++
								continue
							}
						}
						for v := 1; v < r.points[i].N; v++ {
							pr := append(append([]int(nil), r.choices[:i]...), v)
							queue = append(queue, work{wk.fn, pr})
						}
					}
				}
				active--
				if isBig(wk.fn) {
					big--
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].label() < results[j].label() })

	// replay
	hit := map[int]bool{}
	var viols []*violation
	var incon []string
	validated := 0
	var open []*pathRes
	var proven []*pathRes
	for _, r := range results {
		if r.status == "abandoned" {
			continue
		}
		bad := r.status != "ok"
		for _, o := range r.obls {
			if o.result != "unsat" {
				bad = true
			}
		}
		if bad {
			open = append(open, r)
		} else {
			proven = append(proven, r)
		}
	}
	if *native != "" {
		// every open path: many inputs; proven paths: a sample, as validation of the encoding
		var pmu sync.Mutex
		sem := make(chan struct{}, 8)
		var rw sync.WaitGroup
		replayPath := func(r *pathRes, jobs []job, sym []string, isOpen bool) {
			defer rw.Done()
			defer func() { <-sem }()
			lim := 60 * time.Second
			if isOpen {
				lim = 120 * time.Second
			}
			res, _ := runNative(*native, jobs, lim)
			pmu.Lock()
			defer pmu.Unlock()
			fresh := false
			for i, x := range res {
				var fails []string
				fails = append(fails, x.Fails...)
				if x.Panic != "" && x.Panic != "TIMEOUT" {
					fails = append(fails, "unexpected panic: "+x.Panic)
				}
				if x.Panic == "TIMEOUT" && r.status == "unsupported" && strings.Contains(r.msg, "step budget") {
					fails = append(fails, "does not terminate")
				}
				if x.Done && len(fails) == 0 {
					if !isOpen {
						validated++
					}
					continue
				}
				if len(fails) == 0 {
					continue
				}
				// known?
				var unk []string
				for _, f := range fails {
					m := -1
					for ki, k := range known {
						if k.match(r.fn.Name(), r.label(), f) {
							m = ki
						}
					}
					if m >= 0 {
						hit[m] = true
					} else {
						unk = append(unk, f)
					}
				}
				if len(unk) > 0 && !fresh {
					fresh = true
					viols = append(viols, &violation{Property: *prop, Harness: r.fn.Name(), Label: r.label(), Job: jobs[i], Fails: unk, Symbolic: sym})
				}
			}
			if isOpen && !fresh {
				allKnown := false
				for _, x := range res {
					if len(x.Fails) > 0 {
						allKnown = true
					}
				}
				if !allKnown {
					incon = append(incon, r.label()+": "+strings.Join(sym, "; "))
				}
			}
		}
		for _, r := range open {
			sym := r.symbolic()
			if time.Since(t0) > *budget+240*time.Second {
				pmu.Lock()
				incon = append(incon, r.label()+": not replayed within the time: "+strings.Join(sym, "; "))
				pmu.Unlock()
				continue
			}
			jobs := openJobs(r, seed, thorough)
			rw.Add(1)
			sem <- struct{}{}
			go replayPath(r, jobs, sym, true)
		}
		step := 1
		maxVal := 60
		if len(proven) > maxVal {
			step = (len(proven) + maxVal - 1) / maxVal
		}
		for i := 0; i < len(proven); i += step {
			r := proven[i]
			var ch []int
			for k, f := range r.points {
				if !strings.HasPrefix(f.Name, "?") {
					ch = append(ch, r.choices[k])
				}
			}
			jobs := []job{{r.fn.Name(), ch, 0, seed, nil, thorough}}
			rw.Add(1)
			sem <- struct{}{}
			go replayPath(r, jobs, nil, false)
		}
		rw.Wait()
	} else {
		for _, r := range open {
			incon = append(incon, r.label()+": "+strings.Join(r.symbolic(), "; "))
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Label < viols[j].Label })
	sort.Strings(incon)

	for i, k := range known {
		if k.fixed {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		_ = i
	}
	for i, v := range viols {
		if i >= 5 {
			break
		}
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		v.Replay = filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(v.Replay, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.Replay)
		fmt.Printf("  %s\n", v.Label)
		for _, f := range v.Fails {
			fmt.Printf("    real code: %s\n", f)
		}
		for k, f := range v.Symbolic {
			if k > 3 {
				break
			}
			fmt.Printf("    solver: %s\n", f)
		}
	}
	for i, s := range incon {
		if i >= 20 {
			break
		}
		if len(s) > 300 {
			s = s[:300]
		}
		fmt.Println("INCONCLUSIVE", s)
	}
	no := 0
	for _, r := range results {
		no += len(r.obls)
	}
	fmt.Printf("%s %s: %d paths (%d proven, %d open, %d inconclusive, %d skipped), %d obligations, %d distinct queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d native validations, %.1fs\n",
		*prop, *tier, len(results), len(proven), len(open), len(incon), skipped, no, sol.Queries, sol.Unsat, sol.Sat, sol.Unknown, sol.Time.Seconds(), validated, time.Since(t0).Seconds())
	ev.sol = sol
	ev.write(results, viols, incon, validated, skipped)
	if len(viols) > 0 {
		os.Exit(1)
	}
}

func (r *pathRes) symbolic() []string {
	var sym []string
	if r.status != "ok" {
		sym = append(sym, r.status+": "+r.msg)
	}
	for _, o := range r.obls {
		if o.result != "unsat" {
			n := o.Note
			if len(n) > 300 {
				n = n[:300]
			}
			sym = append(sym, fmt.Sprintf("%s [%s] %s: %s", o.result, o.Kind, o.Name, n))
			if len(sym) > 8 {
				break
			}
		}
	}
	return sym
}

func doReplay(native, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if json.Unmarshal(b, &v) != nil {
		return 2
	}
	res, _ := runNative(native, []job{v.Job}, 120*time.Second)
	fmt.Println(v.Label)
	for _, f := range res[0].Fails {
		fmt.Println("  fails:", f)
	}
	if res[0].Panic != "" {
		fmt.Println("  panic:", res[0].Panic)
	}
	if len(res[0].Fails) > 0 || res[0].Panic != "" {
		return 1
	}
	return 0
}

// known findings -----------------------------------------------------------------------------------

type knownF struct {
	harness, assert, text string
	fixed                 bool
}

// match: the failing assertion's text contains the listed assertion name and, when given, the
// path label contains the listed choices.
func (k *knownF) match(h, label, fail string) bool {
	if k.fixed || k.harness == "" {
		return false
	}
	hs := strings.SplitN(k.harness, ",", 2)
	if hs[0] != h {
		return false
	}
	if len(hs) == 2 {
		for _, c := range strings.Split(hs[1], ",") {
			if !strings.Contains(label+" ", " "+c+" ") {
				return false
			}
		}
	}
	return strings.HasPrefix(fail, k.assert+":")
}

// Lines: "known: property=C05 harness=NAME[,choice=v...] assert=NAME | text"
//
//	"fixed: property=C05 <commit> text"
func loadKnown(file, prop string) []*knownF {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []*knownF
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		k := &knownF{}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		i := strings.Index(rest, " | ")
		if i < 0 {
			continue
		}
		k.text = rest[i+3:]
		for _, f := range strings.Split(rest[:i], " ; ") {
			f = strings.TrimSpace(f)
			if strings.HasPrefix(f, "harness=") {
				k.harness = f[8:]
			}
			if strings.HasPrefix(f, "assert=") {
				k.assert = f[7:]
			}
		}
		r = append(r, k)
	}
	return r
}

// evidence ---------------------------------------------------------------------------------------

type evidence struct {
	prop, tier, dir, note string
	seed                  int64
	t0                    time.Time
	sol                   *Solver
}

func (e *evidence) write(rs []*pathRes, viols []*violation, incon []string, validated, skipped int) {
	os.MkdirAll(e.dir, 0o755)
	enc := map[string]int64{}
	con := map[string]int64{}
	kinds := map[string]int{}
	stats := map[string]int{}
	steps := int64(0)
	proven, open := 0, 0
	harn := map[string]int{}
	for _, r := range rs {
		steps += r.steps
		harn[r.fn.Name()]++
		bad := r.status != "ok"
		for k, v := range r.touched {
			if strings.HasPrefix(k, "contract:") {
				con[strings.TrimPrefix(k, "contract:")] += v
			} else if strings.Contains(k, "mk-lattigo/") || strings.Contains(k, "lattigo/v2") {
				enc[k] += v
			}
		}
		for _, o := range r.obls {
			kinds[o.Kind]++
			if o.result != "unsat" {
				bad = true
			}
		}
		for k, v := range r.stats {
			stats[k] += v
		}
		if bad {
			open++
		} else if r.status == "ok" {
			proven++
		}
	}
	var encL, conL []string
	for k := range enc {
		if strings.Contains(k, "mk-lattigo/") {
			encL = append(encL, k)
		}
	}
	nLat := len(enc) - len(encL)
	for k := range con {
		if strings.Contains(k, "lattigo") {
			conL = append(conL, k)
		}
	}
	sort.Strings(encL)
	sort.Strings(conL)
	samples := []string{}
	for i := 0; i < len(rs) && len(samples) < 12; i += 1 + len(rs)/12 {
		samples = append(samples, fmt.Sprintf("%s: %s, %d obligations", rs[i].label(), rs[i].status, len(rs[i].obls)))
	}
	cov := map[string]any{
		"states":                        len(rs),
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"harness_paths":                 harn,
		"paths_proven":                  proven,
		"paths_not_proven":              open,
		"paths_skipped_for_time":        skipped,
		"functions_encoded":             encL,
		"lattigo_functions_encoded":     nLat,
		"lattigo_functions_by_contract": conL,
		"obligations_by_kind":           kinds,
		"encoder_statistics":            stats,
		"inconclusive":                  cut(incon, 40),
		"meaning":                       "states = symbolic paths (one per choice of configuration, ID pattern, level, rotation, map order, history); transitions = SSA instructions executed symbolically; every ciphertext, plaintext, key and noise coefficient is symbolic on every path",
	}
	if e.sol != nil {
		cov["queries_discharged"] = e.sol.Queries
		cov["queries_unsat"] = e.sol.Unsat
		cov["queries_sat"] = e.sol.Sat
		cov["queries_unknown"] = e.sol.Unknown
		cov["solver_seconds"] = e.sol.Time.Seconds()
	}
	if e.note != "" {
		cov["note"] = e.note
	}
	bounds := "bounds: ring degree 16, and 32 in the degree and shape harnesses (64 in their thorough tier), all N coefficients symbolic; the parameter sets, levels, numbers of parties (up to four over all combinations, crowds of 72 over a few), party patterns and histories enumerated by the harness choices; CKKS and BFV slot encoders are lattigo's and taken by contract"
	if e.prop == "C23" {
		bounds = "bounds: 8192 slots, every slot value of image, kernels, matrices, mask and bias; up to 8 matrix blocks, the levels and owner patterns of the harness; the evaluator's operations are taken by contract (ckStub_* in harness/h/c23.go: exact arithmetic on slot vectors, decided up to noise by C09 to C14)"
	}
	m := map[string]any{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"lattigo v2.3.0 primitives listed under lattigo_functions_by_contract satisfy their documented contracts",
			"samplers return arbitrary values within their documented range; randomness is otherwise unconstrained",
			bounds,
		},
		"wall_s": time.Since(e.t0).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(e.dir, e.prop+".json"), append(b, '\n'), 0o644)
}

func cut(s []string, n int) []string {
	if s == nil {
		return []string{}
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}
