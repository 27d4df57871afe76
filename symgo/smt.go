package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Solver is a pool of z3 processes.
type Solver struct {
	mu      sync.Mutex
	cache   map[[32]byte]*smtRes
	free    chan *z3proc
	Queries int
	Unsat   int
	Sat     int
	Unknown int
	Time    time.Duration
}

type smtRes struct {
	ans   string
	model map[string]string
	done  chan struct{}
}

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

const smtTimeoutMs = 20000

func NewSolver(n int) *Solver {
	s := &Solver{cache: map[[32]byte]*smtRes{}, free: make(chan *z3proc, n)}
	for i := 0; i < n; i++ {
		s.free <- nil
	}
	return s
}

func startZ3() *z3proc {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	c := exec.Command(bin, "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil
	}
	if err := c.Start(); err != nil {
		return nil
	}
	return &z3proc{c, in, bufio.NewReaderSize(out, 1<<20)}
}

func (s *Solver) Check(smt string) (string, map[string]string) {
	h := sha256.Sum256([]byte(smt))
	s.mu.Lock()
	if r, ok := s.cache[h]; ok {
		s.mu.Unlock()
		<-r.done
		return r.ans, r.model
	}
	r := &smtRes{done: make(chan struct{})}
	s.cache[h] = r
	s.mu.Unlock()
	p := <-s.free
	if p == nil {
		p = startZ3()
	}
	t0 := time.Now()
	r.ans = "unknown"
	if p != nil {
		ok := true
		// z3's own timeout is not honoured inside some arithmetic loops
		proc := p.cmd.Process
		kill := time.AfterFunc((smtTimeoutMs+5000)*time.Millisecond, func() { proc.Kill() })
		if os.Getenv("SYMGO_SMT") != "" {
			fmt.Fprintln(os.Stderr, smt)
		}
		fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"--sat\")\n", smtTimeoutMs, smt)
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ok = false
				break
			}
			l = strings.TrimSpace(l)
			if l == "--sat" {
				break
			}
			switch l {
			case "sat", "unsat", "unknown":
				if !strings.HasPrefix(r.ans, "(error") {
					r.ans = l // a query that was not understood has no answer
				}
			default:
				if strings.HasPrefix(l, "(error") {
					r.ans = l
				}
			}
		}
		if ok && r.ans == "sat" {
			fmt.Fprintf(p.in, "(get-model)\n(echo \"--model\")\n")
			var sb strings.Builder
			for {
				l, err := p.out.ReadString('\n')
				if err != nil {
					ok = false
					break
				}
				if strings.TrimSpace(l) == "--model" {
					break
				}
				sb.WriteString(l)
			}
			r.model = parseModel(sb.String())
		}
		kill.Stop()
		if !ok {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			p = nil
		}
	}
	el := time.Since(t0)
	s.free <- p
	s.mu.Lock()
	s.Queries++
	s.Time += el
	switch r.ans {
	case "unsat":
		s.Unsat++
	case "sat":
		s.Sat++
	default:
		s.Unknown++
	}
	s.mu.Unlock()
	close(r.done)
	return r.ans, r.model
}

// parseModel reads (define-fun name () Int value) lines.
func parseModel(m string) map[string]string {
	r := map[string]string{}
	f := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(m))
	for i := 0; i+7 < len(f); i++ {
		if f[i] == "define-fun" && f[i+2] == "(" && f[i+3] == ")" {
			v := f[i+5]
			if v == "(" && f[i+6] == "-" {
				v = "-" + f[i+7]
			}
			r[f[i+1]] = v
		}
	}
	return r
}
