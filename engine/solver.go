package main

// Solver processes: persistent z3 with (reset) between queries, cvc5 and an older z3 as fall-backs.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	mu      sync.Mutex
	free    []*proc
	Queries int64
	Nanos   int64
	ByTool  map[string]int64
	byMu    sync.Mutex
	cache   sync.Map
	sem     chan struct{}
}

func NewSolver(par int) *Solver {
	return &Solver{ByTool: map[string]int64{}, sem: make(chan struct{}, par)}
}

var z3bin = func() string {
	for _, p := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3-new"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func (s *Solver) get() (*proc, error) {
	s.mu.Lock()
	if n := len(s.free); n > 0 {
		p := s.free[n-1]
		s.free = s.free[:n-1]
		s.mu.Unlock()
		return p, nil
	}
	s.mu.Unlock()
	cmd := exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) kill(p *proc) {
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

func (s *Solver) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.free {
		s.kill(p)
	}
	s.free = nil
}

func (s *Solver) count(tool string) {
	s.byMu.Lock()
	s.ByTool[tool]++
	s.byMu.Unlock()
}

type cached struct {
	r Result
	m string
}

// Check runs one query; returns result and raw model text following the answer.
func (s *Solver) Check(query string, timeout time.Duration, thorough bool) (Result, string) {
	h := sha256.Sum256([]byte(query))
	if v, ok := s.cache.Load(h); ok {
		c := v.(cached)
		return c.r, c.m
	}
	// an undecided query is not tried again with the same effort
	uk := fmt.Sprint(string(h[:]), timeout, thorough)
	if _, ok := s.cache.Load(uk); ok {
		return Unknown, "timeout"
	}
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&s.Nanos, int64(time.Since(t0)))
		atomic.AddInt64(&s.Queries, 1)
	}()
	r, m := s.runZ3(query, timeout)
	tool := "z3-new"
	if r == Unknown && thorough {
		r, m = s.race(query, timeout*3, &tool)
	}
	if r != Unknown {
		s.count(tool)
		s.cache.Store(h, cached{r, m})
	} else {
		s.cache.Store(uk, true)
	}
	if os.Getenv("VF_DUMP") != "" && time.Since(t0) > 700*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%x_%s.smt2", os.Getenv("VF_DUMP"), h[:6], r), []byte(query), 0644)
	}
	return r, m
}

func (s *Solver) runZ3(query string, timeout time.Duration) (Result, string) {
	p, err := s.get()
	if err != nil {
		return Unknown, err.Error()
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	sb.WriteString(query)
	sb.WriteString("(echo \"@done@\")\n")
	type ans struct {
		txt string
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(p.in, sb.String()); err != nil {
			ch <- ans{"", err}
			return
		}
		var out bytes.Buffer
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- ans{out.String(), err}
				return
			}
			if strings.TrimSpace(line) == "@done@" {
				ch <- ans{out.String(), nil}
				return
			}
			out.WriteString(line)
		}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			s.kill(p)
			return Unknown, a.txt
		}
		s.mu.Lock()
		s.free = append(s.free, p)
		s.mu.Unlock()
		return parse(a.txt)
	case <-time.After(timeout + 1500*time.Millisecond):
		s.kill(p)
		return Unknown, "timeout"
	}
}

func parse(txt string) (Result, string) {
	t := strings.TrimSpace(txt)
	if i := strings.Index(t, "(error"); i >= 0 && !strings.HasPrefix(t, "unsat") && !strings.HasPrefix(t, "sat") {
		if os.Getenv("VF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", t)
		}
		return Unknown, t
	}
	if strings.HasPrefix(t, "unsat") {
		return Unsat, ""
	}
	if strings.HasPrefix(t, "sat") {
		return Sat, strings.TrimSpace(t[3:])
	}
	return Unknown, t
}

func (s *Solver) race(query string, timeout time.Duration, tool *string) (Result, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r    Result
		m    string
		tool string
	}
	cmds := map[string][]string{
		"cvc5":        {"cvc5", "--lang=smt2", "--strings-exp", "--produce-models", "-q"},
		"z3-4.8.12":   {"z3", "-in", "-smt2", "-memory:3000"},
		"z3-new/seed": {z3bin, "-in", "-smt2", "-memory:3000", "smt.random_seed=7", "smt.arith.solver=2"},
	}
	ch := make(chan ans, len(cmds))
	for name, c := range cmds {
		go func(name string, c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			q := query
			if name == "cvc5" {
				q = "(set-logic ALL)\n" + q
			}
			cmd.Stdin = strings.NewReader(q)
			out, _ := cmd.Output()
			r, m := parse(string(out))
			ch <- ans{r, m, name}
		}(name, c)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			*tool = a.tool
			return a.r, a.m
		}
	}
	return Unknown, "all solvers gave up"
}
