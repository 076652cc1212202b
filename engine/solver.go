package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	SatYes
	SatNo
)

// SolverStats are shared by all workers of a run.
type SolverStats struct {
	queries, sat, unsat, unknown, fallback, crossChecks, crossDisagree atomic.Int64
	nanos                                                              atomic.Int64
	halt                                                               chan struct{} // closed when nothing more needs an answer
	haltOnce                                                           sync.Once
}

func newStats() *SolverStats { return &SolverStats{halt: make(chan struct{})} }

// stopAll ends all queries, those under way included: they come out as unknown.
func (s *SolverStats) stopAll() { s.haltOnce.Do(func() { close(s.halt) }) }

func (s *SolverStats) halted() bool {
	select {
	case <-s.halt:
		return true
	default:
		return false
	}
}

// Solver is one live z3 process, kept in step with a command stream.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	sent    []string
	stats   *SolverStats
	bin     string
	started bool
}

func newSolver(stats *SolverStats) *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{stats: stats, bin: bin}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.sent = nil
	s.started = true
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n")
}

func (s *Solver) close() {
	if s.started {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.started = false
	}
}

const pushCmd = "(push 1)"

// sync brings the process to the state described by the stream.
func (s *Solver) sync(stream []string) {
	if !s.started {
		s.start()
	}
	n := 0
	for n < len(s.sent) && n < len(stream) && s.sent[n] == stream[n] {
		n++
	}
	if n < len(s.sent) {
		// pop back to the last push at or after the divergence
		pops := 0
		cut := len(s.sent)
		for i := len(s.sent) - 1; i >= 0 && cut > n; i-- {
			if s.sent[i] == pushCmd {
				pops++
				cut = i
			}
		}
		if cut > n {
			// no push to go back to: restart
			s.close()
			s.start()
			n = 0
		} else {
			fmt.Fprintf(s.in, "(pop %d)\n", pops)
			s.sent = s.sent[:cut]
			n = cut
		}
	}
	if n < len(stream) {
		var sb strings.Builder
		for _, c := range stream[n:] {
			sb.WriteString(c)
			sb.WriteByte('\n')
			s.sent = append(s.sent, c)
		}
		io.WriteString(s.in, sb.String())
	}
}

func (s *Solver) readLine() (string, error) {
	line, err := s.out.ReadString('\n')
	return strings.TrimSpace(line), err
}

// check decides stream + extra; with vals it also returns values of the named variables.
func (s *Solver) check(stream []string, extra string, timeoutMS int, vals []string) (Sat, map[string]string) {
	if s.stats.halted() {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { s.stats.nanos.Add(int64(time.Since(t0))) }()
	s.stats.queries.Add(1)
	s.sync(stream)
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	if extra != "" {
		sb.WriteString("(assert " + extra + ")\n")
	}
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n(check-sat)\n", timeoutMS)
	io.WriteString(s.in, sb.String())
	done := make(chan struct{})
	// hard guard: z3's own timeout is not always honoured
	proc := s.cmd.Process
	go func() {
		tm := time.NewTimer(time.Duration(timeoutMS)*time.Millisecond*2 + 5*time.Second)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			proc.Kill()
		case <-s.stats.halt:
			proc.Kill()
		}
	}()
	line, err := s.readLine()
	close(done)
	res := Unknown
	if err != nil {
		s.close()
		s.stats.unknown.Add(1)
		return Unknown, nil
	}
	switch line {
	case "sat":
		res = SatYes
	case "unsat":
		res = SatNo
	case "unknown", "timeout":
		res = Unknown
	default:
		fmt.Fprintf(os.Stderr, "solver said %q\n", line)
		if os.Getenv("VERIF_DUMPERR") != "" {
			os.WriteFile(os.Getenv("VERIF_DUMPERR"), []byte(strings.Join(stream, "\n")+"\n(assert "+extra+")\n"), 0o644)
		}
		// an error line: state unknown, restart
		s.close()
		s.stats.unknown.Add(1)
		return Unknown, nil
	}
	var model map[string]string
	if res == SatYes && len(vals) > 0 {
		model = s.getValues(vals)
	}
	if s.started {
		io.WriteString(s.in, "(pop 1)\n")
	}
	switch res {
	case SatYes:
		s.stats.sat.Add(1)
	case SatNo:
		s.stats.unsat.Add(1)
	default:
		s.stats.unknown.Add(1)
	}
	return res, model
}

func (s *Solver) getValues(vals []string) map[string]string {
	io.WriteString(s.in, "(get-value ("+strings.Join(vals, " ")+"))\n")
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	return parseValues(sb.String())
}

// parseValues reads ((name val) (name val) ...).
func parseValues(t string) map[string]string {
	toks := sexpTokens(t)
	pos := 0
	var parse func() any
	parse = func() any {
		if pos >= len(toks) {
			return ""
		}
		if toks[pos] == "(" {
			pos++
			var l []any
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		pos++
		return toks[pos-1]
	}
	root, _ := parse().([]any)
	out := map[string]string{}
	for _, e := range root {
		if p, ok := e.([]any); ok && len(p) == 2 {
			if n, ok := p[0].(string); ok {
				out[n] = strconv.FormatFloat(sexpVal(p[1]), 'g', -1, 64)
			}
		}
	}
	return out
}

func sexpVal(e any) float64 {
	switch x := e.(type) {
	case string:
		if x == "true" {
			return 1
		}
		f, _ := strconv.ParseFloat(strings.TrimSuffix(x, "?"), 64)
		return f
	case []any:
		if len(x) == 2 && x[0] == "-" {
			return -sexpVal(x[1])
		}
		if len(x) == 3 && x[0] == "/" {
			return sexpVal(x[1]) / sexpVal(x[2])
		}
		if len(x) == 2 && x[0] == "to_real" {
			return sexpVal(x[1])
		}
	}
	return 0
}

func sexpTokens(t string) []string {
	var out []string
	i := 0
	for i < len(t) {
		c := t[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(t) && !strings.ContainsRune("() \n\t\r", rune(t[j])) {
				j++
			}
			out = append(out, t[i:j])
			i = j
		}
	}
	return out
}

// script renders stream + extra as a standalone script.
func script(stream []string, extra string, vals []string, logic string) string {
	var sb strings.Builder
	if logic != "" {
		sb.WriteString("(set-logic " + logic + ")\n")
	}
	for _, c := range stream {
		if c != pushCmd {
			sb.WriteString(c + "\n")
		}
	}
	if extra != "" {
		sb.WriteString("(assert " + extra + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vals) > 0 {
		sb.WriteString("(get-value (" + strings.Join(vals, " ") + "))\n")
	}
	return sb.String()
}

var scriptSeq atomic.Int64

// oneShot runs a fresh solver process on the whole problem.
func (s *Solver) oneShot(kind string, stream []string, extra string, timeout time.Duration, vals []string) (Sat, map[string]string) {
	if s.stats.halted() {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { s.stats.nanos.Add(int64(time.Since(t0))) }()
	s.stats.queries.Add(1)
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	go func() {
		select {
		case <-ctx.Done():
		case <-s.stats.halt:
			cancel()
		}
	}()
	var cmd *exec.Cmd
	var text string
	f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-%d-%d.smt2", os.Getpid(), scriptSeq.Add(1)))
	defer os.Remove(f)
	switch kind {
	case "z3":
		text = script(stream, extra, vals, "")
		cmd = exec.CommandContext(ctx, s.bin, "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "pp.decimal=true", "pp.decimal_precision=18", f)
	case "z3old":
		text = script(stream, extra, vals, "")
		cmd = exec.CommandContext(ctx, "z3", "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "pp.decimal=true", "pp.decimal_precision=18", f)
	case "nlsat":
		text = strings.Replace(script(stream, extra, vals, ""), "(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs simplify (or-else (try-for qfnra-nlsat 20000) smt)))", 1)
		cmd = exec.CommandContext(ctx, s.bin, "-smt2", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "pp.decimal=true", "pp.decimal_precision=18", f)
	case "cvc5":
		text = script(stream, extra, nil, "ALL")
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), f)
	}
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		return Unknown, nil
	}
	out, _ := cmd.CombinedOutput()
	o := string(out)
	if strings.Contains(o, "(error") {
		if i := strings.Index(o, "unsat"); i == 0 && len(vals) > 0 {
			// get-value after unsat errors; the verdict came first
			s.stats.unsat.Add(1)
			return SatNo, nil
		}
		s.stats.unknown.Add(1)
		return Unknown, nil
	}
	first, rest, _ := strings.Cut(o, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		s.stats.unsat.Add(1)
		return SatNo, nil
	case "sat":
		s.stats.sat.Add(1)
		if len(vals) > 0 {
			return SatYes, parseValues(rest)
		}
		return SatYes, nil
	}
	s.stats.unknown.Add(1)
	return Unknown, nil
}
