package main

// Native replay: the harness compiled with the ordinary Go compiler, fed with the
// solver's assignment.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"time"
)

type obsEntry struct {
	L string `json:"l"`
	K string `json:"k"`
	V string `json:"v"`
}

type reply struct {
	Status string     `json:"status"` // ok, fail, panic, assume, crash, timeout
	Msg    string     `json:"msg"`
	Obs    []obsEntry `json:"obs"`
	Docs   []string   `json:"docs"`
}

func (r *reply) failed() bool {
	switch r.Status {
	case "fail", "panic", "crash", "timeout":
		return true
	}
	return false
}

type replayer struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	errbuf  *bytes.Buffer
	timeout time.Duration
	env     []string
}

func newReplayer(bin string) *replayer { return &replayer{bin: bin, timeout: 20 * time.Second} }

func (p *replayer) close() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func (p *replayer) run(h string, in map[string]float64, thorough bool) *reply {
	r := p.once(h, in, thorough, p.timeout)
	if r.Status == "timeout" || r.Status == "crash" {
		// once more, alone and with more time, before believing it
		r2 := p.once(h, in, thorough, 3*p.timeout)
		if r2.Status != r.Status {
			return r2
		}
	}
	return r
}

func (p *replayer) once(h string, in map[string]float64, thorough bool, timeout time.Duration) *reply {
	if p.cmd == nil {
		p.cmd = exec.Command(p.bin)
		var err error
		if p.in, err = p.cmd.StdinPipe(); err != nil {
			panic(err)
		}
		o, err := p.cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		p.errbuf = &bytes.Buffer{}
		p.cmd.Stderr = &tailWriter{b: p.errbuf}
		p.cmd.Env = append(append(os.Environ(), "GOTRACEBACK=none"), p.env...)
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
		p.out = bufio.NewReaderSize(o, 1<<16)
	}
	b, _ := json.Marshal(map[string]any{"harness": h, "inputs": in, "thorough": thorough})
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.close()
		return &reply{Status: "ok", Msg: "replay process gone"}
	}
	proc := p.cmd.Process
	fired := make(chan bool, 1)
	tm := time.AfterFunc(timeout, func() { fired <- true; proc.Kill() })
	line, err := p.out.ReadString('\n')
	tm.Stop()
	if err != nil {
		p.cmd.Wait()
		p.cmd = nil
		select {
		case <-fired:
			return &reply{Status: "timeout", Msg: fmt.Sprintf("did not return within %v", timeout)}
		default:
		}
		msg := p.errbuf.String()
		if i := strings.Index(msg, "\n"); i > 0 {
			msg = msg[:i]
		}
		return &reply{Status: "crash", Msg: "the process died: " + msg}
	}
	var r reply
	if err := json.Unmarshal([]byte(line), &r); err != nil {
		return &reply{Status: "ok", Msg: "bad reply"}
	}
	return &r
}

type tailWriter struct{ b *bytes.Buffer }

func (t *tailWriter) Write(p []byte) (int, error) {
	if t.b.Len() < 4096 {
		t.b.Write(p)
	}
	return len(p), nil
}

// compareObs evaluates the symbolic observations on the inputs and compares.
func (c *Ctx) compareObs(in map[string]float64, got []obsEntry) string {
	if len(got) != len(c.obs) {
		return fmt.Sprintf("%d observations symbolically, %d natively", len(c.obs), len(got))
	}
	ev := c.evaluator(in)
	for i, o := range c.obs {
		g := got[i]
		if o.label != g.L {
			return fmt.Sprintf("observation %d: %q and %q", i, o.label, g.L)
		}
		var want string
		switch v := o.val.(type) {
		case string:
			if c.hasPlaceholder(v) {
				continue
			}
			want = v
		case bool:
			want = fmt.Sprint(v)
		case int64:
			want = fmt.Sprint(v)
		case float64:
			var x float64
			fmt.Sscan(g.V, &x)
			if math.Abs(x-v) > 1e-9*(1+math.Abs(v)) && !(math.IsNaN(x) && math.IsNaN(v)) {
				return fmt.Sprintf("%s: %v and %s", o.label, v, g.V)
			}
			continue
		case *Num:
			var x float64
			fmt.Sscan(g.V, &x)
			y := ev(v.p)
			if math.IsNaN(y) {
				continue
			}
			tol := v.e*2 + 1e-9*(1+math.Abs(y))
			if g.K == "i" {
				tol = 1.01 // a rounding at an integer boundary
			}
			if math.Abs(x-y) > tol {
				return fmt.Sprintf("%s: %v and %s", o.label, y, g.V)
			}
			continue
		case *Tab:
			x := in[c.vars[v.v].input]
			want = fmt.Sprint(v.t[int(x)&255])
		case *SymStr:
			var sb strings.Builder
			for _, b := range v.b {
				switch y := b.(type) {
				case int64:
					sb.WriteByte(byte(y))
				case *Num:
					sb.WriteByte(byte(ev(y.p)))
				case *Tab:
					sb.WriteByte(byte(y.t[int(in[c.vars[y.v].input])&255]))
				}
			}
			want = sb.String()
			if c.hasPlaceholder(want) {
				continue
			}
		default:
			continue
		}
		if want != g.V {
			return fmt.Sprintf("%s: %q and %q", o.label, want, g.V)
		}
	}
	return ""
}

func (c *Ctx) hasPlaceholder(s string) bool {
	for t := range c.texts {
		if strings.Contains(s, t) {
			return true
		}
	}
	return false
}
