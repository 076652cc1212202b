package main

// Shared memory: nd.Together(f, g) stands for f and g running at the same time. Both are
// executed one after the other, and every store to memory that both can reach (through
// package variables or through what both were given) is noted. When there is none, every
// interleaving of f and g is equivalent to the one executed. A noted store is replayed
// natively with both running as goroutines under the race detector: only a race it finds
// is a violation, so memory guarded by a lock raises no alarm.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const raceMsg = "memory shared by goroutines is changed: "

type sharedMem struct {
	cells map[*value]bool
	maps  map[*mapobj]bool
	hits  []string
	seen  map[string]bool
	quiet int
	other int // stores to memory of their own
}

func newShared() *sharedMem {
	return &sharedMem{cells: map[*value]bool{}, maps: map[*mapobj]bool{}, seen: map[string]bool{}}
}

// reach adds the memory reachable from v.
func (s *sharedMem) reach(v value) {
	switch x := v.(type) {
	case *value:
		s.cell(x)
	case structure:
		for i := range x {
			s.cell(&x[i])
		}
	case array:
		for i := range x {
			s.cell(&x[i])
		}
	case tuple:
		for i := range x {
			s.reach(x[i])
		}
	case []value:
		x = x[:cap(x)]
		for i := range x {
			s.cell(&x[i])
		}
	case iface:
		s.reach(x.v)
	case *closure:
		if x != nil {
			for _, e := range x.env {
				s.reach(e)
			}
		}
	case closure:
		for _, e := range x.env {
			s.reach(e)
		}
	case *mapobj:
		if x == nil || s.maps[x] {
			return
		}
		s.maps[x] = true
		for _, e := range x.ents {
			if !e.deleted {
				s.reach(e.k)
				s.reach(e.v)
			}
		}
	}
}

func (s *sharedMem) cell(p *value) {
	if p == nil || s.cells[p] {
		return
	}
	s.cells[p] = true
	s.reach(*p)
}

func (it *Interp) noteWrite(fr *frame) {
	s := it.shared
	if s.quiet > 0 {
		return
	}
	for f := fr; f != nil; f = f.caller {
		// a write in the standard library is the library's business unless the memory is the repository's
		if f.code != nil && f.code.fn != nil {
			n := f.code.fn.String()
			if !s.seen[n] {
				s.seen[n] = true
				s.hits = append(s.hits, n)
			}
			return
		}
	}
}

func (it *Interp) wrote(p *value, fr *frame) {
	if it.shared.cells[p] {
		it.noteWrite(fr)
	} else {
		it.shared.other++
	}
}

func (it *Interp) wroteAll(ps []value, fr *frame) {
	for i := range ps {
		if it.shared.cells[&ps[i]] {
			it.noteWrite(fr)
			return
		}
	}
	it.shared.other += len(ps)
}

func (it *Interp) wroteMap(m *mapobj, fr *frame) {
	if it.shared.maps[m] {
		it.noteWrite(fr)
	} else {
		it.shared.other++
	}
}

// together executes f and g and asserts that neither changed what they share.
func (it *Interp) together(f, g value, fr *frame) {
	glob := newShared()
	for _, p := range it.t.prog.AllPackages() {
		if p.Pkg == nil || strings.HasPrefix(p.Pkg.Path(), modPath+"/zzverif") || !it.t.isRepoPkg(p) && !strings.Contains(p.Pkg.Path(), "draw2d") {
			continue
		}
		for _, m := range p.Members {
			if v, ok := m.(*ssa.Global); ok && !strings.HasPrefix(v.Name(), "init$") {
				glob.cell(it.global(it.t.globalIndex(v)))
			}
		}
	}
	a, b := newShared(), newShared()
	a.reach(f)
	b.reach(g)
	for p := range a.cells {
		if b.cells[p] {
			glob.cells[p] = true
		}
	}
	for m := range a.maps {
		if b.maps[m] {
			glob.maps[m] = true
		}
	}
	old := it.shared
	it.shared = glob
	defer func() { it.shared = old }()
	it.callValue(f, nil, fr)
	it.callValue(g, nil, fr)
	it.shared = old
	if len(glob.hits) == 0 {
		// Locations are numbered: what is shared first, then what the stores of this path
		// went to. Is there a location in both, under the path condition?
		n, k := len(glob.cells)+len(glob.maps), glob.other
		c := it.c
		c.asserts++
		loc := c.newVar(c.uniq("location"), true, 0, float64(n+k))
		st, _ := c.w.solver.check(c.stream, fmt.Sprintf("(and (<= 0 %[1]s) (< %[1]s %[2]d) (<= %[2]d %[1]s) (< %[1]s %[3]d))", loc.name, n, n+k), c.w.run.assertTimeout, nil)
		h := c.w.harness
		h.mu.Lock()
		if st == SatNo {
			h.queries++
		} else {
			h.unknownQ++
		}
		h.mu.Unlock()
	} else {
		it.c.assert(false, raceMsg+"by "+strings.Join(glob.hits, ", "))
	}
}

// raceBinary builds the replay program with the race detector, once.
func (r *Run) raceBinary() string {
	r.raceOnce.Do(func() {
		bin := r.replayBin + ".race"
		args := append([]string{"build", "-race"}, r.t.buildFlags()...)
		args = append(args, "-o", bin, modPath+"/zzverif/replay")
		cmd := exec.Command("go", args...)
		cmd.Dir = r.t.repo
		cmd.Env = append(goEnv(), "CGO_ENABLED=1")
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building with the race detector: %v\n%s", err, b)
			return
		}
		r.raceBin = bin
	})
	return r.raceBin
}

// race replays the inputs under the race detector.
func (r *Run) race(h string, in map[string]float64, thorough bool) *reply {
	bin := r.raceBinary()
	if bin == "" {
		return &reply{Status: "ok", Msg: "no race detector"}
	}
	return raceRun(bin, h, in, thorough)
}

func raceRun(bin, h string, in map[string]float64, thorough bool) *reply {
	for k := 0; k < 3; k++ {
		p := newReplayer(bin)
		p.env = []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}
		rp := p.once(h, in, thorough, 60*time.Second)
		msg := ""
		if p.errbuf != nil {
			msg = p.errbuf.String()
		}
		p.close()
		for _, w := range []string{"WARNING: DATA RACE", "fatal error: concurrent map"} {
			if i := strings.Index(msg, w); i >= 0 {
				return &reply{Status: "crash", Msg: raceSummary(msg[i:])}
			}
		}
		if rp.Status == "fail" || rp.Status == "panic" {
			return rp
		}
	}
	return &reply{Status: "ok"}
}

// raceSummary is the first lines of the detector's report.
func raceSummary(s string) string {
	var out []string
	for _, l := range bytes.Split([]byte(s), []byte("\n")) {
		t := strings.TrimSpace(string(l))
		if t == "" || strings.HasPrefix(t, "/") || strings.HasPrefix(t, "=") {
			continue
		}
		out = append(out, t)
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "; ")
}
