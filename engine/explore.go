package main

// Exploration: a pool of workers takes decision prefixes from a shared stack, executes
// the harness symbolically along each, and hands violated assertions to the replayer.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type task struct {
	h      *harness
	prefix []int64
}

type harness struct {
	name string
	fn   *ssa.Function

	mu           sync.Mutex
	paths        map[string]int64 // by outcome
	asserts      int64
	queries      int64 // assertion queries discharged
	covers       map[string]int64
	bounds       map[string]bool
	unsup        map[string]int64
	unreprod     map[string]int64
	unknownQ     int64
	simplUnknown int64
	validated    int64
	mismatch     []string
	sample       any
	maxDec       int
	cpu          time.Duration
	firstSample  bool
	steps        int64
}

type candidate struct {
	h      *harness
	msg    string
	inputs map[string]float64
	reply  *reply
}

type Run struct {
	t               *Target
	prop            string
	thorough        bool
	profile         bool
	forkTimeout     int
	assertTimeout   int
	fallbackTimeout int
	stats           *SolverStats
	replayBin       string
	raceOnce        sync.Once
	raceBin         string
	deadline        time.Time
	pathLimit       time.Duration
	seed            int64
	validateEvery   int

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	busy     int
	stop     bool
	timedOut bool
	forks    map[string]int64
	dropped  int
	pops     int

	violation *candidate
	known     []knownFinding
	knownHit  map[string]bool
	decisions int64
	harnesses []*harness
	funcs     map[string]bool
	cross     int64
}

func (r *Run) push(t task) {
	r.mu.Lock()
	r.queue = append(r.queue, t)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() (task, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return task{}, false
		}
		if time.Now().After(r.deadline) && len(r.queue) > 0 {
			r.timedOut = true
			r.dropped += len(r.queue)
			r.stop = true
			r.cond.Broadcast()
			return task{}, false
		}
		if n := len(r.queue); n > 0 {
			// mostly the latest (short queue), but also old and random ones, so that a part of the
			// tree that explodes does not keep the others from being explored within the time limit
			i := n - 1
			switch r.pops++; r.pops % 4 {
			case 1:
				i = (r.pops / 4) % min(n, 64)
			case 3:
				i = rand.Intn(n)
			}
			t := r.queue[i]
			r.queue[i] = r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.busy++
			return t, true
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return task{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	if r.busy == 0 && len(r.queue) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) noteFork(w string) {
	r.mu.Lock()
	r.forks[w]++
	r.mu.Unlock()
}

func (r *Run) report(c *candidate) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.matches(c) {
			r.knownHit[k.text] = true
			return
		}
	}
	if r.violation == nil {
		r.violation = c
	}
	r.stop = true
	r.stats.stopAll()
	r.cond.Broadcast()
}

type Worker struct {
	id      int
	run     *Run
	solver  *Solver
	it      *Interp
	rep     *replayer
	harness *harness
	forks   int64
	rng     *rand.Rand
}

func (r *Run) explore(nw int) {
	r.cond = sync.NewCond(&r.mu)
	for i := len(r.harnesses) - 1; i >= 0; i-- {
		r.queue = append(r.queue, task{r.harnesses[i], nil})
	}
	// wake sleepers at the deadline
	go func() {
		time.Sleep(time.Until(r.deadline) + 100*time.Millisecond)
		time.AfterFunc(20*time.Second, r.stats.stopAll) // paths under way get some time to end
		r.mu.Lock()
		r.cond.Broadcast()
		r.mu.Unlock()
	}()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		w := &Worker{id: i, run: r, solver: newSolver(r.stats), rng: rand.New(rand.NewSource(r.seed*100 + int64(i)))}
		w.it = &Interp{t: r.t, inited: map[*ssa.Package]int{}, methods: map[methodKey]*ssa.Function{}, funcs: map[*ssa.Function]bool{}, maxDep: 300, side: map[string]value{}}
		w.rep = newReplayer(r.replayBin)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t, ok := r.pop()
				if !ok {
					break
				}
				w.path(t)
				r.done()
			}
			w.solver.close()
			w.rep.close()
			r.mu.Lock()
			r.decisions += w.forks
			for f := range w.it.funcs {
				n := f.String()
				if strings.Contains(n, "/zzverif/") {
					continue
				}
				r.funcs[n] = true
			}
			r.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (w *Worker) path(t task) {
	t0 := time.Now()
	w.harness = t.h
	c := newCtx(w)
	c.prefix = t.prefix
	it := w.it
	it.c = c
	it.resetPath()
	it.budget = 3_000_000
	if w.run.thorough {
		it.budget = 12_000_000
	}
	kind, msg := w.execute(c, t.h)
	h := t.h
	var uncaught string
	switch kind {
	case "ok", "failed":
	case "panic":
		uncaught = msg
		w.candidateNow(c, "panic: "+msg)
	case "unsupported", "slow":
		w.auxNative(c, kind+": "+msg)
	case "deadline":
		w.run.mu.Lock()
		w.run.timedOut = true
		w.run.dropped++
		w.run.mu.Unlock()
	case "budget", "depth":
		w.candidateNow(c, kind+": "+msg)
	}
	_ = uncaught
	if kind == "ok" {
		w.validate(c)
	}
	h.mu.Lock()
	h.paths[kind]++
	h.steps += it.steps
	h.asserts += int64(c.asserts)
	h.cpu += time.Since(t0)
	if len(c.taken) > h.maxDec {
		h.maxDec = len(c.taken)
	}
	if kind == "ok" || kind == "failed" {
		for _, s := range c.covers {
			h.covers[s]++
		}
	}
	for _, s := range c.bounds {
		h.bounds[s] = true
	}
	if kind == "unsupported" || kind == "budget" || kind == "depth" || kind == "slow" {
		h.unsup[kind+": "+msg]++
	}
	h.mu.Unlock()
	if d := time.Since(t0); w.run.profile && d > 2*time.Second {
		fmt.Fprintf(os.Stderr, "slow path %s %.1fs %s %v vars=%d\n", h.name, d.Seconds(), kind, c.taken, len(c.vars))
	}
}

func (w *Worker) execute(c *Ctx, h *harness) (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				kind, msg = x.kind, x.msg
			case targetPanic:
				kind, msg = "panic", panicText(x.v)
			default:
				if os.Getenv("VERIF_CRASH") != "" {
					panic(r)
				}
				kind, msg = "unsupported", fmt.Sprintf("engine: %v at %s", r, c.where())
			}
			if kind != "infeasible" && kind != "failed" && len(c.pending) > 0 {
				func() {
					defer func() { recover() }()
					c.flushAsserts()
				}()
			}
		}
	}()
	w.it.call(h.fn, nil, nil, nil)
	c.flushAsserts()
	return "ok", ""
}

// decideAsserts asks whether any pending assertion can fail on this path.
func (w *Worker) decideAsserts(c *Ctx, ps []pendingAssert, any Formula) {
	h := w.harness
	if fc, ok := any.(fConst); ok && !bool(fc) {
		return
	}
	st, in := c.solveFor(any)
	h.mu.Lock()
	h.queries++
	n := h.queries
	h.mu.Unlock()
	if st == SatNo {
		if w.run.thorough && n%16 == 0 {
			w.crossCheck(c, any)
		}
		return
	}
	if os.Getenv("VERIF_DUMP") != "" {
		for _, p := range ps {
			if r, _ := w.solver.check(c.stream, p.b.f.smt(c), 5000, nil); r != SatNo {
				fmt.Fprintf(os.Stderr, "%v %s: %s\n", r, p.msg, p.b.f.smt(c))
			}
		}
	}
	// which assertion?
	var strong []Formula
	for _, p := range ps {
		strong = append(strong, fNot{p.b.t})
	}
	msg := ps[0].msg
	if len(ps) > 1 {
		msg = "one of: "
		for i, p := range ps {
			if i > 5 {
				msg += "..."
				break
			}
			msg += p.msg + "; "
		}
	}
	if st == Unknown {
		h.mu.Lock()
		h.unknownQ++
		h.mu.Unlock()
		w.auxNative(c, "unknown: "+msg)
		return
	}
	key := msg
	h.mu.Lock()
	tries := h.unreprod[key]
	h.mu.Unlock()
	if tries > 40 {
		h.mu.Lock()
		h.unreprod[key]++
		h.mu.Unlock()
		return
	}
	if w.try(c, msg, in) {
		return
	}
	sf := mkOr(strong...)
	if _, ok := sf.(fConst); !ok {
		st2, in2 := c.solveFor(sf)
		if st2 == SatYes {
			if w.try(c, msg, in2) {
				return
			}
			for k := 0; k < 6; k++ {
				fs := []Formula{sf}
				for _, id := range c.inputs {
					v := c.vars[id]
					if v.kind != "float" || w.rng.Intn(2) == 0 {
						continue
					}
					x := v.lo + (v.hi-v.lo)*w.rng.Float64()
					p := polyVar(id).add(polyFloat(x), -1)
					if w.rng.Intn(2) == 0 {
						p = p.scale(floatRat(-1))
					}
					fs = append(fs, &fAtom{p, LE})
				}
				st3, m := c.w.solver.check(c.stream, fAnd(fs).smt(c), c.w.run.forkTimeout, c.inputNames())
				if st3 == SatYes && w.try(c, msg, c.modelInputs(m)) {
					return
				}
			}
		}
	}
	h.mu.Lock()
	h.unreprod[key]++
	h.mu.Unlock()
	if w.run.profile {
		fmt.Fprintf(os.Stderr, "unreproduced %s: %s %v\n", h.name, msg, in)
	}
}

// confirmSimplified puts assertions that polynomial and interval arithmetic decided to
// the solver as well, in their unsimplified form.
func (w *Worker) confirmSimplified(c *Ctx, ss []simplified) {
	h := w.harness
	h.mu.Lock()
	skip := h.simplUnknown >= 5
	h.mu.Unlock()
	if skip {
		h.mu.Lock()
		h.simplUnknown++
		h.mu.Unlock()
		return
	}
	var sb strings.Builder
	sb.WriteString("(or")
	for _, s := range ss {
		t := ratStr(floatRat(s.tol), false)
		d := "(- " + c.polySMT(s.a) + " " + c.polySMT(s.b) + ")"
		sb.WriteString(" (> " + d + " " + t + ") (< " + d + " (- " + t + "))")
	}
	sb.WriteString(" false)")
	st, _ := w.solver.check(c.stream, sb.String(), 1500, nil)
	h.mu.Lock()
	if st == SatNo {
		h.queries++
	} else {
		h.simplUnknown++
	}
	h.mu.Unlock()
}

func (w *Worker) crossCheck(c *Ctx, f Formula) {
	ex := f.smt(c)
	r, _ := w.solver.oneShot("cvc5", c.stream, ex, 10*time.Second, nil)
	w.run.stats.crossChecks.Add(1)
	if r == SatYes {
		w.run.stats.crossDisagree.Add(1)
	}
}

// try replays inputs natively; true when the violation was reproduced.
func (w *Worker) try(c *Ctx, msg string, in map[string]float64) bool {
	var rp *reply
	if strings.HasPrefix(msg, raceMsg) {
		rp = w.run.race(w.harness.name, in, w.run.thorough)
	} else {
		rp = w.rep.run(w.harness.name, in, w.run.thorough)
	}
	if rp.failed() {
		w.run.report(&candidate{w.harness, msg, in, rp})
		return true
	}
	return false
}

// candidateNow: the path condition itself is the violation.
func (w *Worker) candidateNow(c *Ctx, msg string) {
	h := w.harness
	h.mu.Lock()
	tries := h.unreprod[msg]
	h.mu.Unlock()
	if tries > 40 {
		h.mu.Lock()
		h.unreprod[msg]++
		h.mu.Unlock()
		return
	}
	st, in := c.solveFor(nil)
	if st == SatNo {
		return
	}
	if st == SatYes && w.try(c, msg, in) {
		return
	}
	if st == SatYes {
		for k := 0; k < 4; k++ {
			var fs []Formula
			for _, id := range c.inputs {
				v := c.vars[id]
				if v.kind != "float" || w.rng.Intn(2) == 0 {
					continue
				}
				x := v.lo + (v.hi-v.lo)*w.rng.Float64()
				p := polyVar(id).add(polyFloat(x), -1)
				if w.rng.Intn(2) == 0 {
					p = p.scale(floatRat(-1))
				}
				fs = append(fs, &fAtom{p, LE})
			}
			if len(fs) == 0 {
				break
			}
			st3, m := w.solver.check(c.stream, fAnd(fs).smt(c), w.run.forkTimeout, c.inputNames())
			if st3 == SatYes && w.try(c, msg, c.modelInputs(m)) {
				return
			}
		}
	}
	h.mu.Lock()
	h.unreprod[msg]++
	h.mu.Unlock()
	if w.run.profile {
		fmt.Fprintf(os.Stderr, "unreproduced %s: %s %v\n", h.name, msg, in)
	}
}

// auxNative runs the real harness on one model of a path the encoding could not finish.
func (w *Worker) auxNative(c *Ctx, msg string) {
	st, m := w.solver.check(c.stream, "", w.run.forkTimeout, c.inputNames())
	if st != SatYes {
		return
	}
	w.try(c, msg, c.modelInputs(m))
}

// hard tells whether several queries of the harness stayed undecided, so that the slow attempts are not worth the time.
func (h *harness) hard() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.unknownQ >= 6
}

// probe runs the compiled harness, once per path, on a model of the path condition or, without one, on a few inputs with
// the choices made on the path. It comes before the slow attempts at a hard query, can only find a violation and is not counted.
func (w *Worker) probe(c *Ctx) bool {
	if c.probed {
		return false
	}
	c.probed = true
	const msg = "run of the compiled code for an undecided query"
	if st, m := w.solver.check(c.stream, "", w.run.forkTimeout, c.inputNames()); st == SatYes {
		return w.try(c, msg, c.modelInputs(m))
	}
	for _, t := range []float64{0.3, 0.71} {
		m := map[string]string{}
		for _, id := range c.inputs {
			v := c.vars[id]
			x := v.lo
			if v.dom == nil {
				x = v.lo + t*(v.hi-v.lo)
				if v.isInt {
					x = math.Floor(x)
				} else {
					x = math.Floor(x*100) / 100
				}
			} else {
				for x < v.hi && v.dom[int(x)/64]>>(uint(x)%64)&1 == 0 {
					x++
				}
			}
			m[v.name] = fmt.Sprint(x)
		}
		if w.try(c, msg, c.modelInputs(m)) {
			return true
		}
	}
	return false
}

// validate compares the symbolic trace of a sampled path with the real code's.
func (w *Worker) validate(c *Ctx) {
	h := w.harness
	h.mu.Lock()
	n := h.paths["ok"]
	h.mu.Unlock()
	if n >= 12 && n%int64(w.run.validateEvery) != 0 {
		return
	}
	st, m := w.solver.check(c.stream, "", w.run.forkTimeout, c.inputNames())
	if st != SatYes {
		return
	}
	in := c.modelInputs(m)
	rp := w.rep.run(h.name, in, w.run.thorough)
	if rp.failed() {
		w.run.report(&candidate{h, "validation run failed", in, rp})
		return
	}
	h.mu.Lock()
	if h.sample == nil || !h.firstSample {
		h.firstSample = true
		h.sample = map[string]any{"harness": h.name, "inputs": in, "documents": rp.Docs, "assertions": c.asserts}
	}
	h.mu.Unlock()
	if rp.Status == "assume" {
		return // the model does not survive rounding; nothing to compare
	}
	bad := c.compareObs(in, rp.Obs)
	h.mu.Lock()
	if bad == "" {
		h.validated++
	} else if !c.approx {
		h.mismatch = append(h.mismatch, fmt.Sprintf("%s: %s inputs=%v", h.name, bad, in))
	}
	h.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
