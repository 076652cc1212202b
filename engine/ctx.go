package main

// Ctx is the symbolic state of one path: variables, path condition (as a command
// stream for the solver), decisions taken, and arithmetic on symbolic numbers.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"os"
	"strings"
	"time"
)

type pathEnd struct{ kind, msg string }

func abort(kind, format string, args ...any) {
	panic(pathEnd{kind, fmt.Sprintf(format, args...)})
}
func unsupported(format string, args ...any) { abort("unsupported", format, args...) }

type Observation struct {
	label string
	val   value
}

type Ctx struct {
	w          *Worker
	start      time.Time
	simpl      []simplified
	vars       []*Var
	stream     []string
	prefix     []int64 // decisions fixed by the task
	taken      []int64 // decisions taken so far
	npos       int     // next decision
	covers     []string
	bounds     []string
	lastPanic  string
	pending    []pendingAssert
	memo       map[string]any
	nameCnt    map[string]int
	inputs     []int // var ids of inputs, in order
	inputVal   map[string]string
	texts      map[string]*Num // number text placeholders
	textSeq    int
	obs        []Observation
	asserts    int
	sigma      []string // path summary
	unknown    int
	auxEvals   []int
	logCount   int64
	trig       []trigAtom
	fixed      map[string]int64 // concretised inputs
	approx     bool             // path involves atoms whose models need not match the real function
	numStyle   int
	solverUsed bool
	probed     bool
	undecided  int // hard queries on this path
	callStack  []string
	weak       *weakening
}

// weakening collects definitions for a query over a weaker path condition: when that has no
// solution, neither has the exact one.
type weakening struct {
	seen map[int]bool
	defs []string
	used bool
}

type trigAtom struct {
	arg  *Poly
	s, c int
}

func newCtx(w *Worker) *Ctx {
	return &Ctx{w: w, start: time.Now(), stream: []string{pushCmd}, memo: map[string]any{}, nameCnt: map[string]int{}, inputVal: map[string]string{}, texts: map[string]*Num{}, fixed: map[string]int64{}}
}

var debugAtoms = os.Getenv("VERIF_ATOMS") != ""

func (c *Ctx) emit(s string) { c.stream = append(c.stream, s) }

func (c *Ctx) newVar(name string, isInt bool, lo, hi float64) *Var {
	v := &Var{id: len(c.vars), isInt: isInt, lo: lo, hi: hi}
	if v.id >= 65000 {
		unsupported("too many variables")
	}
	v.name = fmt.Sprintf("%s!%d", sanitize(name), v.id)
	if debugAtoms && (name == "atan2" || name == "sin" || name == "sqrt" || name == "recip" || strings.HasPrefix(name, "havoc")) {
		fmt.Fprintf(os.Stderr, "atom %s [%g,%g] at %s\n", v.name, lo, hi, c.where())
	}
	c.vars = append(c.vars, v)
	sort := "Real"
	if isInt {
		sort = "Int"
	}
	c.emit("(declare-const " + v.name + " " + sort + ")")
	return v
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func floatRat(f float64) *big.Rat { r := new(big.Rat); r.SetFloat64(f); return r }

func (c *Ctx) assertBounds(v *Var) {
	if !math.IsInf(v.lo, 0) {
		c.emit("(assert (>= " + v.name + " " + ratStr(floatRat(v.lo), v.isInt) + "))")
	}
	if !math.IsInf(v.hi, 0) {
		c.emit("(assert (<= " + v.name + " " + ratStr(floatRat(v.hi), v.isInt) + "))")
	}
}

func (c *Ctx) uniq(name string) string {
	k := c.nameCnt[name]
	c.nameCnt[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (c *Ctx) inputFloat(name string, lo, hi float64) value {
	name = c.uniq(name)
	v := c.newVar(name, false, lo, hi)
	v.input, v.kind = name, "float"
	c.assertBounds(v)
	c.inputs = append(c.inputs, v.id)
	return &Num{p: polyVar(v.id), lo: lo, hi: hi}
}

func (c *Ctx) inputInt(name string, lo, hi int64) value {
	name = c.uniq(name)
	if lo == hi {
		c.fixed[name] = lo
		return lo
	}
	v := c.newVar(name, true, float64(lo), float64(hi))
	v.input, v.kind = name, "int"
	c.assertBounds(v)
	if lo >= 0 && hi < 256 {
		v.dom = new([4]uint64)
		for x := lo; x <= hi; x++ {
			domSet(v.dom, int(x))
		}
	}
	c.inputs = append(c.inputs, v.id)
	return &Num{p: polyVar(v.id), lo: float64(lo), hi: float64(hi)}
}

func (c *Ctx) inputByte(name string, alphabet string) value {
	name = c.uniq(name)
	v := c.newVar(name, true, 0, 255)
	v.input, v.kind = name, "byte"
	v.dom = new([4]uint64)
	lo, hi := 255, 0
	for i := 0; i < len(alphabet); i++ {
		b := int(alphabet[i])
		domSet(v.dom, b)
		lo = min(lo, b)
		hi = max(hi, b)
	}
	v.lo, v.hi = float64(lo), float64(hi)
	c.emit("(assert " + (&fIn{v.id, *v.dom}).smt(c) + ")")
	c.inputs = append(c.inputs, v.id)
	return &Num{p: polyVar(v.id), lo: v.lo, hi: v.hi}
}

// ---- path condition ----

// assume adds f to the path condition and refines domains and intervals.
func (c *Ctx) assume(f Formula, definitional bool) {
	if fc, ok := f.(fConst); ok {
		if !fc {
			abort("infeasible", "")
		}
		return
	}
	c.emit("(assert " + f.smt(c) + ")")
	if definitional {
		return
	}
	seen := map[int]bool{}
	formulaVars(f, seen)
	if len(seen) > 1 {
		for v := range seen {
			c.vars[v].coupled = true
		}
		return
	}
	for id := range seen {
		v := c.vars[id]
		if v.dom != nil {
			nd := new([4]uint64)
			lo, hi := 256, -1
			for x := 0; x < 256; x++ {
				if domHas(v.dom, x) && evalFormula1(f, id, int64(x)) {
					domSet(nd, x)
					if lo == 256 {
						lo = x
					}
					hi = x
				}
			}
			if hi < 0 {
				abort("infeasible", "")
			}
			v.dom = nd
			v.lo, v.hi = float64(lo), float64(hi)
		} else {
			c.refine(f, v)
		}
	}
}

// define records constraints that define auxiliary variables; they go to the solver when
// one of the variables first occurs in a formula.
func (c *Ctx) define(f Formula, vs ...*Var) {
	if fc, ok := f.(fConst); ok && bool(fc) {
		return
	}
	d := &lazyDef{f: f}
	for _, v := range vs {
		v.defs = append(v.defs, d)
	}
}

func (c *Ctx) twin(v *Var) {
	v.twin = true
	c.emit("(declare-const w_" + v.name + " Real)")
}

func (c *Ctx) emitDefs(v *Var) {
	if c.weak != nil {
		if c.weak.seen[v.id] {
			return
		}
		c.weak.seen[v.id] = true
		if v.twin {
			c.weak.used = true
			c.weak.defs = append(c.weak.defs, v.weak.smt(c))
			return
		}
		for _, d := range v.defs {
			c.weak.defs = append(c.weak.defs, d.f.smt(c))
		}
		return
	}
	ds := v.defs
	v.defs = nil
	for _, d := range ds {
		if !d.done {
			d.done = true
			c.emit("(assert " + d.f.smt(c) + ")")
		}
	}
}

// refine tightens the interval of v from single-variable linear atoms.
func (c *Ctx) refine(f Formula, v *Var) {
	switch g := f.(type) {
	case fAnd:
		for _, h := range g {
			c.refine(h, v)
		}
	case *fAtom:
		if len(g.p.ts) == 0 || len(g.p.ts) > 2 || !g.p.linear() {
			return
		}
		var a, b *big.Rat = nil, ratZero
		for _, t := range g.p.ts {
			if t.m == "" {
				b = t.c
			} else {
				a = t.c
			}
		}
		if a == nil {
			return
		}
		// a*v + b op 0
		r := new(big.Rat).Quo(new(big.Rat).Neg(b), a)
		x, _ := r.Float64()
		up := x + math.Abs(x)*3e-16
		dn := x - math.Abs(x)*3e-16
		if x == math.Trunc(x) && math.Abs(x) < 1e15 && r.IsInt() {
			up, dn = x, x
		}
		switch g.op {
		case EQ:
			v.lo, v.hi = math.Max(v.lo, dn), math.Min(v.hi, up)
		case LE, LT:
			if a.Sign() > 0 {
				v.hi = math.Min(v.hi, up)
			} else {
				v.lo = math.Max(v.lo, dn)
			}
		}
	}
}

func (c *Ctx) checkSat(extra Formula, timeoutMS int) Sat {
	ex := ""
	if extra != nil {
		ex = extra.smt(c)
	}
	c.solverUsed = true
	r, _ := c.w.solver.check(c.stream, ex, timeoutMS, nil)
	return r
}

// decide takes the next decision: in the replayed part of the path it is known,
// otherwise feasible() computes the alternatives.
func (c *Ctx) decide(feasible func() []int64) int64 {
	if c.npos < len(c.prefix) {
		r := c.prefix[c.npos]
		c.npos++
		c.taken = append(c.taken, r)
		return r
	}
	if now := time.Now(); now.After(c.w.run.deadline) || c.w.run.stats.halted() {
		abort("deadline", "")
	} else if now.Sub(c.start) > c.w.run.pathLimit {
		abort("slow", "at %s", c.where())
	}
	alts := feasible()
	if len(alts) == 0 {
		abort("infeasible", "")
	}
	for i := len(alts) - 1; i >= 1; i-- {
		p := make([]int64, len(c.taken)+1)
		copy(p, c.taken)
		p[len(c.taken)] = alts[i]
		c.w.run.push(task{c.w.harness, p})
	}
	c.taken = append(c.taken, alts[0])
	c.npos++
	if len(alts) > 1 {
		c.w.forks += int64(len(alts) - 1)
		if c.w.run.profile {
			c.w.run.noteFork(c.where())
		}
	}
	return alts[0]
}

type pendingAssert struct {
	b   *SymBool
	msg string
}

// assert records an assertion of the harness; it is decided at the next flush.
func (c *Ctx) assert(v value, msg string) {
	c.asserts++
	switch b := v.(type) {
	case bool:
		if !b {
			c.flushAsserts()
			c.w.candidateNow(c, msg)
			abort("failed", "%s", msg)
		}
	case *SymBool:
		c.pending = append(c.pending, pendingAssert{b, msg})
	default:
		unsupported("assertion over %T", v)
	}
}

// flushAsserts decides all pending assertions under the current path condition.
func (c *Ctx) flushAsserts() {
	if len(c.simpl) > 0 {
		ss := c.simpl
		c.simpl = nil
		c.w.confirmSimplified(c, ss)
	}
	if len(c.pending) == 0 {
		return
	}
	ps := c.pending
	c.pending = nil
	// assertions over many different auxiliary variables go to the solver in groups
	const group = 24
	aux := map[int]bool{}
	for _, p := range ps {
		formulaVars(p.b.f, aux)
	}
	for len(ps) > 0 {
		n := len(ps)
		if len(aux) > 60 && n > group {
			n = group
		}
		var fs []Formula
		for _, p := range ps[:n] {
			fs = append(fs, p.b.f)
		}
		c.w.decideAsserts(c, ps[:n], mkOr(fs...))
		ps = ps[n:]
	}
}

func (c *Ctx) where() string {
	if n := len(c.callStack); n > 0 {
		k := n - 4
		if k < 0 {
			k = 0
		}
		return strings.Join(c.callStack[k:], " > ")
	}
	return "?"
}

// singleDom returns the variable if the formulas involve exactly one domain variable
// that is not related to others on this path.
func (c *Ctx) singleDom(fs ...Formula) *Var {
	seen := map[int]bool{}
	for _, f := range fs {
		formulaVars(f, seen)
	}
	if len(seen) != 1 {
		return nil
	}
	for id := range seen {
		v := c.vars[id]
		if v.dom != nil && !v.coupled {
			return v
		}
	}
	return nil
}

// branch forks on a symbolic boolean.
func (c *Ctx) branch(b *SymBool) bool {
	if t, ok := b.t.(fConst); ok {
		if !bool(t) {
			return false
		}
	}
	if f, ok := b.f.(fConst); ok {
		if !bool(f) {
			return true
		}
	}
	if v := c.singleDom(b.t, b.f); v != nil {
		nt, nf := 0, 0
		for x := 0; x < 256; x++ {
			if domHas(v.dom, x) {
				if evalFormula1(b.t, v.id, int64(x)) {
					nt++
				}
				if evalFormula1(b.f, v.id, int64(x)) {
					nf++
				}
			}
		}
		if nf == 0 {
			return true
		}
		if nt == 0 {
			return false
		}
		r := c.decide(func() []int64 { return []int64{1, 0} })
		c.emit(pushCmd)
		if r == 1 {
			c.assume(b.t, false)
		} else {
			c.assume(b.f, false)
		}
		return r == 1
	}
	r := c.decide(func() []int64 {
		st := c.checkSat(b.t, c.w.run.forkTimeout)
		sf := SatYes
		if st != SatNo {
			sf = c.checkSat(b.f, c.w.run.forkTimeout)
		}
		if st == Unknown || sf == Unknown {
			c.unknown++
		}
		var alts []int64
		if st != SatNo {
			alts = append(alts, 1)
		}
		if sf != SatNo {
			alts = append(alts, 0)
		}
		return alts
	})
	c.emit(pushCmd)
	if r == 1 {
		c.assume(b.t, false)
	} else {
		c.assume(b.f, false)
	}
	return r == 1
}

// concretize forks over all feasible values of an integer.
func (c *Ctx) concretize(n *Num) int64 {
	if n.p.isConst() {
		return ratInt(n.p.constVal())
	}
	vs := n.p.vars()
	if len(vs) == 1 && c.vars[vs[0]].dom != nil && !c.vars[vs[0]].coupled {
		v := c.vars[vs[0]]
		// group by result
		var alts []int64
		groups := map[int64]*[4]uint64{}
		for x := 0; x < 256; x++ {
			if domHas(v.dom, x) {
				r := ratInt(evalPoly1(n.p, int64(x)))
				if groups[r] == nil {
					groups[r] = new([4]uint64)
					alts = append(alts, r)
				}
				domSet(groups[r], x)
			}
		}
		if len(alts) == 1 {
			return alts[0]
		}
		r := c.decide(func() []int64 { return alts })
		c.emit(pushCmd)
		c.assume(&fIn{v.id, *groups[r]}, false)
		return r
	}
	r := c.decide(func() []int64 {
		var alts []int64
		fs := fAnd{}
		// the value as a polynomial, by repeated models
		aux := c.polySMT(n.p)
		for {
			ex := ""
			if len(fs) > 0 {
				ex = fs.smt(c)
			}
			st, m := c.w.solver.check(c.stream, ex, 10000, []string{aux})
			c.solverUsed = true
			if st == SatNo {
				break
			}
			if st == Unknown || m == nil {
				unsupported("cannot enumerate values of a symbolic integer")
			}
			var x float64
			for _, s := range m {
				fmt.Sscan(s, &x)
			}
			// get-value of a compound term is keyed by the term's own rendering; take the only entry
			alts = append(alts, int64(x))
			fs = append(fs, &fAtom{n.p.add(polyInt(int64(x)), -1), NE})
			if len(alts) > 400 {
				unsupported("more than 400 values for a symbolic integer")
			}
		}
		return alts
	})
	c.emit(pushCmd)
	c.assume(&fAtom{n.p.add(polyInt(r), -1), EQ}, false)
	return r
}

func ratInt(r *big.Rat) int64 {
	if !r.IsInt() {
		q := new(big.Int).Quo(r.Num(), r.Denom())
		return q.Int64()
	}
	return r.Num().Int64()
}

// chooseGroup forks over result classes of a single-domain-variable term: fn maps the
// variable's value to a class; returns the class taken.
func (c *Ctx) chooseGroup(v *Var, fn func(x int) int64) int64 {
	var alts []int64
	groups := map[int64]*[4]uint64{}
	for x := 0; x < 256; x++ {
		if domHas(v.dom, x) {
			r := fn(x)
			if groups[r] == nil {
				groups[r] = new([4]uint64)
				alts = append(alts, r)
			}
			domSet(groups[r], x)
		}
	}
	if len(alts) == 1 {
		return alts[0]
	}
	r := c.decide(func() []int64 {
		if !v.coupled {
			return alts
		}
		var out []int64
		for _, a := range alts {
			if c.checkSat(&fIn{v.id, *groups[a]}, c.w.run.forkTimeout) != SatNo {
				out = append(out, a)
			}
		}
		return out
	})
	c.emit(pushCmd)
	c.assume(&fIn{v.id, *groups[r]}, false)
	return r
}

// ---- models ----

func (c *Ctx) inputNames() []string {
	var out []string
	for _, id := range c.inputs {
		out = append(out, c.vars[id].name)
	}
	return out
}

// modelInputs converts solver values into harness inputs.
func (c *Ctx) modelInputs(m map[string]string) map[string]float64 {
	out := map[string]float64{}
	for n, v := range c.fixed {
		out[n] = float64(v)
	}
	for _, id := range c.inputs {
		v := c.vars[id]
		var x float64
		if s, ok := m[v.name]; ok {
			fmt.Sscan(s, &x)
		} else {
			x = v.lo
		}
		out[v.input] = x
	}
	return out
}

// solveFor decides path condition and f, and returns inputs when satisfiable.
func (c *Ctx) solveFor(f Formula) (Sat, map[string]float64) {
	ex := ""
	c.solverUsed = true
	if c.undecided >= 2 {
		return Unknown, nil // this path is inconclusive already
	}
	if f != nil {
		c.weak = &weakening{seen: map[int]bool{}}
		ex = f.smt(c)
		w := c.weak
		c.weak = nil
		if w.used {
			q := "(and " + strings.Join(w.defs, " ") + " " + ex + ")"
			if r, _ := c.w.solver.check(c.stream, q, c.w.run.assertTimeout, nil); r == SatNo {
				return r, nil
			} else if d := os.Getenv("VERIF_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/weak-%d.smt2", d, scriptSeq.Add(1)), []byte(script(c.stream, q, nil, "")), 0o644)
			}
		}
		ex = f.smt(c)
	}
	names := c.inputNames()
	r, m := c.w.solver.check(c.stream, ex, c.w.run.assertTimeout, names)
	if r == SatYes {
		return r, c.modelInputs(m)
	}
	if r == SatNo {
		return r, nil
	}
	c.w.run.stats.fallback.Add(1)
	if c.w.probe(c) {
		return Unknown, nil
	}
	if c.w.harness.hard() {
		c.undecided++
		return Unknown, nil
	}
	for _, k := range []string{"z3", "nlsat", "cvc5"} {
		r, m = c.w.solver.oneShot(k, c.stream, ex, time.Duration(c.w.run.fallbackTimeout)*time.Millisecond, names)
		if r == SatNo {
			return r, nil
		}
		if r == SatYes {
			if m == nil {
				continue
			}
			return r, c.modelInputs(m)
		}
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/unknown-%d.smt2", d, scriptSeq.Add(1)), []byte(script(c.stream, ex, nil, "")), 0o644)
	}
	c.undecided++
	return Unknown, nil
}

// ---- arithmetic on machine numbers ----

const u64 = 1.1102230246251565e-16
const u32 = 5.960464477539063e-08

func unit(bits int) float64 {
	if bits == 32 {
		return u32
	}
	return u64
}

func mantissa(bits int) float64 {
	if bits == 32 {
		return 1 << 24
	}
	return 1 << 53
}

func (c *Ctx) asNum(v value) *Num {
	switch x := v.(type) {
	case *Num:
		return x
	case int64:
		return &Num{p: polyInt(x), lo: float64(x), hi: float64(x)}
	case float64:
		return &Num{p: polyFloat(x), lo: x, hi: x}
	}
	unsupported("asNum of %T", v)
	return nil
}

func isSpecial(v value) bool {
	f, ok := v.(float64)
	return ok && (math.IsNaN(f) || math.IsInf(f, 0))
}

// gridExact: p is a sum of integer variables with dyadic coefficients, so that with
// magnitude mag it is exactly representable with the given mantissa.
func (c *Ctx) gridExact(p *Poly, mag float64, bits int) bool {
	shift := 0
	for _, t := range p.ts {
		d := t.c.Denom()
		bl := d.BitLen()
		if d.TrailingZeroBits() != uint(bl-1) {
			return false
		}
		if bl-1 > shift {
			shift = bl - 1
		}
		for _, v := range t.m.vars() {
			if !c.vars[v].isInt {
				return false
			}
		}
	}
	return math.Ldexp(mag, shift) < mantissa(bits)
}

func (c *Ctx) mkFloat(p *Poly, lo, hi, e float64, bits int, round bool) value {
	l2, h2 := c.polyInterval(p)
	lo, hi = math.Max(lo, l2), math.Min(hi, h2)
	if lo > hi {
		lo, hi = l2, h2
	}
	n := &Num{p: p, lo: lo, hi: hi, e: e}
	if round && !(e == 0 && c.gridExact(p, n.mag(), bits)) {
		n.e += unit(bits) * (n.mag() + e) * (1 + 1e-9)
	}
	if p.isConst() {
		f, exact := p.constVal().Float64()
		if bits == 32 {
			g := float64(float32(f))
			exact = exact && g == f
			f = g
		}
		if exact && e == 0 {
			return f
		}
	}
	if math.IsInf(n.e, 0) || math.IsNaN(n.e) {
		return c.havocFloat("unbounded")
	}
	return n
}

// havocFloat is an arbitrary finite machine number.
func (c *Ctx) havocFloat(why string) value {
	c.approx = true
	v := c.newVar("havoc_"+why, false, math.Inf(-1), math.Inf(1))
	v.coupled = true
	return &Num{p: polyVar(v.id), lo: math.Inf(-1), hi: math.Inf(1)}
}

func pow2(r *big.Rat) bool {
	a := new(big.Rat).Abs(r)
	if a.Sign() == 0 {
		return true
	}
	n, d := a.Num(), a.Denom()
	one := func(x *big.Int) bool { return x.TrailingZeroBits() == uint(x.BitLen()-1) }
	return one(n) && one(d)
}

func (c *Ctx) floatOp(op string, a, b value, bits int) value {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && okb {
		var r float64
		switch op {
		case "+":
			r = fa + fb
		case "-":
			r = fa - fb
		case "*":
			r = fa * fb
		case "/":
			r = fa / fb
		}
		if bits == 32 {
			r = float64(float32(r))
		}
		return r
	}
	if isSpecial(a) || isSpecial(b) {
		return c.specialOp(op, a, b)
	}
	x, y := c.asNum(a), c.asNum(b)
	switch op {
	case "+", "-":
		if oka && fa == 0 && op == "+" {
			return b
		}
		if okb && fb == 0 {
			return a
		}
		if op == "-" && x == y {
			return 0.0
		}
		if op == "+" {
			return c.mkFloat(x.p.add(y.p, 1), x.lo+y.lo, x.hi+y.hi, x.e+y.e, bits, true)
		}
		return c.mkFloat(x.p.add(y.p, -1), x.lo-y.hi, x.hi-y.lo, x.e+y.e, bits, true)
	case "*":
		if oka && fa == 0 || okb && fb == 0 {
			return 0.0
		}
		lo, hi := mulIv(x.lo, x.hi, y.lo, y.hi)
		e := x.mag()*y.e + y.mag()*x.e + x.e*y.e
		if x.e == 0 && y.e == 0 {
			e = 0
		}
		exact := oka && pow2(floatRat(fa)) || okb && pow2(floatRat(fb))
		return c.mkFloat(c.mulPoly(x.p, y.p), lo, hi, e, bits, !exact)
	case "/":
		if okb {
			if fb == 0 {
				return c.divZero(x)
			}
			r := new(big.Rat).Inv(floatRat(fb))
			q := x.p.scale(r)
			lo, hi := x.lo/fb, x.hi/fb
			if lo > hi {
				lo, hi = hi, lo
			}
			return c.mkFloat(q, lo, hi, x.e/math.Abs(fb), bits, !pow2(r))
		}
		return c.divNum(x, y, bits)
	}
	panic(op)
}

func (c *Ctx) divZero(x *Num) value {
	if c.branch(c.cmp("==", x, 0.0)) {
		return math.NaN()
	}
	if c.branch(c.cmp("<", x, 0.0)) {
		return math.Inf(-1)
	}
	return math.Inf(1)
}

func (c *Ctx) divNum(x, y *Num, bits int) value {
	if y.lo-y.e <= 0 && y.hi+y.e >= 0 {
		if c.branch(c.cmp("==", y, 0.0)) {
			return c.divZero(x)
		}
	}
	if x.p.isZero() && x.e == 0 {
		return 0.0
	}
	// constant ratio?
	if len(x.p.ts) == len(y.p.ts) && len(x.p.ts) > 0 && x.e == 0 && y.e == 0 {
		r := new(big.Rat).Quo(x.p.ts[0].c, y.p.ts[0].c)
		if y.p.scale(r).add(x.p, -1).isZero() {
			f, _ := r.Float64()
			return c.mkFloat(polyConst(r), f-math.Abs(f)*u64, f+math.Abs(f)*u64, 0, bits, true)
		}
	}
	// proportional up to rounding?
	if len(x.p.ts) == len(y.p.ts) && len(x.p.ts) > 0 && (x.e != 0 || y.e != 0) {
		r := new(big.Rat).Quo(x.p.ts[0].c, y.p.ts[0].c)
		if y.p.scale(r).add(x.p, -1).isZero() {
			if ymin := c.minAbs(y); ymin > 2*y.e {
				f, _ := r.Float64()
				e := (x.e + math.Abs(f)*y.e) / (ymin - y.e)
				return c.mkFloat(polyConst(r), f-math.Abs(f)*u64, f+math.Abs(f)*u64, e, bits, true)
			}
		}
	}
	ylo, yhi := y.lo, y.hi
	lo, hi := math.Inf(-1), math.Inf(1)
	ymin := 0.0
	if ylo > 0 || yhi < 0 {
		ymin = math.Min(math.Abs(ylo), math.Abs(yhi))
		a := []float64{x.lo / ylo, x.lo / yhi, x.hi / ylo, x.hi / yhi}
		lo, hi = a[0], a[0]
		for _, q := range a[1:] {
			lo, hi = math.Min(lo, q), math.Max(hi, q)
		}
		lo, hi = widen(lo, hi)
	} else if x.e != 0 || y.e != 0 {
		ymin = c.minAbs(y)
		if ymin > 0 {
			m := x.mag() / ymin
			lo, hi = widen(-m, m)
		}
	}
	inv := c.recip(y, ymin)
	q := c.mulPoly(x.p, inv)
	e := 0.0
	if x.e != 0 || y.e != 0 {
		if ymin == 0 || ymin <= y.e {
			return c.havocFloat("div")
		}
		e = (x.e + math.Max(math.Abs(lo), math.Abs(hi))*y.e) / (ymin - y.e)
	}
	return c.mkFloat(q, lo, hi, e, bits, true)
}

// minAbs is a lower bound of |y| on this path, asking the solver when the interval does not tell.
func (c *Ctx) minAbs(y *Num) float64 {
	if y.lo > 0 || y.hi < 0 {
		return math.Min(math.Abs(y.lo), math.Abs(y.hi))
	}
	key := "minabs|" + y.p.key()
	if m, ok := c.memo[key]; ok {
		return m.(float64)
	}
	r := 0.0
	neg := y.p.scale(big.NewRat(-1, 1))
	for _, t := range []float64{0.99, 0.99 / 16, 0.99 / 128, 0.99 / 1024, 0.99 / 65536} {
		p := polyFloat(t)
		if c.checkSat(fAnd{&fAtom{y.p.add(p, -1), LT}, &fAtom{neg.add(p, -1), LT}}, 500) == SatNo {
			r = t
			break
		}
	}
	c.memo[key] = r
	return r
}

// recip is an atom for 1/y.
func (c *Ctx) recip(y *Num, ymin float64) *Poly {
	// multiples of a polynomial share the atom
	if n := len(y.p.ts); n > 0 && y.p.ts[n-1].c.Cmp(ratOne) != 0 {
		k := y.p.ts[n-1].c
		inv := new(big.Rat).Inv(k)
		f, _ := k.Float64()
		lo, hi := y.lo/f, y.hi/f
		if lo > hi {
			lo, hi = hi, lo
		}
		lo, hi = widen(lo, hi)
		if y.lo > 0 || y.hi < 0 {
			if f > 0 == (y.lo > 0) {
				lo = math.Max(lo, 1e-300)
			} else {
				hi = math.Min(hi, -1e-300)
			}
		}
		return c.recip(&Num{p: y.p.scale(inv), lo: lo, hi: hi}, ymin/math.Abs(f)*(1-1e-12)).scale(inv)
	}
	key := "recip|" + y.p.key()
	if m, ok := c.memo[key]; ok {
		return m.(*Poly)
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if y.lo > 0 || y.hi < 0 {
		lo, hi = widen(1/y.hi, 1/y.lo)
	} else if ymin > 0 {
		lo, hi = widen(-1/ymin, 1/ymin)
	}
	v := c.newVar("recip", false, lo, hi)
	v.coupled = true
	yp := y.p
	v.eval = func(ev func(*Poly) float64) float64 { return 1 / ev(yp) }
	p := polyVar(v.id)
	c.define(&fAtom{c.mulPoly(p, y.p).add(polyInt(1), -1), EQ}, v)
	c.assertBounds(v)
	// rewrite by the largest monomial (degree first), unless it contains a rewritten atom itself
	best := -1
	for i, t := range y.p.ts {
		bad := false
		for _, id := range t.m.vars() {
			if c.vars[id].rule != nil || c.vars[id].square != nil {
				bad = true
			}
		}
		if bad {
			best = -1
			break
		}
		if best < 0 || len(t.m) > len(y.p.ts[best].m) || len(t.m) == len(y.p.ts[best].m) && t.m > y.p.ts[best].m {
			best = i
		}
	}
	if best >= 0 && len(y.p.ts[best].m) > 0 {
		lt := y.p.ts[best]
		rest := y.p.add(&Poly{[]term{lt}}, -1)
		rp := polyInt(1).add(p.mulRaw(rest), -1).scale(new(big.Rat).Inv(lt.c))
		v.rule = &rule{lt.m, rp}
	}
	c.memo[key] = p
	return p
}

func (c *Ctx) specialOp(op string, a, b value) value {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && math.IsNaN(fa) || okb && math.IsNaN(fb) {
		return math.NaN()
	}
	// one infinite, the other a symbolic (finite) number
	switch op {
	case "+":
		if oka && math.IsInf(fa, 0) {
			return fa
		}
		return fb
	case "-":
		if oka && math.IsInf(fa, 0) {
			return fa
		}
		return -fb
	case "*", "/":
		if op == "/" && okb && math.IsInf(fb, 0) {
			return 0.0
		}
		inf, n := fa, b
		if !(oka && math.IsInf(fa, 0)) {
			inf, n = fb, a
		}
		if c.branch(c.cmp("==", n, 0.0)) {
			if op == "*" {
				return math.NaN()
			}
			return inf
		}
		if c.branch(c.cmp("<", n, 0.0)) {
			return -inf
		}
		return inf
	}
	panic(op)
}

func (c *Ctx) negFloat(a value) value {
	if f, ok := a.(float64); ok {
		return -f
	}
	n := a.(*Num)
	return &Num{p: n.p.scale(big.NewRat(-1, 1)), lo: -n.hi, hi: -n.lo, e: n.e}
}

// cmp compares two numbers (ints or floats). Result: bool or *SymBool via cmpV.
func (c *Ctx) cmp(op string, a, b value) *SymBool {
	switch r := c.cmpV(op, a, b).(type) {
	case bool:
		return &SymBool{fConst(r), fConst(!r)}
	case *SymBool:
		return r
	}
	panic("cmp")
}

func (c *Ctx) cmpV(op string, a, b value) value {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && okb {
		switch op {
		case "==":
			return fa == fb
		case "!=":
			return fa != fb
		case "<":
			return fa < fb
		case "<=":
			return fa <= fb
		case ">":
			return fa > fb
		case ">=":
			return fa >= fb
		}
	}
	if isSpecial(a) || isSpecial(b) {
		// compare with a representative finite number
		rep := func(v value) float64 {
			if f, ok := v.(float64); ok {
				return f
			}
			return 0
		}
		return c.cmpV(op, rep(a), rep(b))
	}
	x, y := c.asNum(a), c.asNum(b)
	switch op {
	case ">":
		return c.cmpV("<", b, a)
	case ">=":
		return c.cmpV("<=", b, a)
	case "!=":
		switch r := c.cmpV("==", a, b).(type) {
		case bool:
			return !r
		case *SymBool:
			return negB(r)
		}
	}
	d := x.p.add(y.p, -1)
	e := x.e + y.e
	lo, hi := c.polyInterval(d)
	if l, h := widen(x.lo-y.hi, x.hi-y.lo); true {
		lo, hi = math.Max(lo, l), math.Min(hi, h)
	}
	er := polyFloat(e)
	var t, f Formula
	switch op {
	case "<":
		t = c.atom(d.add(er, -1), LT, lo-e, hi-e)
		f = c.atom(d.scale(big.NewRat(-1, 1)).add(er, -1), LE, -hi-e, -lo-e)
	case "<=":
		t = c.atom(d.add(er, -1), LE, lo-e, hi-e)
		f = c.atom(d.scale(big.NewRat(-1, 1)).add(er, -1), LT, -hi-e, -lo-e)
	case "==":
		if e == 0 {
			t = c.atom(d, EQ, lo, hi)
			f = c.atom(d, NE, lo, hi)
		} else {
			t = mkAnd(c.atom(d.add(er, -1), LE, lo-e, hi-e), c.atom(d.scale(big.NewRat(-1, 1)).add(er, -1), LE, -hi-e, -lo-e))
			f = fConst(true)
		}
	}
	if tc, ok := t.(fConst); ok && !bool(tc) {
		return false
	}
	if fc, ok := f.(fConst); ok && !bool(fc) {
		return true
	}
	return &SymBool{t, f}
}

// atom builds poly op 0, folded by constants and interval.
func (c *Ctx) atom(p *Poly, op Op, lo, hi float64) Formula {
	if p.isConst() {
		return fConst(signOp(p.constVal().Sign(), op))
	}
	eps := 1e-12 * (math.Abs(lo) + math.Abs(hi))
	if math.IsInf(eps, 0) || math.IsNaN(eps) {
		eps = 0
	}
	if lo > eps {
		return fConst(op == NE)
	}
	if hi < -eps {
		return fConst(op != EQ)
	}
	return &fAtom{p, op}
}

// ---- integers ----

type intKind struct {
	bits   int
	signed bool
}

func (k intKind) min() float64 {
	if !k.signed {
		return 0
	}
	return -math.Ldexp(1, k.bits-1)
}
func (k intKind) max() float64 {
	if !k.signed {
		return math.Ldexp(1, k.bits) - 1
	}
	return math.Ldexp(1, k.bits-1) - 1
}

func (k intKind) normalize(x int64) int64 {
	switch k.bits {
	case 8:
		if k.signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	case 16:
		if k.signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 32:
		if k.signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	}
	return x
}

func (c *Ctx) mkInt(p *Poly, lo, hi float64, k intKind) value {
	l2, h2 := c.polyInterval(p)
	lo, hi = math.Max(lo, l2), math.Min(hi, h2)
	if p.isConst() {
		r := p.constVal()
		if r.IsInt() && r.Num().IsInt64() {
			return k.normalize(r.Num().Int64())
		}
		unsupported("big integer constant")
	}
	n := &Num{p: p, lo: lo, hi: hi}
	return c.wrapInt(n, k)
}

// wrapInt reduces n modulo 2^bits into the type's range.
func (c *Ctx) wrapInt(n *Num, k intKind) value {
	if n.lo >= k.min() && n.hi <= k.max() {
		return n
	}
	m := math.Ldexp(1, k.bits)
	key := fmt.Sprintf("wrap|%d|%v|%s", k.bits, k.signed, n.p.key())
	if v, ok := c.memo[key]; ok {
		return v.(value)
	}
	kl, kh := math.Floor((n.lo-k.min())/m), math.Floor((n.hi-k.min())/m)
	v := c.newVar("wrap", true, kl, kh)
	v.coupled = true
	mr := floatRat(m)
	p := n.p.add(polyVar(v.id).scale(mr), -1)
	np, kmin := n.p, k.min()
	v.eval = func(ev func(*Poly) float64) float64 { return math.Floor((ev(np) - kmin) / m) }
	c.assume(&fAtom{polyFloat(k.min()).add(p, -1), LE}, true)
	c.assume(&fAtom{p.add(polyFloat(k.max()), -1), LE}, true)
	c.assertBounds(v)
	r := &Num{p: p, lo: k.min(), hi: k.max()}
	c.memo[key] = r
	return r
}

// floorDiv returns floor(n/d) for a positive constant d.
func (c *Ctx) floorDiv(n *Num, d int64) *Num {
	key := fmt.Sprintf("fdiv|%d|%s", d, n.p.key())
	if v, ok := c.memo[key]; ok {
		return v.(*Num)
	}
	lo, hi := math.Floor(n.lo/float64(d)), math.Floor(n.hi/float64(d))
	v := c.newVar("q", true, lo, hi)
	v.coupled = true
	np := n.p
	v.eval = func(ev func(*Poly) float64) float64 { return math.Floor(ev(np) / float64(d)) }
	dq := polyVar(v.id).scale(new(big.Rat).SetInt64(d))
	c.define(&fAtom{dq.add(n.p, -1), LE}, v) // dq - n <= 0
	c.twin(v)
	v.weak = mkAnd(&fAtom{dq.add(n.p, -1), LE}, &fAtom{n.p.add(dq, -1).add(polyInt(d-1), -1), LE})
	c.define(&fAtom{n.p.add(dq, -1).add(polyInt(d-1), -1), LE}, v) // n - dq <= d-1
	c.assertBounds(v)
	r := &Num{p: polyVar(v.id), lo: lo, hi: hi}
	c.memo[key] = r
	return r
}

// truncDiv returns the truncated quotient n/d, d a non-zero constant.
func (c *Ctx) truncDiv(n *Num, d int64) *Num {
	neg := d < 0
	if neg {
		d = -d
	}
	var q *Num
	switch {
	case n.lo >= 0:
		q = c.floorDiv(n, d)
	case n.hi <= 0:
		m := &Num{p: n.p.scale(big.NewRat(-1, 1)), lo: -n.hi, hi: -n.lo}
		f := c.floorDiv(m, d)
		q = &Num{p: f.p.scale(big.NewRat(-1, 1)), lo: -f.hi, hi: -f.lo}
	default:
		key := fmt.Sprintf("tdiv|%d|%s", d, n.p.key())
		if v, ok := c.memo[key]; ok {
			q = v.(*Num)
			break
		}
		lo, hi := math.Trunc(n.lo/float64(d)), math.Trunc(n.hi/float64(d))
		v := c.newVar("q", true, lo, hi)
		v.coupled = true
		np := n.p
		v.eval = func(ev func(*Poly) float64) float64 { return math.Trunc(ev(np) / float64(d)) }
		dq := polyVar(v.id).scale(new(big.Rat).SetInt64(d))
		r := n.p.add(dq, -1)
		rn := r.scale(big.NewRat(-1, 1))
		nneg := n.p.scale(big.NewRat(-1, 1))
		dm := polyInt(d - 1)
		c.define(mkOr(
			mkAnd(&fAtom{nneg, LE}, &fAtom{rn, LE}, &fAtom{r.add(dm, -1), LE}),
			mkAnd(&fAtom{n.p, LT}, &fAtom{r, LE}, &fAtom{rn.add(dm, -1), LE})), v)
		c.twin(v)
		v.weak = mkAnd(&fAtom{r.add(dm, -1), LE}, &fAtom{rn.add(dm, -1), LE})
		c.assertBounds(v)
		q = &Num{p: polyVar(v.id), lo: lo, hi: hi}
		c.memo[key] = q
	}
	if neg {
		q = &Num{p: q.p.scale(big.NewRat(-1, 1)), lo: -q.hi, hi: -q.lo}
	}
	return q
}

func (c *Ctx) intOp(op string, a, b value, k intKind) value {
	ia, oka := a.(int64)
	ib, okb := b.(int64)
	if oka && okb {
		return concreteIntOp(op, ia, ib, k)
	}
	x, y := c.asNum(a), c.asNum(b)
	switch op {
	case "+":
		return c.mkInt(x.p.add(y.p, 1), x.lo+y.lo, x.hi+y.hi, k)
	case "-":
		return c.mkInt(x.p.add(y.p, -1), x.lo-y.hi, x.hi-y.lo, k)
	case "*":
		lo, hi := mulIv(x.lo, x.hi, y.lo, y.hi)
		return c.mkInt(c.mulPoly(x.p, y.p), lo, hi, k)
	case "/", "%":
		if !okb {
			ib = c.concretize(y)
		}
		if ib == 0 {
			panic(targetPanic{runtimeErr("integer divide by zero")})
		}
		if oka {
			return concreteIntOp(op, ia, ib, k)
		}
		q := c.truncDiv(x, ib)
		if op == "/" {
			return c.mkInt(q.p, q.lo, q.hi, k)
		}
		r := x.p.add(q.p.scale(new(big.Rat).SetInt64(ib)), -1)
		ab := math.Abs(float64(ib)) - 1
		lo, hi := -ab, ab
		if x.lo >= 0 {
			lo = 0
		}
		if x.hi <= 0 {
			hi = 0
		}
		return c.mkIntIv(r, lo, hi, k)
	case "<<", ">>":
		if !okb {
			ib = c.concretize(y)
		}
		if oka {
			return concreteIntOp(op, ia, ib, k)
		}
		if op == "<<" {
			if ib >= 62 {
				unsupported("shift by %d", ib)
			}
			return c.intOp("*", a, int64(1)<<uint(ib), k)
		}
		if ib >= 62 {
			unsupported("shift by %d", ib)
		}
		q := c.floorDiv(x, int64(1)<<uint(ib))
		return c.mkInt(q.p, q.lo, q.hi, k)
	case "&":
		m, n := ib, x
		okm := okb
		if oka {
			m, n, okm = ia, y, true
		}
		if okm && m >= 0 && n.lo >= 0 {
			if m == 0 {
				return int64(0)
			}
			if (m+1)&m == 0 { // low mask
				if n.hi <= float64(m) {
					return n
				}
				q := c.floorDiv(n, m+1)
				r := n.p.add(q.p.scale(new(big.Rat).SetInt64(m+1)), -1)
				return c.mkIntIv(r, 0, float64(m), k)
			}
		}
	}
	if op == "|" || op == "^" {
		// bits that cannot overlap: an addition
		if x.lo >= 0 && y.lo >= 0 && (y.hi < math.Ldexp(1, c.zeroBits(a)) || x.hi < math.Ldexp(1, c.zeroBits(b))) {
			return c.intOp("+", a, b, k)
		}
	}
	// everything else: concretise
	if !oka {
		ia = c.concretize(x)
	}
	if !okb {
		ib = c.concretize(y)
	}
	return concreteIntOp(op, ia, ib, k)
}

// zeroBits is a number of low bits of a that are always zero.
func (c *Ctx) zeroBits(a value) int {
	n := 62
	low := func(i int64) {
		if z := bits.TrailingZeros64(uint64(i)); z < n {
			n = z
		}
	}
	if i, ok := a.(int64); ok {
		low(i)
		return n
	}
	if v, fn := c.oneDom(a); v != nil {
		for i := 0; i < 256; i++ {
			if domHas(v.dom, i) {
				low(fn(i))
			}
		}
		return n
	}
	if x, ok := a.(*Num); ok && x.e == 0 && c.polyInt(x.p) {
		for _, t := range x.p.ts {
			if !t.c.IsInt() || !t.c.Num().IsInt64() {
				return 0
			}
			low(t.c.Num().Int64())
		}
		return n
	}
	return 0
}

// mkIntIv is mkInt with an interval known to be valid although wider terms suggest otherwise.
func (c *Ctx) mkIntIv(p *Poly, lo, hi float64, k intKind) value {
	if p.isConst() {
		return c.mkInt(p, lo, hi, k)
	}
	return c.wrapInt(&Num{p: p, lo: lo, hi: hi}, k)
}

func concreteIntOp(op string, a, b int64, k intKind) value {
	if !k.signed {
		ua, ub := uint64(a), uint64(b)
		switch op {
		case "/":
			if ub == 0 {
				panic(targetPanic{runtimeErr("integer divide by zero")})
			}
			return k.normalize(int64(ua / ub))
		case "%":
			if ub == 0 {
				panic(targetPanic{runtimeErr("integer divide by zero")})
			}
			return k.normalize(int64(ua % ub))
		case ">>":
			if ub >= 64 {
				return int64(0)
			}
			return k.normalize(int64(ua >> ub))
		}
	}
	switch op {
	case "+":
		return k.normalize(a + b)
	case "-":
		return k.normalize(a - b)
	case "*":
		return k.normalize(a * b)
	case "/":
		if b == 0 {
			panic(targetPanic{runtimeErr("integer divide by zero")})
		}
		return k.normalize(a / b)
	case "%":
		if b == 0 {
			panic(targetPanic{runtimeErr("integer divide by zero")})
		}
		return k.normalize(a % b)
	case "<<":
		if b < 0 {
			panic(targetPanic{runtimeErr("negative shift amount")})
		}
		if b >= 64 {
			return int64(0)
		}
		return k.normalize(a << uint(b))
	case ">>":
		if b < 0 {
			panic(targetPanic{runtimeErr("negative shift amount")})
		}
		if b >= 64 {
			b = 63
		}
		return k.normalize(a >> uint(b))
	case "&":
		return k.normalize(a & b)
	case "|":
		return k.normalize(a | b)
	case "^":
		return k.normalize(a ^ b)
	case "&^":
		return k.normalize(a &^ b)
	}
	panic("int op " + op)
}

// ---- conversions ----

func (c *Ctx) intToFloat(v value, bits int) value {
	switch x := v.(type) {
	case int64:
		if bits == 32 {
			return float64(float32(x))
		}
		return float64(x)
	case *Num:
		return c.mkFloat(x.p, x.lo, x.hi, 0, bits, true)
	}
	panic("intToFloat")
}

func (c *Ctx) floatToFloat(v value, bits int) value {
	switch x := v.(type) {
	case float64:
		if bits == 32 {
			return float64(float32(x))
		}
		return x
	case *Num:
		if bits == 64 {
			return x
		}
		return c.mkFloat(x.p, x.lo, x.hi, x.e, 32, true)
	}
	panic("floatToFloat")
}

// floatToInt truncates toward zero.
func (c *Ctx) floatToInt(v value, k intKind) value {
	if f, ok := v.(float64); ok {
		if math.IsNaN(f) || math.IsInf(f, 0) || math.Trunc(f) < k.min() || math.Trunc(f) > k.max() {
			return concreteFloatToInt(f, k)
		}
		return k.normalize(int64(f))
	}
	x := v.(*Num)
	if x.lo-x.e <= k.min()-1 || x.hi+x.e >= k.max()+1 {
		in := &SymBool{
			mkAnd(c.cmp(">", x, k.min()-1).t, c.cmp("<", x, k.max()+1).t),
			mkOr(c.cmp(">", x, k.min()-1).f, c.cmp("<", x, k.max()+1).f)}
		if !c.branch(in) {
			// implementation-defined in Go: any value
			c.approx = true
			nv := c.newVar("conv_undef", true, k.min(), k.max())
			nv.coupled = true
			c.assertBounds(nv)
			return &Num{p: polyVar(nv.id), lo: nv.lo, hi: nv.hi}
		}
	}
	if x.e == 0 && c.polyInt(x.p) {
		return &Num{p: x.p, lo: math.Max(x.lo, k.min()), hi: math.Min(x.hi, k.max())}
	}
	return c.truncNum(x, k.min(), k.max())
}

func (c *Ctx) truncNum(x *Num, kmin, kmax float64) *Num {
	key := fmt.Sprintf("trunc|%g|%s", x.e, x.p.key())
	if m, ok := c.memo[key]; ok {
		return m.(*Num)
	}
	lo, hi := math.Trunc(x.lo-x.e), math.Trunc(x.hi+x.e)
	if math.IsNaN(lo) {
		lo = math.Inf(-1)
	}
	if math.IsNaN(hi) {
		hi = math.Inf(1)
	}
	lo, hi = math.Max(lo, kmin), math.Min(hi, kmax)
	if x.p.isConst() && hi-lo < 4 {
		r := lo
		if lo < hi { // a constant known up to rounding: any of the neighbours
			c.approx = true
			r = float64(c.decide(func() []int64 {
				var alts []int64
				for k := lo; k <= hi; k++ {
					alts = append(alts, int64(k))
				}
				return alts
			}))
			c.emit(pushCmd)
		}
		return &Num{p: polyFloat(r), lo: r, hi: r}
	}
	if lo == hi {
		return &Num{p: polyFloat(lo), lo: lo, hi: hi}
	}
	v := c.newVar("trunc", true, lo, hi)
	v.coupled = true
	xp := x.p
	v.eval = func(ev func(*Poly) float64) float64 { return math.Trunc(ev(xp)) }
	n := polyVar(v.id)
	e := polyFloat(x.e)
	nneg := n.scale(big.NewRat(-1, 1))
	one := polyInt(1)
	pos := mkAnd(
		&fAtom{nneg, LE},                                   // n >= 0
		&fAtom{n.add(x.p, -1).add(e, -1), LE},              // n <= P+e
		&fAtom{x.p.add(n, -1).add(one, -1).add(e, -1), LT}) // P-e < n+1
	neg := mkAnd(
		&fAtom{n, LE},                                      // n <= 0
		&fAtom{x.p.add(n, -1).add(e, -1), LE},              // n >= P-e
		&fAtom{n.add(x.p, -1).add(one, -1).add(e, -1), LT}) // n-1 < P+e
	var def Formula = mkOr(pos, neg)
	if x.lo-x.e > 0 {
		def = pos
	} else if x.hi+x.e < 0 {
		def = neg
	}
	c.define(def, v)
	if true {
		c.twin(v)
		v.weak = mkAnd(&fAtom{n.add(x.p, -1).add(one, -1).add(e, -1), LT}, &fAtom{x.p.add(n, -1).add(one, -1).add(e, -1), LT})
	}
	c.assertBounds(v)
	r := &Num{p: n, lo: lo, hi: hi}
	c.memo[key] = r
	return r
}

func concreteFloatToInt(f float64, k intKind) int64 {
	switch k.bits {
	case 8:
		if k.signed {
			return int64(int8(f))
		}
		return int64(uint8(f))
	case 16:
		if k.signed {
			return int64(int16(f))
		}
		return int64(uint16(f))
	case 32:
		if k.signed {
			return int64(int32(f))
		}
		return int64(uint32(f))
	}
	if k.signed {
		return int64(f)
	}
	return int64(uint64(f))
}

// ---- elementary functions ----

func (c *Ctx) math1(name string, v value, native func(float64) float64) value {
	if f, ok := v.(float64); ok {
		return native(f)
	}
	x := v.(*Num)
	if x.p.isConst() {
		f, _ := x.p.constVal().Float64()
		r := native(f)
		// Lipschitz bound is at most 1 for sin/cos; others go through the general route below
		if name == "sin" || name == "cos" {
			return c.mkFloat(polyFloat(r), r, r, x.e+4*u64, 64, false)
		}
		if name == "tan" && math.Abs(f) < 1.4 && x.e < 1e-3 {
			return c.mkFloat(polyFloat(r), r, r, (1+r*r)*(1.1*x.e+4*u64), 64, false)
		}
	}
	switch name {
	case "abs":
		if c.branch(c.cmp("<", x, 0.0)) {
			return c.negFloat(x)
		}
		return x
	case "sqrt":
		return c.sqrt(x)
	case "sin", "cos":
		s, cc, d := c.sincos(x)
		id := s
		if name == "cos" {
			id = cc
		}
		vv := c.vars[id]
		return c.mkFloat(polyVar(id), vv.lo, vv.hi, x.e+d+2*u64, 64, false)
	case "tan":
		return c.tan(x)
	case "floor", "ceil", "trunc", "round":
		t := c.truncNum(x, math.Inf(-1), math.Inf(1))
		if name == "trunc" {
			return c.mkFloat(t.p, t.lo, t.hi, 0, 64, false)
		}
		if name == "floor" {
			if c.branch(c.cmp("<", x, t)) {
				return c.mkFloat(t.p.add(polyInt(1), -1), t.lo-1, t.hi-1, 0, 64, false)
			}
			return c.mkFloat(t.p, t.lo, t.hi, 0, 64, false)
		}
		if name == "ceil" {
			if c.branch(c.cmp(">", x, t)) {
				return c.mkFloat(t.p.add(polyInt(1), 1), t.lo+1, t.hi+1, 0, 64, false)
			}
			return c.mkFloat(t.p, t.lo, t.hi, 0, 64, false)
		}
		// round half away from zero: trunc(x + copysign(0.5, x))
		half := 0.5
		if c.branch(c.cmp("<", x, 0.0)) {
			half = -0.5
		}
		y := c.asNum(c.floatOp("+", x, half, 64))
		t = c.truncNum(y, math.Inf(-1), math.Inf(1))
		return c.mkFloat(t.p, t.lo, t.hi, 0, 64, false)
	}
	unsupported("math.%s of a symbolic number", name)
	return nil
}

func (c *Ctx) sqrt(x *Num) value {
	if x.p.isConst() {
		f, _ := x.p.constVal().Float64()
		if f > 0 {
			r := math.Sqrt(f)
			return c.mkFloat(polyFloat(r), r, r, x.e/r+2*u64*r, 64, false)
		}
	}
	if x.lo-x.e < 0 {
		if c.branch(c.cmp("<", x, 0.0)) {
			return math.NaN()
		}
	}
	if m, a, ok := squareTerm(x.p); ok {
		// sqrt(a*m^2) = sqrt(a)*|m|
		mp := &Poly{[]term{{m, big.NewRat(1, 1)}}}
		l, h := c.polyInterval(mp)
		neg := h <= 0
		if l < 0 && h > 0 {
			neg = c.branch(c.cmp("<", &Num{p: mp, lo: l, hi: h}, 0.0))
			if neg {
				h = 0
			} else {
				l = 0
			}
		}
		f, _ := a.Float64()
		r := math.Sqrt(f)
		q := mp.scale(floatRat(r))
		if neg {
			q = q.scale(big.NewRat(-1, 1))
			l, h = -h, -l
		}
		lo, hi := l*r*(1-1e-12), h*r*(1+1e-12)
		e := c.sqrtErr(x, lo)
		if r*r != f || !pow2(floatRat(r)) {
			e += 3 * u64 * hi
		}
		return c.mkFloat(q, lo, hi, e, 64, true)
	}
	key := "sqrt|" + x.p.key()
	lo := math.Sqrt(math.Max(0, x.lo))
	hi := math.Sqrt(math.Max(0, x.hi))
	if m, ok := c.memo[key]; ok {
		p := m.(*Poly)
		return c.mkFloat(p, 0, hi*(1+1e-12), c.sqrtErr(x, lo), 64, true)
	}
	v := c.newVar("sqrt", false, 0, hi*(1+1e-12)+1e-300)
	v.coupled = true
	if lo > 0 {
		v.lo = lo * (1 - 1e-12)
	}
	xp := x.p
	v.eval = func(ev func(*Poly) float64) float64 { return math.Sqrt(math.Max(0, ev(xp))) }
	p := polyVar(v.id)
	if x.e > 0 && x.lo < 0 {
		// the ideal value may be slightly negative although the machine value is not
		d := c.newVar("slack", false, 0, x.e)
		d.coupled = true
		c.assertBounds(d)
		c.define(&fAtom{p.mulRaw(p).add(x.p, -1).add(polyVar(d.id), -1), EQ}, v, d)
	} else {
		c.define(&fAtom{p.mulRaw(p).add(x.p, -1), EQ}, v)
		v.square = x.p
	}
	c.assertBounds(v)
	c.memo[key] = p
	return c.mkFloat(p, v.lo, v.hi, c.sqrtErr(x, lo), 64, true)
}

// squareTerm recognises a*m^2 with a > 0.
func squareTerm(p *Poly) (mono, *big.Rat, bool) {
	if len(p.ts) != 1 || p.ts[0].c.Sign() <= 0 || p.ts[0].m == "" {
		return "", nil, false
	}
	cnt := map[int]int{}
	for _, v := range p.ts[0].m.vars() {
		cnt[v]++
	}
	m := polyInt(1)
	for v, n := range cnt {
		if n%2 != 0 {
			return "", nil, false
		}
		for i := 0; i < n/2; i++ {
			m = m.mulRaw(polyVar(v))
		}
	}
	return m.ts[0].m, p.ts[0].c, true
}

func (c *Ctx) sqrtErr(x *Num, lo float64) float64 {
	if x.e == 0 {
		return 0
	}
	e := math.Sqrt(x.e)
	if lo > 0 {
		e = math.Min(e, x.e/lo)
	}
	return e
}

// sincos returns the sine and cosine atoms for an argument, and the distance between
// the argument and the atom's argument.
func (c *Ctx) sincos(x *Num) (s, cc int, dist float64) {
	for _, a := range c.trig {
		d := a.arg.add(x.p, -1)
		if d.isZero() {
			return a.s, a.c, 0
		}
		lo, hi := c.polyInterval(d)
		if m := math.Max(math.Abs(lo), math.Abs(hi)); m < 1e-9 {
			return a.s, a.c, m
		}
	}
	c.approx = true
	vs := c.newVar("sin", false, -1, 1)
	vc := c.newVar("cos", false, -1, 1)
	vs.coupled, vc.coupled = true, true
	// tighten by the argument's interval
	if x.lo >= -math.Pi/2 && x.hi <= math.Pi/2 {
		vs.lo, vs.hi = math.Sin(x.lo)-1e-12, math.Sin(x.hi)+1e-12
		vc.lo = math.Max(0, math.Min(math.Cos(x.lo), math.Cos(x.hi))-1e-12)
	}
	xp := x.p
	vs.eval = func(ev func(*Poly) float64) float64 { return math.Sin(ev(xp)) }
	vc.eval = func(ev func(*Poly) float64) float64 { return math.Cos(ev(xp)) }
	ps, pc := polyVar(vs.id), polyVar(vc.id)
	c.define(&fAtom{ps.mulRaw(ps).add(pc.mulRaw(pc), 1).add(polyInt(1), -1), EQ}, vs, vc)
	c.assertBounds(vs)
	c.assertBounds(vc)
	vs.square = polyInt(1).add(pc.mulRaw(pc), -1)
	c.trig = append(c.trig, trigAtom{x.p, vs.id, vc.id})
	return vs.id, vc.id, 0
}

func (c *Ctx) tan(x *Num) value {
	s, cc, d := c.sincos(x)
	vc := c.vars[cc]
	if !(vc.lo > 0) {
		unsupported("tan of a symbolic angle that may reach 90 degrees")
	}
	key := fmt.Sprintf("tan|%d", s)
	tm := math.Tan(math.Acos(vc.lo))
	if m, ok := c.memo[key]; ok {
		return c.mkFloat(m.(*Poly), -tm, tm, (1+tm*tm)*(x.e+d+2*u64), 64, false)
	}
	v := c.newVar("tan", false, -tm*(1+1e-9), tm*(1+1e-9))
	v.coupled = true
	xp := x.p
	v.eval = func(ev func(*Poly) float64) float64 { return math.Tan(ev(xp)) }
	p := polyVar(v.id)
	c.define(&fAtom{p.mulRaw(polyVar(cc)).add(polyVar(s), -1), EQ}, v)
	c.assertBounds(v)
	c.memo[key] = p
	return c.mkFloat(p, v.lo, v.hi, (1+tm*tm)*(x.e+d+2*u64), 64, false)
}

// atan2Const handles arguments in a constant ratio, including zero: the result is a constant.
func (c *Ctx) atan2Const(y, x *Num, yv value) value {
	q := x // both are multiples of q
	a, b := 0.0, 1.0
	switch {
	case y.p.isZero() && x.p.isZero():
		return nil
	case y.p.isZero():
	case x.p.isZero():
		q, a, b = y, 1, 0
	default:
		if len(x.p.ts) != len(y.p.ts) {
			return nil
		}
		r := new(big.Rat).Quo(y.p.ts[0].c, x.p.ts[0].c)
		if !x.p.scale(r).add(y.p, -1).isZero() {
			return nil
		}
		a, _ = r.Float64()
	}
	min := c.minAbs(&Num{p: q.p, lo: q.lo, hi: q.hi})
	if q.p.isConst() {
		f, _ := q.p.constVal().Float64()
		min = math.Abs(f)
	}
	e := x.e + y.e
	if e > 0 && min*math.Hypot(a, b) < 1e4*e {
		return nil
	}
	s := 1.0
	if min > 0 || e == 0 {
		ideal := &Num{p: q.p, lo: q.lo, hi: q.hi}
		if e == 0 && c.branch(c.cmp("==", ideal, 0.0)) {
			return 0.0 // both are zero
		}
		if c.branch(c.cmp("<", ideal, 0.0)) {
			s = -1
		}
	}
	if a == 0 {
		if f, ok := yv.(float64); ok {
			a = f
		} else if s < 0 && y.e > 0 && c.branch(c.cmp("<", y, 0.0)) {
			a = math.Copysign(0, -1)
			return c.mkFloat(polyFloat(-math.Pi), -math.Pi, -math.Pi, 2*e/min+4*u64, 64, false)
		}
	} else {
		a *= s
	}
	r := math.Atan2(a, b*s)
	if y.p.isZero() && y.e == 0 || x.p.isZero() && x.e == 0 || e == 0 && a == 0 {
		return r
	}
	return c.mkFloat(polyFloat(r), r, r, 2*e/(min*math.Hypot(a, b))+4*u64, 64, false)
}

func (c *Ctx) atan2(yv, xv value) value {
	fy, oky := yv.(float64)
	fx, okx := xv.(float64)
	if oky && okx {
		return math.Atan2(fy, fx)
	}
	if isSpecial(yv) || isSpecial(xv) {
		if oky && math.IsNaN(fy) || okx && math.IsNaN(fx) {
			return math.NaN()
		}
		unsupported("atan2 with infinity")
	}
	y, x := c.asNum(yv), c.asNum(xv)
	if debugAtoms {
		fmt.Fprintf(os.Stderr, "atan2 y=%v e=%g [%g,%g] x=%v e=%g [%g,%g]\n", c.polySMT(y.p), y.e, y.lo, y.hi, c.polySMT(x.p), x.e, x.lo, x.hi)
	}
	if r := c.atan2Const(y, x, yv); r != nil {
		return r
	}
	key := "atan2|" + y.p.key() + "|" + x.p.key()
	if m, ok := c.memo[key]; ok {
		return m.(value)
	}
	c.approx = true
	v := c.newVar("atan2", false, -math.Pi, math.Pi)
	v.coupled = true
	yp, xp := y.p, x.p
	v.eval = func(ev func(*Poly) float64) float64 { return math.Atan2(ev(yp), ev(xp)) }
	c.assertBounds(v)
	// sign relations: y>0 => 0<=theta<=pi, y<0 => -pi<=theta<=0 (rounding: skip when inexact)
	p := polyVar(v.id)
	if y.e == 0 && x.e == 0 {
		np := p.scale(big.NewRat(-1, 1))
		c.define(mkOr(&fAtom{y.p, LE}, &fAtom{np, LE}), v)
		c.define(mkOr(&fAtom{y.p.scale(big.NewRat(-1, 1)), LE}, &fAtom{p, LE}), v)
	}
	r := c.mkFloat(p, v.lo, v.hi, 4*u64, 64, false)
	c.memo[key] = r
	return r
}

// evalModel evaluates polynomials from input values, auxiliary variables natively.
func (c *Ctx) evaluator(inputs map[string]float64) func(*Poly) float64 {
	cache := make(map[int]float64)
	var ev func(p *Poly) float64
	ev = func(p *Poly) float64 {
		sum := 0.0
		for _, t := range p.ts {
			f, _ := t.c.Float64()
			for _, id := range t.m.vars() {
				x, ok := cache[id]
				if !ok {
					v := c.vars[id]
					if v.input != "" {
						x = inputs[v.input]
					} else if v.eval != nil {
						x = v.eval(ev)
					} else {
						x = math.NaN()
					}
					cache[id] = x
				}
				f *= x
			}
			sum += f
		}
		return sum
	}
	return ev
}
