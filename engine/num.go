package main

// Symbolic numbers: exact polynomials over solver variables, together with a
// sound bound on the floating-point rounding error accumulated by the real
// code, and an interval. Formulas over them, in the syntax of SMT-LIB.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// mono is a monomial: the sorted variable ids, two bytes each, repeated by exponent.
type mono string

func varMono(id int) mono { return mono([]byte{byte(id >> 8), byte(id)}) }

func (m mono) vars() []int {
	out := make([]int, 0, len(m)/2)
	for i := 0; i < len(m); i += 2 {
		out = append(out, int(m[i])<<8|int(m[i+1]))
	}
	return out
}

func mulMono(a, b mono) mono {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i:i+2] <= b[j:j+2] {
			out = append(out, a[i], a[i+1])
			i += 2
		} else {
			out = append(out, b[j], b[j+1])
			j += 2
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return mono(out)
}

type term struct {
	m mono
	c *big.Rat
}

// Poly is a canonical polynomial: terms sorted by monomial, no zero coefficient.
type Poly struct{ ts []term }

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)

func polyConst(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{[]term{{"", r}}}
}
func polyInt(i int64) *Poly     { return polyConst(new(big.Rat).SetInt64(i)) }
func polyFloat(f float64) *Poly { r := new(big.Rat); r.SetFloat64(f); return polyConst(r) }
func polyVar(id int) *Poly      { return &Poly{[]term{{varMono(id), ratOne}}} }

func (p *Poly) isConst() bool { return len(p.ts) == 0 || (len(p.ts) == 1 && p.ts[0].m == "") }
func (p *Poly) constVal() *big.Rat {
	if len(p.ts) == 0 {
		return ratZero
	}
	return p.ts[0].c
}
func (p *Poly) isZero() bool { return len(p.ts) == 0 }

func (p *Poly) add(q *Poly, sign int) *Poly {
	out := make([]term, 0, len(p.ts)+len(q.ts))
	i, j := 0, 0
	for i < len(p.ts) || j < len(q.ts) {
		switch {
		case j >= len(q.ts) || (i < len(p.ts) && p.ts[i].m < q.ts[j].m):
			out = append(out, p.ts[i])
			i++
		case i >= len(p.ts) || q.ts[j].m < p.ts[i].m:
			c := q.ts[j].c
			if sign < 0 {
				c = new(big.Rat).Neg(c)
			}
			out = append(out, term{q.ts[j].m, c})
			j++
		default:
			c := new(big.Rat)
			if sign < 0 {
				c.Sub(p.ts[i].c, q.ts[j].c)
			} else {
				c.Add(p.ts[i].c, q.ts[j].c)
			}
			if c.Sign() != 0 {
				out = append(out, term{p.ts[i].m, c})
			}
			i++
			j++
		}
	}
	return &Poly{out}
}

func (p *Poly) scale(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	out := make([]term, len(p.ts))
	for i, t := range p.ts {
		out[i] = term{t.m, new(big.Rat).Mul(t.c, r)}
	}
	return &Poly{out}
}

func polyFromMap(m map[mono]*big.Rat) *Poly {
	out := make([]term, 0, len(m))
	for k, c := range m {
		if c.Sign() != 0 {
			out = append(out, term{k, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m < out[j].m })
	return &Poly{out}
}

func (p *Poly) mulRaw(q *Poly) *Poly {
	if p.isConst() {
		return q.scale(p.constVal())
	}
	if q.isConst() {
		return p.scale(q.constVal())
	}
	m := make(map[mono]*big.Rat)
	for _, a := range p.ts {
		for _, b := range q.ts {
			k := mulMono(a.m, b.m)
			c := new(big.Rat).Mul(a.c, b.c)
			if o, ok := m[k]; ok {
				o.Add(o, c)
			} else {
				m[k] = c
			}
		}
	}
	return polyFromMap(m)
}

func (p *Poly) key() string {
	var sb strings.Builder
	for _, t := range p.ts {
		sb.WriteString(string(t.m))
		sb.WriteByte('|')
		sb.WriteString(t.c.RatString())
		sb.WriteByte(';')
	}
	return sb.String()
}

func (p *Poly) vars() []int {
	seen := map[int]bool{}
	var out []int
	for _, t := range p.ts {
		for _, v := range t.m.vars() {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Ints(out)
	return out
}

func (p *Poly) linear() bool {
	for _, t := range p.ts {
		if len(t.m) > 2 {
			return false
		}
	}
	return true
}

// Var is a solver variable of one path.
type Var struct {
	id     int
	name   string // SMT name
	isInt  bool
	lo, hi float64
	dom    *[4]uint64 // small non-negative integer domain (bytes, choices), or nil
	input  string     // harness input name, "" for auxiliary variables
	kind   string     // "float", "int", "byte"
	// coupled: occurs in an asserted constraint together with another variable,
	// so the domain no longer decides feasibility by itself
	coupled bool
	// square, when set, is the polynomial that replaces var^2 (sqrt and sine atoms)
	square *Poly
	// rule, when set, rewrites var*lead into repl (quotient atoms: 1/d with d = lead + ...)
	rule *rule
	// defs are the constraints that define the variable, asserted when it is first used
	defs []*lazyDef
	// weak, when set, is a weaker constraint that is cheaper to reason with (no case split)
	weak Formula
	// twin: a real variable stands for the integer under the weaker constraint
	twin bool
	// native evaluation of the auxiliary variable from already known values
	eval func(ev func(*Poly) float64) float64
}

type lazyDef struct {
	f    Formula
	done bool
}

type rule struct {
	lead mono
	repl *Poly
}

// divMono returns m with the factors of d removed, if d divides m.
func divMono(m, d mono) (mono, bool) {
	out := make([]byte, 0, len(m))
	j := 0
	for i := 0; i < len(m); i += 2 {
		if j < len(d) && m[i:i+2] == d[j:j+2] {
			j += 2
			continue
		}
		out = append(out, m[i], m[i+1])
	}
	return mono(out), j == len(d)
}

func domHas(d *[4]uint64, v int) bool { return d[v>>6]&(1<<(uint(v)&63)) != 0 }
func domSet(d *[4]uint64, v int)      { d[v>>6] |= 1 << (uint(v) & 63) }
func domCount(d *[4]uint64) int {
	n := 0
	for v := 0; v < 256; v++ {
		if domHas(d, v) {
			n++
		}
	}
	return n
}

// Num is a symbolic number: ideal value p, with |machine value - p| <= e.
type Num struct {
	p      *Poly
	e      float64
	lo, hi float64
}

func (n *Num) mag() float64 { return math.Max(math.Abs(n.lo), math.Abs(n.hi)) }

// Op is a comparison of a polynomial with zero.
type Op int

const (
	LT Op = iota // <0
	LE           // <=0
	EQ
	NE
)

// Formula nodes.
type Formula interface{ smt(c *Ctx) string }
type fConst bool
type fAtom struct {
	p  *Poly
	op Op
}
type fIn struct { // variable in set
	v   int
	set [4]uint64
}
type fAnd []Formula
type fOr []Formula

func (f fConst) smt(*Ctx) string {
	if f {
		return "true"
	}
	return "false"
}
func (f *fAtom) smt(c *Ctx) string {
	s := c.polySMT(f.p)
	z := "0"
	if c.weak != nil || !c.polyInt(f.p) {
		z = "0.0"
	}
	switch f.op {
	case LT:
		return "(< " + s + " " + z + ")"
	case LE:
		return "(<= " + s + " " + z + ")"
	case EQ:
		return "(= " + s + " " + z + ")"
	}
	return "(not (= " + s + " " + z + "))"
}
func (f *fIn) smt(c *Ctx) string {
	n := c.vars[f.v].name
	var parts []string
	for v := 0; v < 256; {
		if !domHas(&f.set, v) {
			v++
			continue
		}
		w := v
		for w+1 < 256 && domHas(&f.set, w+1) {
			w++
		}
		if v == w {
			parts = append(parts, fmt.Sprintf("(= %s %d)", n, v))
		} else {
			parts = append(parts, fmt.Sprintf("(<= %d %s %d)", v, n, w))
		}
		v = w + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
func joinSMT(op string, fs []Formula, c *Ctx) string {
	if len(fs) == 1 {
		return fs[0].smt(c)
	}
	parts := make([]string, len(fs))
	for i, f := range fs {
		parts[i] = f.smt(c)
	}
	return "(" + op + " " + strings.Join(parts, " ") + ")"
}
func (f fAnd) smt(c *Ctx) string {
	if len(f) == 0 {
		return "true"
	}
	return joinSMT("and", f, c)
}
func (f fOr) smt(c *Ctx) string {
	if len(f) == 0 {
		return "false"
	}
	return joinSMT("or", f, c)
}

func mkAnd(fs ...Formula) Formula {
	var out fAnd
	for _, f := range fs {
		switch g := f.(type) {
		case fConst:
			if !g {
				return fConst(false)
			}
		case fAnd:
			out = append(out, g...)
		default:
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return fConst(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}
func mkOr(fs ...Formula) Formula {
	var out fOr
	for _, f := range fs {
		switch g := f.(type) {
		case fConst:
			if g {
				return fConst(true)
			}
		case fOr:
			out = append(out, g...)
		default:
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return fConst(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func formulaVars(f Formula, seen map[int]bool) {
	switch g := f.(type) {
	case *fAtom:
		for _, v := range g.p.vars() {
			seen[v] = true
		}
	case *fIn:
		seen[g.v] = true
	case fAnd:
		for _, x := range g {
			formulaVars(x, seen)
		}
	case fOr:
		for _, x := range g {
			formulaVars(x, seen)
		}
	}
}

// evalFormula evaluates f exactly with the single variable v set to the integer x.
func evalFormula1(f Formula, v int, x int64) bool {
	switch g := f.(type) {
	case fConst:
		return bool(g)
	case *fIn:
		return domHas(&g.set, int(x))
	case fAnd:
		for _, h := range g {
			if !evalFormula1(h, v, x) {
				return false
			}
		}
		return true
	case fOr:
		for _, h := range g {
			if evalFormula1(h, v, x) {
				return true
			}
		}
		return false
	case *fAtom:
		return signOp(evalPoly1(g.p, x).Sign(), g.op)
	}
	panic("evalFormula1")
}

func signOp(s int, op Op) bool {
	switch op {
	case LT:
		return s < 0
	case LE:
		return s <= 0
	case EQ:
		return s == 0
	}
	return s != 0
}

func evalPoly1(p *Poly, x int64) *big.Rat {
	sum := new(big.Rat)
	bx := new(big.Rat).SetInt64(x)
	for _, t := range p.ts {
		c := new(big.Rat).Set(t.c)
		for i := 0; i < len(t.m); i += 2 {
			c.Mul(c, bx)
		}
		sum.Add(sum, c)
	}
	return sum
}

// SymBool is a boolean of the program: t is necessary for it to be true, f for false.
// Where no rounding is involved, f is the negation of t.
type SymBool struct{ t, f Formula }

func negB(b *SymBool) *SymBool { return &SymBool{b.f, b.t} }

func ratStr(r *big.Rat, isInt bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if isInt {
		s = a.Num().String()
	} else if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

// polyInt reports whether the polynomial can be written in integer arithmetic.
func (c *Ctx) polyInt(p *Poly) bool {
	for _, t := range p.ts {
		if !t.c.IsInt() {
			return false
		}
		for _, v := range t.m.vars() {
			if !c.vars[v].isInt {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) polySMT(p *Poly) string {
	isInt := c.polyInt(p) && c.weak == nil
	if len(p.ts) == 0 {
		if isInt {
			return "0"
		}
		return "0.0"
	}
	parts := make([]string, 0, len(p.ts))
	for _, t := range p.ts {
		if t.m == "" {
			parts = append(parts, ratStr(t.c, isInt))
			continue
		}
		var fs []string
		if t.c.Cmp(ratOne) != 0 {
			fs = append(fs, ratStr(t.c, isInt))
		}
		for _, v := range t.m.vars() {
			n := c.vars[v].name
			if c.vars[v].defs != nil {
				c.emitDefs(c.vars[v])
			}
			if c.weak != nil && c.vars[v].twin && c.vars[v].defs != nil {
				n = "w_" + n
			} else if !isInt && c.vars[v].isInt {
				n = "(to_real " + n + ")"
			}
			fs = append(fs, n)
		}
		if len(fs) == 1 {
			parts = append(parts, fs[0])
		} else {
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// reduce rewrites squares of sqrt/sine atoms until none is left.
func (c *Ctx) reduce(p *Poly) *Poly {
	n := 0
	for {
		again := false
		for _, t := range p.ts {
			for i := 0; i+4 <= len(t.m); i += 2 {
				if t.m[i:i+2] == t.m[i+2:i+4] {
					v := int(t.m[i])<<8 | int(t.m[i+1])
					if sq := c.vars[v].square; sq != nil {
						rest := mono(string(t.m[:i]) + string(t.m[i+4:]))
						single := &Poly{[]term{t}}
						repl := (&Poly{[]term{{rest, t.c}}}).mulRaw(sq)
						p = p.add(single, -1).add(repl, 1)
						again = true
						break
					}
				}
			}
			if !again {
				last := -1
				for _, id := range t.m.vars() {
					r := c.vars[id].rule
					if id == last || r == nil {
						continue
					}
					last = id
					rest, ok := divMono(t.m, mulMono(varMono(id), r.lead))
					if !ok {
						continue
					}
					single := &Poly{[]term{t}}
					repl := (&Poly{[]term{{rest, t.c}}}).mulRaw(r.repl)
					p = p.add(single, -1).add(repl, 1)
					again = true
					break
				}
			}
			if again {
				break
			}
		}
		if !again {
			return p
		}
		if n++; n > 20000 {
			return p
		}
	}
}

func (c *Ctx) mulPoly(p, q *Poly) *Poly { return c.reduce(p.mulRaw(q)) }

// polyInterval bounds p using the variables' intervals.
func (c *Ctx) polyInterval(p *Poly) (float64, float64) {
	lo, hi := 0.0, 0.0
	for _, t := range p.ts {
		cf, _ := t.c.Float64()
		l, h := cf, cf
		vs := t.m.vars()
		for i := 0; i < len(vs); {
			v := c.vars[vs[i]]
			n := 1
			for i+n < len(vs) && vs[i+n] == vs[i] {
				n++
			}
			vl, vh := v.lo, v.hi
			if n%2 == 0 {
				m := math.Pow(math.Max(math.Abs(vl), math.Abs(vh)), float64(n))
				l, h = mulIv(l, h, 0, m)
			} else {
				for k := 0; k < n; k++ {
					l, h = mulIv(l, h, vl, vh)
				}
			}
			i += n
		}
		lo += l
		hi += h
	}
	return widen(lo, hi)
}

func widen(lo, hi float64) (float64, float64) {
	return lo - math.Abs(lo)*4e-16, hi + math.Abs(hi)*4e-16
}

func mulIv(a, b, c, d float64) (float64, float64) {
	m := func(x, y float64) float64 {
		if x == 0 || y == 0 {
			return 0
		}
		return x * y
	}
	p := [4]float64{m(a, c), m(a, d), m(b, c), m(b, d)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		lo = math.Min(lo, x)
		hi = math.Max(hi, x)
	}
	return lo, hi
}

// fNot is used only in queries, never in path conditions.
type fNot struct{ f Formula }

func (f fNot) smt(c *Ctx) string { return "(not " + f.f.smt(c) + ")" }
