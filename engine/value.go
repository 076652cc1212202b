package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any
type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}

// SymStr is a string whose bytes may be symbolic; opaque strings only have an identity.
type SymStr struct {
	b []value
}

// Tab is an integer that is a function of one small-domain variable.
type Tab struct {
	v int
	t *[256]int64
}

// sliceData is the result of unsafe.SliceData/StringData.
type sliceData struct{ s value }

type mapent struct {
	k, v    value
	deleted bool
}
type mapobj struct {
	ents []*mapent
	idx  map[string]*mapent
	n    int
	syms int // entries with symbolic keys
}

type targetPanic struct{ v value }

type runtimeError string

func runtimeErr(s string) value { return runtimeError("runtime error: " + s) }

type mapIter struct {
	m   *mapobj
	pos int
}
type strIter struct {
	s   value
	pos int
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return bad{}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapobj)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Chan:
		return (*chanobj)(nil)
	case *types.Tuple:
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	unsupported("zero of %s", t)
	return nil
}

type chanobj struct{}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		s := make(structure, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				s[i] = copyVal(e)
			default:
				s[i] = e
			}
		}
		return s
	case array:
		s := make(array, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				s[i] = copyVal(e)
			default:
				s[i] = e
			}
		}
		return s
	}
	return v
}

// ---- strings ----

func (c *Ctx) simplByte(v value) value {
	switch x := v.(type) {
	case *Num:
		if len(x.p.ts) == 1 && len(x.p.ts[0].m) == 2 || len(x.p.ts) == 2 {
			vs := x.p.vars()
			if len(vs) == 1 {
				vr := c.vars[vs[0]]
				if vr.dom != nil && vr.lo == vr.hi {
					return ratInt(evalPoly1(x.p, int64(vr.lo)))
				}
			}
		}
	case *Tab:
		vr := c.vars[x.v]
		if vr.lo == vr.hi {
			return x.t[int(vr.lo)]
		}
		first := true
		var val int64
		for i := 0; i < 256; i++ {
			if domHas(vr.dom, i) {
				if first {
					val, first = x.t[i], false
				} else if x.t[i] != val {
					return v
				}
			}
		}
		return val
	}
	return v
}

// mkStr builds a string from bytes, a plain string when all are known.
func (c *Ctx) mkStr(b []value) value {
	out := make([]byte, len(b))
	for i, v := range b {
		v = c.simplByte(v)
		x, ok := v.(int64)
		if !ok {
			return &SymStr{b}
		}
		out[i] = byte(x)
	}
	return string(out)
}

func strLen(v value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strByte(v value, i int) value {
	switch x := v.(type) {
	case string:
		return int64(x[i])
	case *SymStr:
		return x.b[i]
	}
	panic("strByte")
}

func strBytes(v value) []value {
	switch x := v.(type) {
	case string:
		out := make([]value, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = int64(x[i])
		}
		return out
	case *SymStr:
		return x.b
	}
	panic("strBytes")
}

func (c *Ctx) strSlice(v value, lo, hi int) value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return c.mkStr(x.b[lo:hi:hi])
	}
	panic("strSlice")
}

func (c *Ctx) strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	out := append([]value{}, strBytes(a)...)
	return c.mkStr(append(out, strBytes(b)...))
}

// strEq compares byte by byte, forking where needed.
func (c *Ctx) strEq(a, b value) bool {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	// concrete mismatches first
	n := strLen(a)
	for i := 0; i < n; i++ {
		p, q := c.simplByte(strByte(a, i)), c.simplByte(strByte(b, i))
		if pi, ok := p.(int64); ok {
			if qi, ok := q.(int64); ok && pi != qi {
				return false
			}
		}
	}
	for i := 0; i < n; i++ {
		if !c.truth(c.intCmp("==", strByte(a, i), strByte(b, i), intKind{8, false})) {
			return false
		}
	}
	return true
}

func (c *Ctx) strLess(a, b value) bool {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n := min(strLen(a), strLen(b))
	k := intKind{8, false}
	for i := 0; i < n; i++ {
		if c.truth(c.intCmp("==", strByte(a, i), strByte(b, i), k)) {
			continue
		}
		return c.truth(c.intCmp("<", strByte(a, i), strByte(b, i), k))
	}
	return strLen(a) < strLen(b)
}

// truth forks on a possibly symbolic boolean.
func (c *Ctx) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *SymBool:
		return c.branch(x)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

// ---- tables ----

// oneDom reports the single small-domain variable an integer depends on, and a function
// giving its value.
func (c *Ctx) oneDom(v value) (*Var, func(x int) int64) {
	switch x := v.(type) {
	case *Tab:
		return c.vars[x.v], func(i int) int64 { return x.t[i] }
	case *Num:
		if x.e != 0 {
			return nil, nil
		}
		vs := x.p.vars()
		if len(vs) != 1 || c.vars[vs[0]].dom == nil || !c.polyInt(x.p) {
			return nil, nil
		}
		return c.vars[vs[0]], func(i int) int64 { return ratInt(evalPoly1(x.p, int64(i))) }
	}
	return nil, nil
}

func (c *Ctx) mkTab(v *Var, fn func(x int) int64) value {
	t := new([256]int64)
	for i := 0; i < 256; i++ {
		if domHas(v.dom, i) {
			t[i] = fn(i)
		}
	}
	return c.simplByte(&Tab{v.id, t})
}

// tabBool makes a boolean from a predicate on a variable's domain.
func (c *Ctx) tabBool(v *Var, fn func(x int) bool) value {
	var ts, fs [4]uint64
	nt, nf := 0, 0
	for i := 0; i < 256; i++ {
		if domHas(v.dom, i) {
			if fn(i) {
				domSet(&ts, i)
				nt++
			} else {
				domSet(&fs, i)
				nf++
			}
		}
	}
	if nf == 0 {
		return true
	}
	if nt == 0 {
		return false
	}
	return &SymBool{&fIn{v.id, ts}, &fIn{v.id, fs}}
}

// intBin is intOp with tables.
func (c *Ctx) intBin(op string, a, b value, k intKind) value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return concreteIntOp(op, x, y, k)
		}
	}
	_, ta := a.(*Tab)
	_, tb := b.(*Tab)
	bitop := op == "&" || op == "|" || op == "^" || op == "&^" || op == "<<" || op == ">>"
	if ta || tb || bitop {
		va, fa := c.oneDom(a)
		vb, fb := c.oneDom(b)
		if x, ok := a.(int64); ok {
			va, fa = vb, func(int) int64 { return x }
		}
		if y, ok := b.(int64); ok {
			vb, fb = va, func(int) int64 { return y }
		}
		if va != nil && va == vb {
			// division by zero is left to the concrete case
			ok := true
			if op == "/" || op == "%" {
				for i := 0; i < 256; i++ {
					if domHas(va.dom, i) && fb(i) == 0 {
						ok = false
					}
				}
			}
			if ok {
				return c.mkTab(va, func(i int) int64 { return concreteIntOp(op, fa(i), fb(i), k).(int64) })
			}
		}
	}
	if ta {
		a = c.tabNum(a.(*Tab))
	}
	if tb {
		b = c.tabNum(b.(*Tab))
	}
	return c.intOp(op, a, b, k)
}

// tabNum turns a table into a number, forking over the pieces of the domain on which it
// is affine.
func (c *Ctx) tabNum(t *Tab) value {
	v := c.vars[t.v]
	piece := map[int]int64{}
	type run struct{ x0, y0, m int64 }
	var runs []run
	n := 0
	for i := 0; i < 256; i++ {
		if !domHas(v.dom, i) {
			continue
		}
		x, y := int64(i), t.t[i]
		if n == 0 {
			runs = append(runs, run{x, y, 0})
			n = 1
		} else {
			r := &runs[len(runs)-1]
			if n == 1 && (y-r.y0)%(x-r.x0) == 0 {
				r.m = (y - r.y0) / (x - r.x0)
				n = 2
			} else if n >= 2 && r.y0+r.m*(x-r.x0) == y {
				n++
			} else {
				runs = append(runs, run{x, y, 0})
				n = 1
			}
		}
		piece[i] = int64(len(runs) - 1)
	}
	r := runs[c.chooseGroup(v, func(x int) int64 { return piece[x] })]
	p := polyVar(v.id).scale(new(big.Rat).SetInt64(r.m)).add(polyInt(r.y0-r.m*r.x0), 1)
	if p.isConst() {
		return ratInt(p.constVal())
	}
	if v.lo == v.hi {
		return ratInt(evalPoly1(p, int64(v.lo)))
	}
	lo, hi := c.polyInterval(p)
	return &Num{p: p, lo: math.Round(lo), hi: math.Round(hi)}
}

func (c *Ctx) intCmp(op string, a, b value, k intKind) value {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			if !k.signed {
				ux, uy := uint64(x), uint64(y)
				switch op {
				case "==":
					return ux == uy
				case "!=":
					return ux != uy
				case "<":
					return ux < uy
				case "<=":
					return ux <= uy
				case ">":
					return ux > uy
				case ">=":
					return ux >= uy
				}
			}
			switch op {
			case "==":
				return x == y
			case "!=":
				return x != y
			case "<":
				return x < y
			case "<=":
				return x <= y
			case ">":
				return x > y
			case ">=":
				return x >= y
			}
		}
	}
	va, fa := c.oneDom(a)
	vb, fb := c.oneDom(b)
	if x, ok := a.(int64); ok {
		va, fa = vb, func(int) int64 { return x }
	}
	if y, ok := b.(int64); ok {
		vb, fb = va, func(int) int64 { return y }
	}
	if va != nil && va == vb {
		return c.tabBool(va, func(i int) bool { return c.intCmp(op, fa(i), fb(i), k).(bool) })
	}
	if t, ok := a.(*Tab); ok {
		a = c.tabNum(t)
	}
	if t, ok := b.(*Tab); ok {
		b = c.tabNum(t)
	}
	if x, ok := a.(int64); ok {
		if _, ok := b.(int64); ok {
			return c.intCmp(op, x, b, k)
		}
	}
	return c.cmpV(op, a, b)
}

// asInt makes an integer concrete.
func (c *Ctx) asInt(v value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Num:
		return c.concretize(x)
	case *Tab:
		return c.chooseGroup(c.vars[x.v], func(i int) int64 { return x.t[i] })
	}
	panic(fmt.Sprintf("asInt %T", v))
}

// ---- maps ----

func mapKeyString(v value) (string, bool) {
	switch x := v.(type) {
	case string:
		return "s" + x, true
	case int64:
		return fmt.Sprintf("i%d", x), true
	case bool:
		return fmt.Sprintf("b%v", x), true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case *value:
		return fmt.Sprintf("p%p", x), true
	case iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := mapKeyString(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case structure:
		var sb strings.Builder
		sb.WriteString("S{")
		for _, e := range x {
			k, ok := mapKeyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), true
	case array:
		return mapKeyString(structure(x))
	}
	return "", false
}

func newMap() *mapobj { return &mapobj{idx: map[string]*mapent{}} }

func (c *Ctx) mapFind(m *mapobj, k value) *mapent {
	if m == nil {
		return nil
	}
	if ks, ok := mapKeyString(k); ok {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.syms == 0 {
			return nil
		}
		for _, e := range m.ents {
			if _, conc := mapKeyString(e.k); !conc && !e.deleted && c.truth(c.equals(e.k, k)) {
				return e
			}
		}
		return nil
	}
	s, ok := k.(*SymStr)
	if !ok {
		if n, isNum := k.(*Num); isNum {
			return c.mapFind(m, c.concretize(n))
		}
		if t, isTab := k.(*Tab); isTab {
			return c.mapFind(m, c.asInt(t))
		}
		if st, isS := k.(structure); isS {
			for _, e := range m.ents {
				if !e.deleted && c.truth(c.equals(e.k, st)) {
					return e
				}
			}
			return nil
		}
		unsupported("map key %T", k)
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if t, isSym := e.k.(*SymStr); isSym && c.strEq(t, s) {
			return e
		}
	}
	// descend over the concrete keys of this length
	var cand []*mapent
	for _, e := range m.ents {
		if ks, ok := e.k.(string); ok && !e.deleted && len(ks) == len(s.b) {
			cand = append(cand, e)
		}
	}
	for i := 0; i < len(s.b) && len(cand) > 0; i++ {
		set := map[int64]bool{}
		for _, e := range cand {
			set[int64(e.k.(string)[i])] = true
		}
		b := c.simplByte(s.b[i])
		var got int64
		if x, ok := b.(int64); ok {
			got = x
		} else if v, fn := c.oneDom(b); v != nil {
			got = c.chooseGroup(v, func(x int) int64 {
				r := fn(x)
				if set[r] {
					return r
				}
				return -1
			})
		} else {
			got = c.asInt(b)
		}
		var next []*mapent
		for _, e := range cand {
			if int64(e.k.(string)[i]) == got {
				next = append(next, e)
			}
		}
		cand = next
	}
	if len(cand) > 0 {
		return cand[0]
	}
	return nil
}

func (c *Ctx) mapSet(m *mapobj, k, v value) {
	if m == nil {
		panic(targetPanic{runtimeErr("assignment to entry in nil map")})
	}
	if e := c.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapent{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := mapKeyString(k); ok {
		m.idx[ks] = e
	} else {
		m.syms++
	}
}

func (c *Ctx) mapDelete(m *mapobj, k value) {
	if e := c.mapFind(m, k); e != nil {
		e.deleted = true
		m.n--
		if ks, ok := mapKeyString(e.k); ok {
			delete(m.idx, ks)
		} else {
			m.syms--
		}
		for i, x := range m.ents {
			if x == e {
				m.ents = append(append([]*mapent{}, m.ents[:i]...), m.ents[i+1:]...)
				break
			}
		}
	}
}

// ---- equality ----

func (c *Ctx) equals(a, b value) value {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *SymBool:
			if x {
				return y
			}
			return negB(y)
		}
	case *SymBool:
		switch y := b.(type) {
		case bool:
			return c.equals(b, a)
		case *SymBool:
			return &SymBool{mkOr(mkAnd(x.t, y.t), mkAnd(x.f, y.f)), mkOr(mkAnd(x.t, y.f), mkAnd(x.f, y.t))}
		}
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		if _, ok := b.(float64); ok {
			panic("int/float comparison")
		}
		return c.intCmp("==", a, b, intKind{64, true})
	case *Tab:
		return c.intCmp("==", a, b, intKind{64, true})
	case float64:
		return c.cmpV("==", a, b)
	case *Num:
		if _, ok := b.(*Tab); ok {
			return c.intCmp("==", a, b, intKind{64, true})
		}
		return c.cmpV("==", a, b)
	case string, *SymStr:
		return c.strEq(a, b)
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *mapobj:
		y, ok := b.(*mapobj)
		return ok && x == y
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			panic(targetPanic{runtimeErr("comparing uncomparable type " + x.t.String())})
		}
		return c.equals(x.v, y.v)
	case structure:
		return c.allEqual(x, b.(structure))
	case array:
		return c.allEqual(x, b.(array))
	case []value:
		return x == nil && b.([]value) == nil // only comparison with nil is legal
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return x == nil && y == nil
		}
		return false
	case *closure:
		return false
	case *nativeObj:
		y, ok := b.(*nativeObj)
		return ok && x == y
	case *chanobj:
		y, ok := b.(*chanobj)
		return ok && x == y
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (c *Ctx) allEqual(x, y []value) value {
	var ts, fs []Formula
	for i := range x {
		switch r := c.equals(x[i], y[i]).(type) {
		case bool:
			if !r {
				return false
			}
		case *SymBool:
			ts = append(ts, r.t)
			fs = append(fs, r.f)
		}
	}
	if len(ts) == 0 {
		return true
	}
	return &SymBool{mkAnd(ts...), mkOr(fs...)}
}

type nativeObj struct{ v any }
