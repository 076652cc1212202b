package main

// The executor: interprets SSA with concrete and symbolic values.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	t       *Target
	c       *Ctx
	globals []*value
	repoG   []int // indices of globals reset per path
	inited  map[*ssa.Package]int
	steps   int64
	budget  int64
	depth   int
	maxDep  int
	methods map[methodKey]*ssa.Function
	funcs   map[*ssa.Function]bool // repo functions executed
	errT    types.Type
	side    map[string]value // per-path side tables for models
	shared  *sharedMem       // watched memory, see together
}

type methodKey struct {
	t types.Type
	m *types.Func
}

type frame struct {
	code      *code
	regs      []value
	defers    []deferred
	panicking bool
	panicVal  value
	recovered bool
	result    value
	caller    *frame
}

type deferred struct {
	fn   value
	args []value
}

func (it *Interp) get(fr *frame, o *opnd) value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	case 2:
		return it.global(o.i)
	}
	return zero(o.t)
}

func (it *Interp) global(i int) *value {
	for i >= len(it.globals) {
		it.globals = append(it.globals, nil)
	}
	if p := it.globals[i]; p != nil {
		return p
	}
	it.t.mu.Lock()
	g := it.t.ginfo[i]
	it.t.mu.Unlock()
	v := zero(g.Type().(*types.Pointer).Elem())
	p := &v
	it.globals[i] = p
	if it.t.isRepoPkg(g.Pkg) {
		it.repoG = append(it.repoG, i)
	}
	it.ensureInit(g.Pkg)
	return it.globals[i]
}

func (it *Interp) ensureInit(p *ssa.Package) {
	if p == nil || it.inited[p] != 0 {
		return
	}
	it.inited[p] = 1
	fn := p.Func("init")
	if fn == nil || skipInit[p.Pkg.Path()] {
		return
	}
	saved := it.depth
	it.depth = 0
	old := it.budget
	if !it.t.isRepoPkg(p) {
		it.budget = it.steps + 50_000_000
	}
	st := it.steps
	it.call(fn, nil, nil, nil)
	if !it.t.isRepoPkg(p) {
		it.steps = st
	}
	it.budget = old
	it.depth = saved
	it.inited[p] = 2
}

// resetPath forgets the state of the packages under test.
func (it *Interp) resetPath() {
	for _, i := range it.repoG {
		it.globals[i] = nil
	}
	it.repoG = it.repoG[:0]
	for p := range it.inited {
		if it.t.isRepoPkg(p) {
			delete(it.inited, p)
		}
	}
	it.steps, it.depth = 0, 0
	it.side = map[string]value{}
	it.shared = nil
}

func (it *Interp) mkError(msg value) value {
	if it.errT == nil {
		pkg := it.t.prog.ImportedPackage("errors")
		it.errT = types.NewPointer(pkg.Type("errorString").Type())
	}
	var cell value = structure{msg}
	return iface{it.errT, &cell}
}

func (it *Interp) callValue(fv value, args []value, fr *frame) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			panic(targetPanic{runtimeErr("invalid memory address or nil pointer dereference")})
		}
		return it.call(f, args, nil, fr)
	case *closure:
		return it.call(f.fn, args, f.env, fr)
	case *ssa.Builtin:
		return it.builtin(f, args, fr, nil)
	}
	unsupported("call of %T", fv)
	return nil
}

func (it *Interp) call(fn *ssa.Function, args, env []value, caller *frame) value {
	cd := it.t.code(fn)
	if cd.intr != nil {
		return cd.intr(it, caller, fn, args)
	}
	if cd.isInit {
		// dependencies initialise lazily
		if caller != nil {
			return tuple(nil)
		}
	}
	if cd.blocks == nil {
		if v, ok := it.tryNative(fn, args); ok {
			return v
		}
		unsupported("function without body %s", cd.name)
	}
	if !cd.repo {
		if v, ok := it.tryNative(fn, args); ok {
			return v
		}
	} else {
		it.funcs[fn] = true
	}
	return it.runCode2(cd, args, env, caller)
}

func (it *Interp) runCode(cd *code, args []value, caller *frame) value {
	return it.runCode2(cd, args, nil, caller)
}

func (it *Interp) runCode2(cd *code, args, env []value, caller *frame) value {
	it.depth++
	if it.depth > it.maxDep {
		abort("depth", "call depth exceeds %d in %s", it.maxDep, cd.name)
	}
	it.c.callStack = append(it.c.callStack, cd.name)
	fr := &frame{code: cd, regs: make([]value, cd.nregs), caller: caller}
	for i, r := range cd.params {
		fr.regs[r] = args[i]
	}
	for i, r := range cd.free {
		fr.regs[r] = env[i]
	}
	it.run(fr, 0)
	it.depth--
	it.c.callStack = it.c.callStack[:len(it.c.callStack)-1]
	return fr.result
}

func hasDefer(cd *code) bool { return cd.fn.Recover != nil }

func (it *Interp) run(fr *frame, start int) {
	if !hasDefer(fr.code) {
		it.exec(fr, start)
		return
	}
	depth := it.depth
	stack := len(it.c.callStack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				it.depth = depth
				it.c.callStack = it.c.callStack[:stack]
				fr.panicking, fr.panicVal = true, tp.v
				it.runDefers(fr)
				if fr.panicking {
					panic(targetPanic{fr.panicVal})
				}
				fr.recovered = true
			}
		}()
		it.exec(fr, start)
	}()
	if fr.recovered {
		fr.recovered = false
		it.run(fr, fr.code.fn.Recover.Index)
	}
}

func (it *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking, fr.panicVal = true, tp.v
				}
			}()
			it.callDeferred(d, fr)
		}()
	}
}

func (it *Interp) callDeferred(d deferred, fr *frame) {
	it.callValue(d.fn, d.args, fr)
}

func (it *Interp) exec(fr *frame, bi int) {
	c := it.c
	prev := -1
	for {
		b := &fr.code.blocks[bi]
		if len(b.phis) > 0 {
			// position of prev among the predecessors
			preds := fr.code.fn.Blocks[bi].Preds
			k := -1
			for i, p := range preds {
				if p.Index == prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = it.get(fr, &b.phis[0].edges[k])
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = it.get(fr, &b.phis[i].edges[k])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		it.steps += int64(len(b.instrs))
		if it.steps > it.budget {
			abort("budget", "instruction budget exceeded in %s", fr.code.name)
		}
		next := -1
		for ii := range b.instrs {
			ci := &b.instrs[ii]
			switch in := ci.in.(type) {
			case *ssa.BinOp:
				fr.regs[ci.dst] = it.binop(ci, in, it.get(fr, &ci.ops[0]), it.get(fr, &ci.ops[1]))
			case *ssa.UnOp:
				fr.regs[ci.dst] = it.unop(ci, in, it.get(fr, &ci.ops[0]))
			case *ssa.Call:
				fr.regs[ci.dst] = it.doCall(fr, ci, &in.Call)
			case *ssa.Store:
				p := it.get(fr, &ci.ops[0]).(*value)
				if p == nil {
					nilDeref()
				}
				*p = copyVal(it.get(fr, &ci.ops[1]))
				if it.shared != nil {
					it.wrote(p, fr)
				}
			case *ssa.Alloc:
				v := zero(in.Type().(*types.Pointer).Elem())
				fr.regs[ci.dst] = &v
			case *ssa.FieldAddr:
				p := it.get(fr, &ci.ops[0]).(*value)
				if p == nil {
					nilDeref()
				}
				fr.regs[ci.dst] = &(*p).(structure)[in.Field]
			case *ssa.Field:
				fr.regs[ci.dst] = it.get(fr, &ci.ops[0]).(structure)[in.Field]
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = it.indexAddr(it.get(fr, &ci.ops[0]), it.get(fr, &ci.ops[1]), in)
			case *ssa.Index:
				fr.regs[ci.dst] = it.index(it.get(fr, &ci.ops[0]), it.get(fr, &ci.ops[1]))
			case *ssa.Lookup:
				fr.regs[ci.dst] = it.lookup(in, it.get(fr, &ci.ops[0]), it.get(fr, &ci.ops[1]))
			case *ssa.MapUpdate:
				m, _ := it.get(fr, &ci.ops[0]).(*mapobj)
				c.mapSet(m, it.get(fr, &ci.ops[1]), copyVal(it.get(fr, &ci.ops[2])))
				if it.shared != nil {
					it.wroteMap(m, fr)
				}
			case *ssa.If:
				if c.truth(it.get(fr, &ci.ops[0])) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = it.get(fr, &ci.ops[0])
				default:
					res := make(tuple, len(ci.ops))
					for i := range ci.ops {
						res[i] = it.get(fr, &ci.ops[i])
					}
					fr.result = res
				}
				return
			case *ssa.Panic:
				panic(targetPanic{it.get(fr, &ci.ops[0])})
			case *ssa.Extract:
				fr.regs[ci.dst] = it.get(fr, &ci.ops[0]).(tuple)[in.Index]
			case *ssa.Slice:
				fr.regs[ci.dst] = it.slice(in, it.get(fr, &ci.ops[0]), it.get(fr, &ci.ops[1]), it.get(fr, &ci.ops[2]), it.get(fr, &ci.ops[3]))
			case *ssa.MakeSlice:
				n := c.asInt(it.get(fr, &ci.ops[0]))
				m := c.asInt(it.get(fr, &ci.ops[1]))
				if n < 0 || n > 1<<40 {
					panic(targetPanic{runtimeErr("makeslice: len out of range")})
				}
				if m < n || m > 1<<40 {
					panic(targetPanic{runtimeErr("makeslice: cap out of range")})
				}
				if m > 1<<22 {
					unsupported("slice of %d elements", m)
				}
				et := in.Type().Underlying().(*types.Slice).Elem()
				fr.regs[ci.dst] = makeSlice(et, int(n), int(m))
			case *ssa.MakeMap:
				fr.regs[ci.dst] = newMap()
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = iface{in.X.Type(), it.get(fr, &ci.ops[0])}
			case *ssa.MakeClosure:
				env := make([]value, len(ci.ops)-1)
				for i := range env {
					env[i] = it.get(fr, &ci.ops[i+1])
				}
				fr.regs[ci.dst] = &closure{in.Fn.(*ssa.Function), env}
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = it.get(fr, &ci.ops[0])
			case *ssa.ChangeType:
				fr.regs[ci.dst] = it.get(fr, &ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = it.convert(in.X.Type(), in.Type(), it.get(fr, &ci.ops[0]))
			case *ssa.SliceToArrayPointer:
				s := it.get(fr, &ci.ops[0]).([]value)
				n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					panic(targetPanic{runtimeErr("cannot convert slice to array pointer")})
				}
				var v value = array(s[:n:n])
				fr.regs[ci.dst] = &v
			case *ssa.MultiConvert:
				unsupported("multiconvert")
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = it.typeAssert(in, it.get(fr, &ci.ops[0]).(iface))
			case *ssa.Range:
				switch x := it.get(fr, &ci.ops[0]).(type) {
				case *mapobj:
					fr.regs[ci.dst] = &mapIter{m: x}
				default:
					fr.regs[ci.dst] = &strIter{s: x}
				}
			case *ssa.Next:
				fr.regs[ci.dst] = it.next(it.get(fr, &ci.ops[0]), in)
			case *ssa.Defer:
				fv, args := it.prepCall(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fv, args})
			case *ssa.RunDefers:
				it.runDefers(fr)
				if fr.panicking {
					panic(targetPanic{fr.panicVal})
				}
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				unsupported("concurrency: %s", in)
			default:
				unsupported("instruction %T", in)
			}
		}
		prev = bi
		bi = next
	}
}

func nilDeref() {
	panic(targetPanic{runtimeErr("invalid memory address or nil pointer dereference")})
}

func makeSlice(et types.Type, n, m int) []value {
	s := make([]value, m)
	z := zero(et)
	for i := range s {
		s[i] = copyVal(z)
	}
	return s[:n]
}

func (it *Interp) prepCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (value, []value) {
	if cc.IsInvoke() {
		recv := it.get(fr, &ci.ops[0]).(iface)
		if recv.t == nil {
			nilDeref()
		}
		args := make([]value, len(ci.ops))
		args[0] = recv.v
		for i := 1; i < len(ci.ops); i++ {
			args[i] = it.get(fr, &ci.ops[i])
		}
		fn := it.method(recv.t, cc.Method)
		return fn, args
	}
	args := make([]value, len(ci.ops)-1)
	for i := range args {
		args[i] = it.get(fr, &ci.ops[i+1])
	}
	return it.get(fr, &ci.ops[0]), args
}

func (it *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := it.methods[k]; ok {
		return f
	}
	f := it.t.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		unsupported("method %s of %s", m.Name(), t)
	}
	it.methods[k] = f
	return f
}

func (it *Interp) doCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) value {
	fv, args := it.prepCall(fr, ci, cc)
	if b, ok := fv.(*ssa.Builtin); ok {
		return it.builtin(b, args, fr, cc)
	}
	return it.callValue(fv, args, fr)
}

// ---- operators ----

func (it *Interp) binop(ci *cinstr, in *ssa.BinOp, x, y value) value {
	c := it.c
	op := ci.aux.(string)
	k := ci.kind
	switch {
	case k.isInt:
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return c.intCmp(op, x, y, k.ik)
		case token.SHL, token.SHR:
			if yi, ok := y.(int64); ok && yi < 0 {
				if kindOf(in.Y.Type()).ik.signed {
					panic(targetPanic{runtimeErr("negative shift amount")})
				}
			}
		}
		return c.intBin(op, x, y, k.ik)
	case k.isFlt:
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return c.cmpV(op, x, y)
		}
		return c.floatOp(op, x, y, k.bits)
	case k.isStr:
		switch in.Op {
		case token.ADD:
			return c.strConcat(x, y)
		case token.EQL:
			return c.strEq(x, y)
		case token.NEQ:
			return !c.strEq(x, y)
		case token.LSS:
			return c.strLess(x, y)
		case token.GTR:
			return c.strLess(y, x)
		case token.LEQ:
			return !c.strLess(y, x)
		case token.GEQ:
			return !c.strLess(x, y)
		}
	}
	switch in.Op {
	case token.EQL:
		return it.eq(x, y)
	case token.NEQ:
		switch r := it.eq(x, y).(type) {
		case bool:
			return !r
		case *SymBool:
			return negB(r)
		}
	}
	unsupported("operator %s on %s", op, in.X.Type())
	return nil
}

func (it *Interp) eq(x, y value) value {
	// comparisons with untyped nil
	if f, ok := x.(*closure); ok {
		g, ok := y.(*ssa.Function)
		_ = f
		if ok && g == nil {
			return false
		}
	}
	if f, ok := x.(*ssa.Function); ok {
		switch g := y.(type) {
		case *closure:
			return false
		case *ssa.Function:
			return f == nil && g == nil
		}
	}
	return it.c.equals(x, y)
}

func (it *Interp) unop(ci *cinstr, in *ssa.UnOp, x value) value {
	c := it.c
	switch in.Op {
	case token.MUL:
		p, ok := x.(*value)
		if !ok {
			unsupported("load through %T", x)
		}
		if p == nil {
			nilDeref()
		}
		return copyVal(*p)
	case token.SUB:
		if ci.kind.isFlt {
			return c.negFloat(x)
		}
		return c.intBin("-", int64(0), x, ci.kind.ik)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *SymBool:
			return negB(b)
		}
	case token.XOR:
		if v, fn := c.oneDom(x); v != nil {
			return c.mkTab(v, func(i int) int64 { return ci.kind.ik.normalize(^fn(i)) })
		}
		if i, ok := x.(int64); ok {
			return ci.kind.ik.normalize(^i)
		}
		return c.intBin("-", c.intBin("-", int64(0), x, ci.kind.ik), int64(1), ci.kind.ik)
	case token.ARROW:
		unsupported("channel receive")
	}
	unsupported("unary %s", in.Op)
	return nil
}

func (it *Interp) boundsCheck(i value, n int) int {
	if x, ok := i.(int64); ok {
		if x < 0 || x >= int64(n) {
			panic(targetPanic{runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", x, n))})
		}
		return int(x)
	}
	c := it.c
	// out of range possible?
	in := c.andB(c.intCmp(">=", i, int64(0), intKind{64, true}), c.intCmp("<", i, int64(n), intKind{64, true}))
	if !c.truth(in) {
		panic(targetPanic{runtimeErr("index out of range")})
	}
	return int(c.asInt(i))
}

func (c *Ctx) andB(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	x, y := a.(*SymBool), b.(*SymBool)
	return &SymBool{mkAnd(x.t, y.t), mkOr(x.f, y.f)}
}

func (c *Ctx) orB(a, b value) value { return c.notB(c.andB(c.notB(a), c.notB(b))) }
func (c *Ctx) notB(a value) value {
	switch x := a.(type) {
	case bool:
		return !x
	case *SymBool:
		return negB(x)
	}
	panic("notB")
}

func (it *Interp) indexAddr(x, i value, in *ssa.IndexAddr) value {
	var s []value
	switch a := x.(type) {
	case []value:
		s = a
	case *value:
		if a == nil {
			nilDeref()
		}
		s = (*a).(array)
	default:
		unsupported("indexaddr of %T", x)
	}
	if _, ok := i.(int64); !ok {
		// a read-only use of a table by a small-domain index: keep it symbolic
		if v, fn := it.c.oneDom(i); v != nil {
			if r, ok := it.tableRead(s, v, fn, in); ok {
				return r
			}
		}
	}
	return &s[it.boundsCheck(i, len(s))]
}

// tableRead handles t[i] with a symbolic small-domain index when every use is a load
// and the elements are plain integers or booleans.
func (it *Interp) tableRead(s []value, v *Var, fn func(int) int64, in *ssa.IndexAddr) (value, bool) {
	refs := in.Referrers()
	if refs == nil {
		return nil, false
	}
	for _, r := range *refs {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return nil, false
		}
	}
	r, ok := it.tableVal(s, v, fn)
	if !ok {
		return nil, false
	}
	return &r, true
}

func (it *Interp) tableVal(s []value, v *Var, fn func(int) int64) (value, bool) {
	c := it.c
	isBool, isInt := true, true
	for i := 0; i < 256; i++ {
		if !domHas(v.dom, i) {
			continue
		}
		j := fn(i)
		if j < 0 || j >= int64(len(s)) {
			return nil, false
		}
		switch s[j].(type) {
		case int64:
			isBool = false
		case bool:
			isInt = false
		default:
			return nil, false
		}
	}
	if isInt {
		return c.mkTab(v, func(i int) int64 { return s[fn(i)].(int64) }), true
	}
	if isBool {
		return c.tabBool(v, func(i int) bool { return s[fn(i)].(bool) }), true
	}
	return nil, false
}

func (it *Interp) index(x, i value) value {
	switch a := x.(type) {
	case array:
		if v, fn := it.c.oneDom(i); v != nil {
			if r, ok := it.tableVal(a, v, fn); ok {
				return r
			}
		}
		return a[it.boundsCheck(i, len(a))]
	case string:
		if v, fn := it.c.oneDom(i); v != nil {
			if r, ok := it.tableVal(strBytes(a), v, fn); ok {
				return r
			}
		}
		return int64(a[it.boundsCheck(i, len(a))])
	case *SymStr:
		return it.c.simplByte(a.b[it.boundsCheck(i, len(a.b))])
	}
	unsupported("index of %T", x)
	return nil
}

func (it *Interp) lookup(in *ssa.Lookup, x, i value) value {
	m, ok := x.(*mapobj)
	if !ok {
		return it.index(x, i)
	}
	e := it.c.mapFind(m, i)
	var v value
	if e != nil {
		v = e.v
	} else {
		v = zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return tuple{v, e != nil}
	}
	return v
}

func (it *Interp) slice(in *ssa.Slice, x, lo, hi, mx value) value {
	c := it.c
	var n, cp int
	isStr := false
	var s []value
	switch a := x.(type) {
	case string, *SymStr:
		n = strLen(a)
		cp = n
		isStr = true
	case []value:
		s = a
		n, cp = len(a), cap(a)
	case *value:
		if a == nil {
			nilDeref()
		}
		s = (*a).(array)
		n, cp = len(s), cap(s)
	default:
		unsupported("slice of %T", x)
	}
	l, h, m := 0, n, cp
	if lo != nil {
		l = int(c.asInt(lo))
	}
	if hi != nil {
		h = int(c.asInt(hi))
	}
	if mx != nil {
		m = int(c.asInt(mx))
	}
	if l < 0 || l > h || h > m || m > cp {
		panic(targetPanic{runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))})
	}
	if isStr {
		return c.strSlice(x, l, h)
	}
	if s == nil {
		return []value(nil)
	}
	return s[l:h:m]
}

func (it *Interp) next(x value, in *ssa.Next) value {
	switch t := x.(type) {
	case *mapIter:
		if t.m == nil {
			return tuple{false, nil, nil}
		}
		for t.pos < len(t.m.ents) {
			e := t.m.ents[t.pos]
			t.pos++
			if !e.deleted {
				return tuple{true, e.k, e.v}
			}
		}
		return tuple{false, nil, nil}
	case *strIter:
		n := strLen(t.s)
		if t.pos >= n {
			return tuple{false, int64(0), int64(0)}
		}
		i := t.pos
		r, sz := it.decodeRune(t.s, i)
		t.pos += sz
		return tuple{true, int64(i), r}
	}
	unsupported("next on %T", x)
	return nil
}

func (it *Interp) decodeRune(s value, i int) (value, int) {
	if x, ok := s.(string); ok {
		r, sz := utf8.DecodeRuneInString(x[i:])
		return int64(r), sz
	}
	b := it.c.simplByte(strByte(s, i))
	x, ok := b.(int64)
	if !ok {
		if v, fn := it.c.oneDom(b); v != nil {
			for j := 0; j < 256; j++ {
				if domHas(v.dom, j) && fn(j) >= 0x80 {
					unsupported("symbolic non-ASCII byte")
				}
			}
			return b, 1
		}
		if n, ok := b.(*Num); ok && n.hi < 128 {
			return b, 1
		}
		unsupported("symbolic non-ASCII byte")
	}
	if x < 0x80 {
		return x, 1
	}
	var buf []byte
	for j := i; j < strLen(s) && j < i+4; j++ {
		y, ok := it.c.simplByte(strByte(s, j)).(int64)
		if !ok {
			// a symbolic byte is ASCII, never a continuation
			break
		}
		buf = append(buf, byte(y))
	}
	r, sz := utf8.DecodeRune(buf)
	return int64(r), sz
}

func (it *Interp) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if it2, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && types.Implements(x.t, it2) {
			ok = true
			v = x
		} else {
			v = iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok = true
			v = x.v
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return tuple{v, ok}
	}
	if !ok {
		panic(targetPanic{runtimeErr(fmt.Sprintf("interface conversion: interface is %v, not %s", x.t, in.AssertedType))})
	}
	return v
}

// ---- conversions ----

func (it *Interp) convert(from, to types.Type, x value) value {
	c := it.c
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case fk.isInt && tk.isInt:
		switch v := x.(type) {
		case int64:
			return tk.ik.normalize(v)
		case *Num:
			return c.wrapInt(v, tk.ik)
		case *Tab:
			return c.mkTab(c.vars[v.v], func(i int) int64 { return tk.ik.normalize(v.t[i]) })
		}
	case fk.isInt && tk.isFlt:
		if t, ok := x.(*Tab); ok {
			x = c.tabNum(t)
		}
		if i, ok := x.(int64); ok && !fk.ik.signed && fk.ik.bits == 64 {
			if tk.bits == 32 {
				return float64(float32(uint64(i)))
			}
			return float64(uint64(i))
		}
		return c.intToFloat(x, tk.bits)
	case fk.isFlt && tk.isInt:
		return c.floatToInt(x, tk.ik)
	case fk.isFlt && tk.isFlt:
		return c.floatToFloat(x, tk.bits)
	case fk.isStr && tk.isStr:
		return x
	case fk.isInt && tk.isStr:
		if i, ok := x.(int64); ok {
			return string(rune(i))
		}
		// symbolic rune: ASCII only
		if v, fn := c.oneDom(x); v != nil {
			for j := 0; j < 256; j++ {
				if domHas(v.dom, j) && (fn(j) < 0 || fn(j) >= 0x80) {
					unsupported("symbolic non-ASCII rune")
				}
			}
			return c.mkStr([]value{x})
		}
		return string(rune(c.asInt(x)))
	}
	if s, ok := to.Underlying().(*types.Slice); ok && fk.isStr {
		ek := kindOf(s.Elem())
		if ek.ik.bits == 8 {
			return append([]value{}, strBytes(x)...)
		}
		var out []value
		n := strLen(x)
		for i := 0; i < n; {
			r, sz := it.decodeRune(x, i)
			out = append(out, r)
			i += sz
		}
		if out == nil {
			out = []value{}
		}
		return out
	}
	if s, ok := from.Underlying().(*types.Slice); ok && tk.isStr {
		ek := kindOf(s.Elem())
		sl := x.([]value)
		if ek.ik.bits == 8 {
			return c.mkStr(append([]value{}, sl...))
		}
		var out value = ""
		for _, r := range sl {
			out = c.strConcat(out, it.convert(types.Typ[types.Rune], types.Typ[types.String], r))
		}
		return out
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return x
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			if p, ok := x.(*value); ok && p != nil {
				_, isF := (*p).(float64)
				_, isI := (*p).(int64)
				if k := kindOf(pt.Elem()); k.isFlt && isI || k.isInt && isF {
					unsupported("reinterpretation of memory as %s", pt.Elem())
				}
			}
		}
		return x
	}
	unsupported("conversion from %s to %s", from, to)
	return nil
}

// ---- builtins ----

func (it *Interp) builtin(b *ssa.Builtin, args []value, fr *frame, cc *ssa.CallCommon) value {
	c := it.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *mapobj:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		case string, *SymStr:
			src = strBytes(s)
		}
		var et types.Type = types.Typ[types.Byte]
		if sig, ok := b.Type().(*types.Signature); ok {
			if st, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		out := it.appendSlice(dst, src, et)
		if it.shared != nil && len(src) > 0 && len(out) <= cap(dst) {
			it.wroteAll(out[len(dst):], fr)
		}
		return out
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		case string, *SymStr:
			src = strBytes(s)
		}
		n := min(len(dst), len(src))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		if it.shared != nil {
			it.wroteAll(dst[:n], fr)
		}
		return int64(n)
	case "delete":
		if m := args[0].(*mapobj); m != nil {
			c.mapDelete(m, args[1])
			if it.shared != nil {
				it.wroteMap(m, fr)
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapobj:
			if x != nil {
				*x = *newMap()
				if it.shared != nil {
					it.wroteMap(x, fr)
				}
			}
		case []value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
			if it.shared != nil {
				it.wroteAll(x, fr)
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking one
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicVal
			if e, ok := v.(runtimeError); ok {
				return it.mkError(string(e))
			}
			return v
		}
		return iface{}
	case "min", "max":
		r := args[0]
		k := kindOf(b.Type().(*types.Signature).Params().At(0).Type())
		for _, a := range args[1:] {
			var less value
			if k.isFlt {
				r = it.fminmax(b.Name(), r, a)
				continue
			} else if k.isInt {
				less = c.intCmp("<", a, r, k.ik)
			} else {
				less = c.strLess(a, r)
			}
			if c.truth(less) == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*value)
		if p == nil {
			nilDeref()
		}
		return p
	case "SliceData", "StringData":
		return &sliceData{args[0]}
	case "String":
		n := int(c.asInt(args[1]))
		if n == 0 {
			return ""
		}
		sd := args[0].(*sliceData)
		switch s := sd.s.(type) {
		case []value:
			return c.mkStr(append([]value{}, s[:n]...))
		default:
			return c.strSlice(s, 0, n)
		}
	case "Slice":
		n := int(c.asInt(args[1]))
		if sd, ok := args[0].(*sliceData); ok {
			switch s := sd.s.(type) {
			case []value:
				return s[:n]
			default:
				return append([]value{}, strBytes(s)[:n]...)
			}
		}
	case "Sizeof", "Alignof", "Offsetof":
	}
	unsupported("builtin %s(%T)", b.Name(), args)
	return nil
}

func (it *Interp) fminmax(name string, a, b value) value {
	for _, v := range []value{a, b} {
		if f, ok := v.(float64); ok && math.IsNaN(f) {
			return f
		}
	}
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			if name == "min" {
				return math.Min(x, y)
			}
			return math.Max(x, y)
		}
	}
	less := it.c.truth(it.c.cmpV("<", a, b))
	if less == (name == "min") {
		return a
	}
	return b
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows the Go runtime's slice growth, so that aliasing of backing arrays is
// that of the real program.
func growCap(oldCap, newLen, size int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if size == 0 {
		return newcap
	}
	bytes := newcap * size
	if bytes <= 32768 {
		for _, s := range sizeClasses {
			if s >= bytes {
				return s / size
			}
		}
	}
	pages := (bytes + 8191) / 8192
	return pages * 8192 / size
}

func (it *Interp) appendSlice(dst, src []value, et types.Type) []value {
	n := len(dst) + len(src)
	if n <= cap(dst) {
		out := dst[:n]
		tmp := make([]value, len(src))
		for i, v := range src {
			tmp[i] = copyVal(v)
		}
		copy(out[len(dst):], tmp)
		if dst == nil && n == 0 {
			return dst
		}
		return out
	}
	if n > 1<<22 {
		unsupported("slice of %d elements", n)
	}
	nc := growCap(cap(dst), n, int(it.t.sizes.Sizeof(et)))
	out := make([]value, nc)
	for i, v := range dst {
		out[i] = copyVal(v)
	}
	for i, v := range src {
		out[len(dst)+i] = copyVal(v)
	}
	if nc > n {
		z := zero(et)
		for i := n; i < nc; i++ {
			out[i] = copyVal(z)
		}
	}
	return out[:n]
}

var _ = big.NewRat
