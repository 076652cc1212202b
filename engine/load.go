package main

// Loading: the current tree of /repo together with the harness packages, type-checked
// and translated to SSA, and lazily compiled to register code for the executor.

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lafriks/go-svg"
const ndPath = modPath + "/zzverif/nd"
const hPath = modPath + "/zzverif/h"

type Target struct {
	repo, verif, work string
	overlay           map[string]string // repo path -> file on disk
	overlayFile       string
	modFile           string
	names             []string // of the harnesses
	prog              *ssa.Program
	h, nd             *ssa.Package
	sizes             types.Sizes

	mu    sync.Mutex
	codes sync.Map // *ssa.Function -> *code
	gidx  sync.Map // *ssa.Global -> int
	ng    int
	ginfo []*ssa.Global
	ttNum sync.Map // function -> bool touched (coverage)
	files map[string]bool
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=", "GOSUMDB=off", "GONOSUMDB=*")
	return env
}

// prepare writes the overlay and the instrumented third-party copies under work.
func prepare(repo, verif, work string, renderers bool) (*Target, error) {
	t := &Target{repo: repo, verif: verif, work: work, overlay: map[string]string{}}
	if err := os.MkdirAll(work, 0o755); err != nil {
		return nil, err
	}
	hd := filepath.Join(verif, "harness")
	subs := []string{"nd", "h", "replay"}
	dirs := []string{"h"}
	if renderers {
		subs = append(subs, "r")
		dirs = append(dirs, "r")
	}
	for _, sub := range subs {
		fs, err := filepath.Glob(filepath.Join(hd, sub, "*.go"))
		if err != nil {
			return nil, err
		}
		into := sub
		if sub == "r" {
			into = "h"
		}
		for _, f := range fs {
			t.overlay[filepath.Join(repo, "zzverif", into, filepath.Base(f))] = f
		}
	}
	names, err := harnessNames(hd, dirs...)
	t.names = names
	if err != nil {
		return nil, err
	}
	var sb strings.Builder
	sb.WriteString("package h\n\n// Harnesses is generated.\nvar Harnesses = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(work, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	t.overlay[filepath.Join(repo, "zzverif", "h", "zz_registry.go")] = reg
	if err := t.instrument(renderers); err != nil {
		return nil, err
	}
	js, _ := json.Marshal(map[string]any{"Replace": t.overlay})
	t.overlayFile = filepath.Join(work, "overlay.json")
	return t, os.WriteFile(t.overlayFile, js, 0o644)
}

func harnessNames(dir string, subs ...string) ([]string, error) {
	var fs []string
	for _, sub := range subs {
		f, err := filepath.Glob(filepath.Join(dir, sub, "*.go"))
		if err != nil {
			return nil, err
		}
		fs = append(fs, f...)
	}
	var out []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func C") && len(l) > 9 && strings.HasSuffix(l, "() {") {
				n := strings.TrimSuffix(strings.TrimPrefix(l, "func "), "() {")
				if n[1] >= '0' && n[1] <= '9' && n[3] == '_' {
					out = append(out, n)
				}
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

func (t *Target) buildFlags() []string {
	return []string{"-mod=mod", "-modfile=" + t.modFile, "-overlay=" + t.overlayFile}
}

func (t *Target) load() error {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        t.repo,
		Env:        goEnv(),
		BuildFlags: t.buildFlags()[:2],
		Overlay:    map[string][]byte{},
	}
	for k, f := range t.overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		cfg.Overlay[k] = b
	}
	ps, err := packages.Load(cfg, hPath, ndPath)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	t.prog = prog
	t.h = prog.ImportedPackage(hPath)
	t.nd = prog.ImportedPackage(ndPath)
	t.sizes = types.SizesFor("gc", "amd64")
	return nil
}

func (t *Target) buildReplay(out string) error {
	args := append([]string{"build"}, t.buildFlags()...)
	args = append(args, "-o", out, modPath+"/zzverif/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = t.repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the replay program: %v\n%s", err, b)
	}
	return nil
}

// ---- register code ----

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 global, 3 aggregate zero constant
	i int
	v value
	t types.Type
}

type cinstr struct {
	in   ssa.Instruction
	dst  int
	ops  []opnd
	kind opKind
	aux  any
}

type opKind struct {
	ik     intKind
	isInt  bool
	isFlt  bool
	bits   int // float
	isStr  bool
	isBool bool
}

type cblock struct {
	phis   []cphi
	instrs []cinstr
	succs  []int
}

type cphi struct {
	dst   int
	edges []opnd
}

type code struct {
	fn     *ssa.Function
	blocks []cblock
	nregs  int
	params []int
	free   []int
	intr   intrinsic
	name   string
	repo   bool
	pkg    *ssa.Package
	isInit bool
}

func kindOf(t types.Type) opKind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return opKind{}
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return opKind{isInt: true, ik: intKind{64, true}}
	case types.Int8:
		return opKind{isInt: true, ik: intKind{8, true}}
	case types.Int16:
		return opKind{isInt: true, ik: intKind{16, true}}
	case types.Int32, types.UntypedRune:
		return opKind{isInt: true, ik: intKind{32, true}}
	case types.Uint, types.Uint64, types.Uintptr:
		return opKind{isInt: true, ik: intKind{64, false}}
	case types.Uint8:
		return opKind{isInt: true, ik: intKind{8, false}}
	case types.Uint16:
		return opKind{isInt: true, ik: intKind{16, false}}
	case types.Uint32:
		return opKind{isInt: true, ik: intKind{32, false}}
	case types.Float64, types.UntypedFloat:
		return opKind{isFlt: true, bits: 64}
	case types.Float32:
		return opKind{isFlt: true, bits: 32}
	case types.String, types.UntypedString:
		return opKind{isStr: true}
	case types.Bool, types.UntypedBool:
		return opKind{isBool: true}
	}
	return opKind{}
}

func (t *Target) globalIndex(g *ssa.Global) int {
	if i, ok := t.gidx.Load(g); ok {
		return i.(int)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if i, ok := t.gidx.Load(g); ok {
		return i.(int)
	}
	i := t.ng
	t.ng++
	t.ginfo = append(t.ginfo, g)
	t.gidx.Store(g, i)
	return i
}

func (t *Target) isRepoPkg(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/") || recordPkgs[p.Pkg.Path()])
}

// recordPkgs are instrumented third-party packages whose globals are reset per path.
var recordPkgs = map[string]bool{"github.com/fogleman/gg": true, "github.com/srwiley/rasterx": true}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if _, ok := c.Type().Underlying().(*types.Interface); ok {
		unsupported("const of interface type")
	}
	k := kindOf(c.Type())
	switch {
	case k.isBool:
		return constant.BoolVal(c.Value)
	case k.isStr:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case k.isInt:
		if k.ik.signed {
			return c.Int64()
		}
		return int64(c.Uint64())
	case k.isFlt:
		if k.bits == 32 {
			return float64(float32(c.Float64()))
		}
		return c.Float64()
	}
	return bad{}
}

type bad struct{}

func (t *Target) code(fn *ssa.Function) *code {
	if c, ok := t.codes.Load(fn); ok {
		return c.(*code)
	}
	t.mu.Lock()
	c := &code{fn: fn, name: fn.String(), pkg: fn.Package()}
	t.mu.Unlock()
	if c.pkg == nil && fn.Origin() != nil {
		c.pkg = fn.Origin().Package()
	}
	c.repo = t.isRepoPkg(c.pkg)
	c.isInit = fn.Name() == "init" && fn.Synthetic != ""
	c.intr = findIntrinsic(fn)
	if c.intr == nil && fn.Blocks != nil {
		t.fill(c)
	}
	act, _ := t.codes.LoadOrStore(fn, c)
	return act.(*code)
}

func (t *Target) compileSource(fn *ssa.Function) *code {
	c := &code{fn: fn, name: fn.String(), pkg: fn.Package()}
	if fn.Blocks == nil {
		unsupported("function without body %s", c.name)
	}
	t.fill(c)
	return c
}

func (t *Target) fill(c *code) {
	fn := c.fn
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		c.params = append(c.params, n)
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		c.free = append(c.free, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nregs = n
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 1}
		case *ssa.Const:
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				if x.Value == nil {
					return opnd{k: 3, t: x.Type()}
				}
			}
			if _, ok := x.Type().(*types.TypeParam); ok {
				return opnd{k: 3, t: x.Type()}
			}
			return opnd{k: 1, v: constValue(x)}
		case *ssa.Global:
			return opnd{k: 2, i: t.globalIndex(x)}
		case *ssa.Function:
			return opnd{k: 1, v: x}
		case *ssa.Builtin:
			return opnd{k: 1, v: x}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.String() + " in " + fn.String())
		}
		return opnd{k: 0, i: r}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: regs[phi]}
				for _, e := range phi.Edges {
					p.edges = append(p.edges, mk(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.Call:
				ci.ops = callOps(mk, &x.Call)
			case *ssa.Defer:
				ci.ops = callOps(mk, &x.Call)
			case *ssa.Go:
				ci.ops = callOps(mk, &x.Call)
			default:
				for _, op := range in.Operands(nil) {
					if *op == nil {
						ci.ops = append(ci.ops, opnd{k: 1})
					} else {
						ci.ops = append(ci.ops, mk(*op))
					}
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				ci.kind = kindOf(x.X.Type())
				ci.aux = x.Op.String()
			case *ssa.UnOp:
				ci.kind = kindOf(x.X.Type())
			case *ssa.Slice:
				ops := []opnd{mk(x.X)}
				for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
					if v == nil {
						ops = append(ops, opnd{k: 1})
					} else {
						ops = append(ops, mk(v))
					}
				}
				ci.ops = ops
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}

}

func callOps(mk func(ssa.Value) opnd, cc *ssa.CallCommon) []opnd {
	ops := []opnd{mk(cc.Value)}
	for _, a := range cc.Args {
		ops = append(ops, mk(a))
	}
	return ops
}

var _ = token.ADD
