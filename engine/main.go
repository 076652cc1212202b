package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	prop, harness, msg, text string
	re                       *regexp.Regexp
}

func (k *knownFinding) matches(c *candidate) bool {
	if k.harness != "" && k.harness != c.h.name {
		return false
	}
	return k.re.MatchString(c.reply.Msg)
}

// loadKnown reads "known: property=<id> harness=<name> match=<regexp> :: text".
func loadKnown(file, prop string) []knownFinding {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) match=(.*?) :: (.*)$`)
	for sc.Scan() {
		m := re.FindStringSubmatch(strings.TrimSpace(sc.Text()))
		if m == nil || m[1] != prop {
			continue
		}
		out = append(out, knownFinding{m[1], m[2], m[3], m[4], regexp.MustCompile(m[3])})
	}
	return out
}

func main() {
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check <property> quick|thorough | engine replay <file> | engine one <harness> quick|thorough")
		os.Exit(2)
	}
	t0 := time.Now()
	work, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		fail(err)
	}
	code := 2
	func() {
		defer os.RemoveAll(work)
		code = realMain(repo, verif, work, t0)
	}()
	os.Exit(code)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(2)
}

func realMain(repo, verif, work string, t0 time.Time) int {
	cmd := os.Args[1]
	t, err := prepare(repo, verif, work, len(os.Args) > 2 && rendererProp(os.Args[2]))
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	bin := filepath.Join(work, "replaybin")
	berr := make(chan error, 1)
	go func() { berr <- t.buildReplay(bin) }()
	if cmd == "replay" {
		if err := <-berr; err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		return doReplay(t, bin, os.Args[2])
	}
	if err := t.load(); err != nil {
		<-berr
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	if err := <-berr; err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{t: t, prop: os.Args[2], thorough: tier == "thorough", profile: os.Getenv("VERIF_PROFILE") != "",
		forkTimeout: 3000, assertTimeout: 5000, fallbackTimeout: 10000, stats: newStats(), replayBin: bin,
		seed: seed, validateEvery: 50, forks: map[string]int64{}, funcs: map[string]bool{}, knownHit: map[string]bool{}}
	limit := 300 * time.Second
	r.pathLimit = 15 * time.Second
	if r.thorough {
		limit = 800 * time.Second
		r.pathLimit = 60 * time.Second
		r.assertTimeout, r.fallbackTimeout = 20000, 30000
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_VALIDATE")); err == nil && v > 0 {
		r.validateEvery = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_LIMIT")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	r.deadline = time.Now().Add(limit)
	prefix := r.prop + "_"
	if cmd == "one" {
		prefix = r.prop
		r.prop = r.prop[:3]
	}
	for _, n := range t.names {
		if strings.HasPrefix(n, prefix) {
			r.harnesses = append(r.harnesses, &harness{name: n, fn: t.h.Func(n), paths: map[string]int64{}, covers: map[string]int64{}, bounds: map[string]bool{}, unsup: map[string]int64{}, unreprod: map[string]int64{}})
		}
	}
	if len(r.harnesses) == 0 {
		fmt.Fprintln(os.Stderr, "error: no harness for", r.prop)
		return 2
	}
	r.known = loadKnown(filepath.Join(verif, "known_findings.txt"), r.prop)
	nw := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil {
		nw = v
	}
	r.explore(nw)
	code := 0
	vfile := ""
	if v := r.violation; v != nil {
		code = 1
		vfile = writeReplay(verif, r.prop, v)
	}
	for k := range r.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
	}
	r.summary()
	if cmd == "check" {
		if err := r.evidence(verif, tier, t0); err != nil {
			fmt.Fprintln(os.Stderr, "error: evidence:", err)
			return 2
		}
	}
	if code == 1 {
		v := r.violation
		fmt.Printf("%s: %s\n", v.h.name, v.reply.Msg)
		for _, d := range v.reply.Docs {
			fmt.Printf("input: %s\n", d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, vfile)
	}
	return code
}

func writeReplay(verif, prop string, v *candidate) string {
	dir := filepath.Join(verif, "out")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.h.name, "inputs": v.inputs, "message": v.reply.Msg, "status": v.reply.Status, "documents": v.reply.Docs, "claim": v.msg}, "", " ")
	h := fnv.New32a()
	h.Write(b)
	f := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", prop, h.Sum32()))
	os.WriteFile(f, b, 0o644)
	return f
}

func doReplay(t *Target, bin, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	var v struct {
		Property, Harness, Claim string
		Inputs                   map[string]float64
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	p := newReplayer(bin)
	defer p.close()
	var r *reply
	if strings.HasPrefix(v.Claim, raceMsg) {
		r = (&Run{t: t, replayBin: bin}).race(v.Harness, v.Inputs, false)
	} else {
		r = p.run(v.Harness, v.Inputs, false)
	}
	fmt.Println(r.Status, r.Msg)
	for _, d := range r.Docs {
		fmt.Println("input:", d)
	}
	for _, o := range r.Obs {
		fmt.Println("  ", o.L, o.V)
	}
	if r.failed() {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	return 0
}

func (r *Run) summary() {
	if r.profile {
		var l []string
		for k, n := range r.forks {
			l = append(l, fmt.Sprintf("%8d %s", n, k))
		}
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
		for i, s := range l {
			if i < 25 {
				fmt.Fprintln(os.Stderr, s)
			}
		}
	}
	for _, h := range r.harnesses {
		fmt.Printf("%s paths=%v asserts=%d queries=%d unknown=%d validated=%d mismatch=%d maxdec=%d cpu=%.1fs steps=%dk covers=%v\n", h.name, h.paths, h.asserts, h.queries, h.unknownQ, h.validated, len(h.mismatch), h.maxDec, h.cpu.Seconds(), h.steps/1000, h.covers)
		for k, n := range h.unsup {
			fmt.Printf("   %d x %s\n", n, k)
		}
		for k, n := range h.unreprod {
			fmt.Printf("   %d x not reproduced: %s\n", n, k)
		}
		for i, m := range h.mismatch {
			if i < 5 {
				fmt.Printf("   mismatch: %s\n", m)
			}
		}
	}
	if r.timedOut {
		fmt.Printf("time limit: %d tasks not explored\n", r.dropped)
	}
	fmt.Printf("solver: %d queries (%d sat, %d unsat, %d unknown) %.1fs\n", r.stats.queries.Load(), r.stats.sat.Load(), r.stats.unsat.Load(), r.stats.unknown.Load(), float64(r.stats.nanos.Load())/1e9)
}

func (r *Run) evidence(verif, tier string, t0 time.Time) error {
	var paths, infeasible, unsup, unrep, val, asserts, queries, unk int64
	var samples, hs, mism []any
	vacuous := []string{}
	for _, h := range r.harnesses {
		for k, n := range h.paths {
			switch k {
			case "infeasible":
				infeasible += n
			case "unsupported", "budget", "depth", "slow":
				unsup += n
			}
			if k != "infeasible" {
				paths += n
			}
		}
		for _, n := range h.unreprod {
			unrep += n
		}
		val += h.validated
		asserts += h.asserts
		queries += h.queries
		unk += h.unknownQ
		if h.sample != nil {
			samples = append(samples, h.sample)
		}
		for _, m := range h.mismatch {
			mism = append(mism, m)
		}
		if h.asserts == 0 && h.paths["panic"] == 0 {
			vacuous = append(vacuous, h.name)
		}
		hs = append(hs, map[string]any{"name": h.name, "paths": h.paths, "assertions": h.asserts, "assertion_queries": h.queries, "undecided_queries": h.unknownQ, "decided_by_simplifier_only": h.simplUnknown,
			"reached": h.covers, "bounds": sortedKeys(h.bounds), "outside_encoding": h.unsup, "not_reproduced": h.unreprod, "traces_validated": h.validated, "max_decisions": h.maxDec, "ssa_instructions": h.steps, "cpu_s": round2(h.cpu.Seconds())})
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, strings.ReplaceAll(f, modPath, "svg"))
	}
	sort.Strings(fns)
	viol := 0
	if r.violation != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": r.seed, "level": "model_checking", "wall_s": round2(time.Since(t0).Seconds()), "violations": viol,
		"coverage": map[string]any{
			"states": paths, "transitions": r.decisions, "traces_validated_against_impl": val, "samples": samples,
			"exhaustive":              !r.timedOut && unsup == 0 && unrep == 0 && unk == 0 && r.violation == nil,
			"states_meaning":          "feasible symbolic paths executed to their end; each stands for all inputs satisfying its path condition",
			"transitions_meaning":     "decisions with more than one feasible outcome",
			"infeasible_paths":        infeasible,
			"assertions_encountered":  asserts,
			"assertion_queries":       queries,
			"undecided_queries":       unk,
			"paths_outside_encoding":  unsup,
			"unreproduced_candidates": unrep,
			"translator_mismatches":   mism,
			"time_limit_reached":      r.timedOut,
			"tasks_not_explored":      r.dropped,
			"functions_encoded":       fns,
			"solver": map[string]any{"binary": newSolver(r.stats).bin, "queries": r.stats.queries.Load(), "sat": r.stats.sat.Load(), "unsat": r.stats.unsat.Load(), "unknown": r.stats.unknown.Load(), "fallbacks": r.stats.fallback.Load(),
				"time_s": round2(float64(r.stats.nanos.Load()) / 1e9), "cross_checks_cvc5": r.stats.crossChecks.Load(), "cross_disagreements": r.stats.crossDisagree.Load()},
			"harnesses":         hs,
			"vacuous_harnesses": vacuous,
		},
		"assumptions": []string{
			"bounds: as listed per harness; nothing is claimed outside them",
			"floating point: values are exact reals with a sound bound on the rounding error; comparisons are relaxed by it (both outcomes explored when within it)",
			"library models: encoding/xml decoder replaced by the harness document's token list, log calls counted, sin/cos/sqrt/atan2 by their defining relations (see DESIGN.md)",
			"a violation is reported only after the compiled code reproduced it on the solver's inputs",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), b, 0o644)
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }
