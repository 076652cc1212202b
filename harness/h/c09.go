package h

import (
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

const numTransforms = 9

// makeTransform is the k-th transform function with symbolic arguments and its matrix.
func makeTransform(k int, name string, lim float64, sep string) (string, [6]float64) {
	v := func() coord { return numIn(name, -lim, lim) }
	deg := func(lim float64) (string, float64) {
		a := numIn(name+".deg", -lim, lim)
		return a.s, a.v * math.Pi / 180
	}
	switch k {
	case 0:
		x, y := v(), v()
		return "translate(" + x.s + sep + y.s + ")", [6]float64{1, 0, 0, 1, x.v, y.v}
	case 1:
		x := v()
		return "translate(" + x.s + ")", [6]float64{1, 0, 0, 1, x.v, 0}
	case 2:
		x, y := v(), v()
		return "scale(" + x.s + sep + y.s + ")", [6]float64{x.v, 0, 0, y.v, 0, 0}
	case 3:
		x := v()
		return "scale(" + x.s + ")", [6]float64{x.v, 0, 0, x.v, 0, 0}
	case 4:
		t, a := deg(360)
		s, c := math.Sin(a), math.Cos(a)
		return "rotate(" + t + ")", [6]float64{c, s, -s, c, 0, 0}
	case 5:
		t, a := deg(360)
		x, y := v(), v()
		s, c := math.Sin(a), math.Cos(a)
		m := mul(mul([6]float64{1, 0, 0, 1, x.v, y.v}, [6]float64{c, s, -s, c, 0, 0}), [6]float64{1, 0, 0, 1, -x.v, -y.v})
		return "rotate(" + t + sep + x.s + sep + y.s + ")", m
	case 6:
		t, a := deg(80)
		return "skewX(" + t + ")", [6]float64{1, 0, math.Tan(a), 1, 0, 0}
	case 7:
		t, a := deg(80)
		return "skewY(" + t + ")", [6]float64{1, math.Tan(a), 0, 1, 0, 0}
	}
	var m [6]float64
	t := "matrix("
	for i := range m {
		c := v()
		m[i] = c.v
		if i > 0 {
			t += sep
		}
		t += c.s
	}
	return t + ")", m
}

// A list of two functions on the element inside a transformed group inside a transformed svg.
func C09_compose() {
	nd.Bound("g with a list of one function > g without > rect with a list of one or two functions, each function any of 9 forms; arguments in [-10,10], angles in [-360,360] degrees (skews in [-80,80])")
	t1, m1 := makeTransform(nd.Choice("outer", numTransforms), "o", 10, ",")
	t2, m2 := makeTransform(nd.Choice("first", numTransforms), "a", 10, " ")
	list, m := t2, m2
	if nd.Choice("two", 2) == 1 {
		t3, m3 := makeTransform(nd.Choice("second", numTransforms), "b", 10, " , ")
		list, m = t2+" "+t3, mul(m2, m3)
	}
	d := root().Start("g", "transform", t1).Elem("rect", rectAttrs()...).Start("g").Elem("rect", rectAttrs("transform", list)...).End().
		Elem("rect", rectAttrs()...).End().Elem("rect", rectAttrs("transform", list)...).Elem("rect", rectAttrs()...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 5, "paths")
	checkMatrix("element before", r.SvgPaths[0].Style.Transform, m1, 1e-6)
	checkMatrix("element", r.SvgPaths[1].Style.Transform, mul(m1, m), 1e-6)
	checkMatrix("element after", r.SvgPaths[2].Style.Transform, m1, 1e-6)
	checkMatrix("element outside", r.SvgPaths[3].Style.Transform, m, 1e-6)
	checkMatrix("plain element", r.SvgPaths[4].Style.Transform, [6]float64{1, 0, 0, 1, 0, 0}, 0)
}

// Longer lists and deeper chains.
func C09_chain() {
	nd.Bound("four translate, scale or matrix functions with arguments in [-10,10] distributed over the lists of a chain of three elements in every way, as attribute or in a style declaration, with every separator between functions")
	seps := []string{"", " ", ",", " , ", "\n"}
	sep := seps[nd.Choice("sep", len(seps))]
	var lists [3]string
	total := [6]float64{1, 0, 0, 1, 0, 0}
	at := 0
	for i := 0; i < 4; i++ {
		at += nd.Choice("next", 3-at)
		k := []int{0, 3, 8}[nd.Choice("fn", 3)]
		if i == 3 {
			k = 2
		}
		if i == 0 && !nd.Thorough() {
			k = 8
		}
		t, m := makeTransform(k, "v", 10, ",")
		if lists[at] != "" {
			lists[at] += sep
		}
		lists[at] += t
		total = mul(total, m)
	}
	kv := func(i int) []string {
		if lists[i] == "" {
			return nil
		}
		if i == 1 {
			return []string{"style", "transform:" + lists[i]}
		}
		return []string{"transform", lists[i]}
	}
	d := root().Start("g", kv(0)...).Start("g", kv(1)...).Elem("rect", rectAttrs(kv(2)...)...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 1, "paths")
	checkMatrix("element", r.SvgPaths[0].Style.Transform, total, 1e-6)
}

// Unknown functions and wrong argument counts are errors in every mode.
func C09_errors() {
	nd.Bound("each function with 0 to 8 arguments, unknown function names, missing parentheses; alone or after or before a valid function; all error modes")
	fns := []string{"matrix", "translate", "scale", "rotate", "skewX", "skewY", "foo", "scaleX", "", "translatee", "translate3d"}
	counts := [][]int{{6}, {1, 2}, {1, 2}, {1, 3}, {1}, {1}}
	f := nd.Choice("fn", len(fns))
	n := nd.Choice("n", 9)
	good := false
	if f < len(counts) {
		for _, c := range counts[f] {
			if c == n {
				good = true
			}
		}
	}
	t := fns[f] + "("
	for i := 0; i < n; i++ {
		if i > 0 {
			t += " "
		}
		t += numIn("a", 0.5, 1).s
	}
	t += ")"
	switch nd.Choice("shape", 6) {
	case 1:
		t = "scale(2) " + t
	case 2:
		t = t + ",scale(2)"
	case 3:
		t = fns[f]
		good = false
		if t == "" {
			return
		}
	case 4:
		t = fns[f] + "((" + t[len(fns[f])+1:]
		good = false
	case 5:
		t = t + "2"
		good = false
	}
	kv := []string{"transform", t}
	elem := "g"
	if nd.Choice("where", 2) == 1 {
		kv[0] = "gradientTransform"
		elem = "linearGradient"
	}
	_, err := svg.Parse(root().Elem(elem, kv...).Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert((err == nil) == good, "a malformed transform is an error")
}
