package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

type unitDef struct {
	suffix string
	num    float64
	den    float64 // px per unit is num/den
}

var unitDefs = []unitDef{{"", 1, 1}, {"px", 1, 1}, {"cm", 9600, 254}, {"mm", 960, 254}, {"Q", 960, 1016}, {"in", 96, 1}, {"pt", 96, 72}, {"pc", 96, 6}}

// lengthSink puts a length somewhere and returns what it became; axis 0 horizontal, 1 vertical, 2 diagonal.
type lengthSink struct {
	elem, attr string
	axis       int
	nonneg     bool
}

var lengthSinks = []lengthSink{
	{"line", "x1", 0, false}, {"line", "y1", 1, false}, {"line", "x2", 0, false}, {"line", "y2", 1, false},
	{"rect", "x", 0, false}, {"rect", "y", 1, false}, {"rect", "width", 0, true}, {"rect", "height", 1, true},
	{"mask", "x", 0, false}, {"mask", "y", 1, false}, {"mask", "width", 0, true}, {"mask", "height", 1, true},
	{"rect", "stroke-dashoffset", 2, false}, {"rect", "stroke-dasharray", 2, true}, {"rect", "stroke-width", 2, false}, {"use", "x", 0, false}, {"use", "y", 1, false},
}

// otherSinks are lengths that are only given malformed.
var otherSinks = []lengthSink{
	{"circle", "cx", 0, false}, {"circle", "cy", 1, false}, {"circle", "r", 2, true}, {"ellipse", "cx", 0, false}, {"ellipse", "cy", 1, false}, {"ellipse", "rx", 0, true}, {"ellipse", "ry", 1, true},
	{"rect", "rx", 0, true}, {"rect", "ry", 1, true},
	{"linearGradient", "x1", 0, false}, {"linearGradient", "y1", 1, false}, {"linearGradient", "x2", 0, false}, {"linearGradient", "y2", 1, false},
	{"radialGradient", "cx", 0, false}, {"radialGradient", "cy", 1, false}, {"radialGradient", "fx", 0, false}, {"radialGradient", "fy", 1, false}, {"radialGradient", "r", 2, true}, {"radialGradient", "fr", 2, true},
}

// putLength adds an element of which the attribute has the given text.
func putLength(d *nd.Doc, k lengthSink, text string) {
	switch k.elem {
	case "line":
		d.Elem("line", k.attr, text)
	case "circle", "ellipse", "linearGradient", "radialGradient":
		kv := []string{k.attr, text}
		for _, a := range []string{"r", "rx", "ry", "fx", "fy", "cx", "cy"} { // nothing stands in for another
			if a != k.attr {
				kv = append(kv, a, "0.5")
			}
		}
		d.Elem(k.elem, kv...)
	case "mask":
		d.Start("mask", "id", "m", k.attr, text).Elem("rect", "width", "1", "height", "1").End()
	case "use":
		d.Start("defs").Elem("rect", "id", "r", "width", "1", "height", "1").End().Elem("use", "xlink:href", "#r", k.attr, text)
	case "rect":
		kv := []string{k.attr, text}
		if k.attr != "width" {
			kv = append(kv, "width", "1")
		}
		if k.attr != "height" {
			kv = append(kv, "height", "1")
		}
		d.Elem("rect", kv...)
	}
}

// getLength reads the value back; fx tells whether it was rounded to 1/64.
func getLength(r *svg.Svg, k lengthSink) (v, tol float64) {
	if k.elem == "mask" {
		m := r.SvgMasks["m"]
		nd.Assert(m != nil, "mask found")
		switch k.attr {
		case "x":
			return m.X, 1e-6
		case "y":
			return m.Y, 1e-6
		case "width":
			return m.W, 1e-6
		}
		return m.H, 1e-6
	}
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	s := r.SvgPaths[0].Style
	switch k.attr {
	case "stroke-dashoffset":
		return s.Dash.DashOffset, 1e-6
	case "stroke-width":
		return s.LineWidth, 1e-6
	case "stroke-dasharray":
		nd.Assert(len(s.Dash.Dash) == 1, "one dash")
		return s.Dash.Dash[0], 1e-6
	}
	p := r.SvgPaths[0].Path
	if k.elem == "use" {
		_, a := opParts(p[0])
		x, y := s.Transform.Transform(float64(a[0].X)/64, float64(a[0].Y)/64)
		if k.attr == "x" {
			return x, 2*px + 1e-6
		}
		return y, 2*px + 1e-6
	}
	tol = px + 1e-6
	if k.elem == "rect" {
		tol = 2*px + 1e-6
	}
	_, a := opParts(p[0])
	_, b := opParts(p[1])
	switch k.elem + k.attr {
	case "linex1", "rectx":
		return float64(a[0].X) / 64, tol
	case "liney1", "recty":
		return float64(a[0].Y) / 64, tol
	case "linex2", "rectwidth":
		return float64(b[0].X) / 64, tol
	case "liney2":
		return float64(b[0].Y) / 64, tol
	}
	_, c := opParts(p[2])
	return float64(c[0].Y) / 64, tol
}

func pad(kind int, v, u string) string {
	switch kind {
	case 1:
		return " " + v + u
	case 2:
		return v + u + " "
	case 3:
		return v + " " + u
	case 4:
		return "\n\t" + v + " " + u + "\t"
	}
	return v + u
}

// Absolute units.
func C06_absolute() {
	nd.Bound("every unit in every length attribute of line, rect, mask, use, stroke widths and dashes, white space around number and unit; numbers in [-100,100] in plain or exponent notation, any viewBox")
	k := lengthSinks[nd.Choice("sink", len(lengthSinks))]
	u := unitDefs[nd.Choice("unit", len(unitDefs))]
	lo := -100.0
	if k.nonneg {
		lo = 0.5
	}
	v := nd.Float("v", lo, 100)
	w, h := numIn("w", 1, 10000), numIn("h", 1, 10000)
	d := nd.NewDoc().Start("svg", "viewBox", "0 0 "+w.s+" "+h.s)
	padding := 0
	if k.attr != "stroke-dasharray" { // in a list, white space separates
		padding = nd.Choice("space", 5)
	}
	style := 0
	if nd.Thorough() {
		style = []int{0, 2, 3}[nd.Choice("notation", 3)]
	}
	putLength(d, k, pad(padding, nd.Fmt(v, style), u.suffix))
	r := parseOK(d, "length")
	got, tol := getLength(r, k)
	nd.Observe("got", got)
	nd.Assert(nd.Near(got, v*u.num/u.den, tol), "length in "+u.suffix)
}

// Percentages of the viewBox width, height or normalised diagonal.
func C06_percent() {
	nd.Bound("percentages in [-200,200] in every length attribute of line, rect, mask, use, stroke widths and dashes; viewBox sizes in [1,10000] and any origin, for diagonals sizes in the ratios 1:1, 3:4, 4:3, 7:1 and 1:7 with scale in [1,100]")
	k := lengthSinks[nd.Choice("sink", len(lengthSinks))]
	lo := -200.0
	if k.nonneg {
		lo = 1
	}
	v := nd.Float("v", lo, 200)
	x, y := num("x"), num("y")
	var box string
	var want float64
	if k.axis == 2 {
		s := nd.Float("s", 1, 100)
		i := nd.Choice("ratio", 5)
		a := []float64{1, 3, 4, 7, 1}[i]
		b := []float64{1, 4, 3, 1, 7}[i]
		diag := []float64{1, 3.5355339059327378, 3.5355339059327378, 5, 5}[i]
		box = x.s + " " + y.s + " " + nd.Fmt(s*a, 0) + " " + nd.Fmt(s*b, 0)
		want = v / 100 * s * diag
	} else {
		w, h := numIn("w", 1, 10000), numIn("h", 1, 10000)
		box = x.s + " " + y.s + " " + w.s + " " + h.s
		want = v / 100 * w.v
		if k.axis == 1 {
			want = v / 100 * h.v
		}
	}
	d := nd.NewDoc().Start("svg", "viewBox", box)
	padding := 0
	if k.attr != "stroke-dasharray" {
		padding = nd.Choice("space", 5)
	}
	putLength(d, k, pad(padding, nd.Fmt(v, 0), "%"))
	r := parseOK(d, "length")
	got, tol := getLength(r, k)
	nd.Assert(nd.Near(got, want, tol), "percentage")
}

// The radius of a circle as percentage of the diagonal: same outline as in px.
func C06_circle() {
	nd.Bound("circle r and ellipse rx, ry as percentages, cm, mm, Q, in, pt, pc against the same circle in px; viewBoxes 100x100, 30x40 and 70x10")
	i := nd.Choice("box", 3)
	w := []string{"100 100", "30 40", "70 10"}[i]
	wv, hv := []float64{100, 30, 70}[i], []float64{100, 40, 10}[i]
	dv := []float64{100, 35.355339059327378, 50}[i]
	u := nd.Choice("unit", 8)
	f, suffix := dv/100, "%"
	if u < 7 {
		f, suffix = unitDefs[u+1].num/unitDefs[u+1].den, unitDefs[u+1].suffix
	}
	n := []float64{1, 10, 33}[nd.Choice("n", 3)]
	kind := nd.Choice("kind", 3)
	var kv, pv []string
	switch kind {
	case 0:
		kv = []string{"r", nd.Fmt(n, 0) + suffix}
		pv = []string{"r", nd.Fmt(n*f, 0)}
	case 1:
		if u == 7 {
			f = wv / 100
		}
		kv = []string{"ry", "5", "rx", nd.Fmt(n, 0) + suffix}
		pv = []string{"rx", nd.Fmt(n*f, 0), "ry", "5"}
	case 2:
		if u == 7 {
			f = hv / 100
		}
		kv = []string{"rx", "5", "ry", nd.Fmt(n, 0) + suffix}
		pv = []string{"ry", nd.Fmt(n*f, 0), "rx", "5"}
	}
	elem := "ellipse"
	if kind == 0 {
		elem = "circle"
	}
	d := nd.NewDoc().Start("svg", "viewBox", "0 0 "+w).Elem(elem, kv...).Elem(elem, pv...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "two paths")
	samePath("radius", r.SvgPaths[0].Path, r.SvgPaths[1].Path, 2*px)
}

// The centre of a circle or ellipse.
func C06_centre() {
	nd.Bound("cx and cy of circle and ellipse (radii 8 and 4) in every unit, numbers in [-100,100], and as percentages in [-200,200] of viewBox sizes in [1,10000]")
	x, y := num("x"), num("y")
	w, h := numIn("w", 1, 10000), numIn("h", 1, 10000)
	tag, kv, rx, ry := "circle", []string{"r", "8"}, 8.0, 8.0
	if nd.Choice("ellipse", 2) == 1 {
		tag, kv, ry = "ellipse", []string{"rx", "8", "ry", "4"}, 4
	}
	var cx, cy float64
	vertical := nd.Choice("vertical", 2) == 1
	var v coord
	var c float64
	u := nd.Choice("unit", 9)
	suffix := "%"
	if u == 8 {
		v = numIn("v", -200, 200)
		c = v.v / 100 * w.v
		if vertical {
			c = v.v / 100 * h.v
		}
	} else {
		v = numIn("v", -100, 100)
		c = v.v * unitDefs[u].num / unitDefs[u].den
		suffix = unitDefs[u].suffix
	}
	if vertical {
		cy = c
		kv = append(kv, "cy", v.s+suffix)
	} else {
		cx = c
		kv = append(kv, "cx", v.s+suffix)
	}
	d := nd.NewDoc().Start("svg", "viewBox", x.s+" "+y.s+" "+w.s+" "+h.s).Elem(tag, kv...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	checkEllipse(r.SvgPaths[0].Path, cx, cy, rx, ry)
}

// The corner radii of a rect: same outline as in px.
func C06_corner() {
	nd.Bound("rx, ry or both of a rect in cm, mm, Q, in, pt, pc and as percentages, against the same rect in px; viewBoxes 100x100, 30x40 and 70x10")
	i := nd.Choice("box", 3)
	w := []string{"100 100", "30 40", "70 10"}[i]
	wv, hv := []float64{100, 30, 70}[i], []float64{100, 40, 10}[i]
	u := nd.Choice("unit", 8)
	fx, fy, suffix := wv/100, hv/100, "%"
	if u < 7 {
		fx, suffix = unitDefs[u+1].num/unitDefs[u+1].den, unitDefs[u+1].suffix
		fy = fx
	}
	n := []float64{1, 4, 11}[nd.Choice("n", 3)]
	kv, pv := []string{"width", "200", "height", "180"}, []string{"width", "200", "height", "180"}
	kind := nd.Choice("kind", 3)
	if kind != 1 {
		kv = append(kv, "rx", nd.Fmt(n, 0)+suffix)
		pv = append(pv, "rx", nd.Fmt(n*fx, 0))
	}
	if kind != 0 {
		kv = append(kv, "ry", nd.Fmt(n, 0)+suffix)
		pv = append(pv, "ry", nd.Fmt(n*fy, 0))
	}
	d := nd.NewDoc().Start("svg", "viewBox", "0 0 "+w).Elem("rect", kv...).Elem("rect", pv...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "two paths")
	samePath("corner", r.SvgPaths[0].Path, r.SvgPaths[1].Path, 2*px)
}

// samePath asserts that two paths are the same up to tol.
func samePath(what string, a, b svg.Path, tol float64) {
	nd.Assert(len(a) == len(b), what+": number of operations")
	for i := range a {
		ka, pa := opParts(a[i])
		kb, pb := opParts(b[i])
		nd.Assert(ka == kb, what+": kind of operation")
		for j := range pa {
			nd.Assert(nd.Near(float64(pa[j].X)/64, float64(pb[j].X)/64, tol), what+": x coordinate")
			nd.Assert(nd.Near(float64(pa[j].Y)/64, float64(pb[j].Y)/64, tol), what+": y coordinate")
		}
	}
}

// Lengths of gradients in user space.
func C06_gradient() {
	nd.Bound("every direction attribute of linear and radial gradients in user space, in every unit with numbers in [-100,100] and as percentages in [-200,200] of any viewBox with sides 7:17, 17:7 or 1:1")
	i := nd.Choice("ratio", 3)
	k, a, b, diag := nd.Float("k", 1, 50), []float64{7, 17, 1}[i], []float64{17, 7, 1}[i], []float64{13, 13, 1}[i]
	x, y := num("x"), num("y")
	at := nd.Choice("attribute", 10)
	attr := []string{"x1", "y1", "x2", "y2", "cx", "cy", "fx", "fy", "r", "fr"}[at]
	side := []float64{a, b, a, b, a, b, a, b, diag, diag}[at] * k
	var v coord
	var want float64
	if u := nd.Choice("unit", 9); u == 8 {
		v = numIn("v", -200, 200)
		want = v.v / 100 * side
		v.s += "%"
	} else {
		v = numIn("v", -100, 100)
		want = v.v * unitDefs[u].num / unitDefs[u].den
		v.s += unitDefs[u].suffix
	}
	tag := "linearGradient"
	if at > 3 {
		tag = "radialGradient"
	}
	d := nd.NewDoc().Start("svg", "viewBox", x.s+" "+y.s+" "+of(a*k).s+" "+of(b*k).s)
	d.Elem(tag, "id", "g", attr, v.s, "gradientUnits", "userSpaceOnUse").Elem("rect", rectAttrs("fill", "url(#g)")...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	g, ok := r.SvgPaths[0].Style.FillerColor.(svg.Gradient)
	nd.Assert(ok, "a gradient")
	var got float64
	switch t := g.Direction.(type) {
	case svg.Linear:
		nd.Assert(at < 4, "kind of gradient")
		got = t[at]
	case svg.Radial:
		nd.Assert(at >= 4, "kind of gradient")
		got = t[at-4]
	}
	nd.Observe("got", got)
	nd.Assert(nd.Near(got, want, 1e-6), "length of a gradient")
}

// Unknown units and texts that are not numbers are errors in every mode.
func C06_errors() {
	nd.Bound("every length attribute of line, rect, circle, ellipse, mask, use, gradients, stroke widths and dashes with a number followed by 1 to 3 letters that are not a unit, and with texts of 1 to 3 (thorough: 4) bytes of a 5 . - + e letters and space; all error modes")
	all := append(append([]lengthSink{}, lengthSinks...), otherSinks...)
	at := nd.Choice("sink", len(all))
	k := all[at]
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	var t string
	good := false
	if nd.Choice("kind", 2) == 0 {
		i := nd.Choice("case", 12)
		t = nd.Fmt(nd.Float("v", 1, 10), 0) + []string{"em", "ex", "ch", "rem", "vw", "PX", "IN", "p", "m", "x", "0x1", "pxx"}[i]
	} else {
		n := 3
		if nd.Thorough() {
			n = 4
		}
		if at >= len(lengthSinks) {
			n = 2
		}
		t = nd.Text("t", 1+nd.Choice("len", n), "5.-+ex nq")
		if k.attr == "stroke-dasharray" {
			for i := 0; i < len(t); i++ {
				nd.Assume(t[i] != ' ') // a list
			}
		}
		good = isNumber(t)
		if at >= len(lengthSinks) {
			nd.Assume(!good)
		}
	}
	d := root()
	putLength(d, k, t)
	_, err := svg.Parse(d.Done(), mode)
	nd.Assert((err == nil) == good, "a malformed length is an error")
}

// isNumber tells whether the text is one number with optional white space around it.
func isNumber(t string) bool {
	i, j := 0, len(t)
	for i < j && t[i] == ' ' {
		i++
	}
	for j > i && t[j-1] == ' ' {
		j--
	}
	t = t[i:j]
	i = 0
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		i++
	}
	digits := 0
	for i < len(t) && isDigit(t[i]) {
		i++
		digits++
	}
	if i < len(t) && t[i] == '.' {
		i++
		for i < len(t) && isDigit(t[i]) {
			i++
			digits++
		}
	}
	if digits == 0 {
		return false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			i++
		}
		digits = 0
		for i < len(t) && isDigit(t[i]) {
			i++
			digits++
		}
		if digits == 0 {
			return false
		}
	}
	return i == len(t)
}
