package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// gstop is a stop of a gradient under test.
type gstop struct {
	off, op float64
	color   paint // kind 0: none given
	kv      []string
}

// gradient is a gradient under test: what is written and what is expected of it.
type gradient struct {
	id     string
	radial bool
	user   bool
	spread svg.SpreadMethod
	dir    []float64
	m      [6]float64
	kv     []string
	stops  []gstop
	box    [4]float64 // the viewBox
}

func (g *gradient) write(d *nd.Doc) {
	tag := "linearGradient"
	if g.radial {
		tag = "radialGradient"
	}
	d.Start(tag, g.kv...)
	for _, s := range g.stops {
		d.Elem("stop", s.kv...)
	}
	d.End()
}

// bound is the paint of an element that refers to the gradient and inherits the paint.
func (g *gradient) bound(inherited paint) paint {
	w := *g
	w.stops = append([]gstop{}, g.stops...)
	for i := range w.stops {
		if w.stops[i].color.kind == 0 {
			w.stops[i].color = firstColor(inherited)
		}
	}
	return paint{kind: 2, g: &w}
}

// firstColor is the colour that stands for a paint: black for none, the first stop's of a gradient.
func firstColor(p paint) paint {
	switch p.kind {
	case 1:
		return p
	case 2:
		if len(p.g.stops) > 0 {
			return p.g.stops[0].color
		}
	}
	return paint{kind: 1}
}

func checkGradient(what string, got svg.Gradient, w *gradient) {
	nd.Assert((got.Units == svg.UserSpaceOnUse) == w.user, what+": units")
	nd.Assert(got.Spread == w.spread, what+": spread")
	checkMatrix(what, got.Matrix, w.m, 1e-6)
	if w.user {
		b := got.Bounds
		nd.Assert(nd.And(nd.Near(b.X, w.box[0], 1e-9), nd.Near(b.Y, w.box[1], 1e-9), nd.Near(b.W, w.box[2], 1e-9), nd.Near(b.H, w.box[3], 1e-9)), what+": bounds")
	}
	var dir []float64
	switch d := got.Direction.(type) {
	case svg.Linear:
		nd.Assert(!w.radial, what+": linear")
		dir = d[:]
	case svg.Radial:
		nd.Assert(w.radial, what+": radial")
		dir = d[:]
	default:
		nd.Assert(false, what+": direction")
	}
	nd.Assert(len(dir) == len(w.dir), what+": direction")
	for i := range dir {
		nd.Observe("direction", dir[i])
		nd.Assert(nd.Near(dir[i], w.dir[i], 1e-6), what+": direction "+itoa(i))
	}
	nd.Assert(len(got.Stops) == len(w.stops), what+": number of stops")
	for i, s := range got.Stops {
		nd.Assert(nd.Near(s.Offset, w.stops[i].off, 1e-9), what+": offset of a stop")
		nd.Assert(nd.Near(s.Opacity, w.stops[i].op, 1e-9), what+": opacity of a stop")
		nd.Assert(s.StopColor != nil, what+": a colour for every stop")
		checkColor(what+": stop", stopNRGBA(s.StopColor), w.stops[i].color)
	}
}

var spreads = []string{"", "pad", "reflect", "repeat"}
var spreadValues = []svg.SpreadMethod{svg.PadSpread, svg.PadSpread, svg.ReflectSpread, svg.RepeatSpread}

// makeStop is a stop in one of several notations.
func makeStop(form int, name string) gstop {
	s := gstop{op: 1}
	o := numIn(name+".offset", 0, 1)
	s.off = o.v
	t, c := anyColor(name)
	p := numIn(name+".opacity", 0.001, 0.999)
	switch form {
	case 0: // no colour
		s.kv = []string{"offset", o.s}
	case 1:
		s.color, s.op = c, p.v
		s.kv = []string{"offset", o.s, "stop-color", t, "stop-opacity", p.s}
	case 2: // style, offset in percent
		s.off, s.color, s.op = o.v, c, p.v
		s.kv = []string{"style", "stop-color:" + t + ";stop-opacity:" + p.s, "offset", of(100*o.v).s + "%"}
	case 3: // no colour, any opacity in percent
		p = numIn(name+".opacity", 0, 1)
		s.op = p.v
		s.kv = []string{"stop-opacity", of(100*p.v).s + "%", "offset", o.s}
	case 4: // style over attribute
		s.color = c
		s.kv = []string{"style", "stop-color: " + t, "stop-color", "red", "offset", o.s, "id", "s"}
	case 5: // no offset
		s.off, s.color = 0, c
		s.kv = []string{"stop-color", t}
	}
	return s
}

// The attributes of one gradient, in every notation.
func C12_attributes() {
	nd.Bound("one linear or radial gradient; each direction attribute absent, a number, a percentage or a length in cm or pt, 8 patterns in which each attribute has each of these; fx and fy present or not; units absent or either; every spread method and none; no, a simple or a composed gradientTransform (quick: one for each spread method); 4 attribute orders; symbolic numbers, viewBox origin and size (sides 7:17, so that its normalised diagonal is 13)")
	k, bx, by := nd.Float("k", 1, 100), num("bx"), num("by")
	w, h := 7*k, 17*k
	g := &gradient{id: "g", radial: nd.Choice("radial", 2) == 1, m: [6]float64{1, 0, 0, 1, 0, 0}, box: [4]float64{bx.v, by.v, w, h}}
	g.kv = []string{"id", "g"}
	units := nd.Choice("units", 3)
	g.user = units == 2
	if units > 0 {
		g.kv = append(g.kv, "gradientUnits", []string{"", "objectBoundingBox", " userSpaceOnUse "}[units])
	}
	pat := nd.Choice("pattern", 8)
	var names []string
	var defs, sides []float64
	diag := 13 * k
	if !g.user {
		w, h, diag = 1, 1, 1
	}
	if g.radial {
		names = []string{"cx", "cy", "r", "fr", "fx", "fy"}
		sides = []float64{w, h, diag, diag, w, h}
		defs = []float64{0.5 * w, 0.5 * h, 0.5 * diag, 0, 0, 0}
	} else {
		names = []string{"x1", "y1", "x2", "y2"}
		sides = []float64{w, h, w, h}
		defs = []float64{0, 0, w, 0}
	}
	vals := append([]float64{}, defs...)
	focus := 0
	if g.radial {
		focus = nd.Choice("focus", 4)
	}
	for i, n := range names {
		c := numIn(n, -200, 200)
		f := (i*(1+pat/4) + pat) % 4
		if i >= 4 && focus>>uint(i-4)&1 == 0 {
			vals[i] = vals[i-4]
			continue
		}
		if i >= 4 && f == 0 {
			f = 2
		}
		switch f {
		case 1:
			vals[i] = c.v
			g.kv = append(g.kv, n, c.s)
		case 2:
			vals[i] = c.v / 100 * sides[i]
			g.kv = append(g.kv, n, c.s+"%")
		case 3:
			if pat < 4 {
				vals[i] = c.v * 96 / 2.54
				g.kv = append(g.kv, n, c.s+"cm")
			} else {
				vals[i] = c.v * 96 / 72
				g.kv = append(g.kv, n, c.s+" pt")
			}
		}
	}
	if g.radial { // the code's order: cx, cy, fx, fy, r, fr
		vals = []float64{vals[0], vals[1], vals[4], vals[5], vals[2], vals[3]}
	}
	g.dir = vals
	sp := nd.Choice("spread", 4)
	g.spread = spreadValues[sp]
	if sp > 0 {
		g.kv = append(g.kv, "spreadMethod", spreads[sp])
	}
	tr := sp % 3
	if nd.Thorough() {
		tr = nd.Choice("transform", 3)
	}
	switch tr {
	case 1:
		t, m := makeTransform(8, "m", 10, ",")
		g.kv, g.m = append(g.kv, "gradientTransform", t), m
	case 2:
		t, m := makeTransform(0, "t", 10, " ")
		u, n := makeTransform(2, "u", 10, ",")
		g.kv, g.m = append(g.kv, "gradientTransform", t+" "+u), mul(m, n)
	}
	g.kv = ordered(nd.Choice("order", some(4, 8)), g.kv)
	g.stops = []gstop{makeStop(1, "a"), makeStop(0, "b")}
	d := nd.NewDoc().Start("svg", "viewBox", bx.s+" "+by.s+" "+of(7*k).s+" "+of(17*k).s)
	g.write(d)
	t, c := anyColor("c")
	d.Start("g", "fill", t).Elem("line", "fill", "url(#g)", "stroke", "url( #g )").End()
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 1, "one line")
	checkPaint("fill", r.SvgPaths[0].Style.FillerColor, g.bound(c))
	checkPaint("stroke", r.SvgPaths[0].Style.LinerColor, g.bound(paint{}))
}

// simple is a gradient with the given stops and values that differ from gradient to gradient.
func simple(id string, i int, stops ...gstop) *gradient {
	n := float64(i)
	g := &gradient{id: id, radial: i%2 == 1, user: i == 1, m: [6]float64{1, 0, 0, 1, n, 2 * n}, box: [4]float64{0, 0, 20, 140}, stops: stops, spread: spreadValues[1+i%3]}
	g.kv = []string{"id", id, "spreadMethod", spreads[1+i%3], "gradientTransform", "translate(" + itoa(i) + " " + itoa(2*i) + ")"}
	if g.user {
		g.kv = append(g.kv, "gradientUnits", "userSpaceOnUse")
	}
	if g.radial {
		g.kv = append(g.kv, "cx", itoa(i), "cy", "3", "r", "4", "fy", "9")
		g.dir = []float64{n, 3, n, 9, 4, 0}
	} else {
		g.kv = append(g.kv, "x1", itoa(i), "y2", "5")
		g.dir = []float64{n, 0, 1, 5}
	}
	return g
}

func refDecl(prop string, g *gradient) decl {
	return decl{prop, "url(#" + g.id + ")", func(s *style) {
		if prop == "fill" {
			s.fill = g.bound(s.fill)
		} else {
			s.line = g.bound(s.line)
		}
	}}
}

// stray is a stop outside of any gradient: it belongs to none.
func stray() *node {
	none := func(*style) {}
	return &node{tag: "stop", ds: []decl{{"offset", "0.75", none}, {"stop-color", "#123456", none}}}
}

// The stops of one gradient.
func C12_stops() {
	nd.Bound("one gradient of 0 to 2 (thorough: 3) stops, each in one of 6 notations (attributes, style, percentages, without colour, without offset) with symbolic offset, colour and opacity; in or outside defs; inherited paint a colour, none, or another gradient")
	n := nd.Choice("stops", some(3, 4))
	var stops []gstop
	for i := 0; i < n; i++ {
		stops = append(stops, makeStop(nd.Choice("form", 6), "s"+itoa(i)))
	}
	g := simple("g", 0, stops...)
	other := simple("other", 1, makeStop(0, "o"), makeStop(1, "p"))
	gn := &node{tag: "grad", grad: g}
	if nd.Choice("defs", 2) == 1 {
		gn = &node{tag: "defs", kids: []*node{gn}}
	}
	ds := [][]decl{{makeDecl(0, "in"), makeDecl(3, "in")}, {makeDecl(1, "")}, {refDecl("fill", other)}}[nd.Choice("inherited", 3)]
	checkTree(&node{tag: "grad", grad: other}, gn, stray(),
		group([]*node{
			stray(),
			line([4]int{1, 2, 3, 4}, refDecl("fill", g)),
			line([4]int{1, 2, 3, 4}, refDecl("stroke", g)),
			line([4]int{5, 6, 7, 8}),
		}, ds...),
		line([4]int{1, 2, 3, 4}, refDecl("fill", g)))
}

// Two or three gradients and elements that refer to them in every order.
func C12_references() {
	nd.Bound("three gradients (a linear and a radial one with and one without stop colours) written in 4 arrangements (top level, defs, group with an id in defs, split between them and shapes); 2 to 3 elements that each refer to any of them as fill or stroke, directly, from a group or through a use, inheriting different colours; symbolic stops and colours")
	gs := []*gradient{simple("a", 0, makeStop(0, "a0"), makeStop(1, "a1")), simple("b", 1, makeStop(2, "b0"), makeStop(0, "b1"), makeStop(1, "b2")), simple("c", 2, makeStop(0, "c0"))}
	var gn []*node
	for _, g := range gs {
		gn = append(gn, &node{tag: "grad", grad: g})
	}
	nodes := []*node{{tag: "defs", kids: []*node{line([4]int{8, 8, 9, 9}).withID("u")}}}
	plain := line([4]int{1, 1, 5, 5})
	switch nd.Choice("where", 4) {
	case 0:
		nodes = append(nodes, gn...)
	case 1:
		nodes = append(nodes, &node{tag: "defs", kids: []*node{plain, gn[0], gn[1], plain, gn[2]}})
	case 2:
		nodes = append(nodes, &node{tag: "defs", kids: []*node{group([]*node{gn[2], plain, gn[0]}).withID("x"), gn[1]}}, plain)
	case 3:
		nodes = append(nodes, gn[1], plain, &node{tag: "defs", kids: []*node{gn[0]}}, group([]*node{gn[2], plain}, makeDecl(0, "g")))
	}
	n := some(2, 3)
	for i := 0; i < n; i++ {
		prop := []string{"fill", "stroke"}[nd.Choice("prop", 2)]
		ref := refDecl(prop, gs[nd.Choice("ref", 3)])
		in := makeDecl([]int{0, 3}[i%2], "in"+itoa(i))
		l := line([4]int{1, 2, 3, 4})
		switch nd.Choice("how", 4) {
		case 0:
			l.ds = []decl{ref}
			nodes = append(nodes, l)
		case 1: // from an inherited colour
			l.ds, l.note = []decl{ref}, 1
			nodes = append(nodes, group([]*node{l, plain}, in))
		case 2: // the group refers to it, an element inside to another one
			nodes = append(nodes, group([]*node{l, line([4]int{1, 2, 3, 4}, refDecl(prop, gs[2])), plain}, ref))
		case 3:
			nodes = append(nodes, group([]*node{{tag: "use", ref: "u", ds: []decl{ref}, x: coord{1, "1"}, y: coord{2, "2"}}, plain}, in))
		}
	}
	checkTree(nodes...)
}
