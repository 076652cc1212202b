package h

import (
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

// of is the coordinate with a value computed from others.
func of(v float64) coord { return coord{v, nd.Fmt(v, 0)} }

// ordered puts the attributes (pairs) into one of several orders: rotated by k/2, reversed when k is odd.
func ordered(k int, kv []string) []string {
	n := len(kv) / 2
	out := make([]string, 0, len(kv))
	for i := 0; i < n; i++ {
		j := (i + k/2) % n
		if k%2 == 1 {
			j = n - 1 - j
		}
		out = append(out, kv[2*j], kv[2*j+1])
	}
	return out
}

// before writes elements that may leave something behind, and returns how many shapes they draw.
func before(d *nd.Doc, k int) int {
	switch k {
	case 1: // an open subpath, the current point somewhere
		d.Elem("path", "d", "M5 6l7 8q1 2 3 4")
		return 1
	case 2:
		d.Elem("circle", "r", "4", "cx", "9").Elem("polyline", "points", "1 2 3 4 5 6")
		return 2
	case 3:
		d.Start("defs").Elem("rect", rectAttrs("id", "r")...).End().Elem("use", "href", "#r", "x", "3", "y", "4")
		return 1
	case 4: // things that draw nothing
		d.Elem("polygon").Elem("rect", "x", "5", "y", "6").Elem("circle", "cx", "7").Elem("path", "d", "").Start("g", "transform", "scale(3)").End()
		return 0
	case 5:
		d.Elem("line", "x1", "3", "y1", "4", "x2", "5", "y2", "6").Elem("ellipse", "rx", "3", "ry", "4", "cy", "6")
		return 2
	}
	return 0
}

// drawnShape parses the document and returns the outline of the last shape; nil when n shapes were drawn.
func drawnShape(d *nd.Doc, n int) svg.Path {
	r := parseOK(d, "doc")
	if len(r.SvgPaths) == n {
		return nil
	}
	nd.Assert(len(r.SvgPaths) == n+1, "doc: number of shapes")
	return r.SvgPaths[n].Path
}

// Rectangles with square corners.
func C05_rect() {
	nd.Bound("x, y in [-100000,100000], each given or missing; width and height in [0.5,100000], zero or missing; 8 attribute orders; 6 kinds of preceding elements")
	x, y, w, h := num("x"), num("y"), numIn("w", 0.5, 100000), numIn("h", 0.5, 100000)
	size := nd.Choice("size", 6)
	switch size {
	case 1:
		w = coord{0, "0"}
	case 2:
		h = coord{0, "0px"}
	}
	kv := []string{"width", w.s, "height", h.s}
	switch size {
	case 3:
		kv = kv[:2]
	case 4:
		kv = kv[2:]
	case 5:
		kv = nil
	}
	if nd.Choice("hasx", 2) == 0 {
		x = coord{}
	} else {
		kv = append(kv, "x", x.s)
	}
	if nd.Choice("hasy", 2) == 0 {
		y = coord{}
	} else {
		kv = append(kv, "y", y.s)
	}
	d := root()
	n := before(d, nd.Choice("before", 6))
	if len(kv) > 0 {
		kv = ordered(nd.Choice("order", len(kv)), kv)
	}
	d.Elem("rect", kv...)
	p := drawnShape(d, n)
	if size > 0 {
		nd.Assert(p == nil, "a rect without a size is not drawn")
		return
	}
	nd.Assert(p != nil, "the rect is drawn")
	checkPath("rect", p, []zop{{'M', []float64{x.v, y.v}}, {'L', []float64{x.v + w.v, y.v}}, {'L', []float64{x.v + w.v, y.v + h.v}}, {'L', []float64{x.v, y.v + h.v}}, {'Z', nil}}, 2*px+1e-9)
}

type fpt struct{ x, y float64 }

// arcTo is an elliptical arc of an expected outline, from angle t0 to t1 (radians).
type arcTo struct{ cx, cy, rx, ry, t0, t1 float64 }

func (a arcTo) at(f float64) fpt {
	t := a.t0 + (a.t1-a.t0)*f
	return fpt{a.cx + a.rx*math.Cos(t), a.cy + a.ry*math.Sin(t)}
}

// tangent is the derivative there, times f.
func (a arcTo) tangent(f, k float64) fpt {
	t := a.t0 + (a.t1-a.t0)*f
	return fpt{-a.rx * math.Sin(t) * k, a.ry * math.Cos(t) * k}
}

func nearPt(p fixed.Point26_6, q fpt, tx, ty float64) bool {
	x, y := float64(p.X)/64, float64(p.Y)/64
	return nd.And(x-q.x <= tx, q.x-x <= tx, y-q.y <= ty, q.y-y <= ty)
}

// followsArc asserts that the cubic operations are the arc, cut at equal angles: the ends within tx, ty, the
// control points within another ctl times the radii.
func followsArc(what string, cs []svg.Operation, a arcTo, tx, ty, ctl float64) {
	k := float64(len(cs))
	alpha := math.Tan((a.t1-a.t0)/k/4) * 4 / 3
	for i, o := range cs {
		_, p := opParts(o)
		f0, f1 := float64(i)/k, float64(i+1)/k
		s, e := a.at(f0), a.at(f1)
		ds, de := a.tangent(f0, alpha), a.tangent(f1, alpha)
		nd.Assert(nearPt(p[2], e, tx, ty), what+": point of the curve")
		nd.Assert(nearPt(p[0], fpt{s.x + ds.x, s.y + ds.y}, 1.5*tx+ctl*a.rx, 1.5*ty+ctl*a.ry), what+": first control point")
		nd.Assert(nearPt(p[1], fpt{e.x - de.x, e.y - de.y}, 1.5*tx+ctl*a.rx, 1.5*ty+ctl*a.ry), what+": second control point")
	}
}

// Circles and ellipses.
func C05_ellipse() {
	nd.Bound("circles with cx, cy in [-100000,100000], each given or missing, and r in [0.5,20000]; ellipses with radii in 7 ratios; zero or missing radii; 6 attribute orders; 6 kinds of preceding elements")
	cx, cy, r := num("cx"), num("cy"), numIn("r", 0.5, 20000)
	rx, ry := r, r
	tag := "circle"
	kv := []string{"r", r.s}
	none := false
	switch k := nd.Choice("kind", 14); k {
	case 0:
	case 1:
		kv, none = nil, true
	case 2:
		kv, none = []string{"r", "0"}, true
	case 3, 4, 5, 6, 7, 8, 9:
		f := []float64{1, 2, 0.5, 0.75, 3, 10, 0.1}[k-3]
		ry = of(r.v * f)
		tag, kv = "ellipse", []string{"rx", rx.s, "ry", ry.s}
	case 10:
		tag, kv, none = "ellipse", []string{"rx", rx.s}, true
	case 11:
		tag, kv, none = "ellipse", []string{"ry", "0", "rx", rx.s}, true
	case 12:
		tag, kv, none = "ellipse", []string{"ry", ry.s, "rx", "0"}, true
	case 13:
		tag, kv, none = "ellipse", nil, true
	}
	if nd.Choice("hascx", 2) == 0 {
		cx = coord{}
	} else {
		kv = append(kv, "cx", cx.s)
	}
	if nd.Choice("hascy", 2) == 0 {
		cy = coord{}
	} else {
		kv = append(kv, "cy", cy.s)
	}
	d := root()
	n := before(d, nd.Choice("before", 6))
	if len(kv) > 0 && n == 0 {
		kv = ordered(nd.Choice("order", len(kv)), kv)
	}
	d.Elem(tag, kv...)
	p := drawnShape(d, n)
	if none {
		nd.Assert(p == nil, "a circle or ellipse without a radius is not drawn")
		return
	}
	nd.Assert(p != nil, "the ellipse is drawn")
	checkEllipse(p, cx.v, cy.v, rx.v, ry.v)
}

func checkEllipse(p svg.Path, cx, cy, rx, ry float64) {
	m := len(p)
	nd.Assert(m >= 6, "ellipse: operations")
	k, s := opParts(p[0])
	z, _ := opParts(p[m-1])
	nd.Assert(k == 'M' && z == 'Z', "ellipse: one closed subpath")
	for _, o := range p[1 : m-1] {
		c, _ := opParts(o)
		nd.Assert(c == 'C', "ellipse: curves")
	}
	nd.Assert(nearPt(s[0], fpt{cx + rx, cy}, 2*px, 2*px), "ellipse: start")
	end := 2 * math.Pi
	if _, q := opParts(p[1]); float64(q[2].Y)/64 < cy { // either direction
		end = -end
	}
	followsArc("ellipse", p[1:m-1], arcTo{cx, cy, rx, ry, 0, end}, 2*px+1e-9, 2*px+1e-9, 0.001)
}

// onSide asserts that the point lies between the ends of a side of a rectangle, numbered clockwise from the top.
func onSide(side int, p fixed.Point26_6, a, b fpt, tx, ty float64) {
	if side >= 2 {
		a, b = b, a
	}
	x, y := float64(p.X)/64, float64(p.Y)/64
	nd.Assert(nd.And(a.x-x <= tx, x-b.x <= tx, a.y-y <= ty, y-b.y <= ty), "round rect: side")
}

// Rectangles with round corners.
func C05_round() {
	nd.Bound("x, y in [-100000,100000], width in [4,20000] and height in 3 ratios to it; rx, ry or both, in 14 ratios to the width from 1/100 to 3, so below and above the limits; 4 combinations of attribute order and preceding elements")
	x, y, w := num("x"), num("y"), numIn("w", 4, 20000)
	hf := []float64{1, 0.5, 3}[nd.Choice("height", 3)]
	h := of(w.v * hf)
	rs := [][2]float64{{0.2, 0}, {0, 0.2}, {0.45, 0}, {0, 0.45}, {0.7, 0}, {0, 3}, {0.25, 0.125}, {0.125, 0.25}, {0.01, 0.04}, {0.4, 3}, {3, 0.2}, {2, 2}, {0.02, 0}, {0, 0.02}}[nd.Choice("radii", 14)]
	kv := []string{"width", w.s, "height", h.s}
	fx, fy := rs[0], rs[1] // relative to the width
	if fx > 0 {
		kv = append(kv, "rx", of(w.v*fx).s)
	} else {
		fx = fy
	}
	if fy > 0 {
		kv = append(kv, "ry", of(w.v*fy).s)
	} else {
		fy = fx
	}
	if fx > 0.5 {
		fx = 0.5
	}
	if fy > hf/2 {
		fy = hf / 2
	}
	kv = append(kv, "x", x.s, "y", y.s)
	d := root()
	ctx := nd.Choice("context", 4)
	n := before(d, ctx)
	d.Elem("rect", ordered([]int{0, 1, 4, 7}[ctx], kv)...)
	p := drawnShape(d, n)
	nd.Assert(p != nil, "the rect is drawn")
	rx, ry := w.v*fx, w.v*fy
	tx, ty := 4*px+1e-9, 4*px+1e-9
	if fy > fx {
		ty *= fy / fx
	}
	l, r, t, b := x.v+rx, x.v+w.v-rx, y.v+ry, y.v+h.v-ry
	half := math.Pi / 2
	arcs := []arcTo{{r, t, rx, ry, -half, 0}, {r, b, rx, ry, 0, half}, {l, b, rx, ry, half, 2 * half}, {l, t, rx, ry, 2 * half, 3 * half}}
	m := len(p)
	k, s := opParts(p[0])
	z, _ := opParts(p[m-1])
	nd.Assert(k == 'M' && z == 'Z', "round rect: one closed subpath")
	// straight lines lead to the start of each corner, along the side before it
	first := arcs[3].at(1)
	nd.Assert(nearPt(s[0], first, tx, ty), "round rect: start")
	last := first
	cur := s[0]
	i := 1
	for c := 0; c < 4; c++ {
		start := arcs[c].at(0)
		for ; i < m-1; i++ {
			k, q := opParts(p[i])
			if k != 'L' {
				break
			}
			onSide(c, q[0], last, start, tx, ty)
			cur = q[0]
		}
		nd.Assert(nearPt(cur, start, tx, ty), "round rect: start of a corner")
		j := i
		for ; i < m-1; i++ {
			if k, _ := opParts(p[i]); k != 'C' {
				break
			}
		}
		nd.Assert(i-j >= 2, "round rect: corner")
		followsArc("round rect corner", p[j:i], arcs[c], tx, ty, 0.03)
		last = arcs[c].at(1)
	}
	for ; i < m-1; i++ {
		k, q := opParts(p[i])
		nd.Assert(k == 'L', "round rect: only lines after the last corner")
		onSide(0, q[0], last, first, tx, ty)
	}
}

// Lines, polylines and polygons.
func C05_points() {
	nd.Bound("line with any of its four coordinates missing; polyline and polygon with 0, 2, 3 or 4 points (no attribute, empty, blank) in 3 separator styles; coordinates in [-100000,100000]; 6 kinds of preceding elements")
	d := root()
	n := before(d, nd.Choice("before", 6))
	var want []zop
	switch k := nd.Choice("shape", 3); k {
	case 0:
		var kv []string
		var v [4]float64
		for i, name := range []string{"x1", "y1", "x2", "y2"} {
			if nd.Choice("has", 2) == 1 {
				c := num(name)
				v[i] = c.v
				kv = append(kv, name, c.s)
			}
		}
		if len(kv) > 0 {
			kv = ordered(nd.Choice("order", 2), kv)
		}
		d.Elem("line", kv...)
		want = []zop{{'M', []float64{v[0], v[1]}}, {'L', []float64{v[2], v[3]}}}
	default:
		sep := [][2]string{{",", " "}, {" ", " , "}, {"\n", "\t"}}[nd.Choice("sep", 3)]
		np := []int{0, 1, 3, 4, 5}[nd.Choice("points", 5)] // one more than there are
		s := ""
		for i := 0; i < np-1; i++ {
			x, y := num("x"), num("y")
			if i > 0 {
				s += sep[1]
			}
			s += x.s + sep[0] + y.s
			kind := byte('L')
			if i == 0 {
				kind = 'M'
			}
			want = append(want, zop{kind, []float64{x.v, y.v}})
		}
		tag := "polyline"
		if k == 2 {
			tag = "polygon"
			if np > 1 {
				want = append(want, zop{'Z', nil})
			}
		}
		switch {
		case np == 0:
			d.Elem(tag)
		case np == 1 && sep[0] == "\n":
			d.Elem(tag, "points", " \n")
		default:
			d.Elem(tag, "points", s)
		}
	}
	// what follows is not part of it
	d.Elem("line", "x1", "1", "y1", "2", "x2", "3", "y2", "4")
	r := parseOK(d, "doc")
	if want == nil {
		nd.Assert(len(r.SvgPaths) == n+1, "nothing is drawn")
	} else {
		nd.Assert(len(r.SvgPaths) == n+2, "number of shapes")
		checkPath("shape", r.SvgPaths[n].Path, want, px+1e-9)
	}
	checkPath("next shape", r.SvgPaths[len(r.SvgPaths)-1].Path, []zop{{'M', []float64{1, 2}}, {'L', []float64{3, 4}}}, 0)
}
