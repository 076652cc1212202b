package h

import (
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

func anyMatrix(name string, lim float64) svg.Matrix2D {
	f := func(k string) float64 { return nd.Float(name+k, -lim, lim) }
	return svg.Matrix2D{A: f("a"), B: f("b"), C: f("c"), D: f("d"), E: f("e"), F: f("f")}
}

// Mult composes: a.Mult(b) is b followed by a.
func C10_mult() {
	nd.Bound("matrix entries in [-100,100], points in [-100000,100000]")
	a, b := anyMatrix("m", 100), anyMatrix("n", 100)
	x, y := nd.Float("x", -100000, 100000), nd.Float("y", -100000, 100000)
	bx, by := b.Transform(x, y)
	wx, wy := a.Transform(bx, by)
	gx, gy := a.Mult(b).Transform(x, y)
	nd.Observe("gx", gx)
	nd.Observe("gy", gy)
	nd.Assert(nd.Near(gx, wx, 1e-5), "Mult: x")
	nd.Assert(nd.Near(gy, wy, 1e-5), "Mult: y")
}

// The elementary operations multiply on the right.
func C10_elementary() {
	nd.Bound("matrix entries in [-100,100], arguments in [-100,100] (angles in [-7,7], skew angles in [-1.5,1.5]), points in [-100000,100000]; sine, cosine and tangent by their defining relations")
	a := anyMatrix("m", 100)
	x, y := nd.Float("x", -100000, 100000), nd.Float("y", -100000, 100000)
	var m svg.Matrix2D
	var px, py float64
	switch nd.Choice("op", 7) {
	case 0:
		u, v := nd.Float("u", -100, 100), nd.Float("v", -100, 100)
		m = a.Translate(u, v)
		px, py = x+u, y+v
	case 1:
		u, v := nd.Float("u", -100, 100), nd.Float("v", -100, 100)
		m = a.Scale(u, v)
		px, py = x*u, y*v
	case 2:
		t := nd.Float("angle", -7, 7)
		m = a.Rotate(t)
		px, py = x*math.Cos(t)-y*math.Sin(t), x*math.Sin(t)+y*math.Cos(t)
	case 3:
		t := nd.Float("angle", -1.5, 1.5)
		m = a.SkewX(t)
		px, py = x+y*math.Tan(t), y
	case 4:
		t := nd.Float("angle", -1.5, 1.5)
		m = a.SkewY(t)
		px, py = x, y+x*math.Tan(t)
	case 5:
		m = a.Mult(svg.Identity)
		px, py = x, y
	case 6:
		m = svg.Identity.Mult(a)
		px, py = x, y
	}
	wx, wy := a.Transform(px, py)
	gx, gy := m.Transform(x, y)
	nd.Observe("gx", gx)
	nd.Observe("gy", gy)
	nd.Assert(nd.Near(gx, wx, 1e-4), "elementary operation: x")
	nd.Assert(nd.Near(gy, wy, 1e-4), "elementary operation: y")
}

// Known angles, independent of the trigonometric model.
func C10_angles() {
	nd.Bound("angles that are multiples of 30 or 45 degrees in [-720,720], matrix entries in [-100,100], points in [-100000,100000]")
	a := anyMatrix("m", 100)
	x, y := nd.Float("x", -100000, 100000), nd.Float("y", -100000, 100000)
	sin := []float64{0, 0.5, 0.7071067811865476, 0.8660254037844386, 1, 0.8660254037844386, 0.7071067811865476, 0.5,
		0, -0.5, -0.7071067811865476, -0.8660254037844386, -1, -0.8660254037844386, -0.7071067811865476, -0.5}
	deg := []float64{0, 30, 45, 60, 90, 120, 135, 150, 180, 210, 225, 240, 270, 300, 315, 330}
	i := nd.Choice("angle", 16)
	turn := float64(nd.Choice("turn", 3)-1) * 360
	s, c := sin[i], sin[(i+4)%16]
	t := (deg[i] + turn) * math.Pi / 180
	var m svg.Matrix2D
	var px, py float64
	switch nd.Choice("op", 3) {
	case 0:
		m = a.Rotate(t)
		px, py = x*c-y*s, x*s+y*c
	case 1:
		nd.Assume(i != 4 && i != 12)
		m = a.SkewX(t)
		px, py = x+y*(s/c), y
	case 2:
		nd.Assume(i != 4 && i != 12)
		m = a.SkewY(t)
		px, py = x, y+x*(s/c)
	}
	wx, wy := a.Transform(px, py)
	gx, gy := m.Transform(x, y)
	nd.Assert(nd.Near(gx, wx, 1e-4), "angle: x")
	nd.Assert(nd.Near(gy, wy, 1e-4), "angle: y")
}

// Invert undoes Transform, in both directions.
func C10_invert() {
	nd.Bound("matrix entries in [-10,10] with |determinant| >= 1/16, points in [-100,100]")
	a := anyMatrix("m", 10)
	det := a.A*a.D - a.B*a.C
	if nd.Choice("sign", 2) == 0 {
		nd.Assume(det >= 1.0/16)
	} else {
		nd.Assume(det <= -1.0/16)
	}
	x, y := nd.Float("x", -100, 100), nd.Float("y", -100, 100)
	inv := a.Invert()
	tx, ty := a.Transform(x, y)
	gx, gy := inv.Transform(tx, ty)
	nd.Assert(nd.Near(gx, x, 1e-5), "Invert after Transform: x")
	nd.Assert(nd.Near(gy, y, 1e-5), "Invert after Transform: y")
	tx, ty = inv.Transform(x, y)
	gx, gy = a.Transform(tx, ty)
	nd.Assert(nd.Near(gx, x, 1e-5), "Transform after Invert: x")
	nd.Assert(nd.Near(gy, y, 1e-5), "Transform after Invert: y")
}

// TransformVector has no translation; the fixed-point transforms agree with Transform.
func C10_fixed() {
	nd.Bound("matrix entries in [-100,100], point coordinates any 26.6 number in [-100000,100000]")
	a := anyMatrix("m", 100)
	pt := func(n string) fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(nd.Int(n+".x", -64000, 64000)), Y: fixed.Int26_6(nd.Int(n+".y", -64000, 64000))}
	}
	chk := func(p, q fixed.Point26_6) {
		wx, wy := a.Transform(float64(p.X)/64, float64(p.Y)/64)
		nd.Observe("qx", int64(q.X))
		nd.Observe("qy", int64(q.Y))
		nd.Assert(nearFx(q.X, wx, px+1e-6), "fixed transform: x")
		nd.Assert(nearFx(q.Y, wy, px+1e-6), "fixed transform: y")
	}
	p := pt("p")
	switch nd.Choice("op", 6) {
	case 0:
		x, y := nd.Float("x", -100000, 100000), nd.Float("y", -100000, 100000)
		vx, vy := a.TransformVector(x, y)
		tx, ty := a.Transform(x, y)
		nd.Assert(nd.Near(vx, tx-a.E, 1e-6), "TransformVector: x")
		nd.Assert(nd.Near(vy, ty-a.F, 1e-6), "TransformVector: y")
		nd.Assert(nd.Near(tx, x*a.A+y*a.C+a.E, 1e-6), "Transform: x")
		nd.Assert(nd.Near(ty, x*a.B+y*a.D+a.F, 1e-6), "Transform: y")
	case 1:
		chk(p, a.TFixed(p))
	case 2:
		chk(p, a.MoveTo(svg.OpMoveTo(p)))
	case 3:
		chk(p, a.LineTo(svg.OpLineTo(p)))
	case 4:
		q := pt("q")
		r1, r2 := a.QuadTo(svg.OpQuadTo{p, q})
		chk(p, r1)
		chk(q, r2)
	case 5:
		q, r := pt("q"), pt("r")
		r1, r2, r3 := a.CubicTo(svg.OpCubicTo{p, q, r})
		chk(p, r1)
		chk(q, r2)
		chk(r, r3)
	}
}
