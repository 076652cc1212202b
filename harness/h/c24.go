package h

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

func C24_extent() {
	nd.Bound("any gradient matrix with entries in [-100,100], any extent with corners in [-100000,100000], any previous bounds, both units, linear or radial, 0 or 2 stops")
	m := anyMatrix("m", 100)
	old := svg.Bounds{X: nd.Float("bx", -1000, 1000), Y: nd.Float("by", -1000, 1000), W: nd.Float("bw", -1000, 1000), H: nd.Float("bh", -1000, 1000)}
	g := svg.Gradient{Matrix: m, Bounds: old, Spread: svg.ReflectSpread}
	if nd.Choice("radial", 2) == 0 {
		g.Direction = svg.Linear{1, 2, 3, 4}
	} else {
		g.Direction = svg.Radial{1, 2, 3, 4, 5, 6}
	}
	c := func(n string) fixed.Int26_6 { return fixed.Int26_6(nd.Int(n, -6400000, 6400000)) }
	e := fixed.Rectangle26_6{Min: fixed.Point26_6{X: c("x0"), Y: c("y0")}, Max: fixed.Point26_6{X: c("x1"), Y: c("y1")}}
	user := nd.Choice("user", 2) == 1
	if user {
		g.Units = svg.UserSpaceOnUse
	}
	r := g.ApplyPathExtent(e)
	w, h := float64(e.Max.X-e.Min.X)/64, float64(e.Max.Y-e.Min.Y)/64
	want := [6]float64{m.A, m.B, m.C, m.D, m.E, m.F}
	b := old
	if !user {
		b = svg.Bounds{X: float64(e.Min.X) / 64, Y: float64(e.Min.Y) / 64, W: w, H: h}
		want = [6]float64{w * m.A, h * m.B, w * m.C, h * m.D, w * m.E, h * m.F}
	}
	nd.Observe("A", r.A)
	checkMatrix("result", r, want, 1e-6)
	nd.Assert(nd.And(nd.Near(g.Bounds.X, b.X, 1e-9), nd.Near(g.Bounds.Y, b.Y, 1e-9), nd.Near(g.Bounds.W, b.W, 1e-9), nd.Near(g.Bounds.H, b.H, 1e-9)), "bounds")
	checkMatrix("gradient matrix unchanged", g.Matrix, [6]float64{m.A, m.B, m.C, m.D, m.E, m.F}, 0)
	nd.Assert(g.Spread == svg.ReflectSpread, "spread unchanged")
	nd.Assert((g.Units == svg.UserSpaceOnUse) == user, "units unchanged")
}

func C24_color() {
	nd.Bound("plain colours with any components; gradients of 0 to 4 stops, each with any colour or none; no paint")
	ch := func(n string) uint8 { return uint8(nd.Int(n, 0, 255)) }
	var p svg.Pattern
	want := color.NRGBA{0, 0, 0, 255}
	switch nd.Choice("kind", 3) {
	case 0:
	case 1:
		c := svg.NewPlainColor(ch("r"), ch("g"), ch("b"), ch("a"))
		want = c.NRGBA
		p = c
	case 2:
		g := svg.Gradient{}
		n := nd.Choice("stops", 5)
		found := false
		for i := 0; i < n; i++ {
			s := svg.GradStop{Offset: nd.Float("offset", -1, 2), Opacity: nd.Float("opacity", 0, 1)}
			if nd.Choice("colour", 2) == 1 {
				c := color.NRGBA{ch("r"), ch("g"), ch("b"), ch("a")}
				s.StopColor = svg.PlainColor{NRGBA: c}
				if !found {
					want, found = c, true
				}
			}
			g.Stops = append(g.Stops, s)
		}
		p = g
	}
	c := svg.GetColor(p)
	nd.Assert(c != nil, "a colour")
	r, g, b, a := c.RGBA()
	wr, wg, wb, wa := want.RGBA()
	nd.Observe("r", r)
	nd.Observe("a", a)
	nd.Assert(nd.And(nd.EqI(int64(r), int64(wr)), nd.EqI(int64(g), int64(wg)), nd.EqI(int64(b), int64(wb)), nd.EqI(int64(a), int64(wa))), "colour")
}
