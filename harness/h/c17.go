package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// The target transform maps the viewBox onto the target rectangle.
func C17_target() {
	nd.Bound("viewBox origin in [-1000,1000], size in [1/16,1000] (either sign), target origin in [-1000,1000] and size in [-1000,1000]; any point of the viewBox")
	s := &svg.Svg{}
	sw, sh := 1.0, 1.0
	if nd.Choice("negw", 2) == 1 {
		sw = -1
	}
	if nd.Choice("negh", 2) == 1 {
		sh = -1
	}
	s.ViewBox = svg.Bounds{X: nd.Float("vx", -1000, 1000), Y: nd.Float("vy", -1000, 1000), W: sw * nd.Float("vw", 1.0/16, 1000), H: sh * nd.Float("vh", 1.0/16, 1000)}
	x, y, w, h := nd.Float("x", -1000, 1000), nd.Float("y", -1000, 1000), nd.Float("w", -1000, 1000), nd.Float("h", -1000, 1000)
	o := renderer.Options(s, renderer.Target(x, y, w, h))
	ax, ay := o.Target.Transform(s.ViewBox.X, s.ViewBox.Y)
	nd.Observe("ax", ax)
	nd.Observe("ay", ay)
	nd.Assert(nd.Near(ax, x, 1e-4), "origin: x")
	nd.Assert(nd.Near(ay, y, 1e-4), "origin: y")
	bx, by := o.Target.Transform(s.ViewBox.X+s.ViewBox.W, s.ViewBox.Y+s.ViewBox.H)
	nd.Assert(nd.Near(bx, x+w, 1e-4), "opposite corner: x")
	nd.Assert(nd.Near(by, y+h, 1e-4), "opposite corner: y")
	// a corner that tells the axes apart
	cx, cy := o.Target.Transform(s.ViewBox.X+s.ViewBox.W, s.ViewBox.Y)
	nd.Assert(nd.Near(cx, x+w, 1e-4), "third corner: x")
	nd.Assert(nd.Near(cy, y, 1e-4), "third corner: y")
	nd.Assert(nd.Near(o.Opacity, 1, 0), "opacity without option")
}

// Options in any order: the last of each kind wins.
func C17_options() {
	nd.Bound("lists of up to 3 (thorough: 4) options, each Opacity or Target with symbolic values, on a 8x4 viewBox at (2,1)")
	s := &svg.Svg{ViewBox: svg.Bounds{X: 2, Y: 1, W: 8, H: 4}}
	max := 4
	if nd.Thorough() {
		max = 5
	}
	n := nd.Choice("n", max)
	op := 1.0
	m := [6]float64{1, 0, 0, 1, 0, 0}
	var opts []renderer.RenderOption
	for i := 0; i < n; i++ {
		if nd.Choice("kind", 2) == 0 {
			op = nd.Float("opacity", -2, 2)
			opts = append(opts, renderer.Opacity(op))
		} else {
			x, y, w, h := nd.Float("x", -1000, 1000), nd.Float("y", -1000, 1000), nd.Float("w", -1000, 1000), nd.Float("h", -1000, 1000)
			m = [6]float64{w / 8, 0, 0, h / 4, x - w/4, y - h/4}
			opts = append(opts, renderer.Target(x, y, w, h))
		}
	}
	before := svg.Identity
	o := renderer.Options(s, opts...)
	nd.Observe("op", o.Opacity)
	nd.Assert(nd.Near(o.Opacity, op, 0), "opacity")
	checkMatrix("target", o.Target, m, 1e-6)
	nd.Assert(svg.Identity == before, "Identity unchanged")
	// a second call starts from the defaults again
	o2 := renderer.Options(s)
	nd.Assert(o2.Opacity == 1, "default opacity")
	checkMatrix("default target", o2.Target, [6]float64{1, 0, 0, 1, 0, 0}, 0)
}
