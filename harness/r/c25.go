package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// copyImage is a copy of the image that shares nothing that can be changed with it.
func copyImage(s *svg.Svg) *svg.Svg {
	c := *s
	c.Titles = append([]string(nil), s.Titles...)
	c.Descriptions = append([]string(nil), s.Descriptions...)
	c.SvgPaths = copyPaths(s.SvgPaths)
	c.SvgMasks = map[string]*svg.SvgMask{}
	for id, m := range s.SvgMasks {
		n := *m
		n.SvgPaths = copyPaths(m.SvgPaths)
		c.SvgMasks[id] = &n
	}
	return &c
}

func copyPaths(ps []svg.SvgPath) []svg.SvgPath {
	var out []svg.SvgPath
	for _, p := range ps {
		p.Path = append(svg.Path(nil), p.Path...)
		p.Style.Dash.Dash = append([]float64(nil), p.Style.Dash.Dash...)
		p.Style.Masks = append([]string(nil), p.Style.Masks...)
		p.Style.FillerColor = copyPaint(p.Style.FillerColor)
		p.Style.LinerColor = copyPaint(p.Style.LinerColor)
		out = append(out, p)
	}
	return out
}

func copyPaint(p svg.Pattern) svg.Pattern {
	if g, ok := p.(svg.Gradient); ok {
		g.Stops = append([]svg.GradStop(nil), g.Stops...)
		return g
	}
	return p
}

// defaultsKept asserts that the exported defaults are what they were.
func defaultsKept(id svg.Matrix2D, st svg.PathStyle) {
	sameMatrix("identity", svg.Identity, id)
	sameStyle("default style", svg.DefaultStyle, st)
}

// drawTwice draws an image of several elements twice, with different options.
func drawTwice(masks bool, draw func(*svg.Svg, []renderer.RenderOption), check func(*svg.Svg, ropts)) {
	nd.Bound("two elements (thorough: three) of 8 kinds, solid, dashed and gradient paints of both kinds and units with stops in any order, with a mask of two shapes for gg; any coordinates, translations, opacities, widths, dashes; first drawing with target, opacity or without options, second with others or the same")
	o := anyOptions(nd.Choice("options", 4))
	var sps []svg.SvgPath
	n := some(2, 3)
	for i := 0; i < n; i++ {
		sp := relement(nd.Choice("element", relements), "pqr"[i:i+1])
		if g, ok := sp.Style.FillerColor.(svg.Gradient); ok {
			g.Units = svg.GradientUnits(i % 2)
			g.Spread = svg.SpreadMethod(i % 3)
			g.Bounds = svg.Bounds{X: 3, Y: 4, W: 50, H: 60}
			sp.Style.FillerColor = g
		}
		if g, ok := sp.Style.LinerColor.(svg.Gradient); ok {
			g.Units = svg.GradientUnits((i + 1) % 2)
			g.Matrix = svg.Matrix2D{A: 2, D: 3, E: 5, F: 7}
			sp.Style.LinerColor = g
		}
		if masks && i == 0 {
			sp.Style.Masks = [][]string{nil, {"m"}, {"x", "m"}}[nd.Choice("masks", 3)]
		}
		sps = append(sps, sp)
	}
	s := o.scene(sps...)
	s.Titles, s.Descriptions = []string{"t"}, []string{"d", "e"}
	s.Width, s.Height = "30", "40%"
	s.Transform = svg.Matrix2D{A: 2, D: 2, E: 1, F: 1}
	if masks {
		m := &svg.SvgMask{ID: "m", X: 1, Y: 2, W: 3, H: 4, Transform: svg.Identity}
		m.SvgPaths = append(m.SvgPaths, relement(3, "a"), relement(4, "b"))
		m.SvgPaths[1].Style.Masks = []string{"m", "x"}
		s.SvgMasks["m"] = m
	}
	before := copyImage(s)
	id, st := svg.Identity, svg.DefaultStyle
	opts := append([]renderer.RenderOption(nil), o.opts...)
	draw(s, opts)
	same("image after drawing", s, before)
	for i := range opts {
		nd.Assert(opts[i] == o.opts[i], "options after drawing")
	}
	defaultsKept(id, st)
	second := o
	if nd.Choice("again", 2) == 1 {
		second.opts, second.m, second.op = nil, unit, 1
	}
	check(s, second)
	same("image after drawing twice", s, before)
}

func C25_gg() {
	drawTwice(true,
		func(s *svg.Svg, opts []renderer.RenderOption) { drawGG(s, opts) },
		func(s *svg.Svg, o ropts) {
			var want []pev
			for _, sp := range copyPaths(s.SvgPaths) {
				want = append(want, wantMasked(s, sp, o.m, o.op)...)
			}
			checkEvents("again", drawGG(s, o.opts), want)
		})
}

func C25_draw2d() {
	drawTwice(false,
		func(s *svg.Svg, opts []renderer.RenderOption) { drawD2(s, opts) },
		func(s *svg.Svg, o ropts) {
			var want []pev
			for _, sp := range copyPaths(s.SvgPaths) {
				want = append(want, wantEvents(sp, o.m, o.op, false, true)...)
			}
			checkEvents("again", drawD2(s, o.opts), want)
		})
}

func C25_rasterx() {
	box := anyBox()
	drawTwice(false,
		func(s *svg.Svg, opts []renderer.RenderOption) { drawRx(s, opts, box) },
		func(s *svg.Svg, o ropts) {
			checkRx("again", drawRx(s, o.opts, box), copyPaths(s.SvgPaths), o, box)
		})
}
