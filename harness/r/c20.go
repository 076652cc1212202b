package h

import (
	"image"
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rxr "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/lafriks/go-svg/zzverif/nd"

	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// rxev is what a scanner was to draw: a fill or a stroke.
type rxev struct {
	k            byte
	ops          []zop
	nonzero      bool
	col          any
	extent       bool // asked for the extent of the complete path
	width, miter float64
	capL, capT   string
	gap          string
	join         rasterx.JoinMode
}

// rxScanner records what it is to draw.
type rxScanner struct {
	box     fixed.Rectangle26_6
	col     any
	winding bool
	asked   int
	direct  bool
	clip    image.Rectangle
	evs     []rxev
}

func (s *rxScanner) Start(fixed.Point26_6)        { s.direct = true }
func (s *rxScanner) Line(fixed.Point26_6)         { s.direct = true }
func (s *rxScanner) SetBounds(w, h int)           {}
func (s *rxScanner) SetColor(c interface{})       { s.col = c }
func (s *rxScanner) SetWinding(nonzero bool)      { s.winding = nonzero }
func (s *rxScanner) SetClip(rect image.Rectangle) { s.clip = rect }

func (s *rxScanner) Clear() {
	rasterx.VerifPath.Fill, rasterx.VerifPath.Stroke = nil, nil
	s.asked, s.direct = -1, false
}

func (s *rxScanner) count() int { return len(rasterx.VerifPath.Fill) + len(rasterx.VerifPath.Stroke) }

func (s *rxScanner) GetPathExtent() fixed.Rectangle26_6 {
	s.asked = s.count()
	return s.box
}

func (s *rxScanner) Draw() {
	v, p := rasterx.VerifStroke, rasterx.VerifPath
	e := rxev{k: 'F', nonzero: s.winding, col: s.col, extent: s.asked == s.count()}
	from := p.Fill
	if len(p.Stroke) > 0 {
		e.k, from = 'S', p.Stroke
		e.width, e.miter, e.join = float64(v.Width)/64, float64(v.Miter)/64, v.Join
		e.capL, e.capT = capName(v.CapL), capName(v.CapT)
		g := &rasterx.VerifProbe{}
		v.Gap(g, fixed.Point26_6{}, fixed.Point26_6{}, fixed.Point26_6{})
		e.gap = g.Name
	}
	if s.direct || len(p.Fill) > 0 && len(p.Stroke) > 0 || s.clip != (image.Rectangle{}) {
		e.k = '?' // more than one path in the scanner, or clipped
	}
	for _, o := range from {
		z := zop{k: o.K}
		for _, q := range o.P {
			z.p = append(z.p, float64(q.X)/64, float64(q.Y)/64)
		}
		e.ops = append(e.ops, z)
	}
	e.ops = trim(e.ops)
	if len(e.ops) > 0 {
		s.evs = append(s.evs, e)
	}
}

func capName(f rasterx.CapFunc) string {
	g := &rasterx.VerifProbe{}
	f(g, fixed.Point26_6{}, fixed.Point26_6{})
	return g.Name
}

// subpaths is the path as filled (every subpath closed) or as stroked (open ones end with E).
func subpaths(p svg.Path, m [6]float64, end byte) []zop {
	var out []zop
	open := false
	stop := func(k byte) {
		if open {
			out = append(out, zop{k: k})
		}
		open = false
	}
	for _, o := range wantPath(p, m) {
		switch o.k {
		case 'M':
			stop(end)
			out = append(out, o)
		case 'Z':
			stop('Z')
		default:
			out = append(out, o)
			open = true
		}
	}
	stop(end)
	return trim(out)
}

var rxCaps = []string{"ButtCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap"}
var rxGaps = []string{"FlatGap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap"}
var rxJoins = []rasterx.JoinMode{rasterx.Arc, rasterx.Round, rasterx.Bevel, rasterx.Miter, rasterx.MiterClip, rasterx.ArcClip}

// checkRx compares what the scanner drew with what the paths mean.
func checkRx(what string, got []rxev, sps []svg.SvgPath, o ropts, box fixed.Rectangle26_6) {
	n := 0
	next := func(k byte, t string) *rxev {
		nd.Assert(n < len(got), t+": painted")
		n++
		nd.Assert(got[n-1].k == k, t+": filled and stroked")
		return &got[n-1]
	}
	for _, sp := range sps {
		st := sp.Style
		m := mul(o.m, matrixOf(st.Transform))
		if ops := subpaths(sp.Path, m, 'Z'); st.FillerColor != nil && len(ops) > 0 {
			t := what + ": fill"
			e := next('F', t)
			checkDrawn(t, e.ops, ops)
			nd.Assert(e.nonzero == st.UseNonZeroWinding, t+": rule")
			checkRxPaint(t, e, st.FillerColor, st.FillOpacity*o.op, box)
		}
		if ops := subpaths(sp.Path, m, 'E'); st.LinerColor != nil && len(ops) > 0 {
			t := what + ": stroke"
			e := next('S', t)
			checkDrawn(t, e.ops, ops)
			nd.Assert(e.nonzero, t+": outline filled with the nonzero rule")
			checkRxPaint(t, e, st.LinerColor, st.LineOpacity*o.op, box)
			nd.Observe("width", e.width)
			nd.Assert(nd.Near(e.width, st.LineWidth*(m[0]+m[3])/2, rtol), t+": width")
			nd.Assert(nd.Near(e.miter, float64(st.Join.MiterLimit)/64, 1e-9), t+": miter limit")
			nd.Assert(e.capT == rxCaps[st.Join.TrailLineCap], t+": cap")
			lead := st.Join.LeadLineCap
			if lead == svg.NilCap {
				lead = st.Join.TrailLineCap
			}
			nd.Assert(e.capL == rxCaps[lead], t+": leading cap")
			nd.Assert(e.gap == rxGaps[st.Join.LineGap], t+": gap")
			nd.Assert(e.join == rxJoins[st.Join.LineJoin], t+": join")
		}
	}
	nd.Observe("paintings", len(got))
	nd.Assert(n == len(got), what+": nothing else painted")
}

func checkRxPaint(what string, e *rxev, p svg.Pattern, op float64, box fixed.Rectangle26_6) {
	switch w := p.(type) {
	case svg.PlainColor:
		c, ok := e.col.(color.Color)
		nd.Assert(ok, what+": a colour")
		checkAlpha(what, nrgba(c), w.NRGBA, op)
	case svg.Gradient:
		v, ok := e.col.(rasterx.VerifColor)
		nd.Assert(ok, what+": a gradient")
		nd.Assert(nd.Near(v.Opacity, op, 1e-9), what+": opacity of a gradient")
		nd.Assert(v.Obj == rasterx.Identity, what+": space of a gradient")
		g := v.G
		var dir []float64
		switch d := w.Direction.(type) {
		case svg.Linear:
			nd.Assert(!g.IsRadial, what+": linear")
			dir = d[:]
		case svg.Radial:
			nd.Assert(g.IsRadial, what+": radial")
			dir = d[:5]
		}
		for i, x := range dir {
			nd.Assert(nd.Near(g.Points[i], x, 1e-9), what+": direction of a gradient")
		}
		nd.Assert(len(g.Stops) == len(w.Stops), what+": number of stops")
		for i, s := range w.Stops {
			h := g.Stops[i]
			nd.Assert(nd.And(nd.Near(h.Offset, s.Offset, 1e-9), nd.Near(h.Opacity, s.Opacity, 1e-9)), what+": stop")
			sameNRGBA(what+": stop", nrgba(h.StopColor), stopNRGBA(s.StopColor))
		}
		nd.Assert((g.Spread == rasterx.PadSpread) == (w.Spread == svg.PadSpread) && (g.Spread == rasterx.RepeatSpread) == (w.Spread == svg.RepeatSpread), what+": spread")
		nd.Assert((g.Units == rasterx.ObjectBoundingBox) == (w.Units == svg.ObjectBoundingBox), what+": units")
		sameMatrix(what, svg.Matrix2D(g.Matrix), w.Matrix)
		b := w.Bounds
		if w.Units == svg.ObjectBoundingBox {
			nd.Assert(e.extent, what+": bounds of the complete path")
			b = svg.Bounds{X: float64(box.Min.X) / 64, Y: float64(box.Min.Y) / 64, W: float64(box.Max.X-box.Min.X) / 64, H: float64(box.Max.Y-box.Min.Y) / 64}
		}
		nd.Assert(nd.And(nd.Near(g.Bounds.X, b.X, 1e-9), nd.Near(g.Bounds.Y, b.Y, 1e-9), nd.Near(g.Bounds.W, b.W, 1e-9), nd.Near(g.Bounds.H, b.H, 1e-9)), what+": bounds")
	}
}

// drawRx paints with a rasteriser that has been used before.
func drawRx(s *svg.Svg, opts []renderer.RenderOption, box fixed.Rectangle26_6) []rxev {
	sc := &rxScanner{box: box, asked: -1}
	gc := rasterx.NewDasher(3, 2, sc)
	gc.SetStroke(640, 64, rasterx.CubicCap, rasterx.QuadraticCap, rasterx.RoundGap, rasterx.Round, []float64{1, 2}, 3)
	gc.Start(fixed.Point26_6{X: 64, Y: 64})
	gc.Line(fixed.Point26_6{X: 640, Y: 64})
	gc.Stop(false)
	gc.Filler.Start(fixed.Point26_6{X: 64, Y: 64})
	gc.Filler.Line(fixed.Point26_6{X: 640, Y: 64})
	sc.evs = nil
	rxr.Draw(gc, s, opts...)
	return sc.evs
}

func anyBox() fixed.Rectangle26_6 {
	return fixed.Rectangle26_6{Min: fpoint("extent.min"), Max: fpoint("extent.max")}
}

func C20_geometry() {
	nd.Bound("one path of 9 forms up to 8 operations, coordinates any 26.6 number in [-1000,1000]; transform identity, any translation in [-100,100], any scaling or any matrix with entries in [-10,10] ([-100,100] for the translation); target x,y in [-4000,4000], w,h in [1,4000] with any view box x,y in [-4000,4000], w,h in [8,4000]; all opacities in [0,1]; stroke width in [0,50]")
	form := nd.Choice("form", len(pathForms))
	opt := nd.Choice("options", 5)
	tr := nd.Choice("transform", 4)
	paints := 1 + nd.Choice("paints", 3)
	o := anyOptions(opt)
	sp := svg.SvgPath{Path: pathOf(pathForms[form], "p"), Style: rstyle(paints, anyTransform(tr, "m"), "")}
	sps := []svg.SvgPath{sp}
	box := anyBox()
	kept := copyPaths(sps)
	checkRx("path", drawRx(o.scene(sps...), o.opts, box), kept, o, box)
}

func C20_style() {
	nd.Bound("one open path; all line caps (both ends), joins, gaps and fill rules, any miter limit in [0,100], any colours, any opacities in [0,1], any width in [0,5000]")
	o := anyOptions(1)
	sp := svg.SvgPath{Path: pathOf("MLC", "p"), Style: rstyle(3, anyTransform(1, "m"), "")}
	st := &sp.Style
	st.Join.MiterLimit = fixed.Int26_6(nd.Int("miter", 0, 6400))
	switch nd.Choice("look", 3) {
	case 0:
		st.Join.TrailLineCap = svg.CapMode(nd.Choice("cap", 6))
		st.Join.LeadLineCap = svg.CapMode(nd.Choice("lead", 6))
	case 1:
		st.Join.LineJoin = svg.JoinMode(nd.Choice("join", 6))
		st.Join.LineGap = svg.GapMode(nd.Choice("gap", 5))
	case 2:
		st.UseNonZeroWinding = nd.Choice("rule", 2) == 0
		f := func(n string) uint8 { return uint8(nd.Int(n, 0, 255)) }
		st.FillerColor = svg.NewPlainColor(f("fr"), f("fg"), f("fb"), 255)
		st.LinerColor = svg.NewPlainColor(f("sr"), f("sg"), f("sb"), 255)
	}
	sps := []svg.SvgPath{sp}
	box := anyBox()
	kept := copyPaths(sps)
	checkRx("style", drawRx(o.scene(sps...), o.opts, box), kept, o, box)
}

func C20_sequence() {
	nd.Bound("three elements of 8 kinds: fills of either rule, strokes of different looks, both, gradient fill, gradient stroke, no paint, empty path; any coordinates, translations, opacities, widths; painted twice with thorough")
	o := anyOptions(1 + nd.Choice("options", 2)*2)
	var sps []svg.SvgPath
	for i := 0; i < 3; i++ {
		sps = append(sps, relement(nd.Choice("element", relements), "pqr"[i:i+1]))
	}
	box := anyBox()
	s := o.scene(sps...)
	kept := copyPaths(sps)
	checkRx("elements", drawRx(s, o.opts, box), kept, o, box)
	if nd.Thorough() {
		checkRx("again", drawRx(s, o.opts, box), kept, o, box)
	}
}

func C20_gradients() {
	nd.Bound("linear and radial gradients with any coordinates in [-10000,10000], any matrix with entries in [-10,10], up to 3 stops with any offset and opacity in [0,1], all spreads, both units, any bounds and path extent, as fill, stroke or both")
	o := anyOptions(nd.Choice("options", 2))
	paints := 1 + nd.Choice("paints", 3)
	sp := svg.SvgPath{Path: pathOf("MLC", "p"), Style: rstyle(paints, svg.Identity, "")}
	g := anyGradient(nd.Choice("radial", 2) == 1, nd.Choice("stops", 4), "g")
	g.Spread = svg.SpreadMethod(nd.Choice("spread", 3))
	g.Units = svg.GradientUnits(nd.Choice("units", 2))
	g.Matrix = anyTransform(3, "gm")
	g.Bounds = o.box
	if paints != 2 {
		sp.Style.FillerColor = g
	}
	if paints != 1 {
		sp.Style.LinerColor = g
	}
	sps := []svg.SvgPath{sp}
	box := anyBox()
	s := o.scene(sps...)
	kept := copyPaths(sps)
	checkRx("gradient", drawRx(s, o.opts, box), kept, o, box)
	if nd.Thorough() {
		checkRx("again", drawRx(s, o.opts, box), kept, o, box)
	}
}
