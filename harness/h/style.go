package h

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// paint is an expected fill or stroke: 0 off, 1 a colour, 2 a gradient.
type paint struct {
	kind     int
	r, gn, b int64
	g        *gradient // kind 2, when it matters
}

// style is the expected style of a drawn element.
type style struct {
	fillOp, lineOp, width float64
	nonzero               bool
	miter                 float64
	join                  svg.JoinMode
	trail, lead           svg.CapMode
	gap                   svg.GapMode
	dash                  []float64
	dashOff               float64
	fill, line            paint
	masks                 []string
	m                     [6]float64
}

func defaultStyle() style {
	return style{fillOp: 1, lineOp: 1, width: 2, nonzero: true, miter: 4, join: svg.Bevel, trail: svg.ButtCap,
		fill: paint{kind: 1}, m: [6]float64{1, 0, 0, 1, 0, 0}}
}

func checkPaint(what string, p svg.Pattern, w paint) {
	switch c := p.(type) {
	case nil:
		nd.Assert(w.kind == 0, what+": paint is off")
	case svg.PlainColor:
		nd.Assert(w.kind == 1, what+": paint is a colour")
		checkColor(what, c.NRGBA, w)
	case svg.Gradient:
		nd.Assert(w.kind == 2, what+": paint is a gradient")
		if w.g != nil {
			checkGradient(what, c, w.g)
		}
	default:
		nd.Assert(false, what+": kind of paint")
	}
}

func checkColor(what string, c color.NRGBA, w paint) {
	nd.Observe("r", int64(c.R))
	nd.Observe("g", int64(c.G))
	nd.Observe("b", int64(c.B))
	nd.Assert(nd.EqI(int64(c.R), w.r), what+": red")
	nd.Assert(nd.EqI(int64(c.G), w.gn), what+": green")
	nd.Assert(nd.EqI(int64(c.B), w.b), what+": blue")
	nd.Assert(c.A == 255, what+": opaque colour")
}

func checkMatrix(what string, g svg.Matrix2D, w [6]float64, tol float64) {
	got := [6]float64{g.A, g.B, g.C, g.D, g.E, g.F}
	for i := range got {
		nd.Assert(nd.Near(got[i], w[i], tol), what+": transform")
	}
}

func checkStyle(what string, g svg.PathStyle, w style) {
	nd.Observe("width", g.LineWidth)
	nd.Assert(nd.Near(g.FillOpacity, w.fillOp, 1e-9), what+": fill opacity")
	nd.Assert(nd.Near(g.LineOpacity, w.lineOp, 1e-9), what+": stroke opacity")
	nd.Assert(nd.Near(g.LineWidth, w.width, 1e-9), what+": stroke width")
	nd.Assert(g.UseNonZeroWinding == w.nonzero, what+": fill rule")
	nd.Assert(nearFx(g.Join.MiterLimit, w.miter, px+1e-9), what+": miter limit")
	nd.Assert(g.Join.LineJoin == w.join, what+": line join")
	nd.Assert(g.Join.TrailLineCap == w.trail, what+": line cap")
	nd.Assert(g.Join.LeadLineCap == w.lead, what+": leading line cap")
	nd.Assert(g.Join.LineGap == w.gap, what+": line gap")
	nd.Assert(len(g.Dash.Dash) == len(w.dash), what+": number of dashes")
	for i := range w.dash {
		nd.Assert(nd.Near(g.Dash.Dash[i], w.dash[i], 1e-9), what+": dash")
	}
	nd.Assert(nd.Near(g.Dash.DashOffset, w.dashOff, 1e-9), what+": dash offset")
	checkPaint(what+" fill", g.FillerColor, w.fill)
	checkPaint(what+" stroke", g.LinerColor, w.line)
	checkMasks(what, g.Masks, w.masks)
	checkMatrix(what, g.Transform, w.m, 1e-6)
}

// checkLook is checkStyle without the transform, which together with the path makes the geometry.
func checkLook(what string, g svg.PathStyle, w style) {
	g.Transform = svg.Matrix2D{A: 1, D: 1}
	w.m = [6]float64{1, 0, 0, 1, 0, 0}
	checkStyle(what, g, w)
}

func checkMasks(what string, got, want []string) {
	nd.Assert(len(got) == len(want), what+": number of masks")
	for i := range want {
		nd.Assert(got[i] == want[i], what+": mask")
	}
}

// mul is the matrix product a*b in SVG order (b is applied first).
func mul(a, b [6]float64) [6]float64 {
	return [6]float64{
		a[0]*b[0] + a[2]*b[1], a[1]*b[0] + a[3]*b[1],
		a[0]*b[2] + a[2]*b[3], a[1]*b[2] + a[3]*b[3],
		a[0]*b[4] + a[2]*b[5] + a[4], a[1]*b[4] + a[3]*b[5] + a[5],
	}
}

// decl is one declaration: property, value text and its meaning.
type decl struct {
	name, value string
	apply       func(*style)
}

const numDecls = 22

// anyColor is any opaque colour, as rgb().
func anyColor(name string) (string, paint) {
	r, g, b := nd.Int(name+".r", 0, 255), nd.Int(name+".g", 0, 255), nd.Int(name+".b", 0, 255)
	return "rgb(" + nd.FmtInt(r) + "," + nd.FmtInt(g) + "," + nd.FmtInt(b) + ")", rgb(r, g, b)
}

// makeDecl is the k-th kind of declaration with symbolic values.
func makeDecl(k int, n string) decl {
	switch k {
	case 0:
		t, p := anyColor(n)
		return decl{"fill", t, func(s *style) { s.fill = p }}
	case 1:
		return decl{"fill", "none", func(s *style) { s.fill = paint{} }}
	case 2:
		return decl{"fill-rule", "evenodd", func(s *style) { s.nonzero = false }}
	case 3:
		t, p := anyColor(n)
		return decl{"stroke", t, func(s *style) { s.line = p }}
	case 4:
		w := numIn(n, 0, 10000)
		return decl{"stroke-width", w.s, func(s *style) { s.width = w.v }}
	case 5:
		return decl{"stroke-linecap", "round", func(s *style) { s.trail = svg.RoundCap }}
	case 6:
		return decl{"stroke-linejoin", "miter", func(s *style) { s.join = svg.Miter }}
	case 7:
		w := numIn(n, 1, 10000)
		return decl{"stroke-miterlimit", w.s, func(s *style) { s.miter = w.v }}
	case 8:
		a, b := numIn(n, 0, 10000), numIn(n, 0, 10000)
		return decl{"stroke-dasharray", a.s + "," + b.s, func(s *style) { s.dash = []float64{a.v, b.v} }}
	case 9:
		w := numIn(n, -10000, 10000)
		return decl{"stroke-dashoffset", w.s, func(s *style) { s.dashOff = w.v }}
	case 10:
		w := numIn(n, 0.001, 0.999)
		return decl{"opacity", w.s, func(s *style) { s.fillOp *= w.v; s.lineOp *= w.v }}
	case 11:
		w := numIn(n, 0.001, 0.999)
		return decl{"fill-opacity", w.s, func(s *style) { s.fillOp *= w.v }}
	case 12:
		w := numIn(n, 0.001, 0.999)
		return decl{"stroke-opacity", w.s, func(s *style) { s.lineOp *= w.v }}
	case 13:
		x, y := num(n), num(n)
		return decl{"transform", "translate(" + x.s + "," + y.s + ")", func(s *style) { s.m = mul(s.m, [6]float64{1, 0, 0, 1, x.v, y.v}) }}
	case 14:
		return decl{"mask", "url(#" + n + ")", func(s *style) { s.masks = append(append([]string{}, s.masks...), n) }}
	case 15:
		return decl{"stroke-linegap", "cubic", func(s *style) { s.gap = svg.CubicGap }}
	case 16:
		return decl{"stroke-leadlinecap", "square", func(s *style) { s.lead = svg.SquareCap }}
	case 17:
		return decl{"fill-rule", "nonzero", func(s *style) { s.nonzero = true }}
	case 18:
		return decl{"stroke", "none", func(s *style) { s.line = paint{} }}
	case 19:
		return decl{"stroke-dasharray", "none", func(s *style) { s.dash = nil }}
	case 20:
		return decl{"mask", "none", func(s *style) {}}
	}
	return decl{"id", n, func(s *style) {}}
}

func rgb(r, g, b int64) paint { return paint{kind: 1, r: r, gn: g, b: b} }
