package h

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

// pev is a fill (F) or stroke (S): as recorded, or as wanted.
type pev struct {
	k       byte
	ops     []zop
	nonzero bool
	col     color.NRGBA // solid paint
	alpha   float64     // wanted opacity of it
	grad    *pgrad      // or a gradient
	width   float64
	dash    []float64
	off     float64
	cap     int // 0 butt, 1 round, 2 square
	join    int // 0 bevel, 1 round, 2 miter
	masked  bool
	mask    []pev // what the mask was made from
}

// pgrad is a gradient paint as handed to a drawing library.
type pgrad struct {
	radial bool
	xy     []float64
	offs   []float64
	cols   []color.NRGBA
	alphas []float64 // wanted
}

// ropts is an option list with the transform and opacity it means.
type ropts struct {
	opts []renderer.RenderOption
	m    [6]float64
	op   float64
	box  svg.Bounds
}

var unit = [6]float64{1, 0, 0, 1, 0, 0}

// anyOptions: 0 none, 1 opacity, 2 target, 3 target and opacity, 4 opacity and target.
func anyOptions(kind int) ropts {
	r := ropts{m: unit, op: 1}
	r.box = svg.Bounds{X: nd.Float("box.x", -4000, 4000), Y: nd.Float("box.y", -4000, 4000), W: nd.Float("box.w", 8, 4000), H: nd.Float("box.h", 8, 4000)}
	if kind >= 2 {
		x, y := nd.Float("target.x", -4000, 4000), nd.Float("target.y", -4000, 4000)
		w, h := nd.Float("target.w", 1, 4000), nd.Float("target.h", 1, 4000)
		sw, sh := w/r.box.W, h/r.box.H
		r.m = [6]float64{sw, 0, 0, sh, x - sw*r.box.X, y - sh*r.box.Y}
		r.opts = append(r.opts, renderer.Target(x, y, w, h))
	}
	if kind == 1 || kind >= 3 {
		r.op = nd.Float("image.opacity", 0, 1)
		o := renderer.Opacity(r.op)
		if kind == 4 {
			r.opts = []renderer.RenderOption{o, r.opts[0]}
		} else {
			r.opts = append(r.opts, o)
		}
	}
	return r
}

// anyTransform: 0 identity, 1 translation, 2 scaling, 3 any, 4 one matrix.
func anyTransform(kind int, n string) svg.Matrix2D {
	f := func(k string, lim float64) float64 { return nd.Float(n+k, -lim, lim) }
	switch kind {
	case 1:
		return svg.Matrix2D{A: 1, D: 1, E: f(".e", 100), F: f(".f", 100)}
	case 2:
		return svg.Matrix2D{A: f(".a", 10), D: f(".d", 10)}
	case 3:
		return svg.Matrix2D{A: f(".a", 10), B: f(".b", 10), C: f(".c", 10), D: f(".d", 10), E: f(".e", 100), F: f(".f", 100)}
	case 4:
		return svg.Matrix2D{A: 0.5, B: 1.25, C: -2, D: 4, E: 7, F: -11}
	}
	return svg.Identity
}

func fpoint(n string) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(nd.Int(n+"x", -64000, 64000)), Y: fixed.Int26_6(nd.Int(n+"y", -64000, 64000))}
}

var pathForms = []string{"MLL", "MLQCZ", "MLZMC", "M", "", "MQMLZMCZ", "MMLZ", "MZ", "MLZML"}

// pathOf is a path of the given operations with any coordinates.
func pathOf(form, n string) svg.Path {
	var p svg.Path
	for i := 0; i < len(form); i++ {
		q := n + itoa(i)
		switch form[i] {
		case 'M':
			p = append(p, svg.OpMoveTo(fpoint(q)))
		case 'L':
			p = append(p, svg.OpLineTo(fpoint(q)))
		case 'Q':
			p = append(p, svg.OpQuadTo{fpoint(q + "a"), fpoint(q + "b")})
		case 'C':
			p = append(p, svg.OpCubicTo{fpoint(q + "a"), fpoint(q + "b"), fpoint(q + "c")})
		case 'Z':
			p = append(p, svg.OpClose{})
		}
	}
	return p
}

// wantPath is the path under the transform, in pixels.
func wantPath(p svg.Path, m [6]float64) []zop {
	var out []zop
	for _, o := range p {
		k, pts := opParts(o)
		w := zop{k: k}
		for _, q := range pts {
			x, y := float64(q.X)/64, float64(q.Y)/64
			w.p = append(w.p, x*m[0]+y*m[2]+m[4], x*m[1]+y*m[3]+m[5])
		}
		out = append(out, w)
	}
	return trim(out)
}

// trim drops the moves that start nothing.
func trim(p []zop) []zop {
	var out []zop
	for i, o := range p {
		if o.k == 'M' && (i+1 == len(p) || p[i+1].k == 'M') {
			continue
		}
		out = append(out, o)
	}
	return out
}

const rtol = px + 1e-6

func checkDrawn(what string, got, want []zop) {
	nd.Observe("operations", len(got))
	nd.Assert(len(got) == len(want), what+": number of drawing operations")
	var start []float64
	for i, w := range want {
		g := got[i]
		if w.k == 'M' {
			start = w.p
		}
		if w.k == 'Z' && g.k == 'L' {
			w = zop{'L', start}
		}
		nd.Assert(g.k == w.k && len(g.p) == len(w.p), what+": kind of a drawing operation")
		for j := range w.p {
			nd.Observe("coordinate", g.p[j])
			nd.Assert(nd.Near(g.p[j], w.p[j], rtol), what+": a coordinate")
		}
	}
}

func checkAlpha(what string, got color.NRGBA, w color.NRGBA, alpha float64) {
	nd.Observe("red", int64(got.R))
	nd.Observe("alpha", int64(got.A))
	nd.Assert(nd.And(nd.EqI(int64(got.R), int64(w.R)), nd.EqI(int64(got.G), int64(w.G)), nd.EqI(int64(got.B), int64(w.B))), what+": colour")
	nd.Assert(nd.Near(float64(got.A), 255*alpha, 1.001), what+": alpha")
}

// checkEvents compares what was painted with what was wanted; empty paths paint nothing.
func checkEvents(what string, got, want []pev) {
	got, want = painted(got), painted(want)
	nd.Observe("paintings", len(got))
	nd.Assert(len(got) == len(want), what+": number of paintings")
	for i, w := range want {
		g := got[i]
		nd.Assert(g.k == w.k, what+": filled and stroked")
		t := what + ": stroke"
		if w.k == 'F' {
			t = what + ": fill"
		}
		checkDrawn(t, g.ops, w.ops)
		nd.Assert((g.grad != nil) == (w.grad != nil), t+": kind of paint")
		if w.grad != nil {
			checkGiven(t, g.grad, w.grad)
		} else {
			checkAlpha(t, g.col, w.col, w.alpha)
		}
		nd.Assert(g.masked == w.masked, t+": clipped by a mask")
		if w.masked {
			checkEvents(t+": mask", g.mask, w.mask)
		}
		if w.k == 'F' {
			nd.Assert(g.nonzero == w.nonzero, t+": rule")
			continue
		}
		nd.Observe("width", g.width)
		nd.Assert(nd.Near(g.width, w.width, 1e-6), t+": width")
		nd.Assert(g.cap == w.cap, t+": caps")
		nd.Assert(g.join == w.join, t+": joins")
		nd.Assert(len(g.dash) == len(w.dash), t+": dashes")
		for j := range w.dash {
			nd.Assert(nd.Near(g.dash[j], w.dash[j], 1e-9), t+": dash")
		}
		if len(w.dash) > 0 {
			nd.Assert(nd.Near(g.off, w.off, 1e-9), t+": dash offset")
		}
	}
}

func checkGiven(what string, g, w *pgrad) {
	nd.Assert(g.radial == w.radial && len(g.xy) == len(w.xy), what+": kind of gradient")
	for i := range w.xy {
		nd.Assert(nd.Near(g.xy[i], w.xy[i], 1e-6), what+": direction of a gradient")
	}
	nd.Assert(len(g.offs) == len(w.offs), what+": number of stops")
	for i := range w.offs {
		nd.Assert(nd.Near(g.offs[i], w.offs[i], 1e-9), what+": offset of a stop")
		checkAlpha(what+": stop", g.cols[i], w.cols[i], w.alphas[i])
	}
}

func painted(es []pev) []pev {
	var out []pev
	for _, e := range es {
		if e.ops = trim(e.ops); len(e.ops) > 0 {
			out = append(out, e)
		}
	}
	return out
}

// rstyle is a style with the transform, filled or stroked as given: bit 0 fill, bit 1 stroke.
func rstyle(paints int, m svg.Matrix2D, n string) svg.PathStyle {
	st := svg.DefaultStyle
	st.Transform = m
	st.FillerColor = nil
	if paints&1 != 0 {
		st.FillerColor = svg.NewPlainColor(10, 120, 230, 255)
		st.FillOpacity = nd.Float(n+"fill.opacity", 0, 1)
	}
	if paints&2 != 0 {
		st.LinerColor = svg.NewPlainColor(200, 30, 60, 255)
		st.LineOpacity = nd.Float(n+"stroke.opacity", 0, 1)
		st.LineWidth = nd.Float(n+"width", 0, 5000)
	}
	return st
}

// wantPaint is a solid paint for a pattern: a gradient counts as the colour of its first stop.
func wantPaint(e *pev, p svg.Pattern, op float64) {
	e.alpha = op
	switch c := p.(type) {
	case svg.PlainColor:
		e.col = c.NRGBA
		e.alpha *= float64(c.A) / 255
	case svg.Gradient:
		e.col = color.NRGBA{A: 255}
		if len(c.Stops) > 0 {
			e.col = stopNRGBA(c.Stops[0].StopColor)
		}
	}
}

// wantDash are the dashes of a line: with a negative length, or no length at all, it is solid.
func wantDash(ds []float64) []float64 {
	var sum float64
	for _, d := range ds {
		if d < 0 {
			return nil
		}
		sum += d
	}
	if sum <= 0 {
		return nil
	}
	return ds
}

func matrixOf(m svg.Matrix2D) [6]float64 { return [6]float64{m.A, m.B, m.C, m.D, m.E, m.F} }

// wantEvents is what painting the path means, under the outer transform.
// grad says whether the library is given gradients for fills; miter whether it has miter joins.
func wantEvents(sp svg.SvgPath, outer [6]float64, op float64, grad, miter bool) []pev {
	m := mul(outer, matrixOf(sp.Style.Transform))
	ops := wantPath(sp.Path, m)
	st := sp.Style
	var out []pev
	if st.FillerColor != nil {
		e := pev{k: 'F', ops: ops, nonzero: st.UseNonZeroWinding}
		if g, ok := st.FillerColor.(svg.Gradient); ok && grad {
			e.grad = wantGradient(g, st.FillOpacity*op)
		} else {
			wantPaint(&e, st.FillerColor, st.FillOpacity*op)
		}
		out = append(out, e)
	}
	if st.LinerColor != nil {
		e := pev{k: 'S', ops: ops, width: st.LineWidth * (m[0] + m[3]) / 2, dash: wantDash(st.Dash.Dash), off: st.Dash.DashOffset}
		wantPaint(&e, st.LinerColor, st.LineOpacity*op)
		switch st.Join.TrailLineCap {
		case svg.RoundCap:
			e.cap = 1
		case svg.SquareCap:
			e.cap = 2
		}
		switch st.Join.LineJoin {
		case svg.Round:
			e.join = 1
		case svg.Bevel:
			e.join = 0
		default:
			if miter {
				e.join = 2
			}
		}
		out = append(out, e)
	}
	return out
}

func wantGradient(g svg.Gradient, op float64) *pgrad {
	w := &pgrad{}
	switch d := g.Direction.(type) {
	case svg.Linear:
		w.xy = d[:]
	case svg.Radial:
		w.radial = true
		w.xy = []float64{d[2], d[3], d[5], d[0], d[1], d[4]}
	}
	for _, s := range g.Stops {
		w.offs = append(w.offs, s.Offset)
		w.cols = append(w.cols, stopNRGBA(s.StopColor))
		w.alphas = append(w.alphas, s.Opacity*op)
	}
	return w
}

// nrgba is a recorded colour.
func nrgba(c color.Color) color.NRGBA {
	switch t := c.(type) {
	case color.NRGBA:
		return t
	case svg.PlainColor:
		return t.NRGBA
	}
	return color.NRGBAModel.Convert(c).(color.NRGBA)
}

// anyGradient is a gradient with any coordinates and the given number of stops.
func anyGradient(radial bool, stops int, n string) svg.Gradient {
	g := svg.Gradient{Matrix: svg.Identity}
	f := func(k string) float64 { return nd.Float(n+k, -10000, 10000) }
	if radial {
		g.Direction = svg.Radial{f(".cx"), f(".cy"), f(".fx"), f(".fy"), nd.Float(n+".r", 0, 10000), nd.Float(n+".fr", 0, 10000)}
	} else {
		g.Direction = svg.Linear{f(".x1"), f(".y1"), f(".x2"), f(".y2")}
	}
	cs := []svg.PlainColor{svg.NewPlainColor(1, 2, 250, 255), svg.NewPlainColor(40, 50, 60, 255), svg.NewPlainColor(255, 0, 99, 255)}
	for i := 0; i < stops; i++ {
		s := svg.GradStop{StopColor: cs[i%3], Offset: nd.Float(n+".offset"+itoa(i), 0, 1), Opacity: nd.Float(n+".opacity"+itoa(i), 0, 1)}
		if i == 1 {
			s.StopColor = color.RGBA{R: 9, G: 8, B: 7, A: 255}
		}
		g.Stops = append(g.Stops, s)
	}
	return g
}

// relement is one of several kinds of element that differ in every drawing state.
func relement(kind int, n string) svg.SvgPath {
	sp := svg.SvgPath{Path: pathOf("ML", n)}
	m := anyTransform(1, n+".m")
	switch kind {
	case 0:
		sp.Style = rstyle(1, m, n)
	case 1:
		sp.Style = rstyle(1, m, n)
		sp.Style.UseNonZeroWinding = false
		sp.Style.FillerColor = svg.NewPlainColor(77, 88, 99, 255)
	case 2:
		sp.Style = rstyle(2, m, n)
		sp.Style.Dash = svg.DashOptions{Dash: []float64{nd.Float(n+"dash", 0.1, 1000), 3}, DashOffset: nd.Float(n+"dash.offset", -1000, 1000)}
		sp.Style.Join = svg.JoinOptions{MiterLimit: 640, LineJoin: svg.Round, TrailLineCap: svg.RoundCap, LeadLineCap: svg.SquareCap, LineGap: svg.CubicGap}
	case 3:
		sp.Style = rstyle(3, m, n)
		sp.Style.Join.TrailLineCap = svg.SquareCap
		sp.Style.Join.LineJoin = svg.Miter
	case 4:
		sp.Style = rstyle(1, m, n)
		sp.Style.FillerColor = anyGradient(n != "p", 2, n+".g")
	case 5:
		sp.Style = rstyle(2, m, n)
		sp.Style.LinerColor = anyGradient(false, 1, n+".g")
	case 6:
		sp.Style = rstyle(0, m, n)
	case 7:
		sp.Style = rstyle(1, m, n)
		sp.Path = nil
	}
	return sp
}

const relements = 8

func (o ropts) scene(sps ...svg.SvgPath) *svg.Svg {
	s := &svg.Svg{SvgPaths: sps, SvgMasks: map[string]*svg.SvgMask{}, Transform: svg.Identity}
	s.ViewBox = o.box
	return s
}

// What each renderer is asked, with draw painting the scene and telling the events.

// drawGeometry: any path form under any transform and target.
func drawGeometry(draw func(*svg.Svg, []renderer.RenderOption) []pev, grad, miter bool) {
	nd.Bound("one path of 9 forms up to 8 operations, coordinates any 26.6 number in [-1000,1000]; transform identity, any translation in [-100,100], any scaling or any matrix with entries in [-10,10] ([-100,100] for the translation; concrete when a target is given); target x,y in [-4000,4000], w,h in [1,4000] with any view box x,y in [-4000,4000], w,h in [8,4000]; all opacities in [0,1]; stroke width in [0,50]")
	form := nd.Choice("form", len(pathForms))
	opt := nd.Choice("options", 5)
	tr := nd.Choice("transform", 4)
	paints := 1 + nd.Choice("paints", 3)
	o := anyOptions(opt)
	sp := svg.SvgPath{Path: pathOf(pathForms[form], "p")}
	sp.Style = rstyle(paints, anyTransform(tr, "m"), "")
	want := wantEvents(sp, o.m, o.op, grad, miter)
	checkEvents("path", draw(o.scene(sp), o.opts), want)
}

// drawStyle: any stroke and fill style.
func drawStyle(draw func(*svg.Svg, []renderer.RenderOption) []pev, grad, miter bool) {
	nd.Bound("one open path; all line caps and joins, fill rules, no, 1, 2 or 3 dashes with any length in [-1000,1000] (0 or at least 0.01 from it) and offset in [-1000,1000], any opaque colour and black of any alpha, any opacities in [0,1], any width in [0,5000]")
	o := anyOptions(1)
	sp := svg.SvgPath{Path: pathOf("MLC", "p"), Style: rstyle(3, anyTransform(1, "m"), "")}
	st := &sp.Style
	if nd.Choice("look", 2) == 0 {
		st.Join.TrailLineCap = svg.CapMode(nd.Choice("cap", 6))
		st.Join.LineJoin = svg.JoinMode(nd.Choice("join", 6))
		st.Join.LeadLineCap = svg.CapMode(nd.Choice("lead", 2) * 2)
	} else {
		st.UseNonZeroWinding = nd.Choice("rule", 2) == 0
		for i := nd.Choice("dashes", 4); i > 0; i-- {
			var d float64
			switch nd.Choice("kind", 3) {
			case 0:
				d = nd.Float("dash", 0.01, 1000)
			case 1:
				d = nd.Float("dash", -1000, -0.01)
			}
			st.Dash.Dash = append(st.Dash.Dash, d)
		}
		st.Dash.DashOffset = nd.Float("dash.offset", -1000, 1000)
		f := func(n string) uint8 { return uint8(nd.Int(n, 0, 255)) }
		st.FillerColor = svg.NewPlainColor(f("fr"), f("fg"), f("fb"), 255)
		st.LinerColor = svg.NewPlainColor(f("sr"), f("sg"), f("sb"), 255)
		if nd.Choice("translucent", 2) == 1 {
			st.FillerColor = svg.NewPlainColor(0, 0, 0, f("fa"))
			st.LinerColor = svg.NewPlainColor(0, 0, 0, f("sa"))
		}
	}
	want := wantEvents(sp, o.m, o.op, grad, miter)
	checkEvents("style", draw(o.scene(sp), o.opts), want)
}

// drawSequence: elements one after the other do not affect each other.
func drawSequence(draw func(*svg.Svg, []renderer.RenderOption) []pev, grad, miter bool) {
	nd.Bound("two elements (three with thorough) of 8 kinds: fills of either rule, dashed and plain strokes, both, gradient fill, gradient stroke, no paint, empty path; any coordinates, translations, opacities, widths, dashes")
	o := anyOptions(1 + nd.Choice("options", 2)*2)
	var sps []svg.SvgPath
	for i := 0; i < some(3, 3); i++ {
		sps = append(sps, relement(nd.Choice("element", relements), "pqr"[i:i+1]))
	}
	var want []pev
	for _, sp := range sps {
		want = append(want, wantEvents(sp, o.m, o.op, grad, miter)...)
	}
	s := o.scene(sps...)
	checkEvents("elements", draw(s, o.opts), want)
	if nd.Thorough() {
		checkEvents("again", draw(s, o.opts), want)
	}
}

// drawGradients: gradients as paint.
func drawGradients(draw func(*svg.Svg, []renderer.RenderOption) []pev, grad, miter bool) {
	nd.Bound("linear and radial gradients with any coordinates in [-10000,10000], up to 3 stops with any offset and opacity in [0,1], as fill or stroke")
	o := anyOptions(nd.Choice("options", 2))
	paints := 1 + nd.Choice("paints", 3)
	sp := svg.SvgPath{Path: pathOf("MLC", "p"), Style: rstyle(paints, svg.Identity, "")}
	g := anyGradient(nd.Choice("radial", 2) == 1, nd.Choice("stops", 4), "g")
	if paints != 2 {
		sp.Style.FillerColor = g
	}
	if paints != 1 {
		sp.Style.LinerColor = g
	}
	want := wantEvents(sp, o.m, o.op, grad, miter)
	checkEvents("gradient", draw(o.scene(sp), o.opts), want)
}
