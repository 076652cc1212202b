package h

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// same asserts that two parse results are equal.
func same(what string, a, b *svg.Svg) {
	nd.Assert((a == nil) == (b == nil), what+": a result")
	if a == nil {
		return
	}
	eqF(what+": viewBox", a.ViewBox.X, b.ViewBox.X)
	eqF(what+": viewBox", a.ViewBox.Y, b.ViewBox.Y)
	eqF(what+": viewBox", a.ViewBox.W, b.ViewBox.W)
	eqF(what+": viewBox", a.ViewBox.H, b.ViewBox.H)
	eqTexts(what+": titles", a.Titles, b.Titles)
	eqTexts(what+": descriptions", a.Descriptions, b.Descriptions)
	nd.Assert(nd.EqS(a.Width, b.Width), what+": width")
	nd.Assert(nd.EqS(a.Height, b.Height), what+": height")
	sameMatrix(what+": transform", a.Transform, b.Transform)
	samePaths(what+": paths", a.SvgPaths, b.SvgPaths)
	nd.Assert(len(a.SvgMasks) == len(b.SvgMasks), what+": number of masks")
	for id, m := range a.SvgMasks {
		n := b.SvgMasks[id]
		nd.Assert(n != nil, what+": mask")
		nd.Assert(m.ID == n.ID, what+": mask id")
		eqF(what+": mask", m.X, n.X)
		eqF(what+": mask", m.Y, n.Y)
		eqF(what+": mask", m.W, n.W)
		eqF(what+": mask", m.H, n.H)
		samePaths(what+": mask", m.SvgPaths, n.SvgPaths)
	}
}

func eqF(what string, a, b float64) { nd.Assert(nd.Near(a, b, 1e-9), what) }

func eqTexts(what string, a, b []string) {
	nd.Assert(len(a) == len(b), what)
	for i := range a {
		nd.Assert(nd.EqS(a[i], b[i]), what)
	}
}

func sameMatrix(what string, a, b svg.Matrix2D) {
	checkMatrix(what, a, [6]float64{b.A, b.B, b.C, b.D, b.E, b.F}, 1e-9)
}

func samePaths(what string, a, b []svg.SvgPath) {
	nd.Assert(len(a) == len(b), what+": number")
	for i := range a {
		samePath(what, a[i].Path, b[i].Path, 0)
		sameStyle(what, a[i].Style, b[i].Style)
	}
}

func sameStyle(what string, a, b svg.PathStyle) {
	eqF(what+": fill opacity", a.FillOpacity, b.FillOpacity)
	eqF(what+": stroke opacity", a.LineOpacity, b.LineOpacity)
	eqF(what+": stroke width", a.LineWidth, b.LineWidth)
	nd.Assert(a.UseNonZeroWinding == b.UseNonZeroWinding, what+": fill rule")
	nd.Assert(nd.NearI(int64(a.Join.MiterLimit), int64(b.Join.MiterLimit), 0), what+": miter limit")
	nd.Assert(a.Join.LineJoin == b.Join.LineJoin, what+": line join")
	nd.Assert(a.Join.TrailLineCap == b.Join.TrailLineCap, what+": line cap")
	nd.Assert(a.Join.LeadLineCap == b.Join.LeadLineCap, what+": leading line cap")
	nd.Assert(a.Join.LineGap == b.Join.LineGap, what+": line gap")
	nd.Assert(len(a.Dash.Dash) == len(b.Dash.Dash), what+": number of dashes")
	for i := range a.Dash.Dash {
		eqF(what+": dash", a.Dash.Dash[i], b.Dash.Dash[i])
	}
	eqF(what+": dash offset", a.Dash.DashOffset, b.Dash.DashOffset)
	samePaint(what+": fill", a.FillerColor, b.FillerColor)
	samePaint(what+": stroke", a.LinerColor, b.LinerColor)
	checkMasks(what, a.Masks, b.Masks)
	sameMatrix(what, a.Transform, b.Transform)
}

func samePaint(what string, a, b svg.Pattern) {
	nd.Assert((a == nil) == (b == nil), what)
	switch p := a.(type) {
	case svg.PlainColor:
		q, ok := b.(svg.PlainColor)
		nd.Assert(ok, what)
		sameNRGBA(what, p.NRGBA, q.NRGBA)
	case svg.Gradient:
		q, ok := b.(svg.Gradient)
		nd.Assert(ok, what)
		sameGradient(what, p, q)
	}
}

func sameNRGBA(what string, a, b color.NRGBA) {
	nd.Assert(nd.And(nd.EqI(int64(a.R), int64(b.R)), nd.EqI(int64(a.G), int64(b.G)), nd.EqI(int64(a.B), int64(b.B)), nd.EqI(int64(a.A), int64(b.A))), what+": colour")
}

func sameGradient(what string, p, q svg.Gradient) {
	nd.Assert(p.Units == q.Units && p.Spread == q.Spread, what+": gradient")
	sameMatrix(what, p.Matrix, q.Matrix)
	eqF(what+": bounds", p.Bounds.X, q.Bounds.X)
	eqF(what+": bounds", p.Bounds.Y, q.Bounds.Y)
	eqF(what+": bounds", p.Bounds.W, q.Bounds.W)
	eqF(what+": bounds", p.Bounds.H, q.Bounds.H)
	switch d := p.Direction.(type) {
	case svg.Linear:
		e, ok := q.Direction.(svg.Linear)
		nd.Assert(ok, what+": kind of gradient")
		for i := range d {
			eqF(what+": direction", d[i], e[i])
		}
	case svg.Radial:
		e, ok := q.Direction.(svg.Radial)
		nd.Assert(ok, what+": kind of gradient")
		for i := range d {
			eqF(what+": direction", d[i], e[i])
		}
	}
	nd.Assert(len(p.Stops) == len(q.Stops), what+": stops")
	for i := range p.Stops {
		eqF(what+": offset", p.Stops[i].Offset, q.Stops[i].Offset)
		eqF(what+": opacity", p.Stops[i].Opacity, q.Stops[i].Opacity)
		sameNRGBA(what, stopNRGBA(p.Stops[i].StopColor), stopNRGBA(q.Stops[i].StopColor))
	}
}

// stopNRGBA is the colour of a stop.
func stopNRGBA(c color.Color) color.NRGBA {
	switch t := c.(type) {
	case svg.PlainColor:
		return t.NRGBA
	case color.RGBA:
		return color.NRGBA{t.R, t.G, t.B, t.A}
	case color.NRGBA:
		return t
	}
	return color.NRGBA{}
}
