package h

import (
	"image"
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	ggr "github.com/lafriks/go-svg/renderer/gg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"github.com/fogleman/gg"
)

// ggEvents are the paintings on the image before the given time, with the masks taken apart.
func ggEvents(all []gg.VerifEvent, im *image.RGBA, n int) []pev {
	var out []pev
	for i, v := range all[:n] {
		if v.Im != im || v.K == 'A' {
			continue
		}
		e := pev{k: v.K, nonzero: v.NonZero, width: v.Width, dash: v.Dash, off: v.Offset}
		for _, o := range v.Path {
			e.ops = append(e.ops, zop{o.K, o.P})
		}
		kind, xy, offs, cs := gg.VerifPaint(v.Paint)
		switch kind {
		case 's':
			e.col = nrgba(cs[0])
		case 'l', 'r':
			e.grad = &pgrad{radial: kind == 'r', xy: xy, offs: offs}
			for _, c := range cs {
				e.grad.cols = append(e.grad.cols, nrgba(c))
			}
		default:
			e.k = '?'
		}
		switch v.Cap {
		case gg.LineCapRound:
			e.cap = 1
		case gg.LineCapSquare:
			e.cap = 2
		}
		if v.Join == gg.LineJoinRound {
			e.join = 1
		}
		if v.Mask != nil {
			e.masked = true
			found := false
			for j, a := range all[:i] {
				if a.K == 'A' && a.Mask == v.Mask {
					e.mask = ggEvents(all, a.Im, j)
					found = true
				}
			}
			nd.Assert(found, "a mask made from painted shapes")
		}
		out = append(out, e)
	}
	return out
}

// drawGG paints with a context that has been used before.
func drawGG(s *svg.Svg, opts []renderer.RenderOption) []pev {
	dc := gg.NewContext(3, 2)
	dc.SetDash(1, 2)
	dc.SetDashOffset(3)
	dc.SetLineCapRound()
	dc.SetFillRuleEvenOdd()
	dc.SetColor(color.White)
	dc.MoveTo(1, 2)
	dc.LineTo(3, 4)
	from := len(gg.VerifEvents)
	nd.Assert(ggr.Draw(dc, s, opts...) == nil, "painted without an error")
	im, ok := dc.Image().(*image.RGBA)
	nd.Assert(ok, "painted on the image of the context")
	es := gg.VerifEvents[from:]
	return ggEvents(es, im, len(es))
}

func C18_geometry() {
	drawGeometry(drawGG, true, false)
}

func C18_style() {
	drawStyle(drawGG, true, false)
}

func C18_sequence() {
	drawSequence(drawGG, true, false)
}

func C18_gradients() {
	drawGradients(drawGG, true, false)
}

// wantMasked is what painting the path means when masks may be referred to.
// open are the masks being drawn: one that refers to itself is not applied there.
func wantMasked(s *svg.Svg, sp svg.SvgPath, outer [6]float64, op float64, open ...string) []pev {
	es := wantEvents(sp, outer, op, true, false)
	if len(sp.Style.Masks) == 0 {
		return es
	}
	id := sp.Style.Masks[len(sp.Style.Masks)-1]
	for _, o := range open {
		if o == id {
			return es
		}
	}
	mask, ok := s.SvgMasks[id]
	if !ok {
		return es
	}
	m := mul(outer, matrixOf(sp.Style.Transform))
	var in []pev
	for _, p := range mask.SvgPaths {
		in = append(in, wantMasked(s, p, m, 1, append(append([]string{}, open...), id)...)...)
	}
	for i := range es {
		es[i].masked, es[i].mask = true, in
	}
	return es
}

// Elements are clipped by the last mask they refer to, and by nothing else.
func C18_masks() {
	nd.Bound("two masks of 0 to 2 shapes (shapes may refer to either mask, cycles included, or to none) and two or three elements each referring to no, unknown, one or two masks; any coordinates, transforms (translation or matrix), opacities and target")
	o := anyOptions(1 + nd.Choice("options", 2)*2)
	refs := [][]string{nil, {"m"}, {"n"}, {"x"}, {"m", "n"}, {"n", "x"}}
	shape := func(n string, paints, tr, ref int) svg.SvgPath {
		sp := svg.SvgPath{Path: pathOf("ML", n), Style: rstyle(paints, anyTransform(tr, n+".m"), n)}
		sp.Style.Masks = refs[ref]
		return sp
	}
	var sps []svg.SvgPath
	k := nd.Choice("k", 2)
	for i := 0; i < 2+k; i++ {
		r := 0
		if i < 2 {
			r = nd.Choice("element.ref", len(refs))
		}
		sps = append(sps, shape("pqr"[i:i+1], 1+i, 1, r))
	}
	s := o.scene(sps...)
	m := &svg.SvgMask{ID: "m", Transform: svg.Identity}
	r := nd.Choice("mask.ref", 4)
	m.SvgPaths = append(m.SvgPaths, shape("a", 1, 1, 0), shape("b", 3, 4*nd.Choice("b.m", 2), r))
	n := &svg.SvgMask{ID: "n", Transform: svg.Identity}
	if nd.Choice("n", 2) == 1 {
		n.SvgPaths = append(n.SvgPaths, shape("c", 2, 1, nd.Choice("n.ref", 2)))
	}
	s.SvgMasks["m"], s.SvgMasks["n"] = m, n
	var want []pev
	for _, sp := range sps {
		want = append(want, wantMasked(s, sp, o.m, o.op)...)
	}
	checkEvents("masked", drawGG(s, o.opts), want)
}
