package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

// manyElements is an image of many elements: a long path, a gradient with many stops, many dashes, and every
// kind of element several times, after each of the others.
func manyElements() []svg.SvgPath {
	nd.Bound("33 elements: a path of 150 operations, a gradient of 40 stops, a dash list of 30 lengths and 30 elements of 8 kinds in an order in which each kind follows others; coordinates, opacities, offsets and widths of the elements symbolic")
	var long svg.Path
	for i := 0; i < 150; i++ {
		c := func(k int) fixed.Point26_6 {
			return fixed.Point26_6{X: fixed.Int26_6((i*37 + k*101) % 6400), Y: fixed.Int26_6(-((i*53 + k*11) % 6400))}
		}
		switch i % 6 {
		case 0:
			long = append(long, svg.OpMoveTo(c(0)))
		case 1, 3:
			long = append(long, svg.OpLineTo(c(0)))
		case 2:
			long = append(long, svg.OpQuadTo{c(0), c(1)})
		case 4:
			long = append(long, svg.OpCubicTo{c(0), c(1), c(2)})
		case 5:
			if i%4 == 1 {
				long = append(long, svg.OpClose{})
			}
		}
	}
	sps := []svg.SvgPath{{Path: long, Style: rstyle(3, anyTransform(4, ""), "long")}}
	g := anyGradient(false, 3, "many")
	for i := 0; i < 40; i++ {
		g.Stops = append(g.Stops, svg.GradStop{StopColor: svg.NewPlainColor(uint8(5*i), 7, uint8(200-i), 255), Offset: float64(i) / 64, Opacity: 0.5})
	}
	sp := svg.SvgPath{Path: pathOf("MLC", "stops"), Style: rstyle(1, svg.Identity, "stops")}
	sp.Style.FillerColor = g
	sps = append(sps, sp)
	sp = svg.SvgPath{Path: pathOf("MLC", "dash"), Style: rstyle(2, svg.Identity, "dash")}
	for i := 0; i < 30; i++ {
		sp.Style.Dash.Dash = append(sp.Style.Dash.Dash, float64(i)/4)
	}
	sps = append(sps, sp)
	for i := 0; i < 30; i++ {
		sps = append(sps, relement((i*i+i/8)%8, "e"+itoa(i)))
	}
	return sps
}

func drawMany(draw func(*svg.Svg, []renderer.RenderOption) []pev, grad, miter bool) {
	o := anyOptions(nd.Choice("options", 5))
	sps := manyElements()
	var want []pev
	for _, sp := range sps {
		want = append(want, wantEvents(sp, o.m, o.op, grad, miter)...)
	}
	checkEvents("elements", draw(o.scene(sps...), o.opts), want)
}

func C18_many() {
	drawMany(drawGG, true, false)
}

// Many masks.
func C18_chain() {
	nd.Bound("12 masks, each referred to by a shape of the next one, and elements that refer to each of them")
	o := anyOptions(1)
	var sps []svg.SvgPath
	ids := []string{"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11"}
	masks := map[string]*svg.SvgMask{}
	for i, id := range ids {
		m := &svg.SvgMask{ID: id, Transform: svg.Identity}
		a, b := relement(0, id+"a"), relement(2, id+"b")
		if i > 0 {
			a.Style.Masks = ids[:i]
		}
		m.SvgPaths = append(m.SvgPaths, a, b)
		masks[id] = m
	}
	for _, i := range []int{3, 0, 5, 1, 11} {
		e := relement(3, "e"+ids[i])
		e.Style.Masks = ids[:i+1]
		sps = append(sps, e, relement(0, "f"+ids[i]))
	}
	s := o.scene(sps...)
	s.SvgMasks = masks
	var want []pev
	for _, sp := range sps {
		want = append(want, wantMasked(s, sp, o.m, o.op)...)
	}
	checkEvents("masked", drawGG(s, o.opts), want)
}

func C19_many() {
	drawMany(drawD2, false, true)
}

func C20_many() {
	o := anyOptions(nd.Choice("options", 5))
	sps := manyElements()
	box := anyBox()
	kept := copyPaths(sps)
	checkRx("elements", drawRx(o.scene(sps...), o.opts, box), kept, o, box)
}

// drawOften draws the same image again and again.
func drawOften(draw func(*svg.Svg, []renderer.RenderOption), check func(*svg.Svg, ropts)) {
	o := anyOptions(nd.Choice("options", 4))
	s := o.scene(manyElements()...)
	before := copyImage(s)
	for i := 0; i < 5; i++ {
		draw(s, o.opts)
	}
	check(s, o)
	same("image after drawing", s, before)
}

func C25_often_gg() {
	drawOften(func(s *svg.Svg, opts []renderer.RenderOption) { drawGG(s, opts) }, func(s *svg.Svg, o ropts) {
		var want []pev
		for _, sp := range copyPaths(s.SvgPaths) {
			want = append(want, wantEvents(sp, o.m, o.op, true, false)...)
		}
		checkEvents("again", drawGG(s, o.opts), want)
	})
}

func C25_often_draw2d() {
	drawOften(func(s *svg.Svg, opts []renderer.RenderOption) { drawD2(s, opts) }, func(s *svg.Svg, o ropts) {
		var want []pev
		for _, sp := range copyPaths(s.SvgPaths) {
			want = append(want, wantEvents(sp, o.m, o.op, false, true)...)
		}
		checkEvents("again", drawD2(s, o.opts), want)
	})
}

func C25_often_rasterx() {
	box := anyBox()
	drawOften(func(s *svg.Svg, opts []renderer.RenderOption) { drawRx(s, opts, box) }, func(s *svg.Svg, o ropts) {
		checkRx("again", drawRx(s, o.opts, box), copyPaths(s.SvgPaths), o, box)
	})
}
