package h

import (
	"image"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	d2r "github.com/lafriks/go-svg/renderer/draw2d"
	ggr "github.com/lafriks/go-svg/renderer/gg"
	rxr "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/lafriks/go-svg/zzverif/nd"

	"github.com/fogleman/gg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// Two documents are parsed at the same time.
func C26_parse() {
	nd.Bound("every pair of 7 kinds of documents (definitions and uses, gradients, masks and titles, path data, failing in the middle, unknown references) with symbolic coordinates; every error mode for the first, with strict and warn for the second")
	x, y := num("x"), num("y")
	p, q := num("p"), num("q")
	ka := nd.Choice("first", 7)
	kb := nd.Choice("second", 7)
	a, b := writeSome(ka, x, y).Done(), writeSome(kb, p, q).Done()
	ma := svg.ErrorMode(nd.Choice("mode", 3))
	mb := svg.ErrorMode(1 + nd.Choice("mode2", 2))
	nd.Together(
		func() { svg.Parse(a, ma) },
		func() { svg.Parse(b, mb) })
}

// One declaration of every kind in each of two documents.
func C26_styles() {
	nd.Bound("every pair of equal or neighbouring declarations out of 22 with symbolic numbers, as attribute in one and in a style attribute in the other document")
	k := nd.Choice("declaration", 22)
	d, e := makeDecl(k, "d"), makeDecl((k+nd.Choice("next", 2))%22, "e")
	a := root().Elem("rect", rectAttrs(d.name, d.value)...).Done()
	b := root().Start("g", "style", e.name+":"+e.value).Elem("rect", rectAttrs()...).Done()
	nd.Together(
		func() { svg.Parse(a, svg.StrictErrorMode) },
		func() { svg.Parse(b, svg.StrictErrorMode) })
}

// sharedScene is an image of two elements with everything an element can have.
func sharedScene(masks bool) (*svg.Svg, []renderer.RenderOption) {
	o := anyOptions(nd.Choice("options", 4))
	e, f := relement(nd.Choice("element", relements), "p"), relement(nd.Choice("element2", relements), "q")
	s := o.scene(e, f)
	if masks {
		s.SvgPaths[0].Style.Masks = [][]string{nil, {"m"}, {"x", "m"}}[nd.Choice("masks", 3)]
		m := &svg.SvgMask{ID: "m", Transform: svg.Identity}
		m.SvgPaths = append(m.SvgPaths, relement(3, "a"), relement(4, "b"))
		m.SvgPaths[1].Style.Masks = []string{"m"}
		s.SvgMasks["m"] = m
	}
	return s, o.opts
}

const drawBound = "one image of two elements of 8 kinds with any coordinates, translations, opacities, widths and dashes, drawn on two contexts with the same options (none, opacity, target or both)"

func C26_gg() {
	nd.Bound(drawBound + "; with masks")
	s, opts := sharedScene(true)
	gg.VerifOff = true
	a, b := gg.NewContext(3, 2), gg.NewContext(4, 4)
	nd.Together(
		func() { ggr.Draw(a, s, opts...) },
		func() { ggr.Draw(b, s, opts...) })
}

func C26_draw2d() {
	nd.Bound(drawBound)
	s, opts := sharedScene(false)
	a, b := newD2rec(), newD2rec()
	nd.Together(
		func() { d2r.Draw(a, s, opts...) },
		func() { d2r.Draw(b, s, opts...) })
}

// mute is a scanner that draws nothing.
type mute struct{ col any }

func (s *mute) Start(fixed.Point26_6)                  {}
func (s *mute) Line(fixed.Point26_6)                   {}
func (s *mute) SetBounds(w, h int)                     {}
func (s *mute) SetColor(c interface{})                 { s.col = c }
func (s *mute) SetWinding(nonzero bool)                {}
func (s *mute) SetClip(rect image.Rectangle)           {}
func (s *mute) Clear()                                 {}
func (s *mute) Draw()                                  {}
func (s *mute) GetPathExtent() (r fixed.Rectangle26_6) { return }

func C26_rasterx() {
	nd.Bound(drawBound)
	s, opts := sharedScene(false)
	rasterx.VerifOff = true
	a, b := rasterx.NewDasher(3, 2, &mute{}), rasterx.NewDasher(3, 2, &mute{})
	nd.Together(
		func() { rxr.Draw(a, s, opts...) },
		func() { rxr.Draw(b, s, opts...) })
}

// A parsed image is drawn while another document is parsed, and while its own text is parsed again.
func C26_mixed() {
	nd.Bound("an image of 4 kinds of documents drawn by each renderer while any of 7 kinds of documents is parsed; symbolic coordinates")
	x, y := num("x"), num("y")
	k := nd.Choice("drawn", 4)
	s, err := svg.Parse(writeSome(k, x, y).Done(), svg.IgnoreErrorMode)
	nd.Assert(err == nil, "parsed")
	b := writeSome(nd.Choice("parsed", 7), x, y).Done()
	gg.VerifOff, rasterx.VerifOff = true, true
	var draw func()
	switch nd.Choice("renderer", 3) {
	case 0:
		gc := gg.NewContext(3, 2)
		draw = func() { ggr.Draw(gc, s) }
	case 1:
		gc := newD2rec()
		draw = func() { d2r.Draw(gc, s) }
	case 2:
		gc := rasterx.NewDasher(3, 2, &mute{})
		draw = func() { rxr.Draw(gc, s) }
	}
	nd.Together(draw, func() { svg.Parse(b, svg.WarnErrorMode) })
}
