package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// writeSome writes a document of one of several kinds; every kind uses the ids a and b for something.
func writeSome(k int, x, y coord) *nd.Doc {
	switch k {
	case 0: // definitions, uses and percentages
		return nd.NewDoc().Start("svg", "viewBox", "0 0 100 40").Start("defs").Start("g", "id", "a", "fill", "red").Elem("line", "x1", x.s, "y2", "50%").End().Elem("rect", rectAttrs("id", "b")...).End().
			Elem("use", "href", "#a", "x", y.s).Start("g", "stroke", "blue", "mask", "url(#a)").Elem("use", "href", "#b", "y", "10%").End()
	case 1: // gradients with and without stop colours
		return nd.NewDoc().Start("svg", "width", "80", "height", "60").Start("linearGradient", "id", "a", "x1", "10%", "gradientUnits", "userSpaceOnUse").Elem("stop", "offset", "0").Elem("stop", "offset", x.s, "stop-color", "lime").End().
			Start("radialGradient", "id", "b", "r", "20%", "spreadMethod", "reflect").Elem("stop", "offset", "0.5", "stop-opacity", "0.5").End().
			Start("g", "fill", "red").Elem("line", "x1", y.s, "fill", "url(#a)").Elem("line", "x1", y.s, "fill", "url(#b)", "stroke", "url(#a)").End()
	case 2: // masks, titles and all style fields
		return nd.NewDoc().Start("svg", "viewBox", "10 20 30 90").Start("title").Text("first").End().Start("mask", "id", "a", "x", x.s).Elem("circle", "r", "10%", "style", "opacity:0.5").End().
			Start("g", loud...).Elem("polyline", "points", x.s+" "+y.s+" 1 2").Elem("rect", rectAttrs("mask", "url(#a)", "stroke-dasharray", "1 2")...).End().Start("desc").Text("d").End()
	case 3: // path data with control points left open
		return nd.NewDoc().Start("svg").Elem("path", "d", "M"+x.s+" "+y.s+"q1 2 3 4").Elem("path", "d", "M1 1c1 2 3 4 5 6 L "+x.s+" 3").Elem("line", "transform", "scale(2) translate("+y.s+")")
	case 4: // ends with an error in the middle of everything
		return nd.NewDoc().Start("svg", "viewBox", "0 0 7 8").Start("defs").Start("g", "id", "a").Start("linearGradient", "id", "b").Elem("stop", "offset", "0").Start("g", "opacity", "0.5", "transform", "translate("+x.s+")").Elem("path", "d", "M1 2L3")
	case 5: // ends inside a title inside a mask, without end
		return nd.NewDoc().Start("svg", "viewBox", "0 0 7 8").Start("mask", "id", "a").Start("title").Text("lost").Start("g", "opacity", "0.25").Garbage()
	}
	// plain shapes that refer to a and b, which do not exist here
	return nd.NewDoc().Start("svg", "viewBox", "0 0 100 70").Elem("line", "x1", x.s, "y2", "50%", "stroke-width", "10%").Elem("path", "d", "M1 1T"+x.s+" "+y.s).Elem("rect", rectAttrs("fill", "url(#a)", "stroke", "url(#b)", "mask", "url(#a)")...).
		Elem("circle", "r", "10%", "cx", y.s).Elem("polygon").Elem("polyline", "points", "1 2 3 4")
}

// A document parsed alone (before anything else) and again after another one.
func C22_sequence() {
	nd.Bound("every ordered pair of 7 kinds of documents (definitions, gradients, masks, path data, failing in the middle, references to ids only other documents define) with symbolic coordinates, the second parsed first alone and again after the first; all three error modes for the first")
	x, y := num("x"), num("y")
	kb := nd.Choice("second", 7)
	ka := nd.Choice("first", 7)
	alone, aerr := svg.Parse(writeSome(kb, x, y).Done(), svg.StrictErrorMode)
	p, q := num("p"), num("q")
	first, ferr := svg.Parse(writeSome(ka, p, q).Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	copyOfFirst, cerr := svg.Parse(writeSome(ka, p, q).Done(), svg.StrictErrorMode)
	again, gerr := svg.Parse(writeSome(kb, x, y).Done(), svg.StrictErrorMode)
	nd.Assert((aerr == nil) == (gerr == nil), "the same outcome")
	nd.Assert((ferr == nil) == (cerr == nil), "the same outcome of the first document")
	same("second document", again, alone)
	same("first document", first, copyOfFirst)
	checkDefaults()
}

// checkDefaults asserts that the exported defaults are what they were.
func checkDefaults() {
	checkStyle("DefaultStyle", svg.DefaultStyle, defaultStyle())
	nd.Assert(len(svg.DefaultStyle.Masks) == 0, "DefaultStyle has no masks")
	checkMatrix("Identity", svg.Identity, [6]float64{1, 0, 0, 1, 0, 0}, 0)
}

// The first document's result keeps what it was when another one is parsed.
func C22_results() {
	nd.Bound("every ordered pair of the same kinds; the first result compared with the known geometry and style after the second parse, for a first document with every kind of style field")
	x, y := num("x"), num("y")
	d := root().Start("g", loud...).Elem("line", "x1", x.s, "y1", y.s).Elem("rect", rectAttrs("mask", "url(#own)")...).End().Elem("line", "x2", x.s).Start("title").Text("mine").End()
	r := parseOK(d, "first")
	svg.Parse(writeSome(nd.Choice("second", 7), num("p"), num("q")).Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert(len(r.SvgPaths) == 3 && len(r.Titles) == 1 && len(r.SvgMasks) == 0, "first document")
	nd.Assert(r.Titles[0] == "mine", "first document: title")
	checkPath("line", r.SvgPaths[0].Path, []zop{{'M', []float64{x.v, y.v}}, {'L', []float64{0, 0}}}, px+1e-9)
	checkStyle("line", r.SvgPaths[0].Style, loudStyle())
	m := loudStyle()
	m.masks = []string{"loud", "own"}
	checkStyle("rect", r.SvgPaths[1].Style, m)
	checkStyle("last line", r.SvgPaths[2].Style, defaultStyle())
	checkPath("last line", r.SvgPaths[2].Path, []zop{{'M', []float64{0, 0}}, {'L', []float64{x.v, 0}}}, px+1e-9)
	checkDefaults()
}

// probe is a document whose texts are the same but mean different things: percentages of another viewBox,
// the same ids for other definitions.
type probe struct {
	k    float64 // scale of the viewBox
	w, h float64 // its sides in units of k
	diag float64 // and its normalised diagonal
	alt  bool    // the other definitions
}

func (p probe) doc(x, y coord) *nd.Doc {
	d := nd.NewDoc().Start("svg", "viewBox", "0 0 "+of(p.k*p.w).s+" "+of(p.k*p.h).s)
	d.Start("defs")
	if p.alt {
		d.Start("g", "id", "a", "fill", "red").Elem("line", "x1", "7").End().Elem("rect", rectAttrs("id", "b")...)
	} else {
		d.Elem("line", "id", "a", "x1", x.s, "stroke", "blue").Start("g", "id", "b").Elem("line").Elem("line", "y2", y.s).End()
	}
	d.End()
	if p.alt {
		d.Start("linearGradient", "id", "g", "x1", "10%", "gradientUnits", "userSpaceOnUse").Elem("stop", "offset", "25%", "stop-color", "red").End()
		d.Start("mask", "id", "m", "width", "10%").Elem("line", "x2", "7").End()
	} else {
		d.Start("radialGradient", "id", "g", "r", "10%", "cx", "10%", "cy", "10%", "gradientUnits", "userSpaceOnUse", "spreadMethod", "repeat").Elem("stop", "offset", "25%").Elem("stop", "offset", "1", "stop-color", "lime").End()
		d.Start("mask", "id", "m", "height", "10%").Elem("line", "y2", y.s).Elem("line").End()
	}
	d.Elem("line", "x1", "50%", "y1", "50%", "x2", "10%", "y2", "10%", "stroke-dasharray", "10% 50%", "stroke-dashoffset", "10%", "transform", "translate(1,2)", "style", "fill:url(#g)")
	d.Elem("circle", "cx", "50%", "cy", "10%", "r", "10%", "mask", "url(#m)")
	d.Elem("rect", "x", "10%", "y", "50%", "width", "10%", "height", "50%", "fill", "#123", "style", "stroke-width:3;stroke:#321")
	d.Elem("use", "href", "#a", "x", "10%", "y", "10%")
	d.Start("title").Text("t").End()
	return d
}

// check compares everything with what the document says.
func (p probe) check(what string, r *svg.Svg, x, y coord) {
	w, h, g := p.k*p.w, p.k*p.h, p.k*p.diag
	nd.Assert(nd.And(nd.Near(r.ViewBox.W, w, 1e-9), nd.Near(r.ViewBox.H, h, 1e-9)), what+": viewBox")
	nd.Assert(len(r.SvgPaths) == 4 && len(r.SvgMasks) == 1 && len(r.Titles) == 1 && r.Titles[0] == "t", what+": counts")
	l, c, q, u := r.SvgPaths[0], r.SvgPaths[1], r.SvgPaths[2], r.SvgPaths[3]
	checkPath(what+": line", l.Path, []zop{{'M', []float64{w / 2, h / 2}}, {'L', []float64{w / 10, h / 10}}}, px+1e-9)
	st := defaultStyle()
	st.dash, st.dashOff = []float64{g / 10, g / 2}, g/10
	st.m = [6]float64{1, 0, 0, 1, 1, 2}
	grad := &gradient{radial: !p.alt, user: true, m: [6]float64{1, 0, 0, 1, 0, 0}, box: [4]float64{0, 0, w, h}}
	if p.alt {
		grad.dir = []float64{w / 10, 0, w, 0}
		grad.stops = []gstop{{off: 0.25, op: 1, color: rgb(255, 0, 0)}}
	} else {
		grad.dir = []float64{w / 10, h / 10, w / 10, h / 10, g / 10, 0}
		grad.spread = svg.RepeatSpread
		grad.stops = []gstop{{off: 0.25, op: 1, color: rgb(0, 0, 0)}, {off: 1, op: 1, color: rgb(0, 255, 0)}}
	}
	st.fill = paint{kind: 2, g: grad}
	checkStyle(what+": line", l.Style, st)
	// the circle starts on its axis
	_, s := opParts(c.Path[0])
	e := g / 10
	dx, dy := float64(s[0].X)/64-w/2, float64(s[0].Y)/64-h/10
	nd.Assert(nd.Or(nd.And(nd.Or(nd.Near(dx, e, 4*px), nd.Near(dx, -e, 4*px)), nd.Near(dy, 0, 4*px)), nd.And(nd.Or(nd.Near(dy, e, 4*px), nd.Near(dy, -e, 4*px)), nd.Near(dx, 0, 4*px))), what+": circle")
	st = defaultStyle()
	st.masks = []string{"m"}
	checkStyle(what+": circle", c.Style, st)
	nd.Assert(len(q.Path) == 5, what+": rect")
	_, s = opParts(q.Path[2])
	nd.Assert(nearPt(s[0], fpt{w / 5, h}, 4*px, 4*px), what+": rect")
	st = defaultStyle()
	st.fill, st.line, st.width = rgb(0x11, 0x22, 0x33), rgb(0x33, 0x22, 0x11), 3
	checkStyle(what+": rect", q.Style, st)
	st = defaultStyle()
	st.m = [6]float64{1, 0, 0, 1, w / 10, h / 10}
	x1 := x.v
	if p.alt {
		st.fill = rgb(255, 0, 0)
		x1 = 7
	} else {
		st.line = rgb(0, 0, 255)
	}
	checkStyle(what+": instance", u.Style, st)
	checkPath(what+": instance", u.Path, []zop{{'M', []float64{x1, 0}}, {'L', []float64{0, 0}}}, px+1e-9)
	m := r.SvgMasks["m"]
	nd.Assert(m != nil, what+": mask")
	if p.alt {
		nd.Assert(nd.And(nd.Near(m.W, w/10, 1e-6), nd.Near(m.H, 0, 0)), what+": mask size")
		nd.Assert(len(m.SvgPaths) == 1, what+": mask shapes")
		checkPath(what+": mask", m.SvgPaths[0].Path, []zop{{'M', []float64{0, 0}}, {'L', []float64{7, 0}}}, px+1e-9)
	} else {
		nd.Assert(nd.And(nd.Near(m.H, h/10, 1e-6), nd.Near(m.W, 0, 0)), what+": mask size")
		nd.Assert(len(m.SvgPaths) == 2, what+": mask shapes")
		checkPath(what+": mask", m.SvgPaths[0].Path, []zop{{'M', []float64{0, 0}}, {'L', []float64{0, y.v}}}, px+1e-9)
	}
}

// spoil overwrites everything a result refers to, as its owner may.
func spoil(r *svg.Svg) {
	paths := func(ps []svg.SvgPath) {
		for i := range ps {
			p := &ps[i]
			for j := range p.Path {
				p.Path[j] = svg.OpClose{}
			}
			for j := range p.Style.Dash.Dash {
				p.Style.Dash.Dash[j] = 77
			}
			for j := range p.Style.Masks {
				p.Style.Masks[j] = "spoilt"
			}
			if g, ok := p.Style.FillerColor.(svg.Gradient); ok {
				for j := range g.Stops {
					g.Stops[j] = svg.GradStop{Offset: 77, Opacity: 77}
				}
			}
			*p = svg.SvgPath{}
		}
	}
	paths(r.SvgPaths)
	if m := r.SvgMasks["m"]; m != nil {
		paths(m.SvgPaths)
		*m = svg.SvgMask{ID: "spoilt"}
	}
	r.SvgMasks["m"] = nil
	r.SvgMasks["n"] = nil
	for i := range r.Titles {
		r.Titles[i] = "spoilt"
	}
	r.Transform = svg.Matrix2D{}
}

// Documents with the same texts and other meanings, parsed one after the other.
func C22_probe() {
	nd.Bound("two (thorough: three) documents with the same attribute texts (percentages, ids, references, colours) and viewBoxes that share the width, the height, both or neither (sides 7:1, 7:7, 7:17, 1:7, 17:7, symbolic scales), with either of two sets of definitions under the same ids; each result compared with what its own document says, and everything in it overwritten before the next parse; a document of 7 other kinds may come between, in every error mode")
	sides := [][3]float64{{7, 1, 5}, {7, 7, 7}, {7, 17, 13}, {1, 7, 5}, {17, 7, 13}}
	k := nd.Float("k", 1, 10)
	n := some(2, 3)
	for i := 0; i < n; i++ {
		s := sides[nd.Choice("sides", 5)]
		p := probe{k, s[0], s[1], s[2], nd.Choice("definitions", 2) == 1}
		x, y := num("x"), num("y")
		r := parseOK(p.doc(x, y), "doc")
		if i == n-1 || i == 0 {
			p.check("document "+itoa(i), r, x, y)
		}
		if i == 0 {
			if b := nd.Choice("between", 8); b < 7 {
				svg.Parse(writeSome(b, num("p"), num("q")).Done(), svg.ErrorMode(b%3))
				p.check("document 0 later", r, x, y)
			}
		}
		spoil(r)
		checkDefaults()
	}
}

const oddKinds = 14

// oddDoc is a line with something unknown (strict reports it, the other modes skip it) or malformed (every mode reports it).
func oddDoc(k int, x coord) (d *nd.Doc, unknown, malformed bool) {
	d = root()
	attrs := []string{"x1", x.s}
	switch k {
	case 0: // nothing odd
		d.Elem("line", attrs...)
		return d, false, false
	case 1:
		d.Elem("filter", "x", "1").Elem("line", attrs...)
	case 2:
		d.Start("text").Text("words").End().Elem("line", attrs...)
	case 3:
		d.Start("Rect").Elem("line", attrs...).End()
	case 4:
		d.Elem("path", "d", "M"+x.s+" 0X 1L0 0")
	case 5:
		d.Elem("line", append(attrs, "fill-rule", "sideways")...)
	case 6:
		d.Elem("line", append(attrs, "stroke-linecap", "sideways")...)
	case 7:
		d.Elem("line", append(attrs, "style", "stroke-linejoin:sideways")...)
	case 8:
		d.Elem("line", append(attrs, "stroke-linegap", "sideways", "stroke-leadlinecap", "sideways")...)
	default:
		malformed = true
		switch k {
		case 9:
			d.Elem("line", append(attrs, "fill", "sideways")...)
		case 10:
			d.Elem("line", append(attrs, "x2", "1furlong")...)
		case 11:
			d.Elem("line", append(attrs, "transform", "turn(1)")...)
		case 12:
			d.Elem("line", attrs...).Elem("use", "href", "#sideways")
		case 13:
			d.Elem("line", attrs...).Elem("path", "d", "M1 2 L3")
		}
		return d, false, true
	}
	return d, true, false
}

// What an earlier document contained that was unknown or malformed does not change what is reported or skipped later.
func C22_odd() {
	nd.Bound("every ordered pair of 14 documents with nothing odd, with an unknown element, path command or keyword, or with a malformed colour, length, transform, reference or path; every error mode for each")
	x, y := num("x"), num("y")
	a, _, _ := oddDoc(nd.Choice("first", oddKinds), x)
	svg.Parse(a.Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	b, unknown, malformed := oddDoc(nd.Choice("second", oddKinds), y)
	mode := svg.ErrorMode(nd.Choice("mode2", 3))
	logged := nd.LogCount()
	r, err := svg.Parse(b.Done(), mode)
	logged = nd.LogCount() - logged
	if malformed {
		nd.Assert(err != nil, "malformed content is an error again")
		return
	}
	if unknown && mode == svg.StrictErrorMode {
		nd.Assert(err != nil, "unknown content is an error in strict mode again")
		return
	}
	nd.Assert(err == nil, "accepted again")
	nd.Assert((logged > 0) == (unknown && mode == svg.WarnErrorMode), "logged in warn mode again")
	nd.Assert(len(r.SvgPaths) == 1, "one line")
	checkPath("line", r.SvgPaths[0].Path, []zop{{'M', []float64{y.v, 0}}, {'L', []float64{0, 0}}}, px+1e-9)
	checkStyle("line", r.SvgPaths[0].Style, defaultStyle())
}
