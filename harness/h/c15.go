package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// The viewBox and the size attributes.
func C15_viewbox() {
	nd.Bound("viewBox absent, or four numbers with zero or non-zero sizes in two notations; width and height absent or a length in 8 units; all attribute orders, among other attributes")
	var vx, vy, vw, vh float64
	var w, h coord
	var kv [][2]string
	if k := nd.Choice("viewBox", 5); k > 0 {
		a, b := num("vx"), num("vy")
		c, e := coord{0, "0"}, coord{0, "0"}
		if k&1 == 1 {
			c = numIn("vw", 1, 5000)
		}
		if k > 2 {
			e = numIn("vh", 1, 5000)
		}
		vx, vy, vw, vh = a.v, b.v, c.v, e.v
		sep := []string{" ", ","}[nd.Choice("sep", 2)]
		kv = append(kv, [2]string{"viewBox", a.s + sep + b.s + sep + c.s + sep + e.s})
	}
	units := []string{"", "px", "pt", "cm", "mm", "in", "Q", "pc"}
	ratio := []float64{1, 1, 96. / 72, 96 / 2.54, 9.6 / 2.54, 96, 96 / 101.6, 16}
	if nd.Choice("width", 2) == 1 {
		w = numIn("w", 0.1, 100000)
		if nd.Choice("negative", 2) == 1 {
			w = numIn("w", -1000, -0.1)
		}
		u := nd.Choice("wu", 8)
		w.s += units[u]
		w.v *= ratio[u]
		kv = append(kv, [2]string{"width", w.s})
	}
	if nd.Choice("height", 2) == 1 {
		h = numIn("h", 0.1, 100000)
		u := nd.Choice("hu", 3)
		h.s += units[u]
		h.v *= ratio[u]
		kv = append(kv, [2]string{"height", h.s})
	}
	if n := len(kv); n > 1 { // every rotation and reversal is every order of up to three attributes
		if nd.Choice("reverse", 2) == 1 {
			kv[0], kv[n-1] = kv[n-1], kv[0]
		}
		r := 0
		if n > 2 {
			r = nd.Choice("rotate", n)
		}
		kv = append(append([][2]string{}, kv[r:]...), kv[:r]...)
	}
	attrs := []string{"xmlns", "http://www.w3.org/2000/svg"}
	for _, p := range kv {
		attrs = append(attrs, p[0], p[1])
	}
	d := nd.NewDoc().Header().Start("svg", append(attrs, "version", "1.1")...)
	r := parseOK(d.Elem("rect", rectAttrs()...), "doc")
	if vw == 0 {
		vw = w.v
	}
	if vh == 0 {
		vh = h.v
	}
	nd.Observe("W", r.ViewBox.W)
	nd.Observe("H", r.ViewBox.H)
	nd.Assert(nd.Near(r.ViewBox.X, vx, 1e-9), "viewBox x")
	nd.Assert(nd.Near(r.ViewBox.Y, vy, 1e-9), "viewBox y")
	nd.Assert(nd.Near(r.ViewBox.W, vw, 1e-6), "viewBox width")
	nd.Assert(nd.Near(r.ViewBox.H, vh, 1e-6), "viewBox height")
	nd.Assert(nd.EqS(r.Width, w.s), "width text")
	nd.Assert(nd.EqS(r.Height, h.s), "height text")
	checkMatrix("document", r.Transform, [6]float64{1, 0, 0, 1, 0, 0}, 0)
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	nd.Assert(len(r.Titles) == 0 && len(r.Descriptions) == 0 && len(r.SvgMasks) == 0, "nothing else")
}

// An svg element inside the document does not change the document's viewBox or size.
func C15_nested() {
	nd.Bound("a document with or without viewBox, width and height and an svg element inside it (4 kinds of attributes) at the top level, in a group, in a mask, or used from defs, once or twice; lengths in percent of the root's viewBox before, inside and after it")
	w, h := numIn("w", 1, 500), numIn("h", 1, 500)
	var kv []string
	var x, y coord
	switch nd.Choice("root", 3) {
	case 0:
		x, y = num("x"), num("y")
		kv = []string{"viewBox", x.s + " " + y.s + " " + w.s + " " + h.s, "width", "70", "height", "80"}
	case 1:
		kv = []string{"width", w.s, "height", h.s}
	case 2:
		kv = []string{"viewBox", "0 0 0 " + h.s, "width", w.s}
	}
	in := [][]string{nil, {"viewBox", "1 2 3 4"}, {"width", "9", "height", "7px"}, {"x", "3", "y", "4", "viewBox", "5 6 7 8", "width", "10"}}[nd.Choice("inner", 4)]
	d := nd.NewDoc().Start("svg", kv...)
	n := 2
	tests := func() { d.Elem("line", "x1", "50%", "y2", "25%") }
	tests()
	nested := func() {
		d.Start("svg", in...)
		tests()
		d.End()
	}
	switch nd.Choice("where", 5) {
	case 0:
		nested()
		n++
	case 1:
		d.Start("g", "opacity", "0.5")
		nested()
		d.Start("g")
		nested()
		d.End().End()
		n += 2
	case 2:
		d.Start("mask", "id", "m")
		nested()
		d.End()
	case 3:
		d.Start("defs").Start("svg", append([]string{"id", "s"}, in...)...)
		tests()
		d.End().End().Elem("use", "href", "#s").Elem("use", "href", "#s")
		n += 2
	case 4:
		d.Start("defs").Start("svg", append([]string{"id", "s"}, in...)...)
		tests()
		d.End().End()
	}
	tests()
	r := parseOK(d, "doc")
	nd.Assert(nd.And(nd.Near(r.ViewBox.X, x.v, 1e-9), nd.Near(r.ViewBox.Y, y.v, 1e-9)), "viewBox origin")
	nd.Assert(nd.And(nd.Near(r.ViewBox.W, w.v, 1e-6), nd.Near(r.ViewBox.H, h.v, 1e-6)), "viewBox size")
	for i := 0; i+1 < len(kv); i += 2 {
		switch kv[i] {
		case "width":
			nd.Assert(nd.EqS(r.Width, kv[i+1]), "width text")
		case "height":
			nd.Assert(nd.EqS(r.Height, kv[i+1]), "height text")
		}
	}
	nd.Assert(len(r.SvgPaths) == n, "one path per drawn element")
	for i := range r.SvgPaths {
		checkPath("path "+itoa(i), r.SvgPaths[i].Path, []zop{{'M', []float64{w.v / 2, 0}}, {'L', []float64{0, h.v / 4}}}, 2*px+1e-6)
	}
}

// Titles and descriptions.
func C15_titles() {
	nd.Bound("two title or desc elements (in the root, a group, defs, a shape or a mask) of up to three pieces of text each (symbolic letters, white space, separated by comments or character data sections), with text outside of them")
	d := root()
	d.Text("\n  outside ")
	var titles, descs []string
	n := 2
	for i := 0; i < n; i++ {
		in := nd.Choice("in", 5)
		switch in {
		case 1:
			d.Start("g", "fill", "red").Text("group text")
		case 2:
			d.Start("defs").Text("defs text")
		case 3:
			d.Start("mask", "id", "m").Text("mask text")
		case 4:
			d.Start("line", "x1", "4").Text("line text")
		}
		isTitle := nd.Choice("what", 2) == 0
		if isTitle {
			d.Start("title", "id", "t")
		} else {
			d.Start("desc")
		}
		text := ""
		pieces := nd.Choice("pieces", 4)
		for p := 0; p < pieces; p++ {
			if p == 1 {
				d.Comment()
			}
			t := nd.Text("t", 2, "aB <&;\n")
			if p == 2 {
				t = "xy"
			}
			d.Text(t)
			text += t
		}
		d.End()
		if isTitle {
			titles = append(titles, text)
		} else {
			descs = append(descs, text)
		}
		d.Text(" after\n")
		if in != 0 {
			d.End()
		}
		d.Text("between").Elem("line", "x2", "4")
	}
	r := parseOK(d, "doc")
	nd.Assert(len(r.Titles) == len(titles), "number of titles")
	nd.Assert(len(r.Descriptions) == len(descs), "number of descriptions")
	for i := range titles {
		nd.Observe("title", r.Titles[i])
	}
	eqTexts("title text", r.Titles, titles)
	eqTexts("description text", r.Descriptions, descs)
}

// One path per drawn element, independent of the others.
func C15_paths() {
	nd.Bound("three drawn elements of all six shape kinds (symbolic coordinates) in any order, in groups, with and without content that draws nothing between them")
	d := root()
	var want [][]zop
	for i := 0; i < 3; i++ {
		in := 0
		if i > 0 {
			in = nd.Choice("in", 3)
		}
		if in == 1 {
			d.Start("g").Start("g", "opacity", "0.5").End()
		}
		x, y := num("x"), num("y")
		switch nd.Choice("shape", 6) {
		case 0:
			d.Elem("line", "x1", x.s, "y2", y.s)
			want = append(want, []zop{{'M', []float64{x.v, 0}}, {'L', []float64{0, y.v}}})
		case 1:
			d.Elem("polyline", "points", x.s+","+y.s+" 1 2 3 4")
			want = append(want, []zop{{'M', []float64{x.v, y.v}}, {'L', []float64{1, 2}}, {'L', []float64{3, 4}}})
		case 2:
			d.Elem("polygon", "points", "5 6 "+x.s+","+y.s)
			want = append(want, []zop{{'M', []float64{5, 6}}, {'L', []float64{x.v, y.v}}, {'Z', nil}})
		case 3:
			d.Elem("path", "d", "M"+x.s+" "+y.s+"h3z")
			want = append(want, []zop{{'M', []float64{x.v, y.v}}, {'L', []float64{x.v + 3, y.v}}, {'Z', nil}})
		case 4:
			d.Elem("path", "d", "M1 1C1 2 3 4 "+x.s+" "+y.s+"Q1 1 2 2")
			want = append(want, []zop{{'M', []float64{1, 1}}, {'C', []float64{1, 2, 3, 4, x.v, y.v}}, {'Q', []float64{1, 1, 2, 2}}})
		case 5:
			d.Elem("rect", "x", x.s, "y", y.s, "width", "10", "height", "20")
			want = append(want, []zop{{'M', []float64{x.v, y.v}}, {'L', []float64{x.v + 10, y.v}}, {'L', []float64{x.v + 10, y.v + 20}}, {'L', []float64{x.v, y.v + 20}}, {'Z', nil}})
		}
		switch in {
		case 1:
			d.End()
		case 2: // nothing to draw
			d.Elem("path").Elem("path", "d", "").Elem("polyline").Elem("polygon", "points", "").Elem("rect", "width", "5").Elem("circle", "cx", "4").Elem("g").Start("defs").Elem("line").End().Elem("title").Elem("stop", "offset", "1")
		}
	}
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == len(want), "one path per drawn element")
	for i, w := range want {
		checkPath("path "+itoa(i), r.SvgPaths[i].Path, w, 2*px+1e-9)
	}
	// each path has its own data
	r.SvgPaths[0].Path[0] = svg.OpClose{}
	_ = append(r.SvgPaths[0].Path, svg.OpClose{})
	_ = append(r.SvgPaths[1].Path, svg.OpClose{})
	checkPath("path 1 after changing path 0", r.SvgPaths[1].Path, want[1], 2*px+1e-9)
	checkPath("path 2 after changing path 1", r.SvgPaths[2].Path, want[2], 2*px+1e-9)
}
