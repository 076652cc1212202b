package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// edited is the text with one character left out, put in or replaced.
func edited(base, chars string) string {
	op := nd.Choice("edit", 3)
	n := len(base)
	if op == 1 {
		n++
	}
	i := nd.Choice("at", n)
	switch op {
	case 0:
		return base[:i] + base[i+1:]
	case 1:
		return base[:i] + string(nd.Byte("b", chars)) + base[i:]
	}
	return base[:i] + string(nd.Byte("b", chars)) + base[i+1:]
}

// Lengths with one character wrong.
func C06_near() {
	nd.Bound("lengths in each unit with any one character left out, replaced by or preceded by any of 19 characters, as horizontal and vertical coordinate, stroke width and dash offset; all error modes")
	k := []lengthSink{{"line", "x1", 0, false}, {"mask", "y", 1, false}, {"rect", "stroke-width", 2, false}, {"rect", "stroke-dashoffset", 2, false}}[nd.Choice("sink", 4)]
	t := edited([]string{"1.5px", "-2cm", "3mm", "4e1Q", "25in", "7pt", "8pc", "9%", "10"}[nd.Choice("base", 9)], "05.-+eE xQp%mi,#(/n")
	units := []string{"px", "cm", "mm", "pt", "in", "Q", "pc", "%"}
	num := t
	for len(num) > 0 && num[len(num)-1] == ' ' {
		num = num[:len(num)-1]
	}
	for _, u := range units {
		if n := len(num) - len(u); n >= 0 && num[n:] == u {
			num = num[:n]
			break
		}
	}
	good := isNumber(num)
	d := root()
	putLength(d, k, t)
	_, err := svg.Parse(d.Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert((err == nil) == good, "a malformed length is an error")
}

// Hexadecimal colours of other lengths.
func C07_long() {
	nd.Bound("# followed by 7 to 14 hexadecimal digits, three of them any; as fill, stroke and stop colour, in every mode")
	n := 7 + nd.Choice("len", 8)
	t := "#" + nd.Text("h", 2, "09aF") + "12345678abcdef"[:n-3] + nd.Text("h", 1, "09aF")
	_, _, err := putColor(nd.Choice("sink", colorSinks), t, svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert(err != nil, "a malformed hexadecimal colour is an error")
}

// Paints below paints.
func C08_paint() {
	nd.Bound("fill and stroke of an element and its parent each absent, none, a colour or a gradient of 0, 1 or 2 stops with and without colour; followed by a sibling")
	g0, g1, g2 := simple("g0", 0), simple("g1", 1, makeStop(0, "a")), simple("g2", 0, makeStop(1, "b"), makeStop(0, "c"))
	paintOf := func(what, prop string) []decl {
		switch nd.Choice(what, 6) {
		case 0:
			return nil
		case 1:
			return []decl{{prop, "none", func(s *style) {
				if prop == "fill" {
					s.fill = paint{}
				} else {
					s.line = paint{}
				}
			}}}
		case 2:
			t, c := anyColor(what)
			return []decl{{prop, t, func(s *style) {
				if prop == "fill" {
					s.fill = c
				} else {
					s.line = c
				}
			}}}
		case 3:
			return []decl{refDecl(prop, g0)}
		case 4:
			return []decl{refDecl(prop, g1)}
		}
		return []decl{refDecl(prop, g2)}
	}
	prop, other := "fill", "stroke"
	if nd.Choice("swap", 2) == 1 {
		prop, other = other, prop
	}
	outer, inner := append(paintOf("outer", prop), paintOf("other", other)...), paintOf("inner", prop)
	defs := &node{tag: "defs", kids: []*node{{tag: "grad", grad: g0}, {tag: "grad", grad: g1}, {tag: "grad", grad: g2}}}
	checkTree(defs, group([]*node{line([4]int{1, 2, 3, 4}, inner...), line([4]int{5, 6, 7, 8})}, outer...), line([4]int{1, 1, 2, 2}))
}

// Transform functions with one character wrong.
func C09_near() {
	nd.Bound("each transform function with any one character of its name left out, replaced by or preceded by any of 20 characters; alone, after and before a valid one, with attributes of drawn elements and gradients; all error modes")
	names := []string{"matrix", "translate", "scale", "rotate", "skewX", "skewY"}
	f := nd.Choice("fn", len(names))
	name := edited(names[f], "aAxXyY3stz+-. _,;#(")
	args := []string{"(1 0 0 1 2 3)", "(4)", "(5)", "(6)", "(7)", "(8)"}[f]
	low := make([]byte, 0, len(name))
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c == '(' || c == ')' {
			low = nil
			break
		}
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		low = append(low, c)
	}
	good := false
	if low != nil {
		t := string(low)
		for len(t) > 0 && (t[0] == ' ' || t[0] == ',') { // separates functions
			t = t[1:]
		}
		for len(t) > 0 && t[len(t)-1] == ' ' {
			t = t[:len(t)-1]
		}
		for i, n := range []string{"matrix", "translate", "scale", "rotate", "skewx", "skewy"} {
			if t == n && (i == 0) == (f == 0) {
				good = true
			}
		}
	}
	t := name + args
	switch nd.Choice("shape", 3) {
	case 1:
		t = "scale(2) " + t
	case 2:
		t = t + ",scale(2)"
	}
	kv, elem := []string{"transform", t}, "g"
	if nd.Choice("where", 2) == 1 {
		kv[0], elem = "gradientTransform", "linearGradient"
	}
	_, err := svg.Parse(root().Elem(elem, kv...).Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert((err == nil) == good, "a misspelt transform is an error")
}

// Every unsupported element of SVG.
func C14_names() {
	nd.Bound("each of 64 unsupported element names of SVG 1.1 and 2 and of other languages, with or without prefix, with text, a shape and a declared namespace; first, last or inside a group, in definitions or in a mask")
	names := []string{"a", "altGlyph", "altGlyphDef", "animate", "animateColor", "animateMotion", "animateTransform", "audio", "canvas", "clipPath", "color-profile", "cursor", "discard",
		"feBlend", "feColorMatrix", "feFlood", "feGaussianBlur", "feImage", "feMerge", "feOffset", "filter", "font", "font-face", "foreignObject", "glyph", "glyphRef", "hatch", "hkern",
		"iframe", "image", "marker", "mesh", "meshgradient", "metadata", "missing-glyph", "mpath", "pattern", "script", "set", "solidcolor", "style", "switch", "symbol", "text", "textPath",
		"tref", "tspan", "unknown", "use2", "video", "view", "vkern", "sodipodi:namedview", "inkscape:grid", "rdf:RDF", "cc:Work", "dc:format", "svg:text", "Svg", "G", "PATH", "lineargradient", "Stop", "div"}
	name := names[nd.Choice("name", len(names))]
	x := num("x")
	pos := nd.Choice("pos", 5)
	var kv []string
	switch nd.Choice("attrs", 3) {
	case 1:
		kv = []string{"id", "n1", "type", "text/css", "href", "#n1", "xmlns:rdf", "urn:r", "xmlns:sodipodi", "urn:s", "rdf:about", ""}
	case 2:
		kv = []string{"xmlns", "urn:other", "transform-origin", "1 2", "cc:id", "q"}
	}
	unknownIn(func(d *nd.Doc, unknown bool) {
		put := func(p int) {
			if p != pos {
				return
			}
			if unknown {
				d.Start(name, kv...).Text(".a{fill:red}")
			}
			d.Elem("line", "x1", x.s, "stroke", "red")
			if unknown {
				d.End()
			}
		}
		put(0)
		d.Start("defs").Start("g", "id", "q").Elem("line", "y1", "3")
		put(1)
		d.End().End()
		d.Start("mask", "id", "m")
		put(2)
		d.End()
		d.Start("g", "fill", "blue").Elem("line", "x2", "2")
		put(3)
		d.Elem("line", "y2", "4").End()
		d.Elem("use", "href", "#q")
		put(4)
	})
}

// Keyword values with one character wrong.
func C14_near() {
	nd.Bound("each keyword property with a supported value of which one character is left out, replaced by or preceded by any of 16 characters, as attribute and in a style; in every mode")
	props := [][2]string{{"fill-rule", "evenodd"}, {"fill-rule", "nonzero"}, {"stroke-linecap", "round"}, {"stroke-linecap", "butt"}, {"stroke-linecap", "square"}, {"stroke-linejoin", "miter"}, {"stroke-linejoin", "miter-clip"},
		{"stroke-linejoin", "arc"}, {"stroke-linejoin", "bevel"}, {"stroke-linegap", "flat"}, {"stroke-linegap", "cubic"}, {"stroke-leadlinecap", "quadratic"}, {"stroke-leadlinecap", "butt"}}
	c := props[nd.Choice("case", len(props))]
	t := edited(c[1], "aeoRSt-_ .,0#(Bx")
	if t[0] == ' ' || t[len(t)-1] == ' ' || t == c[1] {
		return // white space around a value does not count
	}
	style := nd.Choice("style", 2) == 1
	x := num("x")
	unknownIn(func(d *nd.Doc, unknown bool) {
		kv := []string{"x1", x.s, "stroke", "red"}
		if unknown && style {
			kv = append(kv, "style", "stroke-width:3;"+c[0]+":"+t+";opacity:.5")
		} else if unknown {
			kv = append(kv, c[0], t, "style", "stroke-width:3;opacity:.5")
		} else {
			kv = append(kv, "style", "stroke-width:3;opacity:.5")
		}
		d.Start("g", "stroke-linecap", "round", "stroke-linejoin", "round", "fill-rule", "evenodd").Elem("line", kv...).Elem("line", "y1", "3").End()
	})
}

// Documents with namespaces.
func C15_namespace() {
	nd.Bound("a document with shapes, groups, gradients, masks, definitions and titles with the SVG namespace as default, with a prefix for all elements, and with declarations and prefixes for other languages")
	x, y := num("x"), num("y")
	form := nd.Choice("form", 4)
	write := func(d *nd.Doc, ns bool) *nd.Doc {
		p := ""
		kv := []string{"viewBox", "0 0 20 140", "width", "5in"}
		href := "href"
		if ns {
			switch form {
			case 0:
				kv = append([]string{"xmlns", "http://www.w3.org/2000/svg"}, kv...)
			case 1:
				kv = append(kv, "xmlns:svg", "http://www.w3.org/2000/svg", "xmlns:xlink", "http://www.w3.org/1999/xlink")
				p, href = "svg:", "xlink:href"
			case 2:
				kv = append(kv, "xmlns:xlink", "http://www.w3.org/1999/xlink", "xmlns", "http://www.w3.org/2000/svg", "xml:space", "preserve", "xmlns:dc", "urn:dc", "version", "1.1")
				href = "xlink:href"
			case 3:
				href = "xlink:href"
				kv = append(kv, "baseProfile", "full", "xml:lang", "en")
			}
		}
		d.Start(p+"svg", kv...)
		d.Start(p+"title").Text("t").End().Start(p+"defs").Start(p+"g", "id", "q").Elem(p+"line", "x1", x.s).Elem(p+"polygon", "points", "1 2 3 4 "+y.s+",5").End()
		d.Start(p+"radialGradient", "id", "g", "r", "2").Elem(p+"stop", "offset", "0.5", "stop-color", "red").End().End()
		d.Start(p+"mask", "id", "m", "width", x.s).Elem(p+"path", "d", "M1 2L"+x.s+" "+y.s).End()
		d.Start(p+"g", "fill", "url(#g)", "mask", "url(#m)").Elem(p+"rect", "width", "3", "height", "4", "x", y.s).Elem(p+"circle", "r", "2").End()
		d.Elem(p+"use", href, "#q", "y", x.s).Start(p + "desc").Text("u").End()
		return d.Elem(p+"polyline", "points", "1 2 "+x.s+" 4").Done()
	}
	got, err := svg.Parse(write(nd.NewDoc(), true), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted with namespaces")
	want, err := svg.Parse(write(nd.NewDoc(), false), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted without namespaces")
	nd.Assert(len(got.SvgPaths) == 5, "one path per drawn element")
	same("document", got, want)
}

// Long paths one after the other.
func C15_long() {
	nd.Bound("six paths of 3 to 300 operations one after the other, long after short and short after long, on their own, in a mask and through a use; some coordinates symbolic")
	x := num("x")
	data := func(n, at int) (string, []zop) {
		t, want := "M"+itoa(at)+" 1", []zop{{'M', []float64{float64(at), 1}}}
		for i := 1; i < n; i++ {
			c := mixed(i+at, x)
			t += "L" + c.s + " " + itoa(at)
			want = append(want, zop{'L', []float64{c.v, float64(at)}})
		}
		return t, want
	}
	d := root()
	var want [][]zop
	for i, n := range []int{70, 300, 3, 130, 260, 40} {
		t, w := data(n, 5+i)
		d.Elem("path", "d", t)
		want = append(want, w)
	}
	tm, wm := data(150, 20)
	tu, wu := data(140, 30)
	d.Start("mask", "id", "m").Elem("path", "d", tm).Elem("path", "d", tu).End()
	d.Start("defs").Elem("path", "id", "q", "d", tu).End().Elem("use", "href", "#q").Elem("path", "d", tm)
	want = append(want, wu, wm)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == len(want), "one path per drawn element")
	for i, w := range want {
		checkPath("path "+itoa(i), r.SvgPaths[i].Path, w, 2*px+1e-9)
	}
	m := r.SvgMasks["m"]
	nd.Assert(m != nil && len(m.SvgPaths) == 2, "shapes of the mask")
	checkPath("first of the mask", m.SvgPaths[0].Path, wm, 2*px+1e-9)
	checkPath("second of the mask", m.SvgPaths[1].Path, wu, 2*px+1e-9)
}
