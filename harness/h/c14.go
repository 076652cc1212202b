package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// unknownIn calls write for the document with and without the unknown content, and compares all modes: strict reports,
// ignore and warn skip.
func unknownIn(write func(d *nd.Doc, unknown bool)) {
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	before := nd.LogCount()
	d := root()
	write(d, true)
	got, err := svg.Parse(d.Done(), mode)
	logged := nd.LogCount() - before
	if mode == svg.StrictErrorMode {
		nd.Assert(err != nil, "unknown content is an error in strict mode")
		return
	}
	nd.Assert(err == nil, "unknown content is skipped")
	if mode == svg.IgnoreErrorMode {
		nd.Assert(logged == 0, "ignore mode is silent")
	} else {
		nd.Assert(logged > 0, "warn mode logs a message")
	}
	e := root()
	write(e, false)
	want, err := svg.Parse(e.Done(), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted without the unknown content")
	same("document", got, want)
}

// Unknown elements in every position.
func C14_element() {
	nd.Bound("an unknown element (5 names: lower case, upper case, of another language, a known name in another case, empty of attributes or with x, y, width, d) with no content, text, shapes or nested unknown elements, in 10 positions of a document with groups, definitions, uses, gradients, masks and titles")
	name := []string{"text", "Rect", "foreignObject", "filter", "clipPath"}[nd.Choice("name", 5)]
	var kv []string
	if nd.Choice("attrs", 2) == 1 {
		kv = []string{"x", "5", "y", "6", "width", "7", "height", "8", "d", "M0 0", "points", "1 2", "id", "zz", "class", "c"}
	}
	content := nd.Choice("content", 4)
	pos := nd.Choice("pos", 10)
	x, y := num("x"), num("y")
	unknownIn(func(d *nd.Doc, unknown bool) {
		put := func(p int) {
			if p != pos {
				return
			}
			if unknown {
				d.Start(name, kv...)
			}
			switch content {
			case 1:
				if unknown && p != 9 {
					d.Text("some text")
				}
			case 2:
				if p != 7 && p != 9 { // shapes are not content of gradients and titles
					d.Elem("rect", rectAttrs("fill", "red")...).Start("g", "opacity", "0.5").Elem("line", "x1", y.s).End()
				}
			case 3:
				if unknown {
					d.Elem("tspan").Start("a").Elem("b").End()
				}
			}
			if unknown {
				d.End()
			}
		}
		put(0)
		d.Start("defs")
		d.Start("linearGradient", "id", "lg").Elem("stop", "offset", "0", "stop-color", "red")
		put(7)
		d.Elem("stop", "offset", "1", "stop-color", "blue").End()
		d.Start("g", "id", "def", "stroke", "green").Elem("line", "x2", x.s)
		put(1)
		d.Elem("line", "y2", y.s).End()
		d.End()
		put(2)
		d.Start("g", "fill", "url(#lg)").Elem("line", "x1", x.s)
		put(3)
		d.Elem("polyline", "points", "1 2 3 "+y.s)
		d.Start("g", "stroke-width", "3")
		put(4)
		d.End()
		d.Elem("polygon", "points", "1 2 3 "+y.s).End()
		put(5)
		d.Start("mask", "id", "m").Elem("line", "x1", x.s)
		put(6)
		d.Elem("line", "y1", y.s).End()
		d.Start("title").Text("t")
		put(9)
		d.Text("u").End()
		d.Elem("use", "href", "#def", "x", y.s)
		d.Elem("rect", rectAttrs()...)
		put(8)
	})
}

// Unknown path commands.
func C14_command() {
	nd.Bound("an unknown command letter (any of 26) with 0 to 3 numbers, in each position of path data with every state of the current point and control points, followed by every kind of command")
	letter := string(nd.Byte("letter", "BbDdFfGgIiJjKkNnOoPpRrUuWwXxYy"))
	args := []string{"", " 5", " 5 6", "1,2 3"}[nd.Choice("args", 4)]
	before := []string{"M 1 2", "M 1 2 L 4 5", "M 1 2 Q 1 2 3 4", "M 1 2 C 1 2 3 4 5 6", "M 1 2 L 3 4 Z", "M 1 2 Q 3 4 5 6 T 7 8", "M1 2 h 4 S 1 2 5 6"}[nd.Choice("before", 7)]
	x, y := num("x"), num("y")
	after := []string{"", "L", "l", "T", "t", "m", "h", "S", "Z", "M"}[nd.Choice("after", 10)]
	switch after {
	case "", "Z":
	case "h":
		after += x.s
	case "S":
		after += x.s + " " + y.s + " 9 9"
	default:
		after += x.s + " " + y.s
	}
	unknownIn(func(d *nd.Doc, unknown bool) {
		s := before
		if unknown {
			s += letter + args
		}
		d.Elem("path", "d", s+after).Elem("rect", rectAttrs()...)
	})
}

// Unknown keyword values.
func C14_keyword() {
	nd.Bound("an unknown value of each keyword property, as attribute or style declaration among other declarations, below a group that sets the property to something else")
	k := nd.Choice("property", 5)
	name := []string{"fill-rule", "stroke-linecap", "stroke-leadlinecap", "stroke-linejoin", "stroke-linegap"}[k]
	parent := []string{"evenodd", "round", "square", "miter", "cubic"}[k]
	v := nd.Text("v", nd.Choice("len", 4), "arRx-")
	for _, w := range []string{"arc"} {
		nd.Assume(v != w)
	}
	if nd.Choice("long", 2) == 1 {
		v = []string{"inherit", "buttx", "Round", "miter clip", "nonzer", "even odd", "flat,"}[nd.Choice("case", 7)]
	}
	note := nd.Choice("style", 2)
	w := numIn("w", 0, 10)
	unknownIn(func(d *nd.Doc, unknown bool) {
		d.Start("g", name, parent)
		ds := []decl{{name: "stroke-width", value: w.s}}
		if unknown {
			ds = append(ds, decl{name: name, value: v})
		}
		ds = append(ds, decl{name: "fill", value: "red"})
		d.Elem("rect", rectAttrs(attrsOf(note*7, ds...)...)...)
		d.Elem("rect", rectAttrs()...)
		d.End().Elem("rect", rectAttrs()...)
	})
}

// Malformed values of supported attributes are errors in every mode.
func C14_malformed() {
	nd.Bound("a malformed value of every supported attribute, on an element with other attributes before and after it; all error modes")
	type bad struct{ elem, attr, value string }
	bads := []bad{
		{"rect", "x", "1z"}, {"rect", "y", "--1"}, {"rect", "width", ""}, {"rect", "height", "abc"}, {"rect", "rx", "1 2"}, {"rect", "ry", "1,"},
		{"circle", "cx", "q"}, {"circle", "cy", "1em"}, {"circle", "r", "x"}, {"ellipse", "rx", "5ft"}, {"ellipse", "ry", "%"},
		{"line", "x1", "e"}, {"line", "y1", "."}, {"line", "x2", "1..2"}, {"line", "y2", "0x10"},
		{"polyline", "points", "1 2 3"}, {"polygon", "points", "1 2 3"}, {"polyline", "points", "1 2 -"}, {"polyline", "points", "1 2 3 4e"},
		{"path", "d", "M 1"}, {"path", "d", "M 1 2 L 3"}, {"path", "d", "M 1 2 C 1 2 3 4 5"}, {"path", "d", "M 1 2 Z 3"}, {"path", "d", "M 1 2 L -"},
		{"mask", "x", "z"}, {"mask", "y", "z"}, {"mask", "width", "z"}, {"mask", "height", "z"}, {"mask", "id", ""},
		{"g", "fill", "#12"}, {"g", "fill", "reddish"}, {"g", "stroke", "#ggg"}, {"g", "stroke", ""}, {"g", "stroke", "rgb(1,2)"},
		{"g", "stroke-width", "x"}, {"g", "stroke-miterlimit", "x"}, {"g", "stroke-dasharray", "1,x"}, {"g", "stroke-dashoffset", "x"},
		{"g", "opacity", "x"}, {"g", "fill-opacity", ""}, {"g", "stroke-opacity", "50x"}, {"g", "transform", "foo(1)"}, {"g", "transform", "scale(1"}, {"g", "mask", "m"},
		{"g", "style", "fill:#12"}, {"g", "style", "stroke-width:x"}, {"g", "style", "fill:red;opacity:x;stroke:blue"},
		{"linearGradient", "x1", "z"}, {"linearGradient", "y1", "z"}, {"linearGradient", "x2", "z"}, {"linearGradient", "y2", "z"}, {"linearGradient", "gradientTransform", "foo(1)"},
		{"radialGradient", "cx", "z"}, {"radialGradient", "cy", "z"}, {"radialGradient", "fx", "z"}, {"radialGradient", "fy", "z"}, {"radialGradient", "r", "z"}, {"radialGradient", "fr", "z"},
		{"stop", "offset", "z"}, {"stop", "stop-color", "z"}, {"stop", "stop-opacity", "z"}, {"stop", "style", "stop-color:z"},
		{"svg", "viewBox", "1 2 3"}, {"svg", "viewBox", "1 2 3 4 5"}, {"svg", "width", "z"}, {"svg", "height", "z"}, {"svg", "viewBox", "1 2 3 -"},
		{"use", "x", "z"}, {"use", "y", "z"},
	}
	b := bads[nd.Choice("case", len(bads))]
	kv := []string{b.attr, b.value}
	if nd.Choice("order", 2) == 1 {
		kv = []string{"id", "i", "x", "1", "y", "1", "class", "k", b.attr, b.value, "opacity", "0.5"}
		for i := 0; i+1 < len(kv)-4; i += 2 {
			if kv[i] == b.attr {
				kv[i] = "data-x"
			}
		}
		if b.attr == "opacity" {
			kv = kv[:len(kv)-2]
		}
		if b.elem == "radialGradient" { // the focus does not stand in for the centre
			for _, a := range []string{"fx", "fy", "cx", "cy"} {
				if a != b.attr {
					kv = append(kv, a, "0.25")
				}
			}
		}
	}
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	var d *nd.Doc
	switch b.elem {
	case "svg":
		d = nd.NewDoc().Start("svg", kv...)
	case "stop":
		d = root().Start("radialGradient", "id", "g").Elem("stop", kv...).End()
	case "use":
		d = root().Start("defs").Elem("line", "id", "l").End().Elem("use", append(kv, "href", "#l")...)
	default:
		d = root().Elem(b.elem, kv...)
	}
	d.Elem("rect", rectAttrs()...)
	_, err := svg.Parse(d.Done(), mode)
	nd.Assert(err != nil, "a malformed value is an error")
}
