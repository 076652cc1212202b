package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// returns asserts that parsing the document returns normally: a panic, unbounded recursion or a loop that
// does not end is what the engine reports by itself. It also asserts the shape of the outcome.
func returns(d *nd.Doc, mode svg.ErrorMode) (*svg.Svg, error) {
	r, err := svg.Parse(d.Done(), mode)
	nd.Assert(r != nil || err != nil, "a result or an error")
	return r, err
}

func anyMode() svg.ErrorMode { return svg.ErrorMode(nd.Choice("mode", 3)) }

// slot is a place for an attribute text, and what comes around it.
type slot struct {
	elem, attr string
	heads      []string // before the symbolic bytes
	alphabet   string
	tails      []string // after them
	quick      int      // longest symbolic part
}

var slots = []slot{
	{"rect", "fill", []string{"", "#", "rgb(", "rgb(1,", "url(", "rgb(1,2,3"}, "#0f(),%-u ", []string{"", ")"}, 3},
	{"g", "stroke", []string{"", "url(#", "#12", "rgb(5%,"}, "#a()% ,", []string{"", ")"}, 3},
	{"g", "mask", []string{"", "url(", "url(#", "u"}, "url(#) m", []string{"", ")"}, 3},
	{"use", "href", []string{"", "#", "##"}, "#ab ", []string{""}, 3},
	{"line", "x1", []string{"", "-", "1e"}, "0.-+e%pxN ", []string{"", "px", "%", "cm"}, 3},
	{"circle", "r", []string{"", "."}, "0.-+e%iQ ", []string{"", "mm", "%"}, 3},
	{"rect", "width", []string{"", "+"}, "1.-e% ", []string{"", "in"}, 2},
	{"rect", "stroke-dasharray", []string{"", "1,", ", ,"}, "1,. -%n", []string{"", " none", ","}, 3},
	{"g", "stroke-width", []string{""}, "1.-e%x ", []string{"", "pt"}, 2},
	{"g", "opacity", []string{""}, "1.-e%x ", []string{"", "%"}, 2},
	{"path", "d", []string{"", "M", "M0 0", "M1 1 1", "m5 5z"}, "MlZaATqcSvHe1.-,x ", []string{"", "z", "1"}, 2},
	{"path", "d", []string{"M1 2A3 4 5 ", "M1 2a1 1 0 0 0 ", "M0 0C1 2 3 4 "}, "!01. ,-eZ", []string{"", " 6", " 7 8"}, 3}, // ! - enumerated: trigonometry of the digits
	{"polyline", "points", []string{"", "1 2 ", "1,2,3"}, "1.-,e x", []string{"", "4"}, 3},
	{"polygon", "points", []string{"", "1 2", "1,2 3"}, "1.-,e x", []string{"", " 4 5"}, 3},
	{"g", "transform", []string{"", "rotate(", "matrix(1 2 3 4 5", "scale", "translate(1)"}, "(),1- s", []string{"", ")", "scale(2)"}, 3},
	{"rect", "style", []string{"", "fill", "fill:", "stroke-width", ":"}, ":;f1 -", []string{"", ";", ";stroke:red", ":"}, 3},
	{"svg", "viewBox", []string{"", "0 0 10", "1,2,"}, "1.-,e ", []string{"", " 10"}, 3},
	{"svg", "width", []string{""}, "1.-%pxe ", []string{"", "px", "%"}, 3},
	{"stop", "offset", []string{""}, "1.-%xe ", []string{"", "%"}, 2},
	{"stop", "stop-color", []string{"", "rgb(", "#"}, "#1(,)", []string{"", ")"}, 2},
	{"linearGradient", "x1", []string{"", "1"}, "1.-%xe ", []string{"", "%"}, 2},
	{"linearGradient", "gradientTransform", []string{"", "skewX("}, "1(), ", []string{"", ")"}, 2},
	{"radialGradient", "r", []string{""}, "1.-%xe ", []string{"", "%"}, 2},
	{"radialGradient", "id", []string{""}, "g ", []string{"", "g"}, 1},
	{"mask", "id", []string{""}, "m ", []string{"", "m"}, 1},
	{"mask", "height", []string{""}, "1.-%xe ", []string{"", "%"}, 2},
	{"rect", "stroke-linecap", []string{"", "bu"}, "tr -", []string{"", "ound"}, 2},
}

// put writes the element with the attribute where it belongs, with something after it.
func (s slot) put(t string) *nd.Doc {
	kv := []string{s.attr, t}
	var d *nd.Doc
	switch s.elem {
	case "svg":
		d = nd.NewDoc().Start("svg", kv...)
	case "stop":
		d = root().Start("linearGradient", "id", "g").Elem("stop", kv...).Elem("stop").End()
	case "use":
		d = root().Start("defs").Elem("line", "id", "a").End().Elem("use", kv...)
	case "g", "mask", "linearGradient", "radialGradient":
		d = root().Start(s.elem, kv...).Elem("line").End()
	case "rect":
		if s.attr != "width" {
			kv = append([]string{"width", "3", "height", "4", "rx", "1"}, kv...)
		}
		d = root().Elem("rect", kv...)
	default:
		d = root().Elem(s.elem, kv...)
	}
	return d.Elem("line", "fill", "url(#g)", "stroke", "url(#)", "x1", "5%").Elem("path", "d", "m1 2t3 4")
}

// Any text for every attribute.
func C01_texts() {
	nd.Bound("27 attributes (all kinds of values), each with every text made of one of several typical beginnings, 0 to 3 (thorough: 4) bytes of the characters its grammar knows and some it does not, and one of several ends; followed by elements that use what was parsed; all error modes (quick: strict)")
	s := slots[nd.Choice("slot", len(slots))]
	n := s.quick
	if nd.Thorough() && s.alphabet[0] != '!' {
		n++
	}
	t := s.heads[nd.Choice("head", len(s.heads))]
	tail := s.tails[nd.Choice("tail", len(s.tails))]
	l := nd.Choice("len", n+1)
	if s.alphabet[0] == '!' {
		for i := 0; i < l; i++ {
			t += string(s.alphabet[1+nd.Choice("c", len(s.alphabet)-1)])
		}
		t += tail
	} else {
		t += nd.Text("t", l, s.alphabet) + tail
	}
	mode := svg.StrictErrorMode
	if nd.Thorough() {
		mode = anyMode()
	}
	returns(s.put(t), mode)
}

// Texts beyond ASCII and other unusual texts.
func C01_odd() {
	nd.Bound("27 attributes, each with 24 unusual texts (empty, white space, letters and digits beyond ASCII, very long, very large, infinite and hexadecimal numbers, brackets); all error modes")
	s := slots[nd.Choice("slot", len(slots))]
	odd := []string{"", " ", "\t\n", "é", "M\u00e9 1", "\u0661\u0662", "\u2212\u0031", "M1\u00a02", "url(#\u00fc)", "#\u00e9\u00e9\u00e9", "1e400", "-1e400", "1e-400", "1e308", "inf", "-Infinity", "nan", "0x1p-2", "1_0", "((((", "))))", "rgb(,,)", ";;::;", "M0 0A1e300 1e-300 1e9 1 1 1e300 -1e300"}
	t := odd[nd.Choice("text", len(odd))]
	h := s.heads[nd.Choice("head", len(s.heads))]
	returns(s.put(h+t), anyMode())
}

// Extreme numbers in geometry.
func C01_extreme() {
	nd.Bound("rect, circle, ellipse, line, polygon and path (arc, curves) with each number one of 8 extreme values (0, -0, negative, tiny, huge, infinite, not a number)")
	vals := []string{"0", "-0", "-5", "1e-300", "1e300", "-1e308", "inf", "nan"}
	v := func() string { return vals[nd.Choice("v", len(vals))] }
	w := func() string { return vals[nd.Choice("v", 6)] } // for path data
	d := root()
	switch nd.Choice("shape", 6) {
	case 0:
		d.Elem("rect", "x", "1", "width", v(), "height", v(), "rx", v(), "ry", v())
	case 1:
		d.Elem("ellipse", "cx", v(), "rx", v(), "ry", v())
	case 2:
		d.Elem("circle", "r", v(), "cy", v(), "stroke-dasharray", v())
	case 3:
		d.Elem("path", "d", "M1 1A"+w()+" "+w()+" "+w()+" 0 1 "+w()+" 3")
	case 4:
		d.Elem("path", "d", "M"+w()+" 1c1 "+w()+" 3 "+w()+" 5 6s1 2 3 "+w()+"z")
	case 5:
		d.Start("g", "transform", "rotate("+w()+") skewX("+w()+")").Elem("polygon", "points", w()+" 1 2 "+w())
	}
	returns(d, svg.StrictErrorMode)
}

var allTags = []string{"g", "defs", "use", "mask", "title", "desc", "linearGradient", "radialGradient", "stop", "path", "rect", "svg", "polyline", "unknown", "style"}

// tagAttrs are typical attributes of the element, with ids and references among them.
func tagAttrs(tag string, level int) []string {
	id := string(rune('a' + level))
	switch tag {
	case "use":
		return []string{"id", id, "href", "#a", "x", "1"}
	case "path":
		return []string{"id", id, "d", "M1 1L2 2z", "fill", "url(#b)"}
	case "rect":
		return rectAttrs("id", id, "mask", "url(#a)")
	case "polyline":
		return []string{"points", "1 2 3 4", "stroke", "url(#a)"}
	case "stop":
		return []string{"offset", "0.5"}
	case "unknown", "title", "defs":
		return nil
	}
	return []string{"id", id, "transform", "scale(2)"}
}

// Every nesting of elements.
func C01_nesting() {
	nd.Bound("every chain of 3 (thorough: 4) nested elements of 15 kinds (with ids, references to earlier ids, transforms), with text and comments inside, followed by shapes and references; strict and ignore modes")
	n := some(3, 4)
	d := root()
	for i := 0; i < n; i++ {
		tag := allTags[nd.Choice("tag", len(allTags))]
		d.Start(tag, tagAttrs(tag, i)...).Text(" x ")
	}
	d.Comment()
	for i := 0; i < n; i++ {
		d.End()
		d.Text("y")
	}
	mode := svg.StrictErrorMode
	if nd.Choice("ignore", 2) == 1 {
		mode = svg.IgnoreErrorMode
	}
	d.Elem("use", "href", "#b").Elem("path", "d", "M1 2h3").Elem("stop").Elem("rect", rectAttrs("fill", "url(#a)", "mask", "url(#b)")...)
	returns(d, mode)
}

// Other documents that begin unusually.
func C01_roots() {
	nd.Bound("documents whose root is any of 15 kinds of elements with any kind of child, with or without a header, comments and text before and after, ending in garbage or a read failure or not; all error modes")
	d := nd.NewDoc()
	if nd.Choice("header", 2) == 1 {
		d.Header().Comment().Text("\n")
	}
	a := allTags[nd.Choice("root", len(allTags))]
	b := allTags[nd.Choice("child", len(allTags))]
	d.Start(a, tagAttrs(a, 0)...).Text("x").Start(b, tagAttrs(b, 1)...).Text("z").End()
	switch nd.Choice("end", 3) {
	case 1:
		d.Garbage()
	case 2:
		d.Fail(failure(0))
	}
	d.Done().Comment().Text("\n")
	returns(d, anyMode())
}

// References between definitions in every pattern, cycles included.
func C01_references() {
	nd.Bound("four definitions (groups, a mask or a nested group among them), each using one or two of the four in every pattern (self references and cycles included), instantiated from outside, from a mask or from a later definition; strict and ignore modes")
	ids := []string{"a", "b", "c", "d"}
	d := root()
	d.Start("defs")
	n := some(3, 4)
	for i := 0; i < n; i++ {
		to := nd.Choice("to", n+1)
		switch k := nd.Choice("kind", 3); {
		case to == n:
			d.Elem("line", "id", ids[i])
		case k == 0:
			d.Elem("use", "id", ids[i], "href", "#"+ids[to])
		case k == 1:
			d.Start("g", "id", ids[i]).Start("g", "id", "in"+ids[i]).Elem("use", "href", "#"+ids[to], "x", "1").Elem("line").End().Elem("use", "href", "#in"+ids[i]).End()
		case k == 2:
			d.Start("g", "id", ids[i], "mask", "url(#"+ids[to]+")").Start("mask", "id", "m"+ids[i]).Elem("use", "href", "#"+ids[to]).Elem("line").End().Elem("use", "href", "#"+ids[to]).End()
		}
	}
	d.End()
	switch nd.Choice("outside", 3) {
	case 0:
		d.Elem("use", "href", "#a").Elem("use", "href", "#c")
	case 1:
		d.Start("mask", "id", "a").Elem("use", "href", "#b").Elem("line", "mask", "url(#a)").End().Elem("use", "href", "#a", "mask", "url(#a)")
	case 2:
		d.Start("defs").Start("g", "id", "b").Elem("use", "href", "#a").End().End().Elem("use", "href", "#b", "fill", "url(#a)")
	}
	mode := svg.StrictErrorMode
	if nd.Choice("ignore", 2) == 1 {
		mode = svg.IgnoreErrorMode
	}
	returns(d, mode)
}
