package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// propCases is every supported presentation keyword, and numbers with symbolic values.
func propCases() []decl {
	var cs []decl
	add := func(name, value string, f func(*style)) { cs = append(cs, decl{name, value, f}) }
	add("fill-rule", "evenodd", func(s *style) { s.nonzero = false })
	add("fill-rule", "nonzero", func(s *style) { s.nonzero = true })
	for i, c := range []svg.CapMode{svg.ButtCap, svg.RoundCap, svg.SquareCap, svg.CubicCap, svg.QuadraticCap} {
		c := c
		n := []string{"butt", "round", "square", "cubic", "quadratic"}[i]
		add("stroke-linecap", n, func(s *style) { s.trail = c })
		add("stroke-leadlinecap", n, func(s *style) { s.lead = c })
	}
	for i, j := range []svg.JoinMode{svg.Miter, svg.MiterClip, svg.ArcClip, svg.Round, svg.Arc, svg.Bevel} {
		j := j
		add("stroke-linejoin", []string{"miter", "miter-clip", "arc-clip", "round", "arc", "bevel"}[i], func(s *style) { s.join = j })
	}
	for i, g := range []svg.GapMode{svg.FlatGap, svg.RoundGap, svg.CubicGap, svg.QuadraticGap} {
		g := g
		add("stroke-linegap", []string{"flat", "round", "cubic", "quadratic"}[i], func(s *style) { s.gap = g })
	}
	v := numIn("v", 0, 10000)
	add("stroke-miterlimit", v.s, func(s *style) { s.miter = v.v })
	add("stroke-width", v.s, func(s *style) { s.width = v.v })
	add("stroke-width", v.s+"pt", func(s *style) { s.width = v.v * 96 / 72 })
	add("stroke-width", v.s+"%", func(s *style) { s.width = v.v })
	o := numIn("o", -10000, 10000)
	add("stroke-dashoffset", o.s, func(s *style) { s.dashOff = o.v })
	add("stroke-dashoffset", o.s+" mm", func(s *style) { s.dashOff = o.v * 96 / 25.4 })
	w := numIn("w", 0, 10000)
	add("stroke-dasharray", v.s, func(s *style) { s.dash = []float64{v.v} })
	add("stroke-dasharray", v.s+" "+w.s, func(s *style) { s.dash = []float64{v.v, w.v} })
	add("stroke-dasharray", v.s+","+w.s+", 3 4", func(s *style) { s.dash = []float64{v.v, w.v, 3, 4} })
	add("stroke-dasharray", v.s+"\n"+w.s+"px\t,\t5%", func(s *style) { s.dash = []float64{v.v, w.v, 5} })
	add("stroke-dasharray", "none", func(s *style) { s.dash = nil })
	p := numIn("p", 0, 1)
	big, q, neg, hund := numIn("big", 1, 100000), numIn("q", 0, 100), numIn("neg", -100000, 0), numIn("hund", 100, 100000)
	for i := 0; i < 3; i++ {
		n := []string{"opacity", "fill-opacity", "stroke-opacity"}[i]
		set := func(v float64) func(*style) {
			return func(s *style) {
				if n != "stroke-opacity" {
					s.fillOp *= v
				}
				if n != "fill-opacity" {
					s.lineOp *= v
				}
			}
		}
		add(n, p.s, set(p.v))
		add(n, q.s+"%", set(q.v/100))
		add(n, big.s, set(1))
		add(n, neg.s, set(0))
		add(n, hund.s+"%", set(1))
	}
	add("fill", "none", func(s *style) { s.fill = paint{} })
	add("fill", "Lime", func(s *style) { s.fill = rgb(0, 255, 0) })
	add("stroke", "#0f08ff", func(s *style) { s.line = rgb(15, 8, 255) })
	add("stroke", "none", func(s *style) { s.line = paint{} })
	return cs
}

// loudStyle is the style of a shape in a group with loud.
func loudStyle() style {
	s := defaultStyle()
	s.fill, s.line = rgb(0x12, 0x34, 0x56), rgb(0x65, 0x43, 0x21)
	s.nonzero, s.width, s.trail, s.join, s.miter = false, 7, svg.SquareCap, svg.Arc, 9
	s.dash, s.dashOff, s.fillOp, s.lineOp = []float64{5, 6, 7}, 3, 0.25, 0.25
	s.m = [6]float64{3, 0, 0, 3, 0, 0}
	s.masks, s.gap, s.lead = []string{"loud"}, svg.RoundGap, svg.RoundCap
	return s
}

// Every property and keyword, over default and over unusual inherited values.
func C23_fields() {
	nd.Bound("every supported property with every keyword (numbers symbolic: lengths in px, pt, mm or %, opacities inside and outside [0,1] as numbers and percentages, 1 to 4 dashes), as attribute or style declaration alone or between others, below default or unusual inherited values in all fields")
	cs := propCases()
	c := cs[nd.Choice("case", len(cs))]
	want := defaultStyle()
	d := root()
	if nd.Choice("loud", 2) == 1 {
		want = loudStyle()
		d.Start("g", loud...)
	}
	parent := want
	c.apply(&want)
	switch nd.Choice("notation", 4) {
	case 0:
		d.Elem("rect", rectAttrs(c.name, c.value)...)
	case 1:
		d.Elem("rect", rectAttrs("style", c.name+":"+c.value)...)
	case 2:
		d.Elem("rect", append([]string{"style", "; color : red;" + c.name + ": " + c.value + " ;; display:inline", "class", "z"}, rectAttrs()...)...)
	case 3: // inherited
		d.Start("g", c.name, c.value).Elem("rect", rectAttrs("id", "q")...).End()
	}
	d.Elem("rect", rectAttrs()...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "doc: paths")
	checkStyle("element", r.SvgPaths[0].Style, want)
	checkStyle("next element", r.SvgPaths[1].Style, parent)
}

// Letter case of names and white space around names and values.
func C23_notation() {
	nd.Bound("one value of each of 14 properties; each of the first three (thorough: all) letters of the name in lower or upper case, 0 to 2 characters of white space around name and value")
	k := nd.Choice("property", 14)
	c := []decl{
		{"fill-rule", "evenodd", func(s *style) { s.nonzero = false }},
		{"stroke-linecap", "round", func(s *style) { s.trail = svg.RoundCap }},
		{"stroke-leadlinecap", "butt", func(s *style) { s.lead = svg.ButtCap }},
		{"stroke-linejoin", "miter-clip", func(s *style) { s.join = svg.MiterClip }},
		{"stroke-linegap", "quadratic", func(s *style) { s.gap = svg.QuadraticGap }},
		{"stroke-miterlimit", "12", func(s *style) { s.miter = 12 }},
		{"stroke-width", "13", func(s *style) { s.width = 13 }},
		{"stroke-dashoffset", "14", func(s *style) { s.dashOff = 14 }},
		{"stroke-dasharray", "1 2", func(s *style) { s.dash = []float64{1, 2} }},
		{"opacity", "0.5", func(s *style) { s.fillOp *= 0.5; s.lineOp *= 0.5 }},
		{"fill-opacity", "25%", func(s *style) { s.fillOp *= 0.25 }},
		{"stroke-opacity", ".125", func(s *style) { s.lineOp *= 0.125 }},
		{"fill", "#abc", func(s *style) { s.fill = rgb(0xaa, 0xbb, 0xcc) }},
		{"stroke", "Red", func(s *style) { s.line = rgb(255, 0, 0) }},
	}[k]
	n := 3
	if nd.Thorough() {
		n = len(c.name)
	}
	name := ""
	for i := 0; i < len(c.name); i++ {
		l := c.name[i : i+1]
		if i < n && l != "-" {
			l = string(nd.Byte("letter", l+string(rune(c.name[i])-32)))
		} else if n == 3 && l != "-" && i%2 == 0 {
			l = string(rune(c.name[i]) - 32)
		}
		name += l
	}
	ws := func(n string) string { return nd.Text(n, nd.Choice(n+"#", 3), " \t\n\r") }
	d := root()
	want := defaultStyle()
	if nd.Choice("style", 2) == 0 {
		d.Elem("rect", rectAttrs(name, ws("b")+c.value+ws("c"))...)
	} else {
		sep := []string{"", ";", " ; "}[nd.Choice("sep", 3)]
		want.gap = svg.RoundGap
		d.Elem("rect", rectAttrs("style", "stroke-linegap:round;"+ws("a")+name+ws("b")+":"+ws("c")+c.value+" "+sep)...)
	}
	r := parseOK(d, "doc")
	c.apply(&want)
	checkStyle("element", r.SvgPaths[0].Style, want)
}
