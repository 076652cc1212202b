package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

// The harnesses of this file have few symbolic values and many elements: nothing may depend on how
// many there are, or on how deep they are nested.

// mixed is the i-th of many coordinates: some are symbolic, the others differ from each other.
func mixed(i int, c coord) coord {
	if i%37 == 5 {
		return c
	}
	v := float64(i%199)*0.5 - 40
	return coord{v, nd.Fmt(v, 0)}
}

// Documents of any depth and any number of elements.
func C01_many() {
	nd.Bound("300 nested elements of one of 8 kinds, 300 siblings of them, a chain of 100 definitions that use the next, and one that ends where it began; all error modes")
	tag := []string{"g", "svg", "defs", "mask", "text", "title", "linearGradient", "line"}[nd.Choice("tag", 8)]
	d := root()
	switch nd.Choice("shape", 4) {
	case 0:
		for i := 0; i < 300; i++ {
			d.Start(tag, "id", "n"+itoa(i), "opacity", "0.9", "transform", "rotate(1)", "mask", "url(#n"+itoa(i)+")")
		}
	case 1:
		for i := 0; i < 300; i++ {
			d.Start(tag, "id", "n"+itoa(i)).Elem("rect", rectAttrs()...).Elem("stop").Text("t").End()
		}
	default:
		loop := nd.Choice("loop", 2) == 1
		d.Start("defs")
		for i := 0; i < 100; i++ {
			d.Start("g", "id", "n"+itoa(i)).Elem("use", "href", "#n"+itoa(i+1)).Elem(tag).End()
		}
		if loop {
			d.Start("g", "id", "n100").Elem("use", "href", "#n0").End()
		} else {
			d.Elem("line", "id", "n100", "x2", "5")
		}
		d.End().Elem("use", "href", "#n0")
	}
	svg.Parse(d.Done(), anyMode())
	nd.Cover("returned")
}

// Commands with many argument groups.
func C02_many() {
	nd.Bound("each command with 150 argument groups after a move and one command of MLQCZ; some of the coordinates symbolic in [-100000,100000] (relative: in [-10,10]), the others different concrete numbers; and 150 subpaths")
	s := &pathSpec{}
	x, y := num("x"), num("y")
	s.one('M', []float64{x.v, y.v})
	d := "M" + x.s + " " + y.s
	d += s.command("MLQCZ"[nd.Choice("before", 5)], 1, "b")
	k := nd.Choice("cmd", len(cmdLetters)+1)
	if k == len(cmdLetters) || argc(cmdLetters[k]) == 0 {
		for i := 0; i < 150; i++ {
			a, b := mixed(2*i, x), mixed(2*i+1, y)
			d += "M" + a.s + " " + b.s + "h5z"
			s.one('M', []float64{a.v, b.v})
			s.one('h', []float64{5})
			s.one('z', nil)
		}
	} else {
		c := cmdLetters[k]
		z := num("z")
		if c >= 'a' {
			z = numIn("z", -10, 10)
		}
		d += string(c)
		for i := 0; i < 150; i++ {
			args := make([]float64, argc(c))
			for j := range args {
				a := mixed(i*len(args)+j, z)
				d += " " + a.s
				args[j] = a.v
			}
			kk := c
			if i > 0 && (c == 'M' || c == 'm') {
				kk--
			}
			s.one(kk, args)
		}
	}
	checkPathData(d, s)
}

// Long lists of numbers.
func C03_many() {
	nd.Bound("200 numbers in one of 5 separations (white space, comma, sign only, point only, mixed) in path data and point lists, some with a symbolic digit; and numbers of 1 to 40 digits before and after the point")
	sink := nd.Choice("sink", 2)
	t := ""
	form := nd.Choice("form", 6)
	if form == 5 {
		n := []int{1, 2, 5, 12, 17, 20, 40}[nd.Choice("digits", 7)]
		dg := []string{"1", "4", "9"}[nd.Choice("d", 3)]
		w := dg
		for i := 0; i < n; i++ {
			w += "0"
		}
		f := "0." + dg + "5"
		for i := 0; i < n; i++ {
			f += string('0' + byte(i*7%10))
		}
		z := "00000000000000000000000000000000000000000"[:n] + dg + "0." + "3"
		if n > 5 {
			w = "7"
		}
		t = w + " " + f + "," + z
	} else {
		for i := 0; i < 200; i++ {
			dg := string('1' + byte(i%9))
			if i%50 == 7 {
				dg = string(nd.Byte("d", "123456789"))
			}
			switch form {
			case 0:
				t += " " + dg + "3"
			case 1:
				t += "," + dg + ".25"
			case 2:
				t += []string{"-", "+"}[i%2] + dg
			case 3:
				t += "." + dg
			case 4:
				t += []string{" ", ",", "-", "\t.", " +."}[i%5] + dg + []string{"", "e1", "E-1"}[i%3]
			}
		}
		if form == 1 {
			t = t[1:]
		}
	}
	vals, valid, big := refNumbers(t)
	nd.Assert(valid, "harness: a valid list")
	if form < 5 {
		nd.Assert(len(vals) == 200, "harness: all numbers")
	}
	checkNumbers(sink, t, vals, valid, big)
}

// Many arcs in one command.
func C04_many() {
	nd.Bound("30 arcs in one command, absolute or relative, from three positions")
	at0 := nd.Choice("at", 3)
	x, y := []coord{of(0), of(250.5), of(-77.25)}[at0], []coord{of(0), of(-130), of(8)}[at0]
	forms := []unitArc{{1, 1, 0, false, true, 1, 0.5}, {2, 1, 30, true, false, -1, 0.75}, {1, 3, -60, true, true, 0.5, -1}, {4, 3, 45, false, false, 3, 4}, {1, 2, 90, false, true, -3.25, -4.5}}
	rel := nd.Choice("relative", 2) == 1
	data := "M" + x.s + " " + y.s + "A"
	if rel {
		data = "M" + x.s + " " + y.s + "a"
	}
	const k = 8
	cx, cy := x.v, y.v
	d := root()
	var ends []fpt
	for i := 0; i < 30; i++ {
		a := forms[i%5]
		ox, oy := cx, cy
		if rel {
			ox, oy = 0, 0
		}
		data += " " + a.text(k, ox, oy)
		cx, cy = cx+k*a.dx, cy+k*a.dy
		ends = append(ends, fpt{cx, cy})
	}
	for _, a := range forms {
		d.Elem("path", "d", "M"+x.s+" "+y.s+"a"+a.text(k, 0, 0)) // alone
	}
	p := parseOK(d.Elem("path", "d", data), "doc").SvgPaths
	nd.Assert(len(p) == 6, "path")
	all := p[5].Path
	at := 1
	for i, e := range ends {
		a := forms[i%5]
		n := len(p[i%5].Path) - 1
		nd.Assert(at+n <= len(all), "number of curves")
		checkArc("arc "+itoa(i), all[at:at+n], a, k, e.x-k*a.dx, e.y-k*a.dy)
		at += n
	}
	nd.Assert(at == len(all), "nothing after the arcs")
}

// Many points and many shapes.
func C05_many() {
	nd.Bound("a polyline or polygon of 200 points, and 100 rects, circles, ellipses and lines one after the other; some coordinates symbolic")
	x, y := num("x"), num("y")
	d := root()
	if nd.Choice("what", 2) == 0 {
		closed := nd.Choice("closed", 2) == 1
		t := ""
		var want []zop
		for i := 0; i < 200; i++ {
			a, b := mixed(2*i, x), mixed(2*i+1, y)
			t += a.s + "," + b.s + " "
			k := byte('L')
			if i == 0 {
				k = 'M'
			}
			want = append(want, zop{k, []float64{a.v, b.v}})
		}
		tag := "polyline"
		if closed {
			tag = "polygon"
			want = append(want, zop{'Z', nil})
		}
		d.Elem(tag, "points", t)
		checkPath("points", drawnShape(d, 0), want, 2*px+1e-9)
		return
	}
	for i := 0; i < 100; i++ {
		a, b := mixed(2*i, x), mixed(2*i+1, y)
		switch i % 4 {
		case 0:
			d.Elem("rect", "x", a.s, "y", b.s, "width", "7", "height", "9")
		case 1:
			d.Elem("line", "x1", a.s, "y1", b.s, "x2", "6")
		case 2:
			d.Elem("circle", "cx", a.s, "cy", b.s, "r", "8")
		case 3:
			d.Elem("ellipse", "cx", a.s, "cy", b.s, "rx", "8", "ry", "16")
		}
	}
	ps := parseOK(d, "doc").SvgPaths
	nd.Assert(len(ps) == 100, "shapes")
	for i := 0; i < 100; i++ {
		a, b := mixed(2*i, x).v, mixed(2*i+1, y).v
		p := ps[i].Path
		switch i % 4 {
		case 0:
			checkPath("rect", p, []zop{{'M', []float64{a, b}}, {'L', []float64{a + 7, b}}, {'L', []float64{a + 7, b + 9}}, {'L', []float64{a, b + 9}}, {'Z', nil}}, 2*px+1e-9)
		case 1:
			checkPath("line", p, []zop{{'M', []float64{a, b}}, {'L', []float64{6, 0}}}, 2*px+1e-9)
		case 2:
			checkEllipse(p, a, b, 8, 8)
		case 3:
			checkEllipse(p, a, b, 8, 16)
		}
	}
}

// Deep nesting.
func C08_many() {
	nd.Bound("80 nested groups with an opacity, a mask or a declaration of 6 kinds on some of them, and a shape at every level on the way in and out")
	st := []style{defaultStyle()}
	var want []style
	d := root()
	kind := []int{10, 14, 0, 4, 12, 8}[nd.Choice("kind", 6)]
	shape := func() {
		d.Elem("rect", rectAttrs("fill-opacity", "0.5")...)
		s := st[len(st)-1]
		s.fillOp *= 0.5
		want = append(want, s)
	}
	for i := 0; i < 80; i++ {
		s := st[len(st)-1]
		if i%20 == 3 {
			dc := makeDecl(kind, "m"+itoa(i))
			d.Start("g", dc.name, dc.value)
			dc.apply(&s)
		} else if i%10 == 5 {
			d.Start("g", "style", "mask:url(#k"+itoa(i)+")")
			s.masks = append(append([]string{}, s.masks...), "k"+itoa(i))
		} else {
			d.Start("g")
		}
		st = append(st, s)
		if i%4 == 1 {
			shape()
		}
	}
	for i := 0; i < 80; i++ {
		if i%5 == 1 {
			shape()
		}
		d.End()
		st = st[:len(st)-1]
	}
	shape()
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == len(want), "doc: paths")
	for i := range want {
		checkStyle("element "+itoa(i), r.SvgPaths[i].Style, want[i])
	}
}

// Long transform lists and deep chains.
func C09_many() {
	nd.Bound("40 functions (translations, scalings by 0.5 and 2, rotations by 90 degrees) in one list or spread over a chain of 40 elements; one translation symbolic at one of 4 places")
	x, y := numIn("x", -10, 10), numIn("y", -10, 10)
	at := []int{0, 9, 17, 39}[nd.Choice("at", 4)]
	one := nd.Choice("list", 2) == 0
	m := [6]float64{1, 0, 0, 1, 0, 0}
	d := root()
	list := ""
	for i := 0; i < 40; i++ {
		t := ""
		var f [6]float64
		switch {
		case i == at:
			t, f = "translate("+x.s+" "+y.s+")", [6]float64{1, 0, 0, 1, x.v, y.v}
		case i%4 == 0:
			t, f = "translate("+itoa(i)+",-3)", [6]float64{1, 0, 0, 1, float64(i), -3}
		case i%8 == 1:
			t, f = "scale(2)", [6]float64{2, 0, 0, 2, 0, 0}
		case i%8 == 5:
			t, f = "scale(0.5)", [6]float64{0.5, 0, 0, 0.5, 0, 0}
		case i%4 == 2:
			t, f = "matrix(0 1 -1 0 "+itoa(i)+" 0)", [6]float64{0, 1, -1, 0, float64(i), 0}
		default:
			t, f = "skewX(0)", [6]float64{1, 0, 0, 1, 0, 0}
		}
		m = mul(m, f)
		if one {
			list += t + " "
		} else {
			d.Start("g", "transform", t)
		}
	}
	if one {
		d.Elem("rect", rectAttrs("transform", list)...)
	} else {
		d.Elem("rect", rectAttrs()...)
		for i := 0; i < 40; i++ {
			d.End()
		}
	}
	d.Elem("rect", rectAttrs()...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "paths")
	checkMatrix("element", r.SvgPaths[0].Style.Transform, m, 1e-6)
	checkMatrix("element after", r.SvgPaths[1].Style.Transform, [6]float64{1, 0, 0, 1, 0, 0}, 0)
}

// Many definitions and uses.
func C11_many() {
	nd.Bound("40 definitions (lines, groups, a group of 40 lines), each used twice, the second time in reverse order, with and without a declaration; nested uses 20 deep")
	x, y := numIn("x", -10, 10), numIn("y", -10, 10)
	var defs, uses []*node
	if nd.Choice("shape", 2) == 0 {
		own := makeDecl(11, "own")
		for i := 0; i < 40; i++ {
			l := line([4]int{i, 1, 2, i})
			switch {
			case i == 30:
				var kids []*node
				for j := 0; j < 40; j++ {
					kids = append(kids, line([4]int{j, 2, 3, j}))
				}
				l = group(kids, own)
			case i%3 == 1:
				l = group([]*node{l, line([4]int{4, i, i, 4}, makeDecl(1, ""))})
			}
			defs = append(defs, l.withID("d"+itoa(i)))
		}
		for i := 0; i < 80; i++ {
			j := i
			if i >= 40 {
				j = 79 - i
			}
			u := &node{tag: "use", ref: "d" + itoa(j)}
			if i%3 == 0 {
				u.x, u.y = mixed(i, x), mixed(i, y)
			}
			if i%4 == 1 {
				u.ds = []decl{makeDecl(14, "u"+itoa(i))}
			}
			uses = append(uses, u)
		}
	} else {
		defs = append(defs, line([4]int{1, 2, 3, 4}).withID("d0"))
		for i := 1; i <= 20; i++ {
			defs = append(defs, group([]*node{{tag: "use", ref: "d" + itoa(i-1), x: mixed(i, x), y: mixed(i, y)}, line([4]int{i, i, 5, 6})}).withID("d"+itoa(i)))
		}
		uses = []*node{{tag: "use", ref: "d20"}, {tag: "use", ref: "d7"}, {tag: "use", ref: "d19", x: x, y: y}}
	}
	nodes := []*node{{tag: "defs", kids: defs}}
	nodes = append(nodes, uses...)
	nodes = append(nodes, line([4]int{9, 8, 7, 6}))
	checkTree(nodes...)
}

// Many stops, gradients and references.
func C12_many() {
	nd.Bound("30 gradients, one of them with 50 stops, each referenced twice (once as fill, once as stroke, the other way round the second time) by elements with and without a colour of their own; some stops symbolic")
	sym := []gstop{makeStop(0, "s"), makeStop(2, "t")}
	var gs []*gradient
	var nodes []*node
	for i := 0; i < 30; i++ {
		n := 1 + i%4
		if i == 20 {
			n = 50
		}
		var stops []gstop
		for j := 0; j < n; j++ {
			if j%17 == 2 {
				stops = append(stops, sym[i%2])
				continue
			}
			v := int64(i*8+j) % 256
			o := of(float64(j) / 64)
			stops = append(stops, gstop{off: o.v, op: 1, color: rgb(v, 9, 250), kv: []string{"offset", o.s, "stop-color", "rgb(" + nd.FmtInt(v) + ",9,250)"}})
		}
		g := simple("g"+itoa(i), i, stops...)
		gs = append(gs, g)
		nodes = append(nodes, &node{tag: "grad", grad: g}, stray())
	}
	in := makeDecl(0, "in")
	for i := 0; i < 60; i++ {
		j := i
		if i >= 30 {
			j = 59 - i
		}
		l := line([4]int{i, 2, 3, i}, refDecl([]string{"fill", "stroke"}[(i+i/30)%2], gs[j]))
		if i%3 == 0 {
			l = group([]*node{l, line([4]int{1, 1, 1, i})}, in)
		}
		nodes = append(nodes, l)
	}
	checkTree(nodes...)
}

// Many masks and shapes in them.
func C13_many() {
	nd.Bound("30 masks, one of them with 50 shapes, shapes around them, a chain of 40 groups that each refer to a mask, and 40 elements that refer to one")
	x, y, w, h := num("x"), num("y"), numIn("w", 0, 100000), numIn("h", 0, 100000)
	var nodes []*node
	for i := 0; i < 30; i++ {
		n := 1 + i%3
		if i == 12 {
			n = 50
		}
		var kids []*node
		for j := 0; j < n; j++ {
			kids = append(kids, line([4]int{i, j, 3, 4}))
		}
		m := &node{tag: "mask", id: "m" + itoa(i), kids: kids, x: mixed(i, x), y: mixed(i+1, y), w: w, h: h}
		nodes = append(nodes, m, line([4]int{i, i, 5, 6}))
	}
	for i := 0; i < 40; i++ {
		nodes = append(nodes, line([4]int{4, 4, i, 1}, makeDecl(14, "m"+itoa(i%30))))
	}
	chain := []*node{line([4]int{1, 2, 3, 4})}
	for i := 0; i < 40; i++ {
		chain = []*node{group(chain, makeDecl(14, "m"+itoa(i%30))), line([4]int{5, 6, 7, i}, makeDecl(14, "n"+itoa(i)))}
	}
	nodes = append(nodes, chain...)
	checkTree(nodes...)
}

// Many unknown elements.
func C14_many() {
	nd.Bound("60 unknown elements, nested or one after the other, with shapes in and between them; 60 unknown path commands; 60 unknown keyword values")
	x := num("x")
	k := nd.Choice("what", 4)
	unknownIn(func(d *nd.Doc, unknown bool) {
		data := "M1 2"
		for i := 0; i < 60; i++ {
			switch k {
			case 0:
				if unknown {
					d.Start("text", "x", "5").Text("t").End()
				}
				d.Elem("line", "x1", mixed(i, x).s)
			case 1:
				if unknown {
					d.Start("a", "x", "5")
				}
				d.Elem("line", "x1", mixed(i, x).s)
			case 2:
				if unknown {
					data += "B 1 2"
				}
				data += "l" + mixed(i, x).s + " 3"
			case 3:
				if unknown {
					d.Start("g", "stroke-linecap", "pointed", "fill-rule", "even")
				} else {
					d.Start("g")
				}
				d.Elem("line", "x1", mixed(i, x).s)
				if i%2 == 0 {
					d.End()
				}
			}
		}
		d.Elem("path", "d", data)
	})
}

// Many elements, titles and pieces of text.
func C15_many() {
	nd.Bound("300 lines, 60 titles and descriptions, and a title in 60 pieces; some coordinates and bytes symbolic")
	x, y := num("x"), num("y")
	d := root()
	var titles, descs []string
	var want [][]zop
	for i := 0; i < 300; i++ {
		a, b := mixed(2*i, x), mixed(2*i+1, y)
		d.Elem("line", "x1", a.s, "y2", b.s)
		want = append(want, []zop{{'M', []float64{a.v, 0}}, {'L', []float64{0, b.v}}})
		if i%10 == 3 {
			t := "text " + itoa(i)
			d.Start("title").Text(t).End().Start("desc").Text("long " + t).End()
			titles, descs = append(titles, t), append(descs, "long "+t)
		}
	}
	long := ""
	d.Start("title")
	for i := 0; i < 60; i++ {
		t := itoa(i)
		if i%20 == 4 {
			t = nd.Text("t", 1, "aB <&")
		}
		d.Text(t).Comment()
		long += t
	}
	d.End()
	titles = append(titles, long)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == len(want), "one path per drawn element")
	for i, w := range want {
		checkPath("path "+itoa(i), r.SvgPaths[i].Path, w, 2*px+1e-9)
	}
	nd.Assert(len(r.Titles) == len(titles), "number of titles")
	nd.Assert(len(r.Descriptions) == len(descs), "number of descriptions")
	eqTexts("title text", r.Titles, titles)
	eqTexts("description text", r.Descriptions, descs)
}

// Long paths.
func C16_many() {
	nd.Bound("a path of 150 operations with concrete coordinates of every magnitude and fraction and four symbolic ones")
	c := func(i int) fixed.Int26_6 {
		if i%150 == 77 {
			return fixed.Int26_6(nd.Int("c", 0, 1<<22))
		}
		v := i * i * 977 % (1 << uint(i%23))
		if i%3 == 1 {
			v = -v
		}
		return fixed.Int26_6(v)
	}
	n := 0
	pt := func() fixed.Point26_6 { n += 2; return fixed.Point26_6{X: c(n), Y: c(n + 1)} }
	p := svg.Path{svg.OpMoveTo(pt())}
	for i := 0; i < 150; i++ {
		switch i % 5 {
		case 0:
			p.Line(pt())
		case 1:
			p.QuadBezier(pt(), pt())
		case 2:
			p.CubeBezier(pt(), pt(), pt())
		case 3:
			p.Stop(i%2 == 0)
		case 4:
			p.Start(pt())
		}
	}
	t := p.ToSVGPath()
	s, err := svg.Parse(nd.NewDoc().Start("svg").Elem("path", "d", t).Done(), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted")
	nd.Assert(len(s.SvgPaths) == 1, "one path")
	q := s.SvgPaths[0].Path
	nd.Assert(len(q) == len(p), "number of operations")
	for i := range p {
		k1, a := opParts(p[i])
		k2, b := opParts(q[i])
		nd.Assert(k1 == k2, "kind of operation")
		for j := range a {
			nd.Assert(nd.NearI(int64(a[j].X), int64(b[j].X), 1), "x coordinate")
			nd.Assert(nd.NearI(int64(a[j].Y), int64(b[j].Y), 1), "y coordinate")
		}
	}
}

// Many documents one after the other.
func C22_many() {
	nd.Bound("24 documents of 7 kinds, each with its own symbolic or concrete coordinates, in every error mode, before a document whose result is compared; every other result kept and compared at the end")
	x, y := num("x"), num("y")
	first, _ := svg.Parse(writeSome(0, x, y).Done(), svg.StrictErrorMode)
	keep, _ := svg.Parse(writeSome(0, x, y).Done(), svg.StrictErrorMode)
	from := nd.Choice("from", 7)
	for i := 0; i < 24; i++ {
		svg.Parse(writeSome((from+i)%7, mixed(i, y), mixed(i+1, x)).Done(), svg.ErrorMode(i%3))
	}
	again, err := svg.Parse(writeSome(0, x, y).Done(), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted")
	same("parsed again", again, first)
	same("kept", keep, first)
}

// All properties together and long dash lists.
func C23_many() {
	nd.Bound("a dash list of 60 lengths in one of 3 separations; all 14 kinds of properties on one element, in one of 8 orders, as attributes or in one style declaration")
	x := numIn("x", 0, 100)
	w := defaultStyle()
	if nd.Choice("what", 2) == 0 {
		sep := []string{" ", ",", " , "}[nd.Choice("sep", 3)]
		t := ""
		for i := 0; i < 60; i++ {
			c := of(float64(i) / 4)
			if i%20 == 7 {
				c = x
			}
			if i > 0 {
				t += sep
			}
			t += c.s
			w.dash = append(w.dash, c.v)
		}
		r := parseOK(root().Elem("rect", rectAttrs("stroke-dasharray", t)...), "doc")
		checkStyle("element", r.SvgPaths[0].Style, w)
		return
	}
	var kv []string
	for _, k := range []int{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16} {
		dc := makeDecl(k, "v"+itoa(k))
		kv = append(kv, dc.name, dc.value)
		dc.apply(&w)
	}
	kv = ordered(nd.Choice("order", 8), kv)
	d := root()
	if nd.Choice("style", 2) == 0 {
		d.Start("g", kv...)
	} else {
		t := ""
		for i := 0; i < len(kv); i += 2 {
			t += kv[i] + ":" + kv[i+1] + ";"
		}
		d.Start("g", "style", t)
	}
	d.Elem("rect", rectAttrs()...).End().Elem("rect", rectAttrs()...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "paths")
	checkStyle("element", r.SvgPaths[0].Style, w)
	checkStyle("next element", r.SvgPaths[1].Style, defaultStyle())
}

// Gradients with many stops.
func C24_many() {
	nd.Bound("gradients of 80 stops of which only one of 4 has a colour, with any colour")
	g := svg.Gradient{}
	at := []int{0, 1, 40, 79}[nd.Choice("at", 4)]
	c := svg.NewPlainColor(uint8(nd.Int("r", 0, 255)), uint8(nd.Int("g", 0, 255)), uint8(nd.Int("b", 0, 255)), 255)
	for i := 0; i < 80; i++ {
		s := svg.GradStop{Offset: float64(i) / 80, Opacity: 1}
		if i == at {
			s.StopColor = c
		}
		g.Stops = append(g.Stops, s)
	}
	r, gr, b, al := svg.GetColor(g).RGBA()
	wr, wg, wb, wa := c.RGBA()
	nd.Assert(nd.And(nd.EqI(int64(r), int64(wr)), nd.EqI(int64(gr), int64(wg)), nd.EqI(int64(b), int64(wb)), nd.EqI(int64(al), int64(wa))), "the first colour")
}
