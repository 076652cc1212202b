package h

import (
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// The harnesses of this file have values of every magnitude.

// Angles of several turns and beyond a right angle, and large arguments.
func C09_angles() {
	nd.Bound("rotate (with and without a centre in [-1000,1000]), skewX and skewY by 22 angles from -1000 to 1000 degrees, alone, or after or before a translation; translate, scale and matrix alone with arguments in [-100000,100000]")
	k := nd.Choice("fn", numTransforms)
	t, m := "", [6]float64{}
	if k < 4 || k == 8 {
		t, m = makeTransform(k, "v", 100000, ",")
	} else {
		as := []float64{0, 1, 30, 45, 60, 89, 91, 100, 135, 170, 180, 200, 225, 300, 359, 360, 405, 500, 719, 720, 1000, 0.125}
		a := as[nd.Choice("angle", len(as))]
		if nd.Choice("negative", 2) == 1 {
			a = -a
		}
		s, c := math.Sin(a*math.Pi/180), math.Cos(a*math.Pi/180)
		n := of(a).s
		switch k {
		case 4:
			t, m = "rotate("+n+")", [6]float64{c, s, -s, c, 0, 0}
		case 5:
			x, y := numIn("x", -1000, 1000), numIn("y", -1000, 1000)
			t = "rotate(" + n + " " + x.s + " " + y.s + ")"
			m = [6]float64{c, s, -s, c, x.v - c*x.v + s*y.v, y.v - s*x.v - c*y.v}
		case 6:
			t, m = "skewX("+n+")", [6]float64{1, 0, s / c, 1, 0, 0}
		default:
			t, m = "skewY("+n+")", [6]float64{1, s / c, 0, 1, 0, 0}
		}
		switch nd.Choice("with", 3) {
		case 1:
			x, y := numIn("tx", -1000, 1000), numIn("ty", -1000, 1000)
			t, m = "translate("+x.s+","+y.s+")"+t, mul([6]float64{1, 0, 0, 1, x.v, y.v}, m)
		case 2:
			x, y := numIn("tx", -1000, 1000), numIn("ty", -1000, 1000)
			t, m = t+"translate("+x.s+","+y.s+")", mul(m, [6]float64{1, 0, 0, 1, x.v, y.v})
		}
	}
	r := parseOK(root().Elem("rect", rectAttrs("transform", t)...).Elem("rect", rectAttrs()...), "doc")
	nd.Assert(len(r.SvgPaths) == 2, "paths")
	checkMatrix("element", r.SvgPaths[0].Style.Transform, m, 1e-6)
	checkMatrix("plain element", r.SvgPaths[1].Style.Transform, [6]float64{1, 0, 0, 1, 0, 0}, 0)
}

// Targets and viewBoxes of every size.
func C17_wide() {
	nd.Bound("viewBox origin in [-100000,100000] and size any of 9 magnitudes from 1/1000 to 1000000 (each axis its own, either sign), target any rectangle with values in [-100000,100000]")
	sizes := []float64{0.001, 0.25, 1, -1, 24, -100, 2000, 40000, 1e6}
	s := &svg.Svg{}
	s.ViewBox = svg.Bounds{X: nd.Float("vx", -1e5, 1e5), Y: nd.Float("vy", -1e5, 1e5), W: sizes[nd.Choice("vw", 9)], H: sizes[nd.Choice("vh", 9)]}
	v := s.ViewBox
	x, y, w, h := nd.Float("x", -1e5, 1e5), nd.Float("y", -1e5, 1e5), nd.Float("w", -1e5, 1e5), nd.Float("h", -1e5, 1e5)
	o := renderer.Options(s, renderer.Target(x, y, w, h))
	m := o.Target
	// entry by entry, as the matrix is exact even where a point at this distance would not be
	nd.Observe("A", m.A)
	sx, sy := w/v.W, h/v.H
	nd.Assert(nd.Near(m.A*v.W, w, 1e-4), "width")
	nd.Assert(nd.Near(m.D*v.H, h, 1e-4), "height")
	nd.Assert(nd.And(m.B == 0, m.C == 0), "axes")
	nd.Assert(nd.Near(m.E, x-v.X*sx, 0.02), "x")
	nd.Assert(nd.Near(m.F, y-v.Y*sy, 0.02), "y")
	nd.Assert(s.ViewBox == v, "viewBox unchanged")
}

// Many options.
func C17_many() {
	nd.Bound("40 options in an order in which each kind follows itself and the other, the last of each kind symbolic at one of 5 places")
	s := &svg.Svg{ViewBox: svg.Bounds{X: 2, Y: 1, W: 8, H: 4}}
	lastOp := []int{0, 3, 20, 38, 39}[nd.Choice("opacity", 5)]
	lastT := []int{1, 4, 21, 37, 39}[nd.Choice("target", 5)]
	nd.Assume(lastOp != lastT)
	op := 1.0
	m := [6]float64{1, 0, 0, 1, 0, 0}
	var opts []renderer.RenderOption
	for i := 0; i < 40; i++ {
		t := i%3 != 0
		if i == lastOp {
			t = false
		} else if i == lastT {
			t = true
		} else if i > lastOp && i > lastT {
			break
		} else if i > lastOp {
			t = true
		} else if i > lastT {
			t = false
		}
		if !t {
			op = float64(i) / 64
			if i == lastOp {
				op = nd.Float("opacity", -2, 2)
			}
			opts = append(opts, renderer.Opacity(op))
			continue
		}
		x, y, w, h := float64(i), -float64(i), float64(i*8), float64(i*4)
		if i == lastT {
			x, y, w, h = nd.Float("x", -1000, 1000), nd.Float("y", -1000, 1000), nd.Float("w", -1000, 1000), nd.Float("h", -1000, 1000)
		}
		m = [6]float64{w / 8, 0, 0, h / 4, x - w/4, y - h/4}
		opts = append(opts, renderer.Target(x, y, w, h))
	}
	o := renderer.Options(s, opts...)
	nd.Assert(nd.Near(o.Opacity, op, 0), "opacity")
	checkMatrix("target", o.Target, m, 1e-6)
}

// Arcs of every size, shape and turn.
func C04_wide() {
	nd.Bound("arcs with radii in 9 ratios, 13 rotations (quick: 2 of them for each shape), 17 chords (exactly as far as the radii reach among them), all flags, absolute or relative (quick: one of both), each at one (thorough: every one) of 6 scales from 0.05 to 5000; the position symbolic within +-1000, or concrete where the radii reach just as far as the chord")
	radii := [][2]float64{{1, 1}, {2, 1}, {1, 2}, {3, 0.5}, {-1, 3}, {0.5, -0.5}, {10, 9}, {0.75, 1}, {1, 40}}
	rots := []float64{0, 30, -60, 200, 90, 45, 10, 130, 180, 270, 359, 725, -89.5}
	chords := [][2]float64{{1.25, 0}, {0.25, -1}, {-1, 0.75}, {-0.25, -0.5}, {0.5, 1.5}, {6, -7}, {0, 1.25}, {0, -1.25}, {-0.75, 0}, {1.5, 1.25}, {-1.75, 0.25}, {2.25, 0}, {-0.01, 0.02}, {0, 2.25}, {2, 0}, {0, -2}, {0.5, 4}}
	i, j, l, fl := nd.Choice("radii", len(radii)), nd.Choice("rotation", some(2, len(rots))), nd.Choice("chord", len(chords)), nd.Choice("flags", 4)
	rel := (i + j + l + fl/2) % 2
	if nd.Thorough() {
		rel = nd.Choice("relative", 2)
	} else {
		j = (3*j + i + 5*l) % len(rots)
	}
	a := unitArc{radii[i][0], radii[i][1], rots[j], fl&1 != 0, fl&2 != 0, chords[l][0], chords[l][1]}
	if a.dx == -0.01 && rel == 1 {
		rel = 0
	}
	ks := []float64{400, 3, 20, 5000, 0.5, 0.05}
	k := ks[(i+2*j+3*l+fl+rel)%6]
	if nd.Thorough() {
		k = ks[nd.Choice("scale", 6)]
	}
	sin, cos := math.Sincos(a.rot * math.Pi / 180)
	mx, my := (cos*a.dx+sin*a.dy)/2/a.rx, (cos*a.dy-sin*a.dx)/2/a.ry
	x, y := of(15.5), of(-40)
	if reach := mx*mx + my*my; reach < 0.95 || reach > 1.05 {
		x, y = numIn("x", -1000, 1000), numIn("y", -1000, 1000)
	}
	data := "M" + x.s + "," + y.s
	if rel == 1 {
		data += "a" + a.text(k, 0, 0)
	} else {
		data += "A" + a.text(k, x.v, y.v)
	}
	p := parseOK(root().Elem("path", "d", data), "doc").SvgPaths
	nd.Assert(len(p) == 1, "path")
	checkArc("arc", p[0].Path[1:], a, k, x.v, y.v)
}
