package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

func anyPoint(n string) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(nd.Int(n+".x", -1<<31, 1<<31-1)), Y: fixed.Int26_6(nd.Int(n+".y", -1<<31, 1<<31-1))}
}

func samePoint(what string, g, w fixed.Point26_6) {
	nd.Assert(nd.And(nd.EqI(int64(g.X), int64(w.X)), nd.EqI(int64(g.Y), int64(w.Y))), what)
}

type builtOp struct {
	k byte
	p []fixed.Point26_6
}

// build makes one call and notes what it means.
func build(p *svg.Path, want []builtOp, k int, n string) []builtOp {
	switch k {
	case 0:
		a := anyPoint(n)
		p.Start(a)
		return append(want, builtOp{'M', []fixed.Point26_6{a}})
	case 1:
		a := anyPoint(n)
		p.Line(a)
		return append(want, builtOp{'L', []fixed.Point26_6{a}})
	case 2:
		a, b := anyPoint(n+"a"), anyPoint(n+"b")
		p.QuadBezier(a, b)
		return append(want, builtOp{'Q', []fixed.Point26_6{a, b}})
	case 3:
		a, b, c := anyPoint(n+"a"), anyPoint(n+"b"), anyPoint(n+"c")
		p.CubeBezier(a, b, c)
		return append(want, builtOp{'C', []fixed.Point26_6{a, b, c}})
	case 4:
		p.Stop(true)
		return append(want, builtOp{'Z', nil})
	case 5:
		p.Stop(false)
		return want
	}
	p.Clear()
	return nil
}

func checkBuilt(what string, p svg.Path, want []builtOp) {
	nd.Observe(what+" ops", len(p))
	nd.Assert(len(p) == len(want), what+": number of operations")
	for i, w := range want {
		k, pts := opParts(p[i])
		nd.Assert(k == w.k, what+": kind of operation")
		nd.Assert(len(pts) == len(w.p), what+": points of an operation")
		for j := range pts {
			nd.Observe("x", int64(pts[j].X))
			samePoint(what+": a point", pts[j], w.p[j])
		}
	}
}

// Every sequence of calls.
func C27_build() {
	nd.Bound("every sequence of 4 (thorough: 5) calls of Start, Line, QuadBezier, CubeBezier, Stop(true), Stop(false) and Clear with any points of 32 bits; the path checked after every call, with another path built in turns")
	n := 4
	if nd.Thorough() {
		n = 5
	}
	var p, q svg.Path
	var want, other []builtOp
	for i := 0; i < n; i++ {
		want = build(&p, want, nd.Choice("call", 7), "p"+itoa(i))
		other = build(&q, other, i%5, "q"+itoa(i))
		checkBuilt("path", p, want)
	}
	checkBuilt("path", p, want)
	checkBuilt("other path", q, other)
}

// Long paths.
func C27_many() {
	nd.Bound("200 calls of every kind in one of 3 orders, with or without a Clear after 150; some points symbolic")
	var p svg.Path
	var want []builtOp
	step := []int{1, 2, 3}[nd.Choice("order", 3)]
	clear := nd.Choice("clear", 2) == 1
	for i := 0; i < 200; i++ {
		if i == 150 && clear {
			want = build(&p, want, 6, "")
			continue
		}
		k := i * step % 5
		if i%31 == 7 {
			want = build(&p, want, i%6, "s"+itoa(i))
			continue
		}
		a := fixed.Point26_6{X: fixed.Int26_6(i*64 + 3), Y: fixed.Int26_6(-i * 1000)}
		switch k {
		case 0:
			p.Start(a)
			want = append(want, builtOp{'M', []fixed.Point26_6{a}})
		case 1:
			p.Line(a)
			want = append(want, builtOp{'L', []fixed.Point26_6{a}})
		case 2:
			b := fixed.Point26_6{X: a.Y, Y: a.X}
			p.QuadBezier(a, b)
			want = append(want, builtOp{'Q', []fixed.Point26_6{a, b}})
		case 3:
			b, c := fixed.Point26_6{X: a.Y, Y: a.X}, fixed.Point26_6{X: 5, Y: a.X}
			p.CubeBezier(a, b, c)
			want = append(want, builtOp{'C', []fixed.Point26_6{a, b, c}})
		default:
			p.Stop(i%2 == 0)
			if i%2 == 0 {
				want = append(want, builtOp{'Z', nil})
			}
		}
	}
	checkBuilt("path", p, want)
}

// The names of the modes, plain colours and the scale of line widths.
func C27_names() {
	nd.Bound("every join, cap and gap mode and every other 8-bit value; plain colours of any components; matrices with entries in [-1000000,1000000]")
	switch nd.Choice("what", 5) {
	case 0:
		v := nd.Int("mode", 0, 255)
		want := "<unknown JoinMode>"
		for i, n := range []string{"Arc", "Round", "Bevel", "Miter", "MiterClip", "ArcClip"} {
			if v == int64(i) {
				want = n
			}
		}
		nd.Assert(svg.JoinMode(v).String() == want, "name of a join mode")
	case 1:
		v := nd.Int("mode", 0, 255)
		want := "<unknown CapMode>"
		for i, n := range []string{"NilCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap"} {
			if v == int64(i) {
				want = n
			}
		}
		nd.Assert(svg.CapMode(v).String() == want, "name of a cap mode")
	case 2:
		v := nd.Int("mode", 0, 255)
		want := "<unknown GapMode>"
		for i, n := range []string{"NilGap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap"} {
			if v == int64(i) {
				want = n
			}
		}
		nd.Assert(svg.GapMode(v).String() == want, "name of a gap mode")
	case 3:
		r, g, b, a := nd.Int("r", 0, 255), nd.Int("g", 0, 255), nd.Int("b", 0, 255), nd.Int("a", 0, 255)
		c := svg.NewPlainColor(uint8(r), uint8(g), uint8(b), uint8(a))
		nd.Assert(nd.And(nd.EqI(int64(c.R), r), nd.EqI(int64(c.G), g), nd.EqI(int64(c.B), b), nd.EqI(int64(c.A), a)), "components")
	default:
		f := func(n string) float64 { return nd.Float(n, -1e6, 1e6) }
		m := svg.Matrix2D{A: f("a"), B: f("b"), C: f("c"), D: f("d"), E: f("e"), F: f("f")}
		nd.Observe("scale", m.LineWidthScale())
		nd.Assert(nd.Near(m.LineWidthScale(), (m.A+m.D)/2, 1e-6), "scale of line widths")
	}
}
