package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

// A path printed and parsed again is the same path.
func C16_roundtrip() {
	nd.Bound("a move, up to 3 (thorough: 4) further operations of any kind (a close is followed by a move or nothing), coordinates any 26.6 number in [-65536,65536], all x of one sign and all y of one sign")
	signs := nd.Choice("signs", 4) // ++ -- +- -+
	co := func(name string, neg bool) fixed.Int26_6 {
		if neg {
			return fixed.Int26_6(nd.Int(name, -1<<22, -1))
		}
		return fixed.Int26_6(nd.Int(name, 0, 1<<22))
	}
	pt := func() fixed.Point26_6 {
		return fixed.Point26_6{X: co("x", signs&1 != 0), Y: co("y", signs == 1 || signs == 2)}
	}
	n := 3
	if nd.Thorough() {
		n = 4
	}
	p := svg.Path{svg.OpMoveTo(pt())}
	open := true
	for i := 0; i < n; i++ {
		k := nd.Choice("op", 6)
		if k == 5 {
			break
		}
		nd.Assume(open || k == 0)
		switch k {
		case 0:
			p.Start(pt())
			open = true
		case 1:
			p.Line(pt())
		case 2:
			p.QuadBezier(pt(), pt())
		case 3:
			p.CubeBezier(pt(), pt(), pt())
		case 4:
			p.Stop(true)
			open = false
		}
	}
	t := p.ToSVGPath()
	if nd.Choice("method", 2) == 1 {
		t = p.String()
	}
	s, err := svg.Parse(nd.NewDoc().Start("svg").Elem("path", "d", t).Done(), svg.StrictErrorMode)
	nd.Assert(err == nil, "accepted")
	nd.Assert(len(s.SvgPaths) == 1, "one path")
	q := s.SvgPaths[0].Path
	nd.Observe("n", len(q))
	nd.Assert(len(q) == len(p), "number of operations")
	for i := range p {
		k1, a := opParts(p[i])
		k2, b := opParts(q[i])
		nd.Assert(k1 == k2, "kind of operation")
		for j := range a {
			nd.Observe("x", int64(b[j].X))
			nd.Assert(nd.NearI(int64(a[j].X), int64(b[j].X), 1), "x coordinate")
			nd.Assert(nd.NearI(int64(a[j].Y), int64(b[j].Y), 1), "y coordinate")
		}
	}
}
