// Package h holds the harnesses: each function is one property (part) stated over the
// exported API, run symbolically by the engine and natively for replay.
package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"

	"golang.org/x/image/math/fixed"
)

const px = 1.0 / 64 // the resolution of path coordinates

// coord is a coordinate and its text.
type coord struct {
	v float64
	s string
}

// num is any coordinate in [-100000,100000].
func num(name string) coord { return numIn(name, -100000, 100000) }

func numIn(name string, lo, hi float64) coord {
	v := nd.Float(name, lo, hi)
	return coord{v, nd.Fmt(v, 0)}
}

// zop is an expected path operation: M, L, Q, C with absolute points, or Z.
type zop struct {
	k byte
	p []float64
}

func nearFx(p fixed.Int26_6, want, tol float64) bool {
	return nd.Near(float64(p)/64, want, tol)
}

// checkPath asserts that the path is exactly the wanted operations, each coordinate within tol.
func checkPath(what string, p svg.Path, want []zop, tol float64) {
	nd.Observe(what+" ops", len(p))
	nd.Assert(len(p) == len(want), what+": number of operations")
	for i, w := range want {
		k, pts := opParts(p[i])
		nd.Assert(k == w.k, what+": kind of operation "+string('0'+byte(i%10)))
		nd.Assert(len(pts)*2 == len(w.p), what+": points of an operation")
		for j, q := range pts {
			nd.Observe("x", int64(q.X))
			nd.Observe("y", int64(q.Y))
			nd.Assert(nearFx(q.X, w.p[2*j], tol), what+": x coordinate")
			nd.Assert(nearFx(q.Y, w.p[2*j+1], tol), what+": y coordinate")
		}
	}
}

func opParts(o svg.Operation) (byte, []fixed.Point26_6) {
	switch t := o.(type) {
	case svg.OpMoveTo:
		return 'M', []fixed.Point26_6{{X: t.X, Y: t.Y}}
	case svg.OpLineTo:
		return 'L', []fixed.Point26_6{{X: t.X, Y: t.Y}}
	case svg.OpQuadTo:
		return 'Q', []fixed.Point26_6{t[0], t[1]}
	case svg.OpCubicTo:
		return 'C', []fixed.Point26_6{t[0], t[1], t[2]}
	case svg.OpClose:
		return 'Z', nil
	}
	return '?', nil
}

// root starts a document with a viewBox whose normalised diagonal is 100.
func root() *nd.Doc { return nd.NewDoc().Start("svg", "viewBox", "0 0 20 140") }

// parseOK parses a complete document that must be accepted.
func parseOK(d *nd.Doc, what string) *svg.Svg {
	s, err := svg.Parse(d.Done(), svg.StrictErrorMode)
	nd.Assert(err == nil, what+": accepted")
	nd.Assert(s != nil, what+": result")
	return s
}

func itoa(i int) string { return nd.FmtInt(int64(i)) }
