package h

import (
	"math"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// unitArc is an arc in its own units: it starts at the origin.
type unitArc struct {
	rx, ry, rot  float64 // rotation in degrees
	large, sweep bool
	dx, dy       float64 // endpoint
}

// solved is its centre parameterisation by the formulas of the SVG specification (F.6.5, F.6.6).
type solved struct{ cx, cy, rx, ry, cos, sin, t0, dt float64 }

func (a unitArc) solve() solved {
	rx, ry := math.Abs(a.rx), math.Abs(a.ry)
	sin, cos := math.Sincos(a.rot * math.Pi / 180)
	// start point relative to the middle of the chord, in the ellipse's own axes
	mx, my := -a.dx/2, -a.dy/2
	x1, y1 := cos*mx+sin*my, -sin*mx+cos*my
	l := x1*x1/(rx*rx) + y1*y1/(ry*ry)
	f := 0.0
	if l > 1 {
		rx, ry = rx*math.Sqrt(l), ry*math.Sqrt(l)
	} else {
		f = math.Sqrt((1 - l) / l)
	}
	if a.large == a.sweep {
		f = -f
	}
	ex, ey := f*rx*y1/ry, -f*ry*x1/rx
	t0 := math.Atan2((y1-ey)/ry, (x1-ex)/rx)
	dt := math.Atan2((-y1-ey)/ry, (-x1-ex)/rx) - t0
	if a.sweep {
		for dt < 1e-9 {
			dt += 2 * math.Pi
		}
	} else {
		for dt > -1e-9 {
			dt -= 2 * math.Pi
		}
	}
	return solved{cos*ex - sin*ey + a.dx/2, sin*ex + cos*ey + a.dy/2, rx, ry, cos, sin, t0, dt}
}

func (s solved) at(f float64) fpt {
	sin, cos := math.Sincos(s.t0 + s.dt*f)
	return fpt{s.cx + s.cos*s.rx*cos - s.sin*s.ry*sin, s.cy + s.sin*s.rx*cos + s.cos*s.ry*sin}
}

func (s solved) tangent(f, k float64) fpt {
	sin, cos := math.Sincos(s.t0 + s.dt*f)
	return fpt{k * (-s.cos*s.rx*sin - s.sin*s.ry*cos), k * (-s.sin*s.rx*sin + s.cos*s.ry*cos)}
}

// checkArc asserts that the operations are the arc, scaled by k and moved to x, y, in pieces of equal angle.
func checkArc(what string, cs []svg.Operation, a unitArc, k, x, y float64) {
	s := a.solve()
	n := float64(len(cs))
	nd.Assert(len(cs) > 0 && math.Abs(s.dt)/n < 1.6, what+": enough curves")
	alpha := math.Tan(s.dt/n/4) * 4 / 3
	ctl := 0.001 * (s.rx + s.ry)
	for i, o := range cs {
		kind, p := opParts(o)
		nd.Assert(kind == 'C', what+": curves only")
		f0, f1 := float64(i)/n, float64(i+1)/n
		b, e := s.at(f0), s.at(f1)
		db, de := s.tangent(f0, alpha), s.tangent(f1, alpha)
		if i == len(cs)-1 {
			e = fpt{a.dx, a.dy}
		}
		to := func(q fpt) fpt { return fpt{x + k*q.x, y + k*q.y} }
		nd.Assert(nearPt(p[2], to(e), 2*px, 2*px), what+": point of the arc")
		nd.Assert(nearPt(p[0], to(fpt{b.x + db.x, b.y + db.y}), 2*px+ctl*k, 2*px+ctl*k), what+": first control point")
		nd.Assert(nearPt(p[1], to(fpt{e.x - de.x, e.y - de.y}), 2*px+ctl*k, 2*px+ctl*k), what+": second control point")
	}
}

// anyScale is in one of two ranges, because rounding errors are bounded relative to the largest value.
func anyScale() float64 {
	if nd.Thorough() && nd.Choice("small", 2) == 1 {
		return nd.Float("scale", 1, 8)
	}
	return nd.Float("scale", 8, 60)
}

func some(quick, thorough int) int {
	if nd.Thorough() {
		return thorough
	}
	return quick
}

func flag(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// text is the arguments of the arc command, with the endpoint relative to ox, oy.
func (a unitArc) text(k, ox, oy float64) string {
	return of(k*a.rx).s + " " + of(k*a.ry).s + " " + nd.Fmt(a.rot, 0) + " " + flag(a.large) + "," + flag(a.sweep) + " " + of(ox+k*a.dx).s + " " + of(oy+k*a.dy).s
}

func chooseArc() unitArc {
	radii := [][2]float64{{1, 1}, {2, 1}, {1, 2}, {3, 0.5}}
	rots := []float64{0, 30, -60, 200}
	chords := [][2]float64{{1.25, 0}, {0.25, -1}, {-1, 0.75}, {-0.25, -0.5}, {0.5, 1.5}, {6, -7}}
	if nd.Thorough() {
		radii = append(radii, [][2]float64{{-1, 3}, {0.5, -0.5}, {10, 9}, {0.75, 1}}...)
		rots = append(rots, []float64{90, 45, 10, 130, 180, 270, 359, 725, -89.5}...)
		chords = append(chords, [][2]float64{{0, 1.25}, {0, -1.25}, {-0.75, 0}, {1.5, 1.25}, {-1.75, 0.25}, {2.25, 0}, {-0.01, 0.02}, {0, 2.25}}...)
	}
	r := radii[nd.Choice("radii", len(radii))]
	c := chords[nd.Choice("chord", len(chords))]
	fl := nd.Choice("flags", 4)
	rot := rots[nd.Choice("rotation", len(rots))]
	return unitArc{r[0], r[1], rot, fl&1 != 0, fl&2 != 0, c[0], c[1]}
}

// One arc: 4 radii, 4 rotations, 6 chords and all flags, at every scale and position.
func C04_arc() {
	nd.Bound("arcs with radii in the ratios 1:1, 2:1, 1:2, 6:1 (thorough: 8), rotations 0, 30, -60, 200 degrees (thorough: 13), 6 chords (thorough: 14; inside and beyond the reach of the radii), all flags, absolute or relative (quick: one of both for each form); scaled by any factor in [8,60] (thorough: [1,60]) and moved anywhere within +-1000")
	a := chooseArc()
	k, x, y := anyScale(), numIn("x", -1000, 1000), numIn("y", -1000, 1000)
	data := "M" + x.s + "," + y.s
	rel := (int(a.rx+4*a.dx+8*a.dy)+16)%2 == 1 // half of them
	if nd.Thorough() {
		rel = nd.Choice("relative", 2) == 1
	}
	if rel != a.large {
		data += "a" + a.text(k, 0, 0)
	} else {
		data += "A" + a.text(k, x.v, y.v)
	}
	p := parseOK(root().Elem("path", "d", data), "doc").SvgPaths
	nd.Assert(len(p) == 1, "path")
	kind, s := opParts(p[0].Path[0])
	nd.Assert(kind == 'M', "starts with a move")
	nd.Assert(nearPt(s[0], fpt{x.v, y.v}, 2*px, 2*px), "start")
	checkArc("arc", p[0].Path[1:], a, k, x.v, y.v)
}

// Several arcs in one command, and what follows.
func C04_several() {
	nd.Bound("two or three different arcs (3 of 4, thorough: 4 of 5 forms each) in one command, absolute or relative, after a relative line; followed by a relative line; any scale in [8,60] (thorough: [1,60]) and position within +-1000")
	forms := []unitArc{{1, 1, 0, false, true, 1, 0.5}, {2, 1, 30, true, false, -1, 0.75}, {1, 3, -60, true, true, 0.5, -1}, {4, 3, 45, false, false, 3, 4}, {1, 2, 90, false, true, -0.25, 0.5}}
	k, x, y := anyScale(), numIn("x", -1000, 1000), numIn("y", -1000, 1000)
	n := 2 + nd.Choice("arcs", 2)
	rel := nd.Choice("relative", 2) == 1
	cmd := "A"
	if rel {
		cmd = "a"
	}
	d := root()
	start := "M" + x.s + " " + y.s + "l3 4"
	cx, cy := 0.0, 0.0 // of the arcs, unscaled, from x+3, y+4
	data := start + cmd
	d.Elem("path", "d", start)
	var as []unitArc
	for i := 0; i < n; i++ {
		a := forms[nd.Choice("form", some(3, 4))+i%2]
		as = append(as, a)
		ox, oy := x.v+3+k*cx, y.v+4+k*cy
		if rel {
			ox, oy = 0, 0
		}
		data += " " + a.text(k, ox, oy)
		cx, cy = cx+a.dx, cy+a.dy
		d.Elem("path", "d", data) // the first arcs alone
	}
	d.Elem("path", "d", data+"l5 6")
	ps := parseOK(d, "doc").SvgPaths
	nd.Assert(len(ps) == n+2, "paths")
	cx, cy = 0, 0
	for i, a := range as {
		m := len(ps[i].Path)
		nd.Assert(len(ps[i+1].Path) > m, "an arc adds curves")
		checkArc("arc "+itoa(i), ps[i+1].Path[m:], a, k, x.v+3+k*cx, y.v+4+k*cy)
		cx, cy = cx+a.dx, cy+a.dy
		samePathTol("the arcs before", ps[i+1].Path[:m], ps[i].Path)
	}
	last := ps[n+1].Path
	m := len(ps[n].Path)
	nd.Assert(len(last) == m+1, "one line after the arcs")
	kind, p := opParts(last[m])
	nd.Assert(kind == 'L', "a line after the arcs")
	nd.Assert(nearPt(p[0], fpt{x.v + 8 + k*cx, y.v + 10 + k*cy}, 2*px, 2*px), "a line from the end of the last arc")
}

// An arc between other commands: it starts where they end, and they go on where it ends.
func C04_between() {
	nd.Bound("one arc (3 forms, absolute or relative), after M and one command (any letter), all with concrete coordinates, then one command (any letter), or two after a close, with symbolic coordinates in [-100,100]")
	forms := []unitArc{{1, 1, 0, false, true, 1, 0.5}, {2, 1, 30, true, false, -1, 0.75}, {4, 3, 45, false, false, 3, 4}}
	a := forms[nd.Choice("form", 3)]
	const k = 16.0
	rel := nd.Choice("relative", 2) == 1
	s := &pathSpec{}
	count := 0
	cmd := func(c byte, name string) string {
		args := make([]float64, argc(c))
		t := string(c)
		for i := range args {
			count++
			n := of(float64(count*count)*1.25 - 10)
			if name == "after" {
				n = numIn(name, -100, 100)
			}
			args[i] = n.v
			t += " " + n.s
		}
		s.one(c, args)
		return t
	}
	d := cmd('M', "start") + cmd(cmdLetters[nd.Choice("before", len(cmdLetters))], "b")
	s.begin() // a new subpath after a close
	x, y := s.x, s.y
	if rel {
		d += "a" + a.text(k, 0, 0)
	} else {
		d += "A" + a.text(k, x, y)
	}
	before := s.ops
	s.ops = nil
	s.x, s.y, s.prev = x+k*a.dx, y+k*a.dy, 'A'
	after := cmdLetters[nd.Choice("after", len(cmdLetters))]
	t := cmd(after, "after")
	if after == 'Z' || after == 'z' {
		t += cmd("lLTm"[nd.Choice("then", 4)], "after")
	}
	ps := parseOK(root().Elem("path", "d", d).Elem("path", "d", d+t), "doc").SvgPaths
	nd.Assert(len(ps) == 2, "paths")
	n, p := len(before), ps[0].Path
	nd.Assert(len(p) > n, "an arc adds curves")
	checkPath("before", p[:n], before, 2*px)
	checkArc("arc", p[n:], a, k, x, y)
	q := ps[1].Path
	nd.Assert(len(q) >= len(p), "the arc is still there")
	samePathTol("the arc", q[:len(p)], p)
	checkPath("after", q[len(p):], s.ops, 2*px)
}

// samePathTol asserts that two paths are the same operations.
func samePathTol(what string, a, b svg.Path) {
	nd.Assert(len(a) == len(b), what+": operations")
	for i := range a {
		ka, pa := opParts(a[i])
		kb, pb := opParts(b[i])
		nd.Assert(ka == kb && len(pa) == len(pb), what+": operation")
		for j := range pa {
			nd.Assert(nd.And(nd.NearI(int64(pa[j].X), int64(pb[j].X), 0), nd.NearI(int64(pa[j].Y), int64(pb[j].Y), 0)), what+": point")
		}
	}
}

// Arcs that are lines or nothing.
func C04_degenerate() {
	nd.Bound("zero radii (either or both) and coincident endpoints, in one command with a line-like or regular neighbour; radii, rotation, endpoints symbolic within +-100000 (coordinates on a 1/8 px grid for relative positions), all flags; absolute or relative")
	x, y, ex, ey, r := num("x"), num("y"), num("ex"), num("ey"), numIn("r", 0.5, 100000)
	rot := numIn("rot", -400, 400)
	fl := nd.Choice("flags", 4)
	flags := rot.s + " " + itoa(fl/2) + " " + itoa(fl%2) + " "
	rel := nd.Choice("relative", 2) == 1
	ox, oy := 0.0, 0.0
	cmd := "A"
	if rel {
		ox, oy, cmd = x.v, y.v, "a"
	} else {
		nd.Assume(nd.Or(ex.v-x.v > 0.1, x.v-ex.v > 0.1))
	}
	if rel {
		nd.Assume(nd.Or(ex.v > 0.1, ex.v < -0.1))
	}
	data := "M" + x.s + " " + y.s + cmd
	var want []zop
	move := zop{'M', []float64{x.v, y.v}}
	end := zop{'L', []float64{ox + ex.v, oy + ey.v}}
	switch nd.Choice("kind", 5) {
	case 0:
		data += "0 " + r.s + " " + flags + ex.s + " " + ey.s
		want = []zop{move, end}
	case 1:
		data += r.s + " 0 " + flags + ex.s + " " + ey.s
		want = []zop{move, end}
	case 2:
		data += "0 0 " + flags + ex.s + " " + ey.s
		want = []zop{move, end}
	case 3: // nowhere, twice
		if rel {
			data += r.s + " 5 " + flags + "0 0 " + r.s + " 5 " + flags + "0 0"
		} else {
			data += r.s + " 5 " + flags + x.s + " " + y.s + " 7 " + r.s + " " + flags + x.s + " " + y.s
		}
		want = []zop{move}
		ex, ey = coord{0, "0"}, coord{0, "0"}
		if !rel {
			ex, ey = x, y
		}
	case 4: // a line, then nowhere
		data += "0 5 " + flags + ex.s + " " + ey.s + " "
		if rel {
			data += r.s + " 5 " + flags + "0 0"
		} else {
			data += r.s + " 5 " + flags + ex.s + " " + ey.s
		}
		want = []zop{move, end}
	}
	data += "l1 2"
	want = append(want, zop{'L', []float64{ox + ex.v + 1, oy + ey.v + 2}})
	p := parseOK(root().Elem("path", "d", data), "doc").SvgPaths
	nd.Assert(len(p) == 1, "path")
	checkPath("path", p[0].Path, want, 2*px)
}
