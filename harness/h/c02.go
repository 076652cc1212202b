package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// pathSpec interprets path commands as the SVG specification defines them.
type pathSpec struct {
	ops            []zop
	x, y           float64 // current point
	sx, sy         float64 // start of the subpath
	cx, cy         float64 // last control point
	prev           byte    // 'C' or 'Q' after a curve of that family
	open           bool    // a subpath is open
	closed, broken bool
}

func (s *pathSpec) begin() {
	if !s.open {
		s.ops = append(s.ops, zop{'M', []float64{s.x, s.y}})
		s.open = true
	}
}

// one applies one command with one argument group (move: the first group).
func (s *pathSpec) one(k byte, a []float64) {
	rel := k >= 'a'
	ox, oy := 0.0, 0.0
	if rel {
		k -= 32
		ox, oy = s.x, s.y
	}
	switch k {
	case 'M':
		s.x, s.y = a[0]+ox, a[1]+oy
		s.sx, s.sy = s.x, s.y
		s.open = true
		s.ops = append(s.ops, zop{'M', []float64{s.x, s.y}})
		s.prev = 'M'
	case 'Z':
		if s.open {
			s.ops = append(s.ops, zop{'Z', nil})
			s.x, s.y = s.sx, s.sy
			s.open = false
		}
		s.prev = 'Z'
	case 'L':
		s.begin()
		s.line(a[0]+ox, a[1]+oy)
	case 'H':
		s.begin()
		s.line(a[0]+ox, s.y)
	case 'V':
		s.begin()
		s.line(s.x, a[0]+oy)
	case 'Q':
		s.begin()
		s.quad(a[0]+ox, a[1]+oy, a[2]+ox, a[3]+oy)
	case 'T':
		s.begin()
		cx, cy := s.x, s.y
		if s.prev == 'Q' {
			cx, cy = 2*s.x-s.cx, 2*s.y-s.cy
		}
		s.quad(cx, cy, a[0]+ox, a[1]+oy)
	case 'C':
		s.begin()
		s.cube(a[0]+ox, a[1]+oy, a[2]+ox, a[3]+oy, a[4]+ox, a[5]+oy)
	case 'S':
		s.begin()
		cx, cy := s.x, s.y
		if s.prev == 'C' {
			cx, cy = 2*s.x-s.cx, 2*s.y-s.cy
		}
		s.cube(cx, cy, a[0]+ox, a[1]+oy, a[2]+ox, a[3]+oy)
	}
}

func (s *pathSpec) line(x, y float64) {
	s.ops = append(s.ops, zop{'L', []float64{x, y}})
	s.x, s.y, s.prev = x, y, 'L'
}

func (s *pathSpec) quad(cx, cy, x, y float64) {
	s.ops = append(s.ops, zop{'Q', []float64{cx, cy, x, y}})
	s.cx, s.cy, s.x, s.y, s.prev = cx, cy, x, y, 'Q'
}

func (s *pathSpec) cube(c1, d1, c2, d2, x, y float64) {
	s.ops = append(s.ops, zop{'C', []float64{c1, d1, c2, d2, x, y}})
	s.cx, s.cy, s.x, s.y, s.prev = c2, d2, x, y, 'C'
}

const cmdLetters = "MmLlHhVvQqTtCcSsZz"

func argc(k byte) int {
	switch k {
	case 'M', 'm', 'L', 'l', 'T', 't':
		return 2
	case 'H', 'h', 'V', 'v':
		return 1
	case 'Q', 'q', 'S', 's':
		return 4
	case 'C', 'c':
		return 6
	}
	return 0
}

// command appends one command with the given number of argument groups to the path data.
func (s *pathSpec) command(k byte, groups int, name string) string {
	n := argc(k)
	text := string(k)
	if n == 0 {
		s.one(k, nil)
		return text
	}
	for g := 0; g < groups; g++ {
		args := make([]float64, n)
		for i := range args {
			c := num(name)
			args[i] = c.v
			text += " " + c.s
		}
		kk := k
		if g > 0 && k == 'M' {
			kk = 'L'
		}
		if g > 0 && k == 'm' {
			kk = 'l'
		}
		s.one(kk, args)
	}
	return text
}

func checkPathData(d string, s *pathSpec) {
	doc := root().Elem("path", "d", d)
	r := parseOK(doc, "path")
	nd.Assert(len(r.SvgPaths) == 1, "path: one path")
	checkPath("path", r.SvgPaths[0].Path, s.ops, px+1e-6)
}

// Two commands after a move, each with one or two argument groups.
func C02_pairs() {
	nd.Bound("M, then two commands of MLHVQTCSZ (absolute or relative), each with 1 or 2 argument groups; coordinates in [-100000,100000]")
	s := &pathSpec{}
	d := s.command('M', 1, "start")
	for i := 0; i < 2; i++ {
		k := cmdLetters[nd.Choice("cmd", len(cmdLetters))]
		g := 1
		if argc(k) > 0 {
			g += nd.Choice("groups", 2)
		}
		d += s.command(k, g, "a")
	}
	nd.Cover("end")
	checkPathData(d, s)
}

// Longer sequences over the commands that change the interpreter's state in different ways.
func C02_triples() {
	nd.Bound("M or m with 1 or 2 groups, then three commands of m (1 or 2 groups) M l Z c S s q T t v H (thorough: any letter), one argument group each; coordinates in [-100000,100000]")
	letters := "mMlZcSsqTtvH"
	if nd.Thorough() {
		letters = cmdLetters
	}
	s := &pathSpec{}
	k := "Mm"[nd.Choice("first", 2)]
	d := s.command(k, 1+nd.Choice("groups", 2), "start")
	for i := 0; i < 3; i++ {
		k := letters[nd.Choice("cmd", len(letters))]
		g := 1
		if k == 'm' {
			g += nd.Choice("groups", 2)
		}
		d += s.command(k, g, "a")
	}
	nd.Cover("end")
	checkPathData(d, s)
}

// A path's data is read from scratch whatever earlier paths left behind, and a close with nothing open adds nothing.
func C02_lead() {
	nd.Bound("a path of M and one command (any letter) left open or closed, then a path whose data starts with no, one or two closes before M or m and one command (any letter); coordinates in [-100000,100000]")
	first, s := &pathSpec{}, &pathSpec{}
	a := first.command('M', 1, "first")
	a += first.command(cmdLetters[nd.Choice("left", len(cmdLetters))], 1, "b")
	d := []string{"", "z", "Z", "z Z"}[nd.Choice("closes", 4)]
	d += s.command("Mm"[nd.Choice("move", 2)], 1, "start")
	d += s.command(cmdLetters[nd.Choice("cmd", len(cmdLetters))], 1, "a")
	r := parseOK(root().Elem("path", "d", a).Elem("path", "d", d), "paths")
	nd.Assert(len(r.SvgPaths) == 2, "two paths")
	checkPath("first", r.SvgPaths[0].Path, first.ops, px+1e-6)
	checkPath("second", r.SvgPaths[1].Path, s.ops, px+1e-6)
}

// Wrong argument counts are errors.
func C02_argcount() {
	nd.Bound("one command of MLHVQTCSZA with 0..9 (thorough: 0..15) arguments after M")
	k := "MmLlHhVvQqTtCcSsZzAa"[nd.Choice("cmd", 20)]
	max := 10
	if nd.Thorough() {
		max = 16
	}
	n := nd.Choice("n", max)
	want := argc(k)
	if k == 'a' || k == 'A' {
		want = 7
	}
	good := n == 0
	if want > 0 {
		good = n > 0 && n%want == 0
	}
	d := "M 1 2" + string(k)
	for i := 0; i < n; i++ {
		if want == 7 {
			d += " 5" // arc geometry is the subject of C04
		} else {
			d += " " + nd.Fmt(nd.Float("a", 1, 100), 0)
		}
	}
	_, err := svg.Parse(root().Elem("path", "d", d).Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert((err == nil) == good, "argument count of a command")
}
