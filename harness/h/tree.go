package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// node is an element of a document under test; trees of them are written as documents and expanded into
// what the specification says is drawn.
type node struct {
	tag  string // g, line, rect, use, defs, mask, svg
	id   string
	ds   []decl
	note int // notation of the declarations, see attrsOf
	kids []*node
	ref  string // use
	x, y coord  // use, mask, rect
	w, h coord  // mask, rect
	p    [4]int // line, in px
	ord  int    // use: order of the attributes
	grad *gradient
}

// drawn is a shape that must be drawn: its corner points in user space and its style.
type drawn struct {
	st  style
	pts []float64
}

// maskWant is what a mask must own.
type maskWant struct {
	n      *node
	shapes []drawn
}

type world struct {
	defs  map[string]*node
	out   []drawn
	masks map[string]*maskWant
	cur   *maskWant
	ids   []string // of the masks
}

func line(p [4]int, ds ...decl) *node { return &node{tag: "line", p: p, ds: ds} }
func group(kids []*node, ds ...decl) *node {
	return &node{tag: "g", kids: kids, ds: ds}
}

func (n *node) withID(id string) *node { n.id = id; return n }

// write appends the element to the document.
func (n *node) write(d *nd.Doc) {
	if n.tag == "grad" {
		n.grad.write(d)
		return
	}
	var kv []string
	if n.id != "" {
		kv = append(kv, "id", n.id)
	}
	switch n.tag {
	case "line":
		kv = append(kv, "x1", itoa(n.p[0]), "y1", itoa(n.p[1]), "x2", itoa(n.p[2]), "y2", itoa(n.p[3]))
	case "use":
		x, y, ref := []string{"x", n.x.s}, []string{"y", n.y.s}, []string{"xlink:href", "#" + n.ref}
		if n.ord >= 3 {
			ref[0] = "href"
		}
		if n.x.s == "" {
			x = nil
		}
		if n.y.s == "" {
			y = nil
		}
		for _, a := range [][3][]string{{ref, x, y}, {x, y, ref}, {y, ref, x}, {y, x, ref}, {x, ref, y}, {ref, y, x}}[n.ord] {
			kv = append(kv, a...)
		}
	case "mask":
		kv = append(kv, "x", n.x.s, "y", n.y.s, "width", n.w.s, "height", n.h.s)
	}
	kv = append(kv, attrsOf(n.note, n.ds...)...)
	d.Start(n.tag, kv...)
	for _, k := range n.kids {
		k.write(d)
	}
	d.End()
}

// expand draws the element in the style of its parent.
func (w *world) expand(n *node, st style, inDefs bool) {
	s := st
	for _, d := range n.ds {
		d.apply(&s)
	}
	if inDefs && n.id != "" && n.tag != "mask" {
		w.defs[n.id] = n
	}
	switch n.tag {
	case "line":
		if inDefs {
			return
		}
		pts := make([]float64, 4)
		for i := 0; i < 4; i += 2 {
			x, y := float64(n.p[i]), float64(n.p[i+1])
			pts[i], pts[i+1] = s.m[0]*x+s.m[2]*y+s.m[4], s.m[1]*x+s.m[3]*y+s.m[5]
		}
		if w.cur != nil {
			w.cur.shapes = append(w.cur.shapes, drawn{s, pts})
		} else {
			w.out = append(w.out, drawn{s, pts})
		}
	case "g", "svg":
		for _, k := range n.kids {
			w.expand(k, s, inDefs)
		}
	case "defs":
		for _, k := range n.kids {
			w.expand(k, s, true)
		}
	case "use":
		if inDefs {
			return
		}
		if n.x.s != "" || n.y.s != "" {
			s.m = mul(s.m, [6]float64{1, 0, 0, 1, n.x.v, n.y.v})
		}
		w.expand(w.defs[n.ref], s, false)
	case "mask":
		m := &maskWant{n: n}
		w.masks[n.id] = m
		w.ids = append(w.ids, n.id)
		outer := w.cur
		w.cur = m
		for _, k := range n.kids {
			w.expand(k, s, false)
		}
		w.cur = outer
	}
}

// checkShapes asserts that exactly the wanted shapes are there, in order.
func checkShapes(what string, got []svg.SvgPath, want []drawn) {
	nd.Assert(len(got) == len(want), what+": number of shapes")
	for i, g := range got {
		what := what + " shape " + itoa(i)
		checkLook(what, g.Style, want[i].st)
		nd.Assert(len(g.Path) == 2, what+": path")
		for j := 0; j < 2; j++ {
			k, p := opParts(g.Path[j])
			nd.Assert(k == "ML"[j], what+": operation")
			x, y := g.Style.Transform.Transform(float64(p[0].X)/64, float64(p[0].Y)/64)
			nd.Observe("x", x)
			nd.Observe("y", y)
			nd.Assert(nd.Near(x, want[i].pts[2*j], 4*px), what+": x coordinate")
			nd.Assert(nd.Near(y, want[i].pts[2*j+1], 4*px), what+": y coordinate")
		}
	}
}

// checkTree parses the document of the nodes and compares everything drawn and masked.
func checkTree(nodes ...*node) *svg.Svg {
	d := root()
	w := &world{defs: map[string]*node{}, masks: map[string]*maskWant{}}
	for _, n := range nodes {
		n.write(d)
		w.expand(n, defaultStyle(), false)
	}
	r := parseOK(d, "doc")
	checkShapes("document", r.SvgPaths, w.out)
	nd.Assert(len(r.SvgMasks) == len(w.masks), "number of masks")
	for _, id := range w.ids {
		m := w.masks[id]
		g := r.SvgMasks[id]
		nd.Assert(g != nil, "mask "+id)
		nd.Assert(g.ID == id, "mask id")
		nd.Assert(nd.Near(g.X, m.n.x.v, 1e-9), "mask x")
		nd.Assert(nd.Near(g.Y, m.n.y.v, 1e-9), "mask y")
		nd.Assert(nd.Near(g.W, m.n.w.v, 1e-9), "mask width")
		nd.Assert(nd.Near(g.H, m.n.h.v, 1e-9), "mask height")
		checkShapes("mask "+id, g.SvgPaths, m.shapes)
	}
	return r
}

// someDecl is one of a few kinds of declarations, or none.
func someDecl(label, name string, kinds ...int) []decl {
	k := nd.Choice(label, len(kinds)+1)
	if k == len(kinds) {
		return nil
	}
	if kinds[k] == 13 {
		x, y := numIn(name, -10, 10), numIn(name, -10, 10)
		a := numIn(name, -2, 2)
		return []decl{{"transform", "translate(" + x.s + "," + y.s + ") scale(" + a.s + ")", func(s *style) {
			s.m = mul(mul(s.m, [6]float64{1, 0, 0, 1, x.v, y.v}), [6]float64{a.v, 0, 0, a.v, 0, 0})
		}}}
	}
	return []decl{makeDecl(kinds[k], name)}
}
