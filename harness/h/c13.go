package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

func maskNode(id string, kids []*node, ds ...decl) *node {
	return &node{tag: "mask", id: id, kids: kids, ds: ds, x: num(id + ".x"), y: num(id + ".y"), w: numIn(id+".w", 0, 100000), h: numIn(id+".h", 0, 100000)}
}

// Two masks in every position, with shapes before, inside, between and after them.
func C13_collect() {
	nd.Bound("two masks with distinct ids and symbolic x, y, width and height, each at the top level, inside a group, inside defs or inside a group in defs, each with 0 to 3 shapes directly, in a group or through a use; a declaration on the mask or its content of 4 kinds; shapes around them, elements referencing either or both")
	plain := line([4]int{1, 1, 5, 5})
	nodes := []*node{{tag: "defs", kids: []*node{line([4]int{8, 8, 9, 9}).withID("u")}}, plain}
	for i := 0; i < 2; i++ {
		id := []string{"m", "n"}[i]
		a, b, c := line([4]int{1, 2, 3, 4}, someDecl("own", "own"+id, 0)...), line([4]int{5, 6, 7, 8}), line([4]int{2, 2, 6, 6})
		var kids []*node
		switch nd.Choice("content", 4) {
		case 1:
			kids = []*node{a}
		case 2:
			kids = []*node{a, group([]*node{b, c}, makeDecl(2, "")), plain}
		case 3:
			kids = []*node{{tag: "use", ref: "u", x: coord{2, "2"}, y: coord{3, "3"}}, a}
		}
		m := maskNode(id, kids, someDecl("mask", "d"+id, 13)...)
		switch nd.Choice("where", 4) {
		case 0:
			nodes = append(nodes, m, plain)
		case 1:
			nodes = append(nodes, group([]*node{plain, m, plain}, makeDecl(3, "g"+id)))
		case 2:
			nodes = append(nodes, &node{tag: "defs", kids: []*node{line([4]int{3, 3, 3, 3}).withID("x" + id), m, line([4]int{3, 3, 3, 3})}}, plain)
		case 3:
			nodes = append(nodes, &node{tag: "defs", kids: []*node{group([]*node{m, line([4]int{3, 3, 3, 3})}).withID("y" + id)}}, plain)
		}
		nodes = append(nodes, line([4]int{4, 4, 4, 1}, makeDecl(14, id)))
	}
	nodes = append(nodes, group([]*node{line([4]int{4, 4, 4, 2}, makeDecl(14, "n")), plain}, makeDecl(14, "m")), plain)
	checkTree(nodes...)
}

// A mask inside a mask owns its own shapes, and the outer one all the others.
func C13_nested() {
	nd.Bound("a mask with symbolic x, y, width and height inside another one, directly, in a group, in defs inside it or in a third mask, after 0 or 1 shapes and before 0 to 2, with 0 to 2 shapes of its own; the outer one at the top level, in a group, in defs or in a group in defs; shapes around")
	shapes := func(what string, n, from int) (out []*node) {
		for i := nd.Choice(what, n); i > 0; i-- {
			out = append(out, line([4]int{from, i, 3, 4}, makeDecl(2, "")))
		}
		return out
	}
	var inner *node
	in := maskNode("in", shapes("own", 3, 1), someDecl("mask", "din", 13)...)
	switch nd.Choice("inside", 4) {
	case 0:
		inner = in
	case 1:
		inner = group([]*node{in, line([4]int{6, 6, 6, 6})}, makeDecl(3, "gin"))
	case 2:
		inner = &node{tag: "defs", kids: []*node{in, line([4]int{3, 3, 3, 3}).withID("x")}}
	case 3:
		inner = maskNode("mid", []*node{line([4]int{7, 7, 7, 7}), in, line([4]int{7, 7, 7, 8})})
	}
	kids := append(append(shapes("before", 2, 2), inner), shapes("after", 3, 4)...)
	out := maskNode("out", kids, someDecl("mask", "dout", 0)...)
	nodes := []*node{line([4]int{1, 1, 5, 5})}
	switch nd.Choice("where", 4) {
	case 0:
		nodes = append(nodes, out)
	case 1:
		nodes = append(nodes, group([]*node{out, line([4]int{5, 5, 5, 5})}, makeDecl(3, "g")))
	case 2:
		nodes = append(nodes, &node{tag: "defs", kids: []*node{out, line([4]int{3, 3, 3, 3})}})
	case 3:
		nodes = append(nodes, &node{tag: "defs", kids: []*node{group([]*node{out, line([4]int{3, 3, 3, 3})}).withID("y")}})
	}
	checkTree(append(nodes, line([4]int{8, 8, 8, 8}, makeDecl(14, "in")), maskNode("next", shapes("next", 2, 9)), line([4]int{8, 8, 8, 9}))...)
}

// The mask references of an element are those of its ancestors and its own.
func C13_references() {
	nd.Bound("trees of depth 4 in which every group and every leaf has no mask, a mask reference (attribute or style) or mask none; two leaves per level")
	levels := 3
	if nd.Thorough() {
		levels = 4
	}
	pick := func(name string) (ds []decl) {
		switch nd.Choice(name, 3) {
		case 0:
			ds = []decl{makeDecl(14, name)}
		case 1:
			ds = []decl{makeDecl(20, "")}
		}
		return ds
	}
	var inner []*node
	for i := 0; i < levels; i++ {
		s := itoa(i)
		kids := []*node{line([4]int{1, 2, 3, 4}, pick("a"+s)...)}
		if i > 0 {
			kids = append(kids, &node{tag: "g", kids: inner, ds: pick("g" + s), note: 1})
		}
		kids = append(kids, line([4]int{1, 2, 3, 4}, makeDecl(14, "b"+s)))
		inner = kids
	}
	checkTree(inner...)
}

// A malformed mask reference is an error in every mode.
func C13_selector() {
	nd.Bound("mask references of 1 to 4 bytes over # ( ) u n m / space, url( followed by up to 3 such bytes, and typical malformed references; all error modes; on drawn elements, groups and masks")
	var t string
	switch nd.Choice("kind", 3) {
	case 0:
		t = nd.Text("t", 1+nd.Choice("len", 4), "#()unm/ ")
	case 1:
		t = "url(" + nd.Text("t", nd.Choice("len", 4), "#)m ")
	case 2:
		t = []string{"url(m)", "url(#m", "url", "url #m", "#m", "m", "url(other.svg#m)", "URL(#m)", "nonesuch"}[nd.Choice("case", 9)]
	}
	s := trimSpace(t)
	id, good := refSelector(s)
	d := root().Elem([]string{"rect", "g", "mask"}[nd.Choice("elem", 3)], rectAttrs("mask", t)...).Elem("rect", rectAttrs()...)
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	r, err := svg.Parse(d.Done(), mode)
	if !good {
		nd.Assert(err != nil, "a malformed mask reference is an error")
		return
	}
	nd.Assert(err == nil, "a mask reference is accepted")
	p := r.SvgPaths
	nd.Assert(len(p) >= 1, "a path")
	nd.Assert(len(p[len(p)-1].Style.Masks) == 0, "another element has no mask")
	if len(p) == 2 {
		if id == "" {
			nd.Assert(len(p[0].Style.Masks) == 0, "no mask")
		} else {
			nd.Assert(len(p[0].Style.Masks) == 1, "one mask")
			nd.Assert(p[0].Style.Masks[0] == id, "mask id")
		}
	}
}

func trimSpace(t string) string {
	i, j := 0, len(t)
	for i < j && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n') {
		i++
	}
	for j > i && (t[j-1] == ' ' || t[j-1] == '\t' || t[j-1] == '\n') {
		j--
	}
	return t[i:j]
}

// refSelector reads none, an empty text or url(#id), possibly followed by other text.
func refSelector(s string) (id string, ok bool) {
	if s == "" || s == "none" {
		return "", true
	}
	if len(s) < 4 || s[:4] != "url(" {
		return "", false
	}
	i := 4
	for i < len(s) && s[i] != ')' {
		i++
	}
	if i == len(s) || i == 4 || s[4] != '#' {
		return "", false
	}
	return s[5:i], true
}
