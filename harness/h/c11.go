package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

// definitions is one of several sets of definitions; all define a, b and c.
func definitions(k int, own []decl) *node {
	a := line([4]int{1, 2, 3, 4}, own...).withID("a")
	switch k {
	case 0: // three shapes side by side
		return &node{tag: "defs", kids: []*node{a, line([4]int{5, 6, 7, 8}).withID("b"), line([4]int{9, 1, 2, 3}, makeDecl(1, "")).withID("c")}}
	case 1: // a group of shapes, a shape after it
		b := group([]*node{line([4]int{5, 6, 7, 8}, own...), line([4]int{6, 6, 2, 2}, makeDecl(2, "")), line([4]int{1, 1, 2, 1})}, makeDecl(3, "b")).withID("b")
		return &node{tag: "defs", kids: []*node{b, a, line([4]int{9, 1, 2, 3}).withID("c")}}
	case 2: // a shape with an id inside a group with an id
		b := group([]*node{a, group([]*node{line([4]int{5, 6, 7, 8}), line([4]int{3, 3, 4, 4}, own...).withID("c")}, makeDecl(4, "w")), line([4]int{8, 8, 9, 9})}, own...).withID("b")
		return &node{tag: "defs", kids: []*node{b}}
	case 3: // a group that uses another definition
		b := group([]*node{line([4]int{5, 6, 7, 8}), {tag: "use", ref: "a", x: coord{2, "2"}, y: coord{1, "1"}}, line([4]int{6, 5, 4, 3})}, own...).withID("b")
		c := (&node{tag: "use", ref: "b", ds: own}).withID("c")
		return &node{tag: "defs", kids: []*node{a, b, c}}
	}
	// defs inside defs, and a definition without an id
	return &node{tag: "defs", kids: []*node{line([4]int{7, 7, 7, 1}), {tag: "defs", kids: []*node{a, group(nil).withID("e")}}, line([4]int{5, 6, 7, 8}).withID("b"), group([]*node{line([4]int{9, 1, 2, 3}, own...)}).withID("c")}}
}

// One use of every kind of definition in every context.
func C11_use() {
	nd.Bound("defs (5 layouts: shapes, groups, nested ids, nested uses, nested defs) inside or outside a styled group, own declaration of the content of 5 kinds; one use with x and y in [-10,10] or none and one declaration of 6 kinds, inside a group with one of 3; plain shapes before, between and after")
	own := someDecl("own", "own", 0, 13, 10, 14)
	ds := definitions(nd.Choice("layout", 5), own)
	u := &node{tag: "use", ref: []string{"a", "b", "c"}[nd.Choice("ref", 3)], ds: someDecl("use", "use", 0, 13, 10, 14, 2), note: nd.Choice("style", 2)}
	if nd.Choice("xy", 2) == 1 {
		u.x, u.y = numIn("x", -10, 10), numIn("y", -10, 10)
	}
	plain := line([4]int{1, 1, 5, 5})
	if nd.Choice("where", 2) == 1 {
		ds = group([]*node{ds, plain}, makeDecl(5, ""), makeDecl(13, "far"), makeDecl(14, "far"))
	}
	checkTree(plain, ds, plain, group([]*node{plain, u, plain}, someDecl("group", "grp", 3, 13)...), plain)
}

// Every order of the attributes of a use, with and without each of them.
func C11_attributes() {
	nd.Bound("x and y in [-10,10], each given or not, the 6 orders of x, y and the reference (3 with xlink:href, 3 with href), and a transform before or after them")
	u := &node{tag: "use", ref: []string{"a", "b"}[nd.Choice("ref", 2)], ord: nd.Choice("order", 6)}
	if nd.Choice("hasx", 2) == 1 {
		u.x = numIn("x", -10, 10)
	}
	if nd.Choice("hasy", 2) == 1 {
		u.y = numIn("y", -10, 10)
	}
	u.ds = someDecl("transform", "use", 13)
	plain := line([4]int{1, 1, 5, 5})
	checkTree(definitions(nd.Choice("layout", 2), nil), group([]*node{u, plain}, someDecl("group", "grp", 13)...), plain)
}

// Sequences of uses of the same and other definitions.
func C11_sequence() {
	nd.Bound("three uses in sequence of three definitions (5 layouts) with different x, y, and one of three (thorough: five) declarations each")
	kinds := []int{13, 14}
	if nd.Thorough() {
		kinds = []int{0, 13, 14, 10}
	}
	own := []decl{makeDecl(11, "own")}
	nodes := []*node{definitions(nd.Choice("layout", 5), own)}
	for i := 0; i < 3; i++ {
		u := &node{tag: "use", ref: []string{"a", "b", "c"}[nd.Choice("ref", 3)], ds: someDecl("use", "use", kinds...)}
		if i != 1 {
			u.x, u.y = numIn("x", -10, 10), numIn("y", -10, 10)
		}
		nodes = append(nodes, u)
	}
	nodes = append(nodes, line([4]int{1, 1, 5, 5}))
	checkTree(nodes...)
}

// Unknown ids and other references that cannot be followed are errors in every mode.
func C11_unknown() {
	nd.Bound("use of an id that is not defined (4 forms), without href, or with a reference other than #id; all error modes, with and without definitions")
	d := root()
	if nd.Choice("defs", 2) == 1 {
		d.Start("defs").Elem("line", "id", "a", "x2", "5").Elem("linearGradient", "id", "grad").End()
	}
	d.Start("g")
	href := []string{"#x", "#A", "#", "#aa", "a", "", "other.svg#a", "url(#a)"}[nd.Choice("href", 8)]
	switch nd.Choice("attr", 3) {
	case 0:
		d.Elem("use", "xlink:href", href)
	case 1:
		d.Elem("use", "href", href, "x", "1")
	case 2:
		d.Elem("use", "x", "1")
	}
	_, err := svg.Parse(d.Done(), svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert(err != nil, "a reference that cannot be followed is an error")
}
