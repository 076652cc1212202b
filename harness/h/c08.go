package h

import (
	"github.com/lafriks/go-svg/zzverif/nd"
)

// loud sets every style field to something unusual; nothing of it may reach other elements.
var loud = []string{"fill", "#123456", "fill-rule", "evenodd", "stroke", "#654321", "stroke-width", "7", "stroke-linecap", "square",
	"stroke-linejoin", "arc", "stroke-miterlimit", "9", "stroke-dasharray", "5,6,7", "stroke-dashoffset", "3", "opacity", "0.25",
	"transform", "scale(3)", "mask", "url(#loud)", "stroke-linegap", "round", "stroke-leadlinecap", "round"}

func attrsOf(notation int, ds ...decl) []string {
	var kv []string
	style := ""
	for i, d := range ds {
		if (notation>>uint(i))&1 == 0 {
			kv = append(kv, d.name, d.value)
		} else {
			if style != "" {
				style += ";"
			}
			style += d.name + ":" + d.value
		}
	}
	if style != "" {
		kv = append(kv, "style", style)
	}
	return kv
}

func rectAttrs(kv ...string) []string {
	return append([]string{"x", "1", "y", "2", "width", "3", "height", "4"}, kv...)
}

// One declaration on an ancestor and one on the element, with loud elements around them.
func C08_inherit() {
	nd.Bound("svg > g(one declaration of 22 kinds) > g(none) > rect(one declaration of 22 kinds), attribute or style notation each, drawn directly, in a mask, or in defs and used, a loud sibling before, beside and after; symbolic values")
	d1 := makeDecl(nd.Choice("outer", numDecls), "o")
	d2 := makeDecl(nd.Choice("inner", numDecls), "i")
	n := nd.Choice("notation", 4)
	where := nd.Choice("loud", 3)
	place := nd.Choice("place", 3) // drawn, in a mask, defined and used
	d := root()
	switch place {
	case 1:
		d.Start("mask", "id", "k")
	case 2:
		d.Start("defs").Start("g", "id", "k")
	}
	if where == 0 {
		d.Elem("rect", rectAttrs(loud...)...)
	}
	d.Start("g", attrsOf(n&1, d1)...)
	if where == 1 {
		d.Start("g", loud...).Elem("rect", rectAttrs()...).End()
	}
	d.Start("g")
	if where == 2 {
		d.Elem("g", loud...).Elem("rect", rectAttrs(loud...)...)
	}
	d.Elem("rect", rectAttrs(attrsOf(n>>1, d2)...)...)
	d.End()
	d.Elem("rect", rectAttrs()...)
	d.End()
	d.Elem("rect", rectAttrs()...)
	switch place {
	case 1:
		d.End()
	case 2:
		d.End().End().Elem("use", "href", "#k")
	}
	r := parseOK(d, "doc")
	got := r.SvgPaths
	if place == 1 {
		m := r.SvgMasks["k"]
		nd.Assert(m != nil, "doc: mask")
		got = m.SvgPaths
	}
	nd.Assert(len(got) == 4, "doc: paths")
	var in, mid style
	out := defaultStyle()
	mid = out
	d1.apply(&mid)
	in = mid
	d2.apply(&in)
	checkStyle("element", got[1].Style, in)
	checkStyle("sibling of the parent", got[2].Style, mid)
	checkStyle("outside element", got[3].Style, out)
}

// The same or two properties given twice on one element: the style declaration wins, in either order.
func C08_precedence() {
	nd.Bound("one element with an attribute and a style declaration of 22 kinds each, style first or last; symbolic values")
	a := makeDecl(nd.Choice("attr", numDecls), "a")
	b := makeDecl(nd.Choice("style", numDecls), "b")
	kv := []string{a.name, a.value, "style", b.name + ":" + b.value}
	if nd.Choice("order", 2) == 1 {
		kv = []string{"style", b.name + ":" + b.value, a.name, a.value}
	}
	d := root().Elem("rect", rectAttrs(kv...)...).Elem("rect", rectAttrs()...)
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == 2, "doc: paths")
	w := defaultStyle()
	if a.name != b.name {
		a.apply(&w)
	}
	b.apply(&w)
	checkStyle("element", r.SvgPaths[0].Style, w)
	checkStyle("next element", r.SvgPaths[1].Style, defaultStyle())
}

// Opacities multiply and masks accumulate along a deep chain, siblings keep their own.
func C08_chain() {
	nd.Bound("chains of 4 nested elements (g or svg), each with none, opacity, fill-opacity, stroke-opacity, mask or transform, and a leaf sibling with its own mask and opacity at every level")
	st := []style{defaultStyle()}
	var want []style
	d := root()
	for i := 0; i < 4; i++ {
		k := []int{21, 10, 11, 12, 14, 13}[nd.Choice("kind", 6)]
		dc := makeDecl(k, "m"+itoa(i))
		d.Start("g", dc.name, dc.value)
		s := st[len(st)-1]
		dc.apply(&s)
		st = append(st, s)
		d.Elem("rect", rectAttrs("mask", "url(#s"+itoa(i)+")", "opacity", "0.5")...)
		s.masks = append(append([]string{}, s.masks...), "s"+itoa(i))
		s.fillOp *= 0.5
		s.lineOp *= 0.5
		want = append(want, s)
	}
	for i := 0; i < 4; i++ {
		d.Elem("rect", rectAttrs("mask", "url(#e"+itoa(i)+")")...)
		s := st[len(st)-1]
		s.masks = append(append([]string{}, s.masks...), "e"+itoa(i))
		want = append(want, s)
		d.End()
		st = st[:len(st)-1]
	}
	r := parseOK(d, "doc")
	nd.Assert(len(r.SvgPaths) == len(want), "doc: paths")
	for i := range want {
		checkStyle("element "+itoa(i), r.SvgPaths[i].Style, want[i])
	}
}

// A property given more than once in one style attribute: the last declaration wins.
func C08_duplicate() {
	nd.Bound("a style attribute with two declarations of 22 kinds each and a third of the first's kind or none, on an element or on its parent, with an attribute of the second's kind beside it; symbolic values")
	ka, kb := nd.Choice("first", numDecls), nd.Choice("second", numDecls)
	ds := []decl{makeDecl(ka, "a"), makeDecl(kb, "b")}
	if nd.Choice("third", 2) == 1 {
		ds = append(ds, makeDecl(ka, "c"))
	}
	at := makeDecl(kb, "d")
	t := ""
	w := defaultStyle()
	for i, d := range ds {
		t += d.name + ":" + d.value + ";"
		last := true
		for _, e := range ds[i+1:] {
			if e.name == d.name {
				last = false
			}
		}
		if last {
			d.apply(&w)
		}
	}
	kv := []string{"style", t, at.name, at.value}
	d := root()
	if nd.Choice("parent", 2) == 1 {
		d.Start("g", kv...).Elem("rect", rectAttrs()...).End()
	} else {
		d.Elem("rect", rectAttrs(kv...)...)
	}
	r := parseOK(d.Elem("rect", rectAttrs()...), "doc")
	nd.Assert(len(r.SvgPaths) == 2, "doc: paths")
	checkStyle("element", r.SvgPaths[0].Style, w)
	checkStyle("next element", r.SvgPaths[1].Style, defaultStyle())
}
