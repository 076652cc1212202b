package h

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

const colorSinks = 4

// putColor parses a document that uses the colour text as fill, stroke or stop colour. off tells whether the paint is off.
func putColor(sink int, text string, mode svg.ErrorMode) (c color.NRGBA, off bool, err error) {
	d := root()
	switch sink {
	case 0:
		d.Elem("rect", rectAttrs("fill", text)...)
	case 1:
		d.Elem("rect", rectAttrs("stroke", text)...)
	case 2:
		d.Start("linearGradient", "id", "g").Elem("stop", "stop-color", text).End().Start("g", "fill", "none").Elem("rect", rectAttrs("fill", "url(#g)")...).End()
	case 3:
		d.Elem("rect", rectAttrs("style", "stroke: "+text+" ;fill:"+text)...)
	}
	r, err := svg.Parse(d.Done(), mode)
	if err != nil {
		return c, false, err
	}
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	s := r.SvgPaths[0].Style
	p := s.FillerColor
	if sink == 1 {
		p = s.LinerColor
	}
	if sink == 3 {
		if s.FillerColor == nil || s.LinerColor == nil {
			nd.Assert(s.FillerColor == nil && s.LinerColor == nil, "fill and stroke read the same colour")
			return c, true, nil
		}
		a, ok := s.LinerColor.(svg.PlainColor)
		nd.Assert(ok, "a plain stroke colour")
		b, ok := s.FillerColor.(svg.PlainColor)
		nd.Assert(ok, "a plain fill colour")
		nd.Assert(nd.And(a.R == b.R, a.G == b.G, a.B == b.B, a.A == b.A), "fill and stroke read the same colour")
		return a.NRGBA, false, nil
	}
	if p == nil {
		return c, true, nil
	}
	if g, ok := p.(svg.Gradient); ok {
		nd.Assert(sink == 2, "a plain colour")
		nd.Assert(len(g.Stops) == 1, "one stop")
		if g.Stops[0].StopColor == nil {
			return c, true, nil
		}
		q, ok := g.Stops[0].StopColor.(svg.PlainColor)
		if !ok {
			// a stop without a colour takes the inherited paint: none here, which gives black
			return color.NRGBA{A: 255}, true, nil
		}
		return q.NRGBA, false, nil
	}
	q, ok := p.(svg.PlainColor)
	nd.Assert(ok, "a plain colour")
	return q.NRGBA, false, nil
}

func wantColor(sink int, text string, r, g, b int64) {
	c, off, err := putColor(sink, text, svg.StrictErrorMode)
	nd.Assert(err == nil, "colour accepted")
	nd.Assert(!off, "paint is on")
	checkColor("colour", c, rgb(r, g, b))
}

// hexVal is the value of a hexadecimal digit, or -1.
func hexVal(b byte) int64 {
	switch {
	case b >= '0' && b <= '9':
		return int64(b) - '0'
	case b >= 'a' && b <= 'f':
		return int64(b) - 'a' + 10
	case b >= 'A' && b <= 'F':
		return int64(b) - 'A' + 10
	}
	return -1
}

// Hexadecimal colours of any length and digits.
func C07_hex() {
	nd.Bound("# followed by every text of 0 to 7 bytes over the hexadecimal digits of both cases and g G + - _ space x; as fill, stroke and stop colour")
	sink := nd.Choice("sink", colorSinks)
	n := nd.Choice("len", 8)
	alpha := "0123456789abcdefABCDEFgG+-_x"
	if n != 3 && n != 6 {
		alpha = "0aF-"
	}
	t := nd.Text("h", n, alpha)
	ok := n == 3 || n == 6
	var v [6]int64
	if ok {
		for i := 0; i < n; i++ {
			v[i] = hexVal(t[i])
			if v[i] < 0 {
				ok = false
				break
			}
		}
	}
	if !ok {
		_, _, err := putColor(sink, "#"+t, svg.ErrorMode(nd.Choice("mode", 3)))
		nd.Assert(err != nil, "a malformed hexadecimal colour is an error")
		return
	}
	if n == 3 {
		wantColor(sink, "#"+t, v[0]*17, v[1]*17, v[2]*17)
	} else {
		wantColor(sink, "#"+t, v[0]*16+v[1], v[2]*16+v[3], v[4]*16+v[5])
	}
}

func clampI(v, hi int64) int64 {
	if v < 0 {
		return 0
	}
	if v > hi {
		return hi
	}
	return v
}

// rgb() with integers or percentages, clamped.
func C07_rgb() {
	nd.Bound("rgb() with three integers in [-1000000,1000000] or three integer percentages in [-100000,100000], with or without white space; as fill, stroke and stop colour")
	sink := nd.Choice("sink", colorSinks)
	var w [3]int64
	var t [3]string
	percent := nd.Choice("percent", 2) == 1
	for i := range w {
		if percent {
			v := nd.Int("p", -100000, 100000)
			t[i] = nd.FmtInt(v) + "%"
			w[i] = clampI(v, 100) * 255 / 100
		} else {
			v := nd.Int("v", -1000000, 1000000)
			t[i] = nd.FmtInt(v)
			w[i] = clampI(v, 255)
		}
	}
	sp := []string{"", " "}[nd.Choice("space", 2)]
	wantColor(sink, "rgb("+sp+t[0]+sp+","+sp+t[1]+","+sp+t[2]+sp+")", w[0], w[1], w[2])
}

// The colour names and none in any letter case.
func C07_names() {
	nd.Bound("each of the 147 colour names, and none, with every letter in either case; as fill, stroke and stop colour")
	sink := nd.Choice("sink", colorSinks)
	k := nd.Choice("name", len(colorNames)+1)
	name := "none"
	if k < len(colorNames) {
		name = colorNames[k].name
	}
	b := make([]byte, len(name))
	for i := range b {
		b[i] = nd.Byte("c", string([]byte{name[i], name[i] - 32}))
	}
	if k == len(colorNames) {
		_, off, err := putColor(sink, string(b), svg.StrictErrorMode)
		nd.Assert(err == nil, "none accepted")
		nd.Assert(off, "none turns the paint off")
		return
	}
	wantColor(sink, string(b), colorNames[k].r, colorNames[k].g, colorNames[k].b)
}

// Other texts are errors.
func C07_other() {
	nd.Bound("every text of 1 to 4 (thorough: 5) bytes over 14 letters, digits and punctuation, and malformed rgb() with symbolic garbage; all error modes")
	sink := nd.Choice("sink", colorSinks)
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	if nd.Choice("kind", 2) == 0 {
		n := 4
		if nd.Thorough() {
			n = 5
		}
		t := nd.Text("t", 1+nd.Choice("len", n), "redtanoulbg1 (-")
		if sink == 3 {
			nd.Assume(t[0] != ' ' && t[len(t)-1] != ' ')
		}
		if t[0] == ' ' || t[len(t)-1] == ' ' {
			return
		}
		if len(t) >= 3 && t[0] == 'u' && t[1] == 'r' && t[2] == 'l' {
			return // a url reference
		}
		c, off, err := putColor(sink, t, mode)
		if t == "none" {
			nd.Assert(err == nil && off, "none turns the paint off")
			return
		}
		for _, k := range colorNames {
			if len(k.name) == len(t) && t == k.name {
				nd.Assert(err == nil && !off, "a colour name is accepted")
				checkColor("colour", c, rgb(k.r, k.g, k.b))
				return
			}
		}
		nd.Assert(err != nil, "a text that is not a colour is an error")
		return
	}
	g := nd.Text("g", nd.Choice("glen", 3), "a.-%e x")
	num := nd.FmtInt(nd.Int("n", 0, 300))
	blank := true
	for i := 0; i < len(g); i++ {
		if g[i] != ' ' {
			blank = false
		}
	}
	var t string
	switch nd.Choice("form", 10) {
	case 0:
		t = "rgb(" + num + "," + num + ")"
	case 1:
		t = "rgb(" + num + "," + num + "," + num + "," + num + ")"
	case 2:
		t = "rgb(" + num + "," + num + "," + num
	case 3:
		t = "rgb(" + num + "," + g + "," + num + ")"
	case 4:
		t = "rgb(" + num + "," + num + "," + num + g + "x)"
	case 5:
		t = "rgb()"
	case 6:
		t = "rgb(" + g + ")"
	case 7:
		t = "rgb(" + num + "," + num + "," + g + "z" + num + ")"
	case 8:
		t = "rgb" + num
	case 9:
		nd.Assume(!blank)
		t = "rgb(" + num + "," + num + "," + num + ")" + g
		if sink == 3 || g[len(g)-1] == ' ' || g[0] == ' ' {
			return
		}
	}
	_, _, err := putColor(sink, t, mode)
	nd.Assert(err != nil, "a malformed rgb() is an error")
}

// nearColor is what a text denotes by the rules for colours: 0 an error, 1 a colour, 2 the paint is off, 3 not decided here.
func nearColor(t string) (kind int, c [3]int64) {
	low := make([]byte, len(t))
	for i := range low {
		low[i] = t[i]
		if t[i] >= 'A' && t[i] <= 'Z' {
			low[i] += 32
		}
	}
	l := string(low)
	if len(l) >= 3 && l[:3] == "url" {
		return 3, c // a reference
	}
	if l == "none" {
		return 2, c
	}
	for _, k := range colorNames {
		if len(k.name) == len(l) && k.name == l {
			return 1, [3]int64{k.r, k.g, k.b}
		}
	}
	if len(t) > 0 && t[0] == '#' {
		if len(t) != 4 && len(t) != 7 {
			return 0, c
		}
		for i := range c {
			var a, b int64
			if len(t) == 4 {
				a = hexVal(t[i+1])
				b = a
			} else {
				a, b = hexVal(t[2*i+1]), hexVal(t[2*i+2])
			}
			if a < 0 || b < 0 {
				return 0, c
			}
			c[i] = a*16 + b
		}
		return 1, c
	}
	if len(l) < 4 || l[:4] != "rgb(" || l[len(l)-1] != ')' {
		return 0, c
	}
	if t[:4] != "rgb(" {
		return 3, c // another letter case
	}
	t = t[4 : len(t)-1]
	n, start, percents := 0, 0, 0
	for i := 0; i <= len(t); i++ {
		if i < len(t) && t[i] != ',' {
			continue
		}
		if n == 3 {
			return 0, c
		}
		a, b := start, i
		for a < b && t[a] == ' ' {
			a++
		}
		for a < b && t[b-1] == ' ' {
			b--
		}
		percent := a < b && t[b-1] == '%'
		if percent {
			b--
			percents++
			if a < b && t[b-1] == ' ' {
				return 3, c
			}
		}
		neg := false
		if a < b && (t[a] == '-' || t[a] == '+') {
			neg = t[a] == '-'
			a++
		}
		if a == b {
			return 0, c
		}
		var v int64
		for ; a < b; a++ {
			if t[a] < '0' || t[a] > '9' {
				return 0, c
			}
			v = v*10 + int64(t[a]-'0')
		}
		if neg {
			v = -v
		}
		if percent {
			v = clampI(v, 100) * 255 / 100
		}
		c[n] = clampI(v, 255)
		n++
		start = i + 1
	}
	if n != 3 {
		return 0, c
	}
	if percents != 0 && percents != 3 {
		return 3, c
	}
	return 1, c
}

// Colours with one character wrong, missing or too many.
func C07_near() {
	nd.Bound("6 colour texts in every notation with any one character left out, replaced by or preceded by any of 26 characters (digits, letters of both cases, signs, separators, white space, #, %, parentheses); as fill, stroke and stop colour")
	sink := nd.Choice("sink", colorSinks)
	base := []string{"rgb(12,3,45)", "rgb(9%,80%,1%)", "#1a3", "#12ef56", "red", "none"}[nd.Choice("base", 6)]
	op := nd.Choice("edit", 3)
	n := len(base)
	if op == 1 {
		n++
	}
	i := nd.Choice("at", n)
	var t string
	switch op {
	case 0:
		t = base[:i] + base[i+1:]
	case 1:
		t = base[:i] + string(nd.Byte("b", "09afgrRdDnx+-.,%#() _'/eu!")) + base[i:]
	case 2:
		t = base[:i] + string(nd.Byte("b", "09afgrRdDnx+-.,%#() _'/eu!")) + base[i+1:]
	}
	if t == "" || t[0] == ' ' || t[len(t)-1] == ' ' {
		return
	}
	kind, v := nearColor(t)
	if kind == 3 {
		return
	}
	c, off, err := putColor(sink, t, svg.StrictErrorMode)
	switch kind {
	case 0:
		nd.Assert(err != nil, "a text that is not a colour is an error")
	case 1:
		nd.Assert(err == nil && !off, "a colour is accepted")
		checkColor("colour", c, rgb(v[0], v[1], v[2]))
	case 2:
		nd.Assert(err == nil && off, "none turns the paint off")
	}
}
