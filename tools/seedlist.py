seed("tt-reflect", "C02", [("parse_path.go", "case 'q', 'Q', 'T', 't':", "case 'q', 'Q', 'T':")], '''
s := parse(t, `<svg><path d="M0 0Q1 1 2 0t2 0 2 0"/></svg>`)
wantPath(t, s, 0, "M0.000,0.000 Q1.000,1.000,2.000,0.000 Q3.000,-1.000,4.000,0.000 Q5.000,1.000,6.000,0.000")
''', "a relative smooth quadratic t directly after another t (a repeated group or two commands)", "the control point is not reflected")
seed("units-circle-diag", "C06", [("svg_elements.go", "rx, err = c.parseUnit(attr.Value, diagPercentage)\n\t\t\try = rx", "rx, err = c.parseUnit(attr.Value, widthPercentage)\n\t\t\try = rx")], '''
s := parse(t, `<svg viewBox="0 0 10 70"><circle cx="0" cy="0" r="10%"/></svg>`)
if got := s.SvgPaths[0].Path[0].String(); got != "M5.000,0.000" {
	t.Error(got)
}
''', "a percentage radius with a viewBox that is not square", "the radius is a percentage of the width instead of the diagonal")
seed("dash-backing", "C08", [("parse.go", "dList := make([]float64, len(dashes))", "dList := curStyle.Dash.Dash\n\t\t\tif cap(dList) < len(dashes) {\n\t\t\t\tdList = make([]float64, len(dashes))\n\t\t\t}\n\t\t\tdList = dList[:len(dashes)]")], '''
s := parse(t, `<svg><g stroke-dasharray="5 6"><line x2="1"/><line x2="2" stroke-dasharray="9 9"/><line x2="3"/></g></svg>`)
for _, i := range []int{0, 2} {
	if d := fmt.Sprint(s.SvgPaths[i].Style.Dash.Dash); d != "[5 6]" {
		t.Error(i, d)
	}
}
''', "an element that overrides the dash array its parent set with at most as many dashes", "the parent's and the siblings' dash arrays change too")
seed("stops-in-place", "C12", [("patterns.go", "stops := append([]GradStop{}, grad.Stops...)\n\t\t\tgrad.Stops = stops", "stops := grad.Stops")], '''
s := parse(t, `<svg><linearGradient id="a"><stop offset="0"/><stop offset="1" stop-color="blue"/></linearGradient><g fill="red"><line x2="1" fill="url(#a)"/></g><g fill="lime"><line x2="1" fill="url(#a)"/></g></svg>`)
for i, want := range []string{"{{255 0 0 255}}", "{{0 255 0 255}}"} {
	if got := fmt.Sprint(s.SvgPaths[i].Style.FillerColor.(svg.Gradient).Stops[0].StopColor); got != want {
		t.Error(i, got, want)
	}
}
''', "a gradient with a stop without colour, referenced by two elements that inherit different paints", "the first reference fixes the colour for all references")
seed("title-pieces", "C15", [("svg.go", "svg.Titles[len(svg.Titles)-1] += string(se)", "svg.Titles[len(svg.Titles)-1] = string(se)")], '''
s := parse(t, `<svg><title>one <!-- c -->two</title></svg>`)
if s.Titles[0] != "one two" {
	t.Errorf("%q", s.Titles[0])
}
''', "a title whose text comes in several pieces (a comment inside)", "only the last piece is kept")
seed("viewbox-height", "C15", [("svg_elements.go", "\t\tc.svg.ViewBox.W = width\n\t}\n\tif c.svg.ViewBox.H == 0 {\n", "\t\tc.svg.ViewBox.W = width\n")], '''
s := parse(t, `<svg viewBox="0 0 10 0" width="30" height="40"/>`)
if s.ViewBox.H != 40 {
	t.Error(s.ViewBox)
}
''', "a viewBox with a zero height but a non-zero width", "the height attribute does not fill in the viewBox height")
seed("wrapped-eof", "C21", [("svg.go", "if err == io.EOF {", "if errors.Is(err, io.EOF) {")], '''
_, err := svg.Parse(&failing{strings.NewReader(`<svg><line x2="1"/></svg>`)}, svg.StrictErrorMode)
if err == nil {
	t.Error("read error lost")
}
''', "a reader that fails after the last element with an error wrapping io.EOF", "Parse reports success for a failed read", imports=["io"], helper='''
type failing struct{ r io.Reader }

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = fmt.Errorf("connection lost: %w", io.EOF)
	}
	return n, err
}
''')
seed("unit-cache", "C22", [("units.go", "func (viewBox Bounds) resolveUnit(s string, asPerc percentageReference) (float64, error) {\n\tvalue, isPercentage, err := parseUnit(s)", "func (viewBox Bounds) resolveUnit(s string, asPerc percentageReference) (float64, error) {\n\tkey := unitKey{s, asPerc, viewBox.W}\n\tif v, ok := unitCache[key]; ok {\n\t\treturn v, nil\n\t}\n\tv, err := viewBox.resolve(s, asPerc)\n\tif err == nil {\n\t\tunitCache[key] = v\n\t}\n\treturn v, err\n}\n\ntype unitKey struct {\n\ts      string\n\tasPerc percentageReference\n\tw      float64\n}\n\nvar unitCache = make(map[unitKey]float64)\n\nfunc (viewBox Bounds) resolve(s string, asPerc percentageReference) (float64, error) {\n\tvalue, isPercentage, err := parseUnit(s)")], '''
parse(t, `<svg viewBox="0 0 10 10"><line y2="50%"/></svg>`)
s := parse(t, `<svg viewBox="0 0 10 30"><line y2="50%"/></svg>`)
wantPath(t, s, 0, "M0.000,0.000 L0.000,15.000")
''', "two documents parsed one after the other with viewBoxes of the same width and different heights, and the same vertical percentage", "the second document uses the first one's result")
seed("lead-cap", "C23", [("parse.go", "curStyle.Join.LeadLineCap = QuadraticCap", "curStyle.Join.LeadLineCap = CubicCap")], '''
s := parse(t, `<svg><line x2="1" stroke-leadlinecap="quadratic"/></svg>`)
if s.SvgPaths[0].Style.Join.LeadLineCap != svg.QuadraticCap {
	t.Error(s.SvgPaths[0].Style.Join.LeadLineCap)
}
''', "the quadratic lead cap", "the keyword sets another cap")
seed("quad-second", "C16", [("path.go", 'float32(op[0].Y)/64,\n\t\tfloat32(op[1].X)/64, float32(op[1].Y)/64)\n}\n\nfunc (op OpCubicTo)', 'float32(op[0].Y)/64,\n\t\tfloat32(op[1].X)/64, float32(op[1].Y>>6))\n}\n\nfunc (op OpCubicTo)')], '''
s := parse(t, `<svg><path d="M0 0Q1 1 2 0.5"/></svg>`)
wantPath(t, s, 0, "M0.000,0.000 Q1.000,1.000,2.000,0.500")
''', "a quadratic whose end point has a fractional y", "the text form loses the fraction")
seed("quadto-control", "C10", [("matrix.go", "return t.TFixed(fixed.Point26_6(m[0])), t.TFixed(fixed.Point26_6(m[1]))\n}", "x, y := t.TransformVector(float64(m[0].X), float64(m[0].Y))\n\treturn fixed.Point26_6{X: fixed.Int26_6(x + t.E*64), Y: fixed.Int26_6(y + t.F)}, t.TFixed(fixed.Point26_6(m[1]))\n}")], '''
m := svg.Identity.Translate(3, 7)
a, b := m.QuadTo(svg.OpQuadTo{{X: 64, Y: 64}, {X: 128, Y: 128}})
if fmt.Sprint(a, b) != "4:00 8:00 5:00 9:00" && (a.Y != 8*64 || b.Y != 9*64) {
	t.Error(a, b)
}
''', "a quadratic transformed by a matrix with a vertical translation", "the control point is not translated vertically")
seed("rect-ry-only", "C05", [("svg_elements.go", "if ry != 0 && rx == 0 {\n\t\trx = ry\n\t}", "if ry != 0 && rx == 0 {\n\t\trx = ry * w / h\n\t}")], '''
s := parse(t, `<svg><rect width="40" height="20" ry="5"/></svg>`)
if got := s.SvgPaths[0].Path[0].String(); got != "M5.000,0.000" {
	t.Error(got)
}
''', "a rect with only ry, not square", "the horizontal radius differs from ry")
seed("arc-radii-order", "C04", [("shapes.go", "*ra = *ra * nrb / *rb\n\t\t}\n\t\t*rb = nrb", "*ra = *ra * nrb / *rb\n\t\t\tnrb *= 1 + 1/512.\n\t\t}\n\t\t*rb = nrb")], '''
s := parse(t, `<svg><path d="M0 0A1 2 0 0 1 100 0"/></svg>`)
p := s.SvgPaths[0].Path
for _, op := range p[1:] {
	c := op.(svg.OpCubicTo)[2]
	x, y := float64(c.X)/64-50, float64(c.Y)/64
	if d := x*x/2500 + y*y/10000; d < 0.999 || d > 1.001 {
		t.Error(d)
	}
}
''', "an elliptical arc with different radii that are too small for the distance of its end points", "the radii are not scaled equally: points off the ellipse")
seed("use-y-axis", "C11", [("svg_elements.go", '''		case "y":
			y, err = c.parseUnit(attr.Value, heightPercentage)
		}
		if err != nil {
			return err
		}
	}
	if href == "" {''', '''		case "y":
			if href != "" {
				y, err = c.parseUnit(attr.Value, heightPercentage)
			}
		}
		if err != nil {
			return err
		}
	}
	if href == "" {''')], '''
s := parse(t, `<svg><defs><line id="l" x2="1"/></defs><use y="7" href="#l"/></svg>`)
if s.SvgPaths[0].Style.Transform.F != 7 {
	t.Error(s.SvgPaths[0].Style.Transform)
}
''', "a use element with y before href", "the vertical shift is lost")
seed("mask-empty", "C13", [("svg.go", "					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask\n", "					if len(svgCursor.mask.SvgPaths) > 0 {\n						svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask\n					}\n")], '''
s := parse(t, `<svg><mask id="m" width="5"/><line x2="1" mask="url(#m)"/></svg>`)
if s.SvgMasks["m"] == nil || s.SvgMasks["m"].W != 5 {
	t.Error(len(s.SvgMasks))
}
''', "a mask without any shape, which hides everything", "the mask is lost, so that what it hides is shown")
seed("gg-fill-opacity", "C18", [("renderer/gg/draw.go", "gc.SetFillStyle(toGradient(c, svgp.Style.FillOpacity*opacity))", "gc.SetFillStyle(toGradient(c, svgp.Style.LineOpacity*opacity))")], '''
s := parse(t, `<svg viewBox="0 0 10 10"><linearGradient id="a" gradientUnits="userSpaceOnUse" x1="0" x2="10"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="red"/></linearGradient><rect width="10" height="10" fill="url(#a)" fill-opacity="0"/></svg>`)
gc := ggl.NewContext(10, 10)
if err := gg.Draw(gc, s); err != nil {
	t.Fatal(err)
}
if _, _, _, a := gc.Image().At(5, 5).RGBA(); a != 0 {
	t.Error(a)
}
''', "a gradient fill with a fill opacity other than the stroke opacity", "the gradient is painted with the stroke opacity", pkg="renderer/gg", imports=['@ggl "github.com/fogleman/gg', "github.com/lafriks/go-svg/renderer/gg"])
seed("rx-clear-stroker", "C20", [("renderer/rasterx/draw.go", "		stroker.Clear()\n", "		if svgp.Style.FillerColor == nil {\n\t\t\tstroker.Clear()\n\t\t}\n"), ("renderer/rasterx/draw.go", "		case svg.PlainColor:\n			filler.SetColor(", "		case svg.PlainColor:\n			defer filler.Clear()\n			filler.SetColor(")], '''
s := parse(t, `<svg viewBox="0 0 20 20"><rect x="2" y="2" width="16" height="16" fill="red" stroke="none"/><rect x="2" y="2" width="16" height="16" fill="red" stroke="blue" stroke-width="2"/></svg>`)
img := image.NewRGBA(image.Rect(0, 0, 20, 20))
rxr.Draw(rx.NewDasher(20, 20, rx.NewScannerGV(20, 20, img, img.Bounds())), s)
if r, _, b, _ := img.At(10, 10).RGBA(); r == 0 || b != 0 {
	t.Error("inside of the stroke is painted", r, b)
}
''', "a path that is both filled and stroked", "the outline of the fill is painted again in the stroke paint", pkg="renderer/rasterx", imports=["image", '@rx "github.com/srwiley/rasterx', '@rxr "github.com/lafriks/go-svg/renderer/rasterx'])
seed("selector-empty", "C01", [("parse.go", '		if !strings.HasPrefix(v, "#") {\n			return "", fmt.Errorf("unsupported url selector: %s", v)', '		if v[0] != \'#\' {\n			return "", fmt.Errorf("unsupported url selector: %s", v)')], '''
defer func() {
	if r := recover(); r != nil {
		t.Error(r)
	}
}()
svg.Parse(strings.NewReader(`<svg><rect width="1" height="1" mask="url()"/></svg>`), svg.IgnoreErrorMode)
''', "a mask reference with an empty url", "Parse panics")
seed("move-start", "C02", [("parse_path.go", '''		for i := 2; i < l-1; i += 2 {
			c.path.Line(fixed.Point26_6{
				X: fixed.Int26_6((c.points[i] + c.curX) * 64),
				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
		c.placeX = c.points[l-2]
		c.placeY = c.points[l-1]
''', '''		for i := 2; i < l-1; i += 2 {
			c.path.Line(fixed.Point26_6{
				X: fixed.Int26_6((c.points[i] + c.curX) * 64),
				Y: fixed.Int26_6((c.points[i+1] + c.curY) * 64),
			})
		}
		c.placeX, c.placeY = c.points[l-2], c.points[l-1]
		c.pathStartX, c.pathStartY = c.placeX, c.placeY
''')], '''
s := parse(t, `<svg><path d="M1 1 5 5 5 1z m1 1 l2 2"/></svg>`)
wantPath(t, s, 0, "M1.000,1.000 L5.000,5.000 L5.000,1.000 Z M2.000,2.000 L4.000,4.000")
''', "a move with several points, closed and followed by a relative command", "the close returns to the last point of the move")
seed("s-groups", "C02", [("parse_path.go", "			c.lastKey = k\n			c.cntlPtX, c.cntlPtY = c.points[i], c.points[i+1]\n", "			c.cntlPtX, c.cntlPtY = c.points[i], c.points[i+1]\n")], '''
s := parse(t, `<svg><path d="M0 0 S10 10 20 0 30 10 40 0"/></svg>`)
wantPath(t, s, 0, "M0.000,0.000 C0.000,0.000,10.000,10.000,20.000,0.000 C30.000,-10.000,30.000,10.000,40.000,0.000")
''', "a smooth cubic with two argument groups after a command that is not a cubic", "the second group is not smooth")
seed("arc-grow-ratio", "C04", [("shapes.go", "			*ra = *ra * nrb / *rb\n", "			*ra = *ra + nrb - *rb\n")], '''
s := parse(t, `<svg><path d="M0 0 A2 1 90 0 1 20 0"/></svg>`)
max := 0.0
for _, op := range s.SvgPaths[0].Path {
	if c, ok := op.(svg.OpCubicTo); ok {
		if y := float64(c[2].Y) / 64; -y > max {
			max = -y
		}
	}
}
if max < 19 || max > 21 {
	t.Error(max)
}
''', "an arc whose endpoints are too far apart for radii that differ", "the radii are not scaled up equally")
seed("dashoffset-axis", "C06", [("parse.go", "dashOffset, err := c.parseUnit(v, diagPercentage)", "dashOffset, err := c.parseUnit(v, widthPercentage)")], '''
s := parse(t, `<svg viewBox="0 0 10 70"><line x2="9" stroke="red" stroke-dashoffset="10%"/></svg>`)
if o := s.SvgPaths[0].Style.Dash.DashOffset; o < 4.99 || o > 5.01 {
	t.Error(o)
}
''', "a dash offset in percent with a viewBox that is not square", "the percentage is taken of the width")
seed("fill-opacity-set", "C08", [("parse.go", '''			curStyle.FillOpacity *= op
''', '''			if curStyle.FillOpacity = op * curStyle.FillOpacity; k == "fill-opacity" && c.inMask {
				curStyle.FillOpacity = op
			}
''')], '''
s := parse(t, `<svg><mask id="m"><g fill-opacity="0.5"><rect width="1" height="1" fill-opacity="0.5"/></g></mask></svg>`)
if o := s.SvgMasks["m"].SvgPaths[0].Style.FillOpacity; o != 0.25 {
	t.Error(o)
}
''', "a fill opacity on nested elements inside a mask", "the opacities do not multiply")
seed("scale-one", "C09", [("parse.go", "m1 = m1.Scale(c.points[0], c.points[0])", "m1 = m1.Scale(c.points[0], math.Abs(c.points[0]))")], '''
s := parse(t, `<svg><line x2="1" transform="scale(-2)"/></svg>`)
if d := s.SvgPaths[0].Style.Transform.D; d != -2 {
	t.Error(d)
}
''', "a scale by one negative number", "y is not mirrored")
seed("invert-translation", "C10", [("matrix.go", "n := &matrix3{a.A, a.C, a.E, a.B, a.D, a.F, 0, 0, 1}", "n := &matrix3{a.A, a.C, a.E, a.C, a.D, a.F, 0, 0, 1}")], '''
m := svg.Matrix2D{A: 2, B: 1, C: 3, D: 4, E: 5, F: 6}
x, y := m.Invert().Transform(m.Transform(7, 8))
if x < 6.99 || x > 7.01 || y < 7.99 || y > 8.01 {
	t.Error(x, y)
}
''', "a matrix that is not symmetric", "Invert does not undo the transform")
seed("use-nested-shift", "C11", [("svg_elements.go", '''		if err = c.pushStyle(def.Attrs); err != nil {
			return err
		}
''', '''		if def.Tag == "use" && len(c.openUses) > 1 {
			c.styleStack[len(c.styleStack)-1].Transform = c.styleStack[0].Transform
		}
		if err = c.pushStyle(def.Attrs); err != nil {
			return err
		}
''')], '''
s := parse(t, `<svg xmlns:xlink="http://www.w3.org/1999/xlink"><defs><rect id="r" width="1" height="1"/><use id="a" xlink:href="#r" x="1"/><use id="b" xlink:href="#a" x="10"/></defs><use xlink:href="#b" x="100"/></svg>`)
if e := s.SvgPaths[0].Style.Transform.E; e != 111 {
	t.Error(e)
}
''', "a use of a use of a use", "the outer shifts are lost")
seed("focal-default", "C12", [("svg_elements.go", '''	if !setFy { // set fy to cy by default
''', '''	if !setFx && !setFy { // set fy to cy by default
''')], '''
s := parse(t, `<svg viewBox="0 0 10 10"><radialGradient id="g" cx="0.2" cy="0.3" fx="0.4"/><rect width="1" height="1" fill="url(#g)"/></svg>`)
if d := s.SvgPaths[0].Style.FillerColor.(svg.Gradient).Direction.(svg.Radial); d[3] != 0.3 {
	t.Error(d)
}
''', "a radial gradient with cy and fx but without fy", "fy is the default and not cy")
seed("cubic-text", "C16", [("path.go", '''		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)''', '''		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y>>1)/32)''')], '''
p := svg.Path{svg.OpMoveTo{}, svg.OpCubicTo{{}, {}, {X: 64, Y: 3}}}
if got := p.ToSVGPath(); !strings.HasSuffix(got, "1.000,0.047") {
	t.Error(got)
}
''', "a cubic whose last y is an odd number of 1/64 px", "the coordinate is off by 1/64 px")
seed("gg-first-mask", "C18", [("renderer/gg/draw.go", '''	if mask != nil {
		if err := gc.SetMask(mask); err != nil {
			return err
		}
	} else {
		gc.ResetClip()
	}
''', '''	if mask != nil {
		if err := gc.SetMask(mask); err != nil {
			return err
		}
	} else if len(svgp.Style.Masks) == 0 {
		gc.ResetClip()
	}
''')], '''
s := parse(t, `<svg viewBox="0 0 10 10"><mask id="m"><rect width="2" height="2"/></mask><rect width="10" height="10" mask="url(#m)"/><rect width="10" height="10" mask="url(#x)"/></svg>`)
gc := ggl.NewContext(10, 10)
if err := gg.Draw(gc, s); err != nil {
	t.Fatal(err)
}
if _, _, _, a := gc.Image().At(5, 5).RGBA(); a == 0 {
	t.Error("clipped")
}
''', "an element that refers to an unknown mask after one that refers to a known one", "it is clipped by the other mask", pkg="renderer/gg", imports=['@ggl "github.com/fogleman/gg', "github.com/lafriks/go-svg/renderer/gg"])
seed("d2d-rule", "C19", [("renderer/draw2d/draw.go", '''		var fr draw2d.FillRule
		if svgp.Style.UseNonZeroWinding {
			fr = draw2d.FillRuleWinding
		}
		gc.SetFillRule(fr)
''', '''		if svgp.Style.UseNonZeroWinding {
			gc.SetFillRule(draw2d.FillRuleWinding)
		}
''')], '''
s := parse(t, `<svg viewBox="0 0 20 20"><rect width="1" height="1"/><path fill-rule="evenodd" d="M0 0H20V20H0z M5 5H15V15H5z"/></svg>`)
img := image.NewRGBA(image.Rect(0, 0, 20, 20))
draw2d.Draw(draw2dimg.NewGraphicContext(img), s)
if _, _, _, a := img.At(10, 10).RGBA(); a != 0 {
	t.Error("hole is filled")
}
''', "an even-odd fill after a nonzero fill", "the even-odd path is filled with the nonzero rule", pkg="renderer/draw2d", imports=["image", "github.com/llgcode/draw2d/draw2dimg", "github.com/lafriks/go-svg/renderer/draw2d"])
seed("rx-extent-early", "C20", [("renderer/rasterx/draw.go", '''			_ = color.ApplyPathExtent(stroker.GetPathExtent())
''', '''			_ = color.ApplyPathExtent(gc.Filler.GetPathExtent())
			if svgp.Style.FillerColor != nil {
				color.Bounds = svg.Bounds{}
			}
''')], '''
s := parse(t, `<svg viewBox="0 0 20 20"><linearGradient id="g"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><rect x="4" y="4" width="12" height="12" fill="none" stroke="url(#g)" stroke-width="4"/></svg>`)
a := image.NewRGBA(image.Rect(0, 0, 20, 20))
rxr.Draw(rx.NewDasher(20, 20, rx.NewScannerGV(20, 20, a, a.Bounds())), s)
s.SvgPaths[0].Style.FillerColor = svg.NewPlainColor(0, 0, 0, 255)
s.SvgPaths[0].Style.FillOpacity = 0
b := image.NewRGBA(image.Rect(0, 0, 20, 20))
rxr.Draw(rx.NewDasher(20, 20, rx.NewScannerGV(20, 20, b, b.Bounds())), s)
if a.RGBAAt(3, 10) != b.RGBAAt(3, 10) || a.RGBAAt(16, 10) != b.RGBAAt(16, 10) {
	t.Error(a.RGBAAt(3, 10), b.RGBAAt(3, 10), a.RGBAAt(16, 10), b.RGBAAt(16, 10))
}
''', "a gradient stroke of a path that is also filled", "the gradient has no bounds", pkg="renderer/rasterx", imports=["image", '@rx "github.com/srwiley/rasterx', '@rxr "github.com/lafriks/go-svg/renderer/rasterx'])
seed("first-stop", "C24", [("patterns.go", '''		for _, s := range c.Stops {
			if s.StopColor != nil {
				return s.StopColor
			}
		}
''', '''		if len(c.Stops) > 0 && c.Stops[0].StopColor != nil {
			return c.Stops[0].StopColor
		}
''')], '''
g := svg.Gradient{Stops: []svg.GradStop{{}, {StopColor: svg.NewPlainColor(1, 2, 3, 255)}}}
if c := svg.GetColor(g); c != svg.NewPlainColor(1, 2, 3, 255) {
	t.Error(c)
}
''', "a gradient whose first stop has no colour", "the colour is black")

seed("no-args", "C01", [("parse_path.go", "if !(len(c.points) >= sz && len(c.points)%sz == 0) {", "if len(c.points)%sz != 0 {")], '''
defer func() {
	if r := recover(); r != nil {
		t.Error(r)
	}
}()
svg.Parse(strings.NewReader(`<svg><path d="M1 1 H"/></svg>`), svg.IgnoreErrorMode)
''', "a path command without any argument", "Parse panics")
seed("radii-together", "C05", [("shapes.go", "		ry = h / 2\n", "		rx, ry = rx*h/2/ry, h/2\n")], '''
s := parse(t, `<svg><rect width="20" height="8" rx="5" ry="16"/></svg>`)
if got := s.SvgPaths[0].Path[0].String(); got != "M5.000,0.000" {
	t.Error(got)
}
''', "a rect whose vertical corner radius alone exceeds half the height", "the horizontal radius shrinks too")
seed("ellipse-r", "C05", [("svg_elements.go", "			ry, err = c.parseUnit(attr.Value, heightPercentage)\n		}\n		if err != nil {\n			return err\n		}\n	}\n	if rx == 0 || ry == 0 { // not drawn, but not an error\n		return nil\n	}", "			ry, err = c.parseUnit(attr.Value, heightPercentage)\n			if rx == 0 {\n				rx = ry\n			}\n		}\n		if err != nil {\n			return err\n		}\n	}\n	if rx == 0 || ry == 0 { // not drawn, but not an error\n		return nil\n	}")], '''
s := parse(t, `<svg><ellipse cx="5" cy="5" rx="0" ry="3"/></svg>`)
if len(s.SvgPaths) != 0 {
	t.Error(s.SvgPaths[0].Path)
}
''', "an ellipse with a zero horizontal radius", "a circle is drawn")
seed("named-first", "C07", [("patterns.go", "	cStr := strings.TrimPrefix(colorStr, \"rgb(\")\n	if cStr != colorStr {", "	cStr := strings.TrimPrefix(v, \"rgb\")\n	if cStr != v {\n		cStr = strings.TrimPrefix(cStr, \"(\")")], '''
if _, err := svg.Parse(strings.NewReader(`<svg><line x2="1" fill="rgb1,2,3)"/></svg>`), svg.IgnoreErrorMode); err == nil {
	t.Error("no error")
}
''', "rgb without its opening parenthesis", "the text becomes a colour instead of an error")
seed("percent-first", "C07", [("patterns.go", "return uint8(n * 0xFF / 100), nil", "return uint8(n * 0x100 / 101), nil")], '''
s := parse(t, `<svg><line x2="1" fill="rgb(100%,50%,0%)"/></svg>`)
if got := fmt.Sprint(s.SvgPaths[0].Style.FillerColor); got != "{{255 127 0 255}}" {
	t.Error(got)
}
''', "a percentage colour component", "the component is off by one or more")
seed("linegap-lost", "C14", [("parse.go", "			return c.handleError(\"unsupported value '%s' for <stroke-linegap>\", v)", "			c.handleError(\"unsupported value '%s' for <stroke-linegap>\", v)")], '''
if _, err := svg.Parse(strings.NewReader(`<svg><line x2="1" stroke-linegap="bogus"/></svg>`), svg.StrictErrorMode); err == nil {
	t.Error("no error")
}
''', "an unsupported stroke-linegap keyword in strict mode", "it is not reported")
seed("warn-once", "C22", [("parse.go", "			log.Println(errStr)\n", "			log.Println(errStr)\n			drawFuncs[se.Name.Local] = gF // warn only once\n")], '''
svg.Parse(strings.NewReader(`<svg><filter/></svg>`), svg.WarnErrorMode)
if _, err := svg.Parse(strings.NewReader(`<svg><filter/></svg>`), svg.StrictErrorMode); err == nil {
	t.Error("no error in strict mode")
}
''', "an unknown element parsed in warn mode before a strict parse of the same element", "the strict parse reports no error")
seed("opacity-product", "C17", [("renderer/options.go", "	r.Opacity = float64(o)\n", "	r.Opacity *= float64(o)\n")], '''
if o := renderer.Options(&svg.Svg{}, renderer.Opacity(0.5), renderer.Opacity(0.25)); o.Opacity != 0.25 {
	t.Error(o.Opacity)
}
''', "two opacity options", "the second does not replace the first", pkg="renderer", imports=["github.com/lafriks/go-svg/renderer"])
seed("close-late", "C21", [("svg.go", "	defer fin.Close()\n	return Parse(fin, errMode)\n", "	s, err := Parse(fin, errMode)\n	if err != nil {\n		return s, err\n	}\n	return s, fin.Close()\n")], '''
f := filepath.Join(t.TempDir(), "bad.svg")
if err := os.WriteFile(f, []byte("<svg><line x2="), 0o600); err != nil {
	t.Fatal(err)
}
open := func() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	return len(l)
}
debug.SetGCPercent(-1)
before := open()
for i := 0; i < 20; i++ {
	svg.ParseFile(f, svg.StrictErrorMode)
}
if n := open() - before; n > 5 {
	t.Error(n, "files left open")
}
''', "ParseFile of a file that does not parse", "the file is never closed", imports=["os", "path/filepath", "runtime/debug"])
seed("sorted-stops", "C25", [("renderer/gg/draw.go", "	for _, stop := range g.Stops {", "	sort.SliceStable(g.Stops, func(i, j int) bool { return g.Stops[i].Offset < g.Stops[j].Offset })\n	for _, stop := range g.Stops {"), ("renderer/gg/draw.go", "	\"image/color\"\n", "	\"image/color\"\n	\"sort\"\n")], '''
s := parse(t, `<svg viewBox="0 0 9 9"><linearGradient id="g"><stop offset="1" stop-color="red"/><stop offset="0" stop-color="blue"/></linearGradient><rect width="9" height="9" fill="url(#g)" stroke="url(#g)"/></svg>`)
before := svg.GetColor(s.SvgPaths[0].Style.LinerColor)
ggr.Draw(gg.NewContext(9, 9), s)
if after := svg.GetColor(s.SvgPaths[0].Style.LinerColor); after != before {
	t.Error(before, after)
}
''', "a gradient whose stops are not in the order of their offsets", "drawing reorders the stops of the image's gradient", pkg="renderer/gg", imports=["github.com/fogleman/gg", '@ggr "github.com/lafriks/go-svg/renderer/gg'])
seed("opacity-folded", "C25", [("renderer/rasterx/draw.go", "	for _, svgp := range s.SvgPaths {\n", "	for i := range s.SvgPaths {\n		svgp := &s.SvgPaths[i]\n		svgp.Style.FillOpacity *= opt.Opacity\n		svgp.Style.LineOpacity *= opt.Opacity\n"), ("renderer/rasterx/draw.go", "		drawTransformed(gc, svgp, opt)", "		drawTransformed(gc, *svgp, &renderer.RenderOptions{Opacity: 1, Target: opt.Target})")], '''
s := parse(t, `<svg viewBox="0 0 9 9"><rect width="9" height="9" fill="red"/></svg>`)
draw := func() uint32 {
	img := image.NewRGBA(image.Rect(0, 0, 9, 9))
	rxr.Draw(rx.NewDasher(9, 9, rx.NewScannerGV(9, 9, img, img.Bounds())), s, renderer.Opacity(0.5))
	_, _, _, a := img.At(4, 4).RGBA()
	return a
}
if a, b := draw(), draw(); a != b {
	t.Error(a, b)
}
''', "an image drawn twice with an image opacity", "the opacity is folded into the image and applies again the next time", pkg="renderer/rasterx", imports=["image", "github.com/lafriks/go-svg/renderer", '@rx "github.com/srwiley/rasterx', '@rxr "github.com/lafriks/go-svg/renderer/rasterx'])
seed("last-unit", "C26", [("units.go", "	for u, suffix := range absoluteUnits {\n		if strings.HasSuffix(s, suffix) {", "	if v := strings.TrimSuffix(s, absoluteUnits[lastUnit]); v != s {\n		return lastUnit, strings.TrimSpace(v) // most documents use one unit\n	}\n	for u, suffix := range absoluteUnits {\n		if strings.HasSuffix(s, suffix) {\n			lastUnit = unite(u)"), ("units.go", "var root2 = math.Sqrt(2)\n", "var root2 = math.Sqrt(2)\n\nvar lastUnit unite\n")], '''
var wg sync.WaitGroup
for _, u := range []string{"mm", "pt", "in", "cm"} {
	wg.Add(1)
	go func(u string) {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			svg.Parse(strings.NewReader(`<svg><line x2="1`+u+`"/></svg>`), svg.StrictErrorMode)
		}
	}(u)
}
wg.Wait()
''', "two goroutines parsing lengths with units at the same time", "a data race on the remembered unit, which can even yield the wrong unit", imports=["sync"], race=True)
seed("dir-scratch", "C26", [("renderer/gg/draw.go", "func toGradient(g svg.Gradient, opacity float64) gg.Gradient {\n	var grad gg.Gradient\n", "var scratch []svg.GradStop\n\nfunc toGradient(g svg.Gradient, opacity float64) gg.Gradient {\n	var grad gg.Gradient\n	scratch = append(scratch[:0], g.Stops...)\n"), ("renderer/gg/draw.go", "	for _, stop := range g.Stops {", "	for _, stop := range scratch {")], '''
s := parse(t, `<svg viewBox="0 0 9 9"><linearGradient id="g"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="blue"/></linearGradient><rect width="9" height="9" fill="url(#g)"/></svg>`)
var wg sync.WaitGroup
for i := 0; i < 4; i++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 50; i++ {
			ggr.Draw(gg.NewContext(9, 9), s)
		}
	}()
}
wg.Wait()
''', "two goroutines drawing images with gradients at the same time", "a data race on the shared stop list; one image can get the other's stops", pkg="renderer/gg", imports=["sync", "github.com/fogleman/gg", '@ggr "github.com/lafriks/go-svg/renderer/gg'], race=True)
seed("dash-scale", "C19", [("renderer/draw2d/draw.go", "		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())", "		gc.SetLineWidth(svgp.Style.LineWidth * opt.Target.LineWidthScale() * svgp.Style.Transform.LineWidthScale())")], '''
s := parse(t, `<svg viewBox="0 0 20 40"><line x1="0" y1="5" x2="20" y2="5" stroke="red" stroke-width="4" transform="scale(2 1)"/></svg>`)
gc := &rec{GraphicContext: draw2dimg.NewGraphicContext(image.NewRGBA(image.Rect(0, 0, 40, 40)))}
draw2d.Draw(gc, s, renderer.Target(0, 0, 40, 160))
// target scales by 2 and 4, the element by 2 and 1: the mean scale of both together is 4
if gc.w != 16 {
	t.Error(gc.w)
}
''', "a stretching target together with a stretching element transform", "the stroke width uses the product of the mean scales, not the mean scale of the product", pkg="renderer/draw2d", imports=["image", '@d2d "github.com/llgcode/draw2d', "github.com/llgcode/draw2d/draw2dimg", "github.com/lafriks/go-svg/renderer/draw2d", "github.com/lafriks/go-svg/renderer"], helper='''
type rec struct {
	d2d.GraphicContext
	w float64
}

func (r *rec) SetLineWidth(w float64) { r.w = w; r.GraphicContext.SetLineWidth(w) }
''')
seed("radial-focus", "C20", [("renderer/rasterx/draw.go", "points[0], points[1], points[2], points[3], points[4], _ = dir[0], dir[1], dir[2], dir[3], dir[4], dir[5] // in rasterx fr is ignored", "points[0], points[1], points[2], points[3], points[4], _ = dir[0], dir[1], dir[0], dir[1], dir[4], dir[5] // in rasterx fr is ignored")], '''
s := parse(t, `<svg viewBox="0 0 20 20"><radialGradient id="g" fx="0.1" fy="0.1"><stop offset="0" stop-color="black"/><stop offset="1" stop-color="white"/></radialGradient><rect width="20" height="20" fill="url(#g)"/></svg>`)
img := image.NewRGBA(image.Rect(0, 0, 20, 20))
rxr.Draw(rx.NewDasher(20, 20, rx.NewScannerGV(20, 20, img, img.Bounds())), s)
if r, _, _, _ := img.At(10, 10).RGBA(); r>>8 < 60 {
	t.Error("the focus is at the centre", r>>8)
}
''', "a radial gradient with a focus of its own", "the focus is taken to be the centre", pkg="renderer/rasterx", imports=["image", '@rx "github.com/srwiley/rasterx', '@rxr "github.com/lafriks/go-svg/renderer/rasterx'])
seed("rotate-about", "C09", [("parse.go", "				Translate(-c.points[1], -c.points[2])", "				Translate(-c.points[2], -c.points[1])")], '''
s := parse(t, `<svg><line x2="1" transform="rotate(90 3 5)"/></svg>`)
if x, y := s.SvgPaths[0].Style.Transform.Transform(3, 5); x < 2.99 || x > 3.01 || y < 4.99 || y > 5.01 {
	t.Error(x, y)
}
''', "a rotation about a point off the diagonal", "the centre of the rotation moves")
seed("skew-shift", "C10", [("matrix.go", "		C: math.Tan(theta),\n", "		C: math.Sin(theta) / math.Sqrt(1-math.Sin(theta)*math.Sin(theta)),\n")], '''
if x, _ := svg.Identity.SkewX(2).Transform(0, 1); x > 0 {
	t.Error(x)
}
''', "a skew by more than a right angle", "the skew goes the other way")
seed("extent-width", "C24", [("patterns.go", "return Identity.Scale(g.Bounds.W, g.Bounds.H).Mult(g.Matrix)", "return g.Matrix.Scale(g.Bounds.W, g.Bounds.H)")], '''
g := svg.Gradient{Matrix: svg.Matrix2D{A: 1, D: 1, E: 2, F: 3}}
m := g.ApplyPathExtent(fixed.R(0, 0, 10, 20))
if m.E != 20 || m.F != 60 {
	t.Error(m)
}
''', "a bounding box gradient with a gradient transform that translates", "the translation is not scaled by the extent", imports=["golang.org/x/image/math/fixed"])

seed("lenient-xml", "C21", [("svg.go", "	decoder.CharsetReader = charset.NewReaderLabel\n", "	decoder.Strict, decoder.CharsetReader = false, charset.NewReaderLabel\n")], '''
if _, err := svg.Parse(strings.NewReader(`<svg><line x2="4"/><g></svg>`), svg.IgnoreErrorMode); err == nil {
	t.Error("an element is never closed, and nobody is told")
}
''', "a document whose elements do not nest", "malformed XML is read without an error")
seed("quad-straight", "C27", [("path.go", "	*p = append(*p, OpQuadTo{b, c})\n", "	if b == c { // the curve degenerates to a line\n		p.Line(c)\n		return\n	}\n	*p = append(*p, OpQuadTo{b, c})\n")], '''
var p svg.Path
p.QuadBezier(fixed.P(3, 4), fixed.P(3, 4))
if s := p.ToSVGPath(); s != "Q3.000,4.000,3.000,4.000" {
	t.Error(s)
}
''', "a quadratic segment whose control point is its end point", "the segment is recorded as a line", imports=["golang.org/x/image/math/fixed"])
seed("gap-name", "C27", [("types.go", '		return "CubicGap"', '		return "CubicCap"')], '''
if s := fmt.Sprint(svg.CubicGap); s != "CubicGap" {
	t.Error(s)
}
''', "printing the cubic gap mode", "the name of a cap is printed for a gap")
seed("close-only-once", "C02", [("parse_path.go", "			c.placeX = c.pathStartX\n			c.placeY = c.pathStartY\n			c.inPath = false\n", "			c.inPath = false\n			if c.lastKey != 'm' && c.lastKey != 'M' {\n				c.placeX, c.placeY = c.pathStartX, c.pathStartY\n			}\n")], '''
s := parse(t, `<svg><path d="M1 1 5 5 z l1 0"/></svg>`)
wantPath(t, s, 0, "M1.000,1.000 L5.000,5.000 Z M1.000,1.000 L2.000,1.000")
''', "a subpath made of a move with more than one pair, closed, then continued relatively", "the current point stays at the end of the closed subpath")
seed("alias-long", "C15", [("parse.go", "		pathCopy := append(Path{}, c.path...)\n", "		pathCopy := c.path\n		if len(pathCopy) < 100 {\n			pathCopy = append(Path{}, c.path...)\n		}\n")], '''
d := "M1 1" + strings.Repeat("L2 2", 150)
s := parse(t, `<svg><path d="`+d+`"/><path d="M7 7L8 8"/></svg>`)
if fmt.Sprint(s.SvgPaths[0].Path[0]) != "M1.000,1.000" {
	t.Error(s.SvgPaths[0].Path[0])
}
''', "a path of a hundred or more operations followed by another drawn element", "the later path overwrites the beginning of the long one")
seed("stop-monotone", "C20", [("renderer/rasterx/draw.go", "		stops[i] = rasterx.GradStop(grad.Stops[i])\n", "		if i > 0 && grad.Stops[i].Offset < grad.Stops[i-1].Offset {\n			grad.Stops[i].Offset = grad.Stops[i-1].Offset\n		}\n		stops[i] = rasterx.GradStop(grad.Stops[i])\n")], '''
s := parse(t, `<svg viewBox="0 0 20 20"><linearGradient id="g"><stop offset="1" stop-color="white"/><stop offset="0" stop-color="black"/></linearGradient><rect width="20" height="20" fill="url(#g)"/></svg>`)
img := image.NewRGBA(image.Rect(0, 0, 20, 20))
rxr.Draw(rx.NewDasher(20, 20, rx.NewScannerGV(20, 20, img, img.Bounds())), s)
g := s.SvgPaths[0].Style.FillerColor.(svg.Gradient)
if g.Stops[1].Offset != 0 {
	t.Error(g.Stops)
}
''', "a gradient whose stops are not in the order of their offsets", "the offsets are changed before painting, and stay changed in the image", pkg="renderer/rasterx", imports=["image", '@rx "github.com/srwiley/rasterx', '@rxr "github.com/lafriks/go-svg/renderer/rasterx'])
seed("warn-style", "C14", [("parse.go", "		} else if c.errorMode == WarnErrorMode {\n			log.Println(errStr)\n		}\n		return nil\n	}\n	err = df", "		} else if c.errorMode == WarnErrorMode && se.Name.Local != \"metadata\" {\n			log.Println(errStr)\n		}\n		return nil\n	}\n	err = df")], '''
var b strings.Builder
log.SetOutput(&b)
if _, err := svg.Parse(strings.NewReader(`<svg><metadata/><line/></svg>`), svg.WarnErrorMode); err != nil {
	t.Fatal(err)
}
if b.Len() == 0 {
	t.Error("skipped in silence")
}
''', "one particular unsupported element in warn mode", "it is skipped without a message", imports=["log"])
seed("foreign-skip", "C14", [("svg.go", "			err = svgCursor.readStartElement(se)\n", "			if strings.HasPrefix(se.Name.Space, \"urn:\") {\n				svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]\n				if err = decoder.Skip(); err != nil {\n					return svg, err\n				}\n				continue\n			}\n			err = svgCursor.readStartElement(se)\n"), ("svg.go", '	"os"\n', '	"os"\n	"strings"\n')], '''
s, err := svg.Parse(strings.NewReader(`<svg xmlns:x="urn:x"><x:layer><line x2="3"/></x:layer></svg>`), svg.IgnoreErrorMode)
if err != nil || len(s.SvgPaths) != 1 {
	t.Error("the line in the layer is lost", err)
}
''', "an unknown element of a declared namespace with shapes in it", "its children are skipped with it")
seed("hex-alpha", "C07", [("patterns.go", "	colorStr = strings.TrimPrefix(colorStr, \"#\")\n", "	colorStr = strings.TrimPrefix(colorStr, \"#\")\n	if len(colorStr) == 8 { // the opacity is not used\n		colorStr = colorStr[:6]\n	}\n")], '''
if _, err := svg.Parse(strings.NewReader(`<svg><line x2="1" stroke="#11223344"/></svg>`), svg.IgnoreErrorMode); err == nil {
	t.Error("accepted")
}
''', "a hexadecimal colour with eight digits", "a text that is not a supported colour becomes an opaque one")
