From a353e7db58f52e1755817cc4ce7273a6da394ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 01/28] fix: compose transforms in SVG order

Mult, Scale and Translate right-multiply the whole affine matrix, a transform
list is composed left to right on top of the inherited transform, and the
target rectangle is applied after the element transform.
---
 matrix.go                | 16 ++++++++--------
 parse.go                 |  7 ++++---
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..bc0ccd2 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -108,11 +108,11 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
 	return Matrix2D{
 		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
+		B: a.B * x,
+		C: a.C * y,
 		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
+		E: a.E,
+		F: a.F,
 	}
 }
 
@@ -147,8 +147,8 @@ func (a Matrix2D) Translate(x, y float64) Matrix2D {
 		B: a.B,
 		C: a.C,
 		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
+		E: a.A*x + a.C*y + a.E,
+		F: a.B*x + a.D*y + a.F,
 	}
 }
 
diff --git a/parse.go b/parse.go
index a45309f..d69eb5e 100644
--- a/parse.go
+++ b/parse.go
@@ -109,9 +109,10 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
-		t := strings.TrimSpace(ts[i])
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
+	// so each one is multiplied to the right of those before it.
+	for i := range ts {
+		t := strings.TrimLeft(ts[i], ", \t\r\n")
 		if len(t) == 0 {
 			continue
 		}
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..72b0879 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From cacd509317f64da8326c57bfb97e0708b13a6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:13 +0000
Subject: [PATCH 02/28] fix: translate(x) moves along the x axis only

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d69eb5e..50c30d2 100644
--- a/parse.go
+++ b/parse.go
@@ -60,7 +60,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
-- 
2.43.0


From b2a7865f5561bf99ae01af133a8171836430cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:14 +0000
Subject: [PATCH 03/28] fix: gradientTransform is independent of the transform
 of its ancestors

---
 parse.go    | 6 +++---
 patterns.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 50c30d2..240bc9c 100644
--- a/parse.go
+++ b/parse.go
@@ -105,9 +105,9 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 	return m1, nil
 }
 
-func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
+// parseTransform parses a transform list and multiplies it to the right of m1.
+func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
-	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
 	// so each one is multiplied to the right of those before it.
@@ -285,7 +285,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.LineOpacity *= op
 		}
 	case "transform":
-		m, err := c.parseTransform(v)
+		m, err := c.parseTransform(c.styleStack[len(c.styleStack)-1].Transform, v)
 		if err != nil {
 			return err
 		}
diff --git a/patterns.go b/patterns.go
index fe7f40f..70afbd4 100644
--- a/patterns.go
+++ b/patterns.go
@@ -274,7 +274,7 @@ func (c *svgCursor) readGradURL(v string, defaultColor Pattern) (grad Gradient,
 func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 	switch attr.Name.Local {
 	case "gradientTransform":
-		c.grad.Matrix, err = c.parseTransform(attr.Value)
+		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)
 	case "gradientUnits":
 		switch strings.TrimSpace(attr.Value) {
 		case "userSpaceOnUse":
-- 
2.43.0


From 7dec26c09aeb3eca5f3dbb338c64694bbf3cddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:03 +0000
Subject: [PATCH 04/28] fix: draw every arc of an arc command with its own
 arguments

Arcs after the first one reused the first one's arguments, offset paths bent
their arcs back to the unshifted endpoint, and zero or negative radii and
coincident endpoints gave NaN coordinates.
---
 parse_path.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..91edf33 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -398,7 +398,19 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
-	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
-		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	startX, startY := c.placeX, c.placeY
+	endX, endY := points[5], points[6]
+	c.placeX, c.placeY = endX, endY
+	if startX == endX && startY == endY {
+		return // coincident endpoints: the arc is omitted
+	}
+	if points[0] == 0 || points[1] == 0 { // a zero radius draws a straight line
+		c.path.Line(toFixedP(endX+c.curX, endY+c.curY))
+		return
+	}
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
+	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, startX,
+		startY, endX, endY, points[4] == 0, points[3] == 0)
+	points[5], points[6] = endX+c.curX, endY+c.curY
+	c.path.addArc(points, cx+c.curX, cy+c.curY, startX+c.curX, startY+c.curY)
 }
-- 
2.43.0


From dcd2ee2d45c1c9b393e8158300a9f1bc62e60e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:04 +0000
Subject: [PATCH 05/28] fix: reject malformed colours and clamp rgb()
 components

Empty and short colour texts made the parser panic, #rgb shorthands of any
length other than 3 or 6 gave arbitrary colours, and negative components and
percentages over 100% wrapped around.
---
 patterns.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/patterns.go b/patterns.go
index 70afbd4..3ade4aa 100644
--- a/patterns.go
+++ b/patterns.go
@@ -75,10 +75,13 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 	}
 	cStr := strings.TrimPrefix(colorStr, "rgb(")
 	if cStr != colorStr {
+		if !strings.HasSuffix(cStr, ")") {
+			return optionnalColor{}, errParamMismatch
+		}
 		cStr := strings.TrimSuffix(cStr, ")")
 		vals := strings.Split(cStr, ",")
 		if len(vals) != 3 {
-			return toOptColor(PlainColor{}), errParamMismatch
+			return optionnalColor{}, errParamMismatch
 		}
 		var cvals [3]uint8
 		var err error
@@ -90,7 +93,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,15 +104,23 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	v = strings.TrimSpace(v)
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
 		}
+		if n < 0 {
+			n = 0
+		} else if n > 100 {
+			n = 100
+		}
 		return uint8(n * 0xFF / 100), nil
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
+	n, err := strconv.Atoi(v)
+	if n < 0 {
+		n = 0
+	} else if n > 255 {
 		n = 255
 	}
 	return uint8(n), err
@@ -119,7 +130,10 @@ func parseColorValue(v string) (uint8, error) {
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	if len(colorStr) != 3 && len(colorStr) != 6 {
+		return 0, 0, 0, errParamMismatch
+	}
+	if len(colorStr) == 3 {
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
-- 
2.43.0


From 393a999d27dcd4a473cdd9c25a735315777e394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:30 +0000
Subject: [PATCH 06/28] fix: store definitions by the extent of their element

Each element with an id inside defs is now stored from its start to its end:
content without an id no longer attaches to the preceding definition, a group's
end no longer closes the definition of its last child, elements inside groups
can be referenced, and masks inside defs are collected.
---
 parse.go        | 59 ++++++++++++++++++++++++++++++++++++++++---------
 svg.go          | 15 +++----------
 svg_elements.go |  6 +----
 3 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/parse.go b/parse.go
index 240bc9c..048e2d5 100644
--- a/parse.go
+++ b/parse.go
@@ -20,16 +20,23 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
+		openDefs                                        []int // start in currentDef of each open element inside defs, or liveDef or nestedDefs
 		mask                                            *SvgMask
 	}
 
-	// definition is used to store what's given in a def tag
+	// definition is used to store what's given in a def tag.
+	// The end of an element is stored with an empty Tag.
 	definition struct {
 		ID, Tag string
 		Attrs   []xml.Attr
 	}
 )
 
+const (
+	liveDef    = -1 // the element is processed directly, not stored
+	nestedDefs = -2 // defs inside defs
+)
+
 func fToFixed(f float64) fixed.Int26_6 {
 	return fixed.Int26_6(f * 64)
 }
@@ -339,27 +346,59 @@ func splitOnCommaOrSpace(s string) []string {
 		})
 }
 
-func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
-	var skipDef bool
-	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
-		skipDef = true
+// openDef handles the start of an element inside defs. It returns false if the element
+// has to be processed directly: gradients, masks, titles, descriptions and their content.
+func (c *svgCursor) openDef(se xml.StartElement) bool {
+	start := len(c.currentDef)
+	switch se.Name.Local {
+	case "defs":
+		start = nestedDefs
+	case "radialGradient", "linearGradient", "mask", "title", "desc":
+		start = liveDef
+	default:
+		if n := len(c.openDefs); n > 0 && c.openDefs[n-1] == liveDef {
+			start = liveDef
+		}
 	}
-	if c.inDefs && !skipDef {
+	c.openDefs = append(c.openDefs, start)
+	if start >= 0 {
 		ID := ""
 		for _, attr := range se.Attr {
 			if attr.Name.Local == "id" {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
 			Attrs: se.Attr,
 		})
+	}
+	return start != liveDef
+}
+
+// closeDef handles the end of an element inside defs, and of the defs element itself.
+// The definition of an element runs from its start to its end.
+func (c *svgCursor) closeDef() {
+	n := len(c.openDefs)
+	if n == 0 {
+		c.currentDef = nil
+		c.inDefs = false
+		return
+	}
+	start := c.openDefs[n-1]
+	c.openDefs = c.openDefs[:n-1]
+	if start < 0 {
+		return
+	}
+	c.currentDef = append(c.currentDef, definition{})
+	if ID := c.currentDef[start].ID; ID != "" {
+		c.svg.defs[ID] = c.currentDef[start:len(c.currentDef):len(c.currentDef)]
+	}
+}
+
+func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
+	if c.inDefs && c.openDef(se) {
 		return nil
 	}
 	df, ok := drawFuncs[se.Name.Local]
diff --git a/svg.go b/svg.go
index 81bd73d..0be69e9 100644
--- a/svg.go
+++ b/svg.go
@@ -97,13 +97,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		case xml.EndElement:
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
+			if svgCursor.inDefs {
+				svgCursor.closeDef()
+			}
 			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
@@ -114,12 +111,6 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				svgCursor.inTitleText = false
 			case "desc":
 				svgCursor.inDescText = false
-			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
-				}
-				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
 				svgCursor.inGrad = false
 			}
diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..120a3b7 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -473,7 +473,7 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.Tag == "" {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
 			continue
@@ -489,10 +489,6 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
 	}
 	return nil
 }
-- 
2.43.0


From b72791319b1e5a578134816cbd837f0b92c4e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 07/28] fix: instantiate every shape of a used definition with
 its own style

All shapes of a used group were merged into one path with the style of the use
element, an unknown element cut the instance short and unbalanced the style
stack, x and y were lost after a nested use, and self references recursed
without bound.
---
 parse.go        |  9 +++++++--
 svg_elements.go | 26 +++++++++++++++++++-------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/parse.go b/parse.go
index 048e2d5..4c7edee 100644
--- a/parse.go
+++ b/parse.go
@@ -20,7 +20,8 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
-		openDefs                                        []int // start in currentDef of each open element inside defs, or liveDef or nestedDefs
+		openUses                                        []string // ids of the definitions being instantiated
+		openDefs                                        []int    // start in currentDef of each open element inside defs, or liveDef or nestedDefs
 		mask                                            *SvgMask
 	}
 
@@ -412,7 +413,12 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.storePath()
+	return
+}
 
+// storePath adds the path read from the current element, if any, with the current style.
+func (c *svgCursor) storePath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -425,5 +431,4 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
diff --git a/svg_elements.go b/svg_elements.go
index 120a3b7..b2c250c 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -458,20 +458,29 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
 	if !strings.HasPrefix(href, "#") {
 		return errors.New("only the ID CSS selector is supported")
 	}
-	defs, ok := c.svg.defs[href[1:]]
+	ID := href[1:]
+	defs, ok := c.svg.defs[ID]
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	for _, open := range c.openUses {
+		if open == ID {
+			return errors.New("circular reference in use statement")
+		}
+	}
+	c.openUses = append(c.openUses, ID)
+	defer func() {
+		c.openUses = c.openUses[:len(c.openUses)-1]
+	}()
+	// the content is shifted by x, y in the coordinate system of the use element
+	style := &c.styleStack[len(c.styleStack)-1]
+	style.Transform = style.Transform.Translate(x, y)
 	for _, def := range defs {
 		if def.Tag == "" {
 			// pop style
@@ -483,12 +492,15 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			continue
 		}
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
+		c.storePath()
 	}
 	return nil
 }
-- 
2.43.0


From 42dc155f20cf550adc53de2d2759e2fab3d8f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:52 +0000
Subject: [PATCH 08/28] fix: keep mask references of sibling elements apart

Siblings appended to the same backing array, so a later element could replace
the mask of an earlier one; mask="none" added an empty reference.
---
 parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4c7edee..a8e81f7 100644
--- a/parse.go
+++ b/parse.go
@@ -303,7 +303,10 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		if id != "" {
+			// the slice is shared with the parent style: never append in place
+			curStyle.Masks = append(curStyle.Masks[:len(curStyle.Masks):len(curStyle.Masks)], id)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 6381f6629c35c30b4301763224d2122e62014118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:53 +0000
Subject: [PATCH 09/28] fix: polylines draw their own points only

Without a points attribute the numbers of a previous element were drawn, and
two point lists were ignored.
---
 svg_elements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index b2c250c..8449cc3 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0]
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
@@ -218,7 +219,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -235,7 +236,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From 3774cbd98396174da8f24b0cb4a3b26211170c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:54 +0000
Subject: [PATCH 10/28] fix: print a single command letter for cubic curves

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 5129d15cf777eda6cc13beefa9b77b2c2d929dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:55 +0000
Subject: [PATCH 11/28] fix: render without a target using the identity
 transform

---
 renderer/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/options.go b/renderer/options.go
index 72b0879..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From 0f325cef1a87de3e6c4f1e1936f48214ad4adfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:25 +0000
Subject: [PATCH 12/28] fix: read E exponents, signed exponents and numbers
 after an exponent

---
 parse_path.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 91edf33..ba3df21 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -57,7 +57,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -113,6 +113,9 @@ func (c *pathCursor) readFloat(numStr string) error {
 	last := 0
 	isFirst := true
 	for i, n := range numStr {
+		if n == 'e' || n == 'E' {
+			isFirst = false // an exponent has no decimal point
+		}
 		if n == '.' {
 			if isFirst {
 				isFirst = false
@@ -141,7 +144,7 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		if !unicode.IsNumber(r) && r != '.' && !((r == '-' || r == '+') && (lr == 'e' || lr == 'E')) && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From 0457ddab50157bd9a6fb95ed2a85c6be539ae954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:01 +0000
Subject: [PATCH 13/28] fix: reject hexadecimal, infinite and not-a-number
 lengths

---
 units.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/units.go b/units.go
index a3d1cbd..0f738a3 100644
--- a/units.go
+++ b/units.go
@@ -42,6 +42,10 @@ func findUnit(s string) (u unite, value string) {
 // convert the unite to pixels. Return true if it is a %
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
+	if strings.Trim(value, "+-.0123456789eE") != "" {
+		// ParseFloat also accepts hexadecimal, infinite and not a number values
+		return 0, false, &strconv.NumError{Func: "ParseFloat", Num: value, Err: strconv.ErrSyntax}
+	}
 	out, err := strconv.ParseFloat(value, 64)
 	return out * toPx[unite], unite == Perc, err
 }
-- 
2.43.0


From 07d78779334a1a1ac13c93ae5c1345efe8bd76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:02 +0000
Subject: [PATCH 14/28] fix: start a new subpath when drawing goes on after a
 close

Also an ignored path command no longer counts as the previous command.
---
 parse_path.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index ba3df21..78643a1 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -196,6 +196,14 @@ func (c *pathCursor) addSeg(segString string) error {
 	l := len(c.points)
 	k := segString[0]
 	rel := false
+	if c.lastKey == 'z' || c.lastKey == 'Z' {
+		switch k {
+		case 'l', 'L', 'v', 'V', 'h', 'H', 'q', 'Q', 't', 'T', 'c', 'C', 's', 'S', 'a', 'A':
+			// after a close, the next subpath starts at the same point
+			c.inPath = true
+			c.path.Start(toFixedP(c.placeX+c.curX, c.placeY+c.curY))
+		}
+	}
 	switch k {
 	case 'z':
 		fallthrough
@@ -379,6 +387,7 @@ func (c *pathCursor) addSeg(segString string) error {
 		if c.errorMode == WarnErrorMode {
 			log.Println("Ignoring svg command " + string(k))
 		}
+		return nil
 	}
 	// So we know how to extend some segment types
 	c.lastKey = k
-- 
2.43.0


From 57f342e9102edbc85306e147f7b131bbe58eb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:32 +0000
Subject: [PATCH 15/28] fix: style declarations override attributes

The later of a style declaration and an attribute won, repeated opacities were
multiplied and repeated masks accumulated, and values were cut at a colon.
---
 parse.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/parse.go b/parse.go
index a8e81f7..1111a40 100644
--- a/parse.go
+++ b/parse.go
@@ -315,27 +315,37 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs, declarations []string
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			declarations = append(declarations, strings.Split(attr.Value, ";")...)
 		default:
 			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
 		}
 	}
+	// Style declarations override attributes
+	pairs = append(pairs, declarations...)
+	// Only the last value of each property counts
+	var keys []string
+	values := make(map[string]string)
+	for _, pair := range pairs {
+		k, v, ok := strings.Cut(pair, ":")
+		if !ok {
+			continue
+		}
+		k = strings.TrimSpace(strings.ToLower(k))
+		if _, seen := values[k]; !seen {
+			keys = append(keys, k)
+		}
+		values[k] = strings.TrimSpace(v)
+	}
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
-	for _, pair := range pairs {
-		kv := strings.Split(pair, ":")
-		if len(kv) >= 2 {
-			k := strings.ToLower(kv[0])
-			k = strings.TrimSpace(k)
-			v := strings.TrimSpace(kv[1])
-			err := c.readStyleAttr(&curStyle, k, v)
-			if err != nil {
-				return err
-			}
+	for _, k := range keys {
+		err := c.readStyleAttr(&curStyle, k, values[k])
+		if err != nil {
+			return err
 		}
 	}
 	c.styleStack = append(c.styleStack, curStyle) // Push style onto stack
-- 
2.43.0


From 97d612a3a7467f40195b61591c203a995f8e82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 16/28] fix: stroke-dasharray none turns inherited dashes off

Also dashes may be separated by any white space.
---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 1111a40..b26ffeb 100644
--- a/parse.go
+++ b/parse.go
@@ -281,6 +281,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.Dash.Dash = dList
 			break
 		}
+		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := parseBasicFloat(v)
 		if err != nil {
@@ -352,11 +353,11 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	return nil
 }
 
-// splitOnCommaOrSpace returns a list of strings after splitting the input on comma and space delimiters
+// splitOnCommaOrSpace returns a list of strings after splitting the input on comma and white space delimiters
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
 		func(r rune) bool {
-			return r == ',' || r == ' '
+			return r == ',' || r == ' ' || r == '\t' || r == '\n' || r == '\r'
 		})
 }
 
-- 
2.43.0


From caa58c62b883839bf06fb0233eba8f8fdd5e864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:34 +0000
Subject: [PATCH 17/28] fix: read opacity percentages and limit opacities to
 [0,1]

---
 parse.go        | 2 +-
 svg_elements.go | 2 +-
 units.go        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index b26ffeb..4105569 100644
--- a/parse.go
+++ b/parse.go
@@ -283,7 +283,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := readOpacity(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index 8449cc3..5c5f1b3 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -429,7 +429,7 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = readOpacity(attr.Value)
 			}
 			if err != nil {
 				return err
diff --git a/units.go b/units.go
index 0f738a3..f95a187 100644
--- a/units.go
+++ b/units.go
@@ -109,3 +109,9 @@ func readFraction(v string) (f float64, err error) {
 	// }
 	return
 }
+
+// readOpacity reads a number or a percentage, limited to the range [0,1]
+func readOpacity(v string) (float64, error) {
+	f, err := readFraction(v)
+	return math.Max(0, math.Min(1, f)), err
+}
-- 
2.43.0


From f2dea1396242e2fe949187501bccc872644b221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:55 +0000
Subject: [PATCH 18/28] fix: gg: keep the fill paint and open subpaths of
 stroked paths

Setting the stroke colour replaced the fill paint, every move closed the
subpath before it, and a path without any paint was painted with the next one.
---
 renderer/gg/draw.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..5268ad1 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
@@ -125,15 +124,16 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
+	gc.ClearPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From d62408a5910ea506884bc3ad4a0e16ab03a4a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:56 +0000
Subject: [PATCH 19/28] fix: draw2d: draw all subpaths of a path

Every move began a new path, so only the last subpath was painted.
---
 renderer/draw2d/draw.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..e8a96d8 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -101,6 +99,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 2fe2d649540553ddbf0f0225229178bf94a0e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:27 +0000
Subject: [PATCH 20/28] fix: radial gradients run from the focal point to the
 outer circle

---
 renderer/gg/draw.go | 2 +-
 svg_elements.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 5268ad1..e2a427b 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -79,7 +79,7 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 		grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3])
 	case svg.Radial:
 		// cx, cy, fx, fy, r, fr
-		grad = gg.NewRadialGradient(dir[0], dir[1], dir[4], dir[2], dir[3], dir[5])
+		grad = gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])
 	}
 	for _, stop := range g.Stops {
 		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))
diff --git a/svg_elements.go b/svg_elements.go
index 5c5f1b3..d0f2453 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -336,7 +336,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 6b14e267bc17ca149d560a0db3d58c88e99ffb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:28 +0000
Subject: [PATCH 21/28] fix: gg: apply the transforms of shapes inside a mask

---
 renderer/gg/draw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index e2a427b..5bfccad 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -178,7 +178,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From d91d1973cfa6f591ea0b7ff66a7774822bc51ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:50 +0000
Subject: [PATCH 22/28] fix: reject transform functions without closing
 parenthesis

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4105569..7b8f219 100644
--- a/parse.go
+++ b/parse.go
@@ -125,7 +125,7 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 			continue
 		}
 		d := strings.Split(t, "(")
-		if len(d) != 2 || len(d[1]) < 1 {
+		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
 			return m1, errParamMismatch // badly formed transformation
 		}
 		err := c.getPoints(d[1])
-- 
2.43.0


From efd4b530808f46636b09e54eeac2e8c226dbb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:36 +0000
Subject: [PATCH 23/28] fix: gg renderer recursed forever on a mask that refers
 to itself

---
 renderer/gg/draw.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 5bfccad..076e453 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -88,10 +88,11 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// drawing holds the masks the path is part of.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, drawing ...string) error {
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, drawing)
 		if err != nil {
 			return err
 		}
@@ -153,13 +154,21 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, drawing []string) (*image.Alpha, error) {
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+	id := masks[len(masks)-1]
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
 	}
+	for _, d := range drawing {
+		if d == id {
+			// Mask refers to itself, skip the reference.
+			return nil, nil
+		}
+	}
+	drawing = append(drawing[:len(drawing):len(drawing)], id)
 
 	// TODO: How mask position/size should be applied?
 	// w := mask.W
@@ -178,7 +187,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, drawing...); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From e1a82e19d7ec1ae4584e3a77568c780f973bc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:36 +0000
Subject: [PATCH 24/28] fix: rasterx renderer drew strokes with the even-odd
 rule after an even-odd fill

---
 renderer/rasterx/draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..c1a8144 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -154,6 +154,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	if svgp.Style.LinerColor != nil {
 		stroker := &gc.Stroker
 		stroker.Clear()
+		// The outline of a stroke is not affected by the fill rule.
+		stroker.SetWinding(true)
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
-- 
2.43.0


From 4e6add39b83d01a39c9dfba8aaba1b102f7d5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:41 +0000
Subject: [PATCH 25/28] fix: stroke dashes of no length or negative length no
 longer hang gg and draw2d

---
 renderer/draw2d/draw.go | 18 +++++++++++++++++-
 renderer/gg/draw.go     | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index e8a96d8..46f394f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -60,6 +60,22 @@ func toLineJoin(join svg.JoinMode) draw2d.LineJoin {
 	return draw2d.MiterJoin
 }
 
+// toDash returns the dash lengths, or none when they are not valid: with a negative
+// length, or with nothing but zeros, a line is solid.
+func toDash(dashes []float64) []float64 {
+	var sum float64
+	for _, d := range dashes {
+		if d < 0 {
+			return nil
+		}
+		sum += d
+	}
+	if !(sum > 0) {
+		return nil
+	}
+	return dashes
+}
+
 func toColor(c color.Color, opacity float64) color.Color {
 	r, g, b, a := c.RGBA()
 	return color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(uint32(float64(a)*opacity) >> 8)}
@@ -96,7 +112,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+		gc.SetLineDash(toDash(svgp.Style.Dash.Dash), svgp.Style.Dash.DashOffset)
 	}
 
 	gc.BeginPath()
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 076e453..76f3492 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -66,6 +66,22 @@ func toLineJoin(join svg.JoinMode) gg.LineJoin {
 	return gg.LineJoinBevel
 }
 
+// toDash returns the dash lengths, or none when they are not valid: with a negative
+// length, or with nothing but zeros, a line is solid.
+func toDash(dashes []float64) []float64 {
+	var sum float64
+	for _, d := range dashes {
+		if d < 0 {
+			return nil
+		}
+		sum += d
+	}
+	if !(sum > 0) {
+		return nil
+	}
+	return dashes
+}
+
 func toColor(c color.Color, opacity float64) color.Color {
 	r, g, b, a := c.RGBA()
 	return color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(uint32(float64(a)*opacity) >> 8)}
@@ -130,7 +146,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetDash(svgp.Style.Dash.Dash...)
+		gc.SetDash(toDash(svgp.Style.Dash.Dash)...)
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
-- 
2.43.0


From 68e14d4c35a621b827cebbd88771f15b4d248fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 26/28] fix: a percentage stroke-width refers to the diagonal
 of the viewBox, not its width

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7b8f219..ef87f13 100644
--- a/parse.go
+++ b/parse.go
@@ -256,7 +256,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 772e29108564fe28de37511cf3a33b0fb26ead9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:57 +0000
Subject: [PATCH 27/28] fix: a nested svg element no longer replaces the
 viewBox and size of the document

---
 parse.go        | 1 +
 svg_elements.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/parse.go b/parse.go
index ef87f13..dc59097 100644
--- a/parse.go
+++ b/parse.go
@@ -23,6 +23,7 @@ type (
 		openUses                                        []string // ids of the definitions being instantiated
 		openDefs                                        []int    // start in currentDef of each open element inside defs, or liveDef or nestedDefs
 		mask                                            *SvgMask
+		hasRoot                                         bool // the outermost svg element has been read
 	}
 
 	// definition is used to store what's given in a def tag.
diff --git a/svg_elements.go b/svg_elements.go
index d0f2453..50d16c2 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,11 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if c.hasRoot { // only the outermost svg element tells the size of the document
+		viewBox, w, h := c.svg.ViewBox, c.svg.Width, c.svg.Height
+		defer func() { c.svg.ViewBox, c.svg.Width, c.svg.Height = viewBox, w, h }()
+	}
+	c.hasRoot = true
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From 6bc444f316915fac62b222b4e9fdd0e4850fc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:27 +0000
Subject: [PATCH 28/28] fix: a mask inside a mask no longer ends the outer one

---
 parse.go        | 3 ++-
 svg.go          | 6 +++++-
 svg_elements.go | 3 +++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index dc59097..513fa25 100644
--- a/parse.go
+++ b/parse.go
@@ -23,7 +23,8 @@ type (
 		openUses                                        []string // ids of the definitions being instantiated
 		openDefs                                        []int    // start in currentDef of each open element inside defs, or liveDef or nestedDefs
 		mask                                            *SvgMask
-		hasRoot                                         bool // the outermost svg element has been read
+		outerMasks                                      []*SvgMask // masks around the current one
+		hasRoot                                         bool       // the outermost svg element has been read
 	}
 
 	// definition is used to store what's given in a def tag.
diff --git a/svg.go b/svg.go
index 0be69e9..5ae1969 100644
--- a/svg.go
+++ b/svg.go
@@ -106,7 +106,11 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
 					svgCursor.mask = nil
 				}
-				svgCursor.inMask = false
+				if n := len(svgCursor.outerMasks); n > 0 {
+					svgCursor.mask = svgCursor.outerMasks[n-1]
+					svgCursor.outerMasks = svgCursor.outerMasks[:n-1]
+				}
+				svgCursor.inMask = svgCursor.mask != nil
 			case "title":
 				svgCursor.inTitleText = false
 			case "desc":
diff --git a/svg_elements.go b/svg_elements.go
index 50d16c2..15debfb 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -140,6 +140,9 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 	}
 
 	c.inMask = true
+	if c.mask != nil {
+		c.outerMasks = append(c.outerMasks, c.mask)
+	}
 	c.mask = &SvgMask{
 		ID:        id,
 		X:         x,
-- 
2.43.0

