#!/usr/bin/env python3
"""Behaviour-preserving edits, to confirm that the checks stay quiet on them (and still see the code).
usage: refactors.py DIR [group...]   applies the groups to the scratch copy DIR of /repo, then builds and tests it"""
import re, subprocess, sys
GROUPS = {}
def group(name):
    def d(f): GROUPS[name] = f; return f
    return d
class T:
    def __init__(s, d): s.d = d
    def read(s, f): return open(s.d + "/" + f).read()
    def write(s, f, t): open(s.d + "/" + f, "w").write(t)
    def sub(s, f, old, new, n=1):
        t = s.read(f); assert t.count(old) == n, (f, old[:50], t.count(old)); s.write(f, t.replace(old, new))
    def func(s, f, name, body):
        """replaces the whole function whose declaration starts with name"""
        t = s.read(f); i = t.index(name); j = t.index("\n}\n", i) + 3; s.write(f, t[:i] + body.strip("\n") + "\n" + t[j:])
    def imports(s, f, *add):
        t = s.read(f); i = t.index("import (\n") + 9
        s.write(f, t[:i] + "".join('\t"%s"\n' % a for a in add if '"%s"' % a not in t) + t[i:])
    def unimport(s, f, *rm):
        t = s.read(f)
        for a in rm: t = t.replace('\t"%s"\n' % a, "")
        s.write(f, t)

@group("a")
def a(t):
    # points through one helper
    p = t.read("parse_path.go")
    p = re.sub(r"fixed\.Point26_6\{\s*X: fixed\.Int26_6\(\(([\w.\[\]+]+) \+ c\.curX\) \* 64\),\s*Y: fixed\.Int26_6\(\(([\w.\[\]+]+) \+ c\.curY\) \* 64\),?\s*\}", r"c.at(\1, \2)", p)
    p += '''
// at is the fixed point at x, y
func (c *pathCursor) at(x, y float64) fixed.Point26_6 {
	return toFixedP(x+c.curX, y+c.curY)
}
'''
    p = p.replace('''	switch c.lastKey {
	case 'q', 'Q', 'T', 't':
		c.cntlPtX, c.cntlPtY = reflect(c.placeX, c.placeY, c.cntlPtX, c.cntlPtY)
	default:
		c.cntlPtX, c.cntlPtY = c.placeX, c.placeY
	}
''', '''	c.reflectAfter("qQtT")
''').replace('''	switch c.lastKey {
	case 'c', 'C', 's', 'S':
		c.cntlPtX, c.cntlPtY = reflect(c.placeX, c.placeY, c.cntlPtX, c.cntlPtY)
	default:
		c.cntlPtX, c.cntlPtY = c.placeX, c.placeY
	}
''', '''	c.reflectAfter("cCsS")
''') + '''
func (c *pathCursor) reflectAfter(keys string) {
	x, y := c.placeX, c.placeY
	if strings.IndexByte(keys, c.lastKey) >= 0 {
		x, y = reflect(x, y, c.cntlPtX, c.cntlPtY)
	}
	c.cntlPtX, c.cntlPtY = x, y
}
'''
    t.write("parse_path.go", p)
    t.imports("parse_path.go", "strings")
    t.func("parse_path.go", "func (c *pathCursor) pointsToAbs", '''
func (c *pathCursor) pointsToAbs(sz int) {
	last := [2]float64{c.placeX, c.placeY}
	for i := range c.points {
		c.points[i] += last[i%2]
		if (i+1)%sz == 0 {
			last = [2]float64{c.points[i-1], c.points[i]}
		}
	}
}
''')
    t.func("parse_path.go", "func (c *pathCursor) getPoints", '''
func (c *pathCursor) getPoints(dataPoints string) error {
	start := -1
	c.points = c.points[:0]
	flush := func(end int) error {
		if start < 0 {
			return nil
		}
		s := dataPoints[start:end]
		start = -1
		return c.readFloat(s)
	}
	var prev rune
	for i, r := range dataPoints {
		exponent := prev == 'e' || prev == 'E'
		prev = r
		switch {
		case unicode.IsNumber(r), r == '.', r == 'e', r == 'E', (r == '-' || r == '+') && exponent:
			if start < 0 {
				start = i
			}
		default:
			if err := flush(i); err != nil {
				return err
			}
			if r == '-' {
				start = i
			}
		}
	}
	return flush(len(dataPoints))
}
''')
    t.func("parse_path.go", "func (c *pathCursor) compilePath", '''
func (c *pathCursor) compilePath(svgPath string) error {
	c.init()
	isCommand := func(r rune) bool { return unicode.IsLetter(r) && r != 'e' && r != 'E' }
	rest := svgPath
	if i := strings.IndexFunc(rest, isCommand); i >= 0 {
		rest = rest[i:]
	} else {
		return nil
	}
	for rest != "" {
		end := len(rest)
		for i, r := range rest {
			if i > 0 && isCommand(r) {
				end = i
				break
			}
		}
		if err := c.addSeg(rest[:end]); err != nil {
			return err
		}
		rest = rest[end:]
	}
	return nil
}
''')
@group("b")
def b(t):
    t.func("parse.go", "func (c *svgCursor) readTransformAttr", '''
func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
	p := c.points
	rad := func(deg float64) float64 { return deg * math.Pi / 180 }
	type variant struct {
		name string
		args int
	}
	ops := map[variant]func(m Matrix2D) Matrix2D{
		{"rotate", 1}:    func(m Matrix2D) Matrix2D { return m.Rotate(rad(p[0])) },
		{"rotate", 3}:    func(m Matrix2D) Matrix2D { return m.Translate(p[1], p[2]).Rotate(rad(p[0])).Translate(-p[1], -p[2]) },
		{"translate", 1}: func(m Matrix2D) Matrix2D { return m.Translate(p[0], 0) },
		{"translate", 2}: func(m Matrix2D) Matrix2D { return m.Translate(p[0], p[1]) },
		{"skewx", 1}:     func(m Matrix2D) Matrix2D { return m.SkewX(rad(p[0])) },
		{"skewy", 1}:     func(m Matrix2D) Matrix2D { return m.SkewY(rad(p[0])) },
		{"scale", 1}:     func(m Matrix2D) Matrix2D { return m.Scale(p[0], p[0]) },
		{"scale", 2}:     func(m Matrix2D) Matrix2D { return m.Scale(p[0], p[1]) },
		{"matrix", 6}: func(m Matrix2D) Matrix2D {
			return m.Mult(Matrix2D{p[0], p[1], p[2], p[3], p[4], p[5]})
		},
	}
	op, ok := ops[variant{k, len(p)}]
	if !ok {
		return m1, errParamMismatch
	}
	return op(m1), nil
}
''')
    t.func("parse.go", "func (c *svgCursor) pushStyle", '''
func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
	type decl struct{ key, value string }
	var list []decl
	set := func(k, v string) {
		k, v = strings.TrimSpace(strings.ToLower(k)), strings.TrimSpace(v)
		i := slices.IndexFunc(list, func(d decl) bool { return d.key == k })
		if i < 0 {
			list = append(list, decl{key: k})
			i = len(list) - 1
		}
		list[i].value = v
	}
	var late []string
	for _, attr := range attrs {
		if strings.EqualFold(attr.Name.Local, "style") {
			late = append(late, attr.Value)
			continue
		}
		if k, v, ok := strings.Cut(attr.Name.Local+":"+attr.Value, ":"); ok {
			set(k, v)
		}
	}
	for _, s := range late {
		for _, p := range strings.Split(s, ";") {
			if i := strings.IndexByte(p, ':'); i >= 0 {
				set(p[:i], p[i+1:])
			}
		}
	}
	style := c.top()
	for _, d := range list {
		if err := c.readStyleAttr(&style, d.key, d.value); err != nil {
			return err
		}
	}
	c.styleStack = append(c.styleStack, style)
	return nil
}

func (c *svgCursor) top() PathStyle {
	return c.styleStack[len(c.styleStack)-1]
}
''')
    t.imports("parse.go", "slices")
    s = t.read("parse.go")
    i = s.index('	case "stroke-leadlinecap":'); j = s.index('	case "stroke-linejoin":')
    s = s[:i] + '''	case "stroke-leadlinecap", "stroke-linecap":
		mode, ok := capModes[v]
		if !ok {
			return c.handleError("unsupported value '%s' for <%s>", v, k)
		}
		target := &curStyle.Join.TrailLineCap
		if k == "stroke-leadlinecap" {
			target = &curStyle.Join.LeadLineCap
		}
		*target = mode
''' + s[j:]
    s += '''
var capModes = map[string]CapMode{
	"butt":      ButtCap,
	"round":     RoundCap,
	"square":    SquareCap,
	"cubic":     CubicCap,
	"quadratic": QuadraticCap,
}
'''
    s = s.replace('''			dashes := splitOnCommaOrSpace(v)
			dList := make([]float64, len(dashes))
			for i, dstr := range dashes {
				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
				if err != nil {
					return err
				}
				dList[i] = d
			}
			curStyle.Dash.Dash = dList
''', '''			dList := []float64{}
			for _, s := range strings.FieldsFunc(v, func(r rune) bool { return strings.ContainsRune(", \\t\\r\\n", r) }) {
				d, err := c.parseUnit(s, diagPercentage)
				if err != nil {
					return err
				}
				dList = append(dList, d)
			}
			curStyle.Dash.Dash = dList
''')
    t.write("parse.go", s)
    t.func("parse.go", "func (c *svgCursor) storePath", '''
func (c *svgCursor) storePath() {
	if len(c.path) == 0 {
		return
	}
	p := SvgPath{Path: slices.Clone(c.path), Style: c.top()}
	switch {
	case !c.inMask:
		c.svg.SvgPaths = append(c.svg.SvgPaths, p)
	case c.mask != nil:
		c.mask.SvgPaths = append(c.mask.SvgPaths, p)
	}
	c.path.Clear()
}
''')
    t.func("parse.go", "func (c *svgCursor) parseSelector", '''
func (c *svgCursor) parseSelector(v string) (string, error) {
	switch v {
	case "", "none":
		return "", nil
	}
	rest, ok := strings.CutPrefix(v, "url(")
	if !ok {
		return "", fmt.Errorf("unsupported selector: %s", v)
	}
	inner, _, ok := strings.Cut(rest, ")")
	if !ok {
		return "", errParamMismatch
	}
	if id, ok := strings.CutPrefix(inner, "#"); ok {
		return id, nil
	}
	return "", fmt.Errorf("unsupported url selector: %q", inner)
}
''')
@group("c")
def c(t):
    t.func("matrix.go", "func (a Matrix2D) Invert", '''
func (a Matrix2D) Invert() Matrix2D {
	det := a.A*a.D - a.B*a.C
	inv := Matrix2D{A: a.D / det, B: -a.B / det, C: -a.C / det, D: a.A / det}
	inv.E, inv.F = inv.TransformVector(-a.E, -a.F)
	return inv
}
''')
    t.func("matrix.go", "func (a Matrix2D) Mult", '''
func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
	x := [3][3]float64{{a.A, a.C, a.E}, {a.B, a.D, a.F}, {0, 0, 1}}
	y := [3][3]float64{{b.A, b.C, b.E}, {b.B, b.D, b.F}, {0, 0, 1}}
	var z [3][3]float64
	for i := range z {
		for j := range z[i] {
			for k := range 3 {
				z[i][j] += x[i][k] * y[k][j]
			}
		}
	}
	return Matrix2D{A: z[0][0], B: z[1][0], C: z[0][1], D: z[1][1], E: z[0][2], F: z[1][2]}
}
''') if "go 1.2" in t.read("go.mod") and not re.search(r"go 1\.(1\d|20|21)\b", t.read("go.mod")) else None
    t.func("matrix.go", "func (a Matrix2D) Rotate", '''
func (a Matrix2D) Rotate(theta float64) Matrix2D {
	sin, cos := math.Sincos(theta)
	return a.Mult(Matrix2D{A: cos, B: sin, C: -sin, D: cos})
}
''')
    t.func("matrix.go", "func (a Matrix2D) Translate", '''
func (a Matrix2D) Translate(x, y float64) Matrix2D {
	a.E, a.F = a.Transform(x, y)
	return a
}
''')
    t.func("path.go", "func (p Path) ToSVGPath", '''
func (p Path) ToSVGPath() string {
	var b strings.Builder
	for i, op := range p {
		if i != 0 {
			b.WriteByte(' ')
		}
		b.WriteString(op.String())
	}
	return b.String()
}
''')
    s = t.read("path.go")
    s = re.sub(r'func \(op Op(\w+)To\) String\(\) string \{\n\treturn .*?\n\}', lambda m: m.group(0), s, flags=re.S)
    t.write("path.go", s)
    t.func("path.go", "func (op OpQuadTo) String", '''
func (op OpQuadTo) String() string {
	return "Q" + coords(op[:])
}

func coords(pts []fixed.Point26_6) string {
	var parts []string
	for _, p := range pts {
		for _, v := range []fixed.Int26_6{p.X, p.Y} {
			parts = append(parts, strconv.FormatFloat(float64(v)/64, 'f', 3, 64))
		}
	}
	return strings.Join(parts, ",")
}
''')
    t.func("path.go", "func (op OpLineTo) String", '''
func (op OpLineTo) String() string {
	return fmt.Sprint("L", coords([]fixed.Point26_6{fixed.Point26_6(op)}))
}
''')
    t.imports("path.go", "strconv")
    t.func("patterns.go", "func parseSVGColorNum", '''
func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
	s := strings.TrimPrefix(colorStr, "#")
	switch len(s) {
	case 3:
		var d strings.Builder
		for i := 0; i < 3; i++ {
			d.WriteByte(s[i])
			d.WriteByte(s[i])
		}
		s = d.String()
	case 6:
	default:
		return 0, 0, 0, errParamMismatch
	}
	v, err := hex.DecodeString(s)
	if err != nil {
		return 0, 0, 0, err
	}
	return v[0], v[1], v[2], nil
}
''')
    t.imports("patterns.go", "encoding/hex")
    t.func("patterns.go", "func localizeGradIfStopClrNil", '''
func localizeGradIfStopClrNil(g *Gradient, defaultColor Pattern) Gradient {
	grad := *g
	copied := false
	for i := range g.Stops {
		if g.Stops[i].StopColor != nil {
			continue
		}
		if !copied {
			grad.Stops = make([]GradStop, len(g.Stops))
			copy(grad.Stops, g.Stops)
			copied = true
		}
		grad.Stops[i].StopColor = GetColor(defaultColor)
	}
	return grad
}
''')
@group("d")
def d(t):
    t.func("units.go", "func findUnit", '''
func findUnit(s string) (u unite, value string) {
	s = strings.TrimSpace(s)
	for i := 0; i < len(absoluteUnits); i++ {
		if v, ok := strings.CutSuffix(s, absoluteUnits[i]); ok {
			return unite(i), strings.TrimSpace(v)
		}
	}
	return Px, s
}
''')
    t.func("units.go", "func (viewBox Bounds) resolveUnit", '''
func (viewBox Bounds) resolveUnit(s string, asPerc percentageReference) (float64, error) {
	value, isPercentage, err := parseUnit(s)
	if err != nil {
		return 0, err
	}
	if !isPercentage {
		return value, nil
	}
	var reference float64
	switch asPerc {
	case widthPercentage:
		reference = viewBox.W
	case heightPercentage:
		reference = viewBox.H
	default:
		reference = math.Hypot(viewBox.W, viewBox.H) / math.Sqrt2
	}
	return reference * value / 100, nil
}
''')
    t.sub("units.go", "var root2 = math.Sqrt(2)\n\n", "")
    t.func("units.go", "func readOpacity", '''
func readOpacity(v string) (float64, error) {
	f, err := readFraction(v)
	switch {
	case f < 0:
		f = 0
	case f > 1:
		f = 1
	}
	return f, err
}
''')
    t.func("units.go", "func readFraction", '''
func readFraction(v string) (float64, error) {
	number, percent := strings.CutSuffix(strings.TrimSpace(v), "%")
	f, err := parseBasicFloat(number)
	if percent {
		f *= 0.01
	}
	return f, err
}
''')
    e = t.read("svg_elements.go")
    for name in ("rectF", "circleF", "lineF"):
        pass
    t.func("svg_elements.go", "func lineF", '''
func lineF(c *svgCursor, attrs []xml.Attr) error {
	var p [4]float64
	if err := c.lengths(attrs, map[string]lengthAttr{
		"x1": {&p[0], widthPercentage},
		"y1": {&p[1], heightPercentage},
		"x2": {&p[2], widthPercentage},
		"y2": {&p[3], heightPercentage},
	}); err != nil {
		return err
	}
	c.path.Start(toFixedP(p[0]+c.curX, p[1]+c.curY))
	c.path.Line(toFixedP(p[2]+c.curX, p[3]+c.curY))
	return nil
}

type lengthAttr struct {
	value *float64
	ref   percentageReference
}

// lengths reads the attributes in m
func (c *svgCursor) lengths(attrs []xml.Attr, m map[string]lengthAttr) error {
	for _, attr := range attrs {
		l, ok := m[attr.Name.Local]
		if !ok {
			continue
		}
		v, err := c.parseUnit(attr.Value, l.ref)
		if err != nil {
			return err
		}
		*l.value = v
	}
	return nil
}
''')
    t.func("svg_elements.go", "func rectF", '''
func rectF(c *svgCursor, attrs []xml.Attr) error {
	var r struct{ x, y, w, h, rx, ry float64 }
	err := c.lengths(attrs, map[string]lengthAttr{
		"x": {&r.x, widthPercentage}, "y": {&r.y, heightPercentage},
		"width": {&r.w, widthPercentage}, "height": {&r.h, heightPercentage},
		"rx": {&r.rx, widthPercentage}, "ry": {&r.ry, heightPercentage},
	})
	if err != nil || r.w == 0 || r.h == 0 {
		return err
	}
	switch {
	case r.rx == 0:
		r.rx = r.ry
	case r.ry == 0:
		r.ry = r.rx
	}
	left, top := r.x+c.curX, r.y+c.curY
	c.path.addRoundRect(left, top, left+r.w, top+r.h, r.rx, r.ry, 0)
	return nil
}
''')
    t.func("svg_elements.go", "func polylineF", '''
func polylineF(c *svgCursor, attrs []xml.Attr) error {
	c.points = c.points[:0]
	for _, attr := range attrs {
		if attr.Name.Local != "points" {
			continue
		}
		err := c.getPoints(attr.Value)
		if len(c.points)%2 == 1 {
			return errors.New("polygon has odd number of points")
		} else if err != nil {
			return err
		}
	}
	if len(c.points) < 4 {
		return nil
	}
	add := c.path.Start
	for rest := c.points; len(rest) > 0; rest = rest[2:] {
		add(toFixedP(rest[0]+c.curX, rest[1]+c.curY))
		add = c.path.Line
	}
	return nil
}
''')
    t.unimport("svg_elements.go", "golang.org/x/image/math/fixed")
    e = t.read("svg_elements.go")
    i = e.index("	direction[0], err = bbox.resolveUnit(directionStrings[0], widthPercentage)"); j = e.index("	c.grad.Direction = direction", i)
    e = e[:i] + '''	for i, ref := range []percentageReference{widthPercentage, heightPercentage, widthPercentage, heightPercentage} {
		if direction[i], err = bbox.resolveUnit(directionStrings[i], ref); err != nil {
			return err
		}
	}
''' + e[j:]
    i = e.index("	direction[0], err = bbox.resolveUnit(directionStrings[0], widthPercentage)"); j = e.index("	c.grad.Direction = direction", i)
    e = e[:i] + '''	refs := [...]percentageReference{0, 1, 0, 1, 2, 2}
	for i := range direction {
		v, err := bbox.resolveUnit(directionStrings[i], refs[i])
		if err != nil {
			return err
		}
		direction[i] = v
	}
''' + e[j:]
    t.write("svg_elements.go", e)
@group("e")
def e(t):
    s = t.read("svg.go")
    i = s.index("		// Inspect the type of the XML token"); j = s.index("	return svg, nil\n}", i)
    s = s[:i] + '''		if _, ok := t.(xml.StartElement); ok {
			seenTag = true
		}
		if err := svgCursor.token(t); err != nil {
			return svg, err
		}
	}
	return svg, nil
}

// token handles one XML token
func (c *svgCursor) token(t xml.Token) error {
	switch se := t.(type) {
	case xml.StartElement:
		if err := c.pushStyle(se.Attr); err != nil {
			return err
		}
		return c.readStartElement(se)
	case xml.EndElement:
		c.endElement(se.Name.Local)
	case xml.CharData:
		add := func(list []string) {
			list[len(list)-1] += string(se)
		}
		if c.inTitleText {
			add(c.svg.Titles)
		}
		if c.inDescText {
			add(c.svg.Descriptions)
		}
	}
	return nil
}

func (c *svgCursor) endElement(name string) {
	defer func(n int) { c.styleStack = c.styleStack[:n-1] }(len(c.styleStack))
	if c.inDefs {
		c.closeDef()
	}
	flags := map[string]*bool{"title": &c.inTitleText, "desc": &c.inDescText, "radialGradient": &c.inGrad, "linearGradient": &c.inGrad, "mask": &c.inMask}
	if f, ok := flags[name]; ok {
		*f = false
	}
	if name == "mask" && c.mask != nil {
		c.svg.SvgMasks[c.mask.ID], c.mask = c.mask, nil
	}
}
''' + s[j+len("	return svg, nil\n}\n"):]
    s = s.replace("xml.NewDecoder(stream)", "xml.NewDecoder(bufio.NewReader(stream))")
    t.write("svg.go", s); t.imports("svg.go", "bufio")
    t.func("shapes.go", "func (p *Path) addRect", '''
func (p *Path) addRect(minX, minY, maxX, maxY, rot float64) {
	rot *= math.Pi / 180
	cx, cy := (minX+maxX)/2, (minY+maxY)/2
	m := Identity.Translate(cx, cy).Rotate(rot).Translate(-cx, -cy)
	for i, corner := range [...]fixed.Point26_6{toFixedP(minX, minY), toFixedP(maxX, minY), toFixedP(maxX, maxY), toFixedP(minX, maxY)} {
		if corner = m.TFixed(corner); i == 0 {
			p.Start(corner)
		} else {
			p.Line(corner)
		}
	}
	p.Stop(true)
}
''')
    t.sub("shapes.go", "	cos, sin := math.Cos(rotX), math.Sin(rotX)\n", "	sin, cos := math.Sincos(rotX)\n")
    t.sub("shapes.go", "	if (arcBig && !largeArc) || (!arcBig && largeArc) { // Go has no boolean XOR\n", "	if arcBig != largeArc {\n")
    t.sub("shapes.go", "	if (sweep && smallArc) || (!sweep && !smallArc) {\n", "	if sweep == smallArc {\n")
    t.sub("shapes.go", "		nrb := math.Sqrt(midlenSq)\n", "		nrb := math.Hypot(midX, midY)\n")
    t.sub("shapes.go", '''		if *ra == *rb {
			*ra = nrb // prevents roundoff
		} else {
			*ra = *ra * nrb / *rb
		}
		*rb = nrb
''', '''		*ra, *rb = *ra/(*rb)*nrb, nrb
''')
    t.sub("svg_elements.go", "	for _, open := range c.openUses {\n		if open == ID {\n			return errors.New(\"circular reference in use statement\")\n		}\n	}\n", "	if slices.Contains(c.openUses, ID) {\n		return errors.New(\"circular reference in use statement\")\n	}\n")
    t.imports("svg_elements.go", "slices")
    t.sub("svg_elements.go", '''	defs, ok := c.svg.defs[ID]
	if !ok {
		return errors.New("href ID in use statement was not found in saved defs")
	}
''', '''	defs := c.svg.defs[ID]
	if defs == nil {
		return errors.New("no definition of " + strconv.Quote(ID))
	}
''')
    t.imports("svg_elements.go", "strconv")
@group("f")
def f(t):
    for pkg in ("gg", "draw2d"):
        f = "renderer/%s/draw.go" % pkg
        s = t.read(f)
        s = re.sub(r"float64\((t\d?)\.X\)/64, float64\(t\d?\.Y\)/64", r"\1x, \1y", s)
        s = re.sub(r"\n(\t+)((?:t\d?(?:, )?)+) := (m\.\w+\(op\))", lambda m: "\n%s%s := %s\n%s%s" % (m.group(1), m.group(2), m.group(3), m.group(1), ("\n" + m.group(1)).join("%sx, %sy := px(%s)" % (v, v, v) for v in m.group(2).split(", "))), s)
        s += '''
func px(p fixed.Point26_6) (x, y float64) {
	return float64(p.X) / 64, float64(p.Y) / 64
}
'''
        t.write(f, s); t.imports(f, "golang.org/x/image/math/fixed")
        t.func(f, "func toLineCap", '''
func toLineCap(cap svg.CapMode) %s.LineCap {
	return lineCaps[cap]
}

var lineCaps = map[svg.CapMode]%s.LineCap{
	svg.NilCap: %s, svg.ButtCap: %s, svg.CubicCap: %s, svg.QuadraticCap: %s, svg.RoundCap: %s, svg.SquareCap: %s,
}
''' % ((pkg, pkg) + (("gg.LineCapButt",) * 4 + ("gg.LineCapRound", "gg.LineCapSquare") if pkg == "gg" else ("draw2d.ButtCap",) * 4 + ("draw2d.RoundCap", "draw2d.SquareCap"))))
    f = "renderer/rasterx/draw.go"
    s = t.read(f)
    i = s.index("func drawToStroker"); j = s.index("func toLineGap")
    s = s[:i] + '''type sink interface {
	Start(a fixed.Point26_6)
	Line(b fixed.Point26_6)
	QuadBezier(b, c fixed.Point26_6)
	CubeBezier(b, c, d fixed.Point26_6)
	Stop(closeLoop bool)
}

func trace[T sink](gc T, path svg.Path, m svg.Matrix2D) {
	for i := range path {
		switch op := path[i].(type) {
		case svg.OpMoveTo:
			gc.Stop(false)
			gc.Start(m.MoveTo(op))
		case svg.OpLineTo:
			gc.Line(m.LineTo(op))
		case svg.OpQuadTo:
			gc.QuadBezier(m.QuadTo(op))
		case svg.OpCubicTo:
			gc.CubeBezier(m.CubicTo(op))
		case svg.OpClose:
			gc.Stop(true)
		}
	}
	gc.Stop(false)
}

''' + s[j:]
    for n in ("filler", "stroker"):
        s = re.sub(r"\t\tfor _, op := range svgp\.Path \{\n\t\t\tdrawTo\w+\(%s, op, m\)\n\t\t\}\n\t\t%s\.Stop\(false\)\n" % (n, n), "\t\ttrace(%s, svgp.Path, m)\n" % n, s)
    t.write(f, s)
    t.func("renderer/options.go", "func (o targetOption) apply", '''
func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
	sx, sy := o.W/s.ViewBox.W, o.H/s.ViewBox.H
	r.Target = svg.Matrix2D{A: sx, D: sy, E: o.X - s.ViewBox.X*sx, F: o.Y - s.ViewBox.Y*sy}
}
''')
    t.func("renderer/gg/draw.go", "func toColor", '''
func toColor(c color.Color, opacity float64) color.Color {
	r, g, b, a := c.RGBA()
	alpha := uint32(opacity * float64(a))
	return color.NRGBA{R: uint8(r / 256), G: uint8(g / 256), B: uint8(b / 256), A: uint8(alpha / 256)}
}
''')

if __name__ == "__main__":
    d = sys.argv[1]; gs = sys.argv[2:] or sorted(GROUPS)
    for g in gs: GROUPS[g](T(d))
    subprocess.run(["gofmt", "-l", "."], cwd=d)
    r = subprocess.run("go build ./... && go vet . ./renderer/... && go test . 2>&1 | tail -5", shell=True, cwd=d)
    sys.exit(r.returncode)
