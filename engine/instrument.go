package main

// The drawing libraries the renderers call are replaced by copies of themselves whose
// primitives record what would be painted; everything else in them is the original.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// rendererProp tells whether the property needs the renderers.
func rendererProp(p string) bool {
	p = filepath.Base(p)
	for _, r := range []string{"C18", "C19", "C20", "C25", "C26"} {
		if strings.HasPrefix(p, r) {
			return true
		}
	}
	return false
}

type standin struct {
	module, file string
	texts        map[string][2]string         // file -> replaced text
	bodies       map[string]map[string]string // file -> function -> body
}

var standins = []standin{
	{"github.com/fogleman/gg", "gg_record.go.txt",
		map[string][2]string{"context.go": {"\tstack         []*Context\n", "\tstack         []*Context\n\tverifPath     []VerifOp\n"}},
		map[string]map[string]string{"context.go": {
			"NewContextForRGBA": `{
	s := im.Bounds().Size()
	return &Context{width: s.X, height: s.Y, im: im, color: color.Transparent, fillPattern: defaultFillStyle, strokePattern: defaultStrokeStyle,
		lineWidth: 1, fillRule: FillRuleWinding, fontHeight: 13, matrix: Identity()}
}`,
			"Context.MoveTo": `{
	x, y = dc.TransformPoint(x, y)
	p := Point{x, y}
	dc.verifAdd('M', x, y)
	dc.start = p
	dc.current = p
	dc.hasCurrent = true
}`,
			"Context.LineTo": `{
	if !dc.hasCurrent {
		dc.MoveTo(x, y)
	} else {
		x, y = dc.TransformPoint(x, y)
		dc.verifAdd('L', x, y)
		dc.current = Point{x, y}
	}
}`,
			"Context.QuadraticTo": `{
	if !dc.hasCurrent {
		dc.MoveTo(x1, y1)
	}
	x1, y1 = dc.TransformPoint(x1, y1)
	x2, y2 = dc.TransformPoint(x2, y2)
	dc.verifAdd('Q', x1, y1, x2, y2)
	dc.current = Point{x2, y2}
}`,
			"Context.CubicTo": `{
	if !dc.hasCurrent {
		dc.MoveTo(x1, y1)
	}
	x1, y1 = dc.TransformPoint(x1, y1)
	x2, y2 = dc.TransformPoint(x2, y2)
	x3, y3 = dc.TransformPoint(x3, y3)
	dc.verifAdd('C', x1, y1, x2, y2, x3, y3)
	dc.current = Point{x3, y3}
}`,
			"Context.ClosePath": `{
	if dc.hasCurrent {
		dc.verifAdd('Z')
		dc.current = dc.start
	}
}`,
			"Context.ClearPath": `{
	dc.verifPath = nil
	dc.hasCurrent = false
}`,
			"Context.NewSubPath": `{
	dc.hasCurrent = false
}`,
			"Context.StrokePreserve": `{
	dc.verifEvent('S', dc.strokePattern)
}`,
			"Context.FillPreserve": `{
	dc.verifEvent('F', dc.fillPattern)
}`,
			"Context.ClipPreserve": `{
	dc.verifEvent('K', nil)
	dc.mask = image.NewAlpha(image.Rect(0, 0, dc.width, dc.height))
}`,
			"Context.AsMask": `{
	mask := image.NewAlpha(dc.im.Bounds())
	if !VerifOff {
		VerifEvents = append(VerifEvents, VerifEvent{K: 'A', Im: dc.im, Mask: mask})
	}
	return mask
}`,
			"Context.Pop": `{
	before := *dc
	s := dc.stack
	x := s[len(s)-1]
	*dc = *x
	dc.mask = before.mask
	dc.verifPath = before.verifPath
	dc.start = before.start
	dc.current = before.current
	dc.hasCurrent = before.hasCurrent
}`,
		}, "gradient.go": {
			"linearGradient.AddColorStop": `{
	g.stops = append(g.stops, stop{pos: offset, color: color})
}`,
			"radialGradient.AddColorStop": `{
	g.stops = append(g.stops, stop{pos: offset, color: color})
}`,
			"NewRadialGradient": `{
	return &radialGradient{c0: circle{x0, y0, r0}, c1: circle{x1, y1, r1}}
}`,
		}}},
	{"github.com/srwiley/rasterx", "rasterx_record.go.txt",
		map[string][2]string{"fill.go": {"\t\ta, first fixed.Point26_6\n", "\t\ta, first fixed.Point26_6\n\t\tverifOpen bool\n"}},
		map[string]map[string]string{"fill.go": {
			"Filler.Start": `{
	r.a, r.first, r.verifOpen = a, a, false
	verifFill('M', a)
}`,
			"Filler.Stop": `{
	if r.verifOpen {
		verifFill('Z')
	}
	r.a, r.verifOpen = r.first, false
}`,
			"Filler.Line": `{
	r.a, r.verifOpen = b, true
	verifFill('L', b)
}`,
			"Filler.QuadBezier": `{
	r.a, r.verifOpen = c, true
	verifFill('Q', b, c)
}`,
			"Filler.CubeBezier": `{
	r.a, r.verifOpen = d, true
	verifFill('C', b, c, d)
}`,
			"Filler.Clear": `{
	r.a = fixed.Point26_6{}
	r.first, r.verifOpen = r.a, false
	r.Scanner.Clear()
}`,
		}, "stroke.go": {
			"Stroker.Start": `{
	r.inStroke = false
	verifStroke('M', a)
}`,
			"Stroker.Stop": `{
	if !r.inStroke {
		return
	}
	if isClosed {
		verifStroke('Z')
	} else {
		verifStroke('E')
	}
	r.inStroke = false
}`,
			"Stroker.Line": `{
	r.inStroke = true
	verifStroke('L', b)
}`,
			"Stroker.QuadBezier": `{
	r.inStroke = true
	verifStroke('Q', b, c)
}`,
			"Stroker.CubeBezier": `{
	r.inStroke = true
	verifStroke('C', b, c, d)
}`,
			"Stroker.SetStroke": `{
	if VerifOff {
		return
	}
	v := &VerifStroke
	v.Width, v.Miter, v.CapL, v.CapT, v.Gap, v.Join, v.Dashes, v.Offset, v.Set = width, miterLimit, capL, capT, gp, jm, nil, 0, true
	if v.CapT == nil {
		v.CapT = ButtCap
		if v.CapL != nil {
			v.CapT = v.CapL
		}
	}
	if v.CapL == nil {
		v.CapL = v.CapT
	}
	if v.Gap == nil {
		v.Gap = FlatGap
		if jm == Round {
			v.Gap = RoundGap
		}
	}
}`,
			"NewStroker": `{
	r := new(Stroker)
	r.Scanner = scanner
	r.SetBounds(width, height)
	r.SetWinding(true)
	r.SetStroke(1<<6, 4<<6, ButtCap, nil, FlatGap, MiterClip)
	return r
}`,
		}, "dash.go": {
			"Dasher.Start":      `{ r.Stroker.Start(a) }`,
			"Dasher.Stop":       `{ r.Stroker.Stop(isClosed) }`,
			"Dasher.Line":       `{ r.Stroker.Line(b) }`,
			"Dasher.QuadBezier": `{ r.Stroker.QuadBezier(b, c) }`,
			"Dasher.CubeBezier": `{ r.Stroker.CubeBezier(b, c, d) }`,
			"Dasher.SetStroke": `{
	r.Stroker.SetStroke(width, miterLimit, capL, capT, gp, jm)
	if !VerifOff {
		VerifStroke.Dashes, VerifStroke.Offset = dashes, dashOffset
	}
}`,
		}, "gradient.go": {
			"Gradient.GetColorFunctionUS": `{
	c := *g
	c.Stops = append([]GradStop{}, g.Stops...)
	return VerifColor{c, opacity, objMatrix}
}`,
		}}},
}

// keepImports are uses of imports whose last use a replaced body removed.
var keepImports = map[string]string{
	"github.com/fogleman/gg/context.go":      "\nvar _ = raster.NewRasterizer\nvar _ = basicfont.Face7x13\n",
	"github.com/fogleman/gg/gradient.go":     "\nvar _ = sort.Sort\n",
	"github.com/srwiley/rasterx/gradient.go": "\nvar _ = sort.Slice\n",
}

var capFuncs = []string{"ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap"}

// instrument writes go.mod and go.sum for the check and, for the renderers, the recording copies.
func (t *Target) instrument(renderers bool) error {
	b, err := os.ReadFile(filepath.Join(t.repo, "go.mod"))
	if err != nil {
		return err
	}
	s, err := os.ReadFile(filepath.Join(t.repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(t.work, "go.sum"), s, 0o644); err != nil {
		return err
	}
	mod := string(b)
	if renderers {
		for _, st := range standins {
			dir, err := t.standin(st)
			if err != nil {
				return err
			}
			mod += "\nreplace " + st.module + " => " + dir + "\n"
		}
	}
	t.modFile = filepath.Join(t.work, "go.mod")
	return os.WriteFile(t.modFile, []byte(mod), 0o644)
}

func (t *Target) standin(st standin) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", st.module)
	cmd.Dir = t.repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("finding %s: %v", st.module, err)
	}
	src := strings.TrimSpace(string(out))
	dst := filepath.Join(t.work, "deps", st.module)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return "", err
	}
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		return "", err
	}
	for _, f := range files {
		name := filepath.Base(f)
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		text := string(b)
		if r, ok := st.texts[name]; ok {
			if !strings.Contains(text, r[0]) {
				return "", fmt.Errorf("%s/%s: text to replace not found", st.module, name)
			}
			text = strings.Replace(text, r[0], r[1], 1)
		}
		text, err = replaceBodies(name, text, st.bodies[name])
		if err != nil {
			return "", fmt.Errorf("%s/%s: %v", st.module, name, err)
		}
		text += keepImports[st.module+"/"+name]
		if err := os.WriteFile(filepath.Join(dst, name), []byte(text), 0o644); err != nil {
			return "", err
		}
	}
	rec, err := os.ReadFile(filepath.Join(t.verif, "harness", "standin", st.file))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_verif_record.go"), rec, 0o644); err != nil {
		return "", err
	}
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		gm = []byte("module " + st.module + "\n")
	}
	return dst, os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0o644)
}

// replaceBodies gives the named functions new bodies, and makes the cap and gap functions tell their names.
func replaceBodies(name, text string, bodies map[string]string) (string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, text, parser.ParseComments)
	if err != nil {
		return "", err
	}
	type edit struct {
		from, to int
		text     string
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	done := 0
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				n = t.(*ast.Ident).Name + "." + n
			}
			if b, ok := bodies[n]; ok {
				es = append(es, edit{off(d.Body.Pos()), off(d.Body.End()), b})
				done++
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || len(v.Values) != 1 {
					continue
				}
				fl, ok := v.Values[0].(*ast.FuncLit)
				if !ok {
					continue
				}
				for _, c := range capFuncs {
					if v.Names[0].Name == c {
						p := off(fl.Body.Lbrace) + 1
						es = append(es, edit{p, p, fmt.Sprintf("\n\t\tif verifProbe(p, %q) {\n\t\t\treturn\n\t\t}", c)})
					}
				}
			}
		}
	}
	if done != len(bodies) {
		return "", fmt.Errorf("%d of %d functions found", done, len(bodies))
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	for _, e := range es {
		text = text[:e.from] + e.text + text[e.to:]
	}
	return text, nil
}
