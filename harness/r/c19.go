package h

import (
	"image"
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	d2d "github.com/lafriks/go-svg/renderer/draw2d"

	"github.com/llgcode/draw2d"
)

// d2state is the drawing state of a draw2d context.
type d2state struct {
	fill, stroke color.Color
	rule         draw2d.FillRule
	width        float64
	cap          draw2d.LineCap
	join         draw2d.LineJoin
	dash         []float64
	off          float64
	tr           draw2d.Matrix
}

// d2rec is a draw2d context that records what is painted.
type d2rec struct {
	d2state
	stack []d2state
	path  draw2d.Path
	evs   []pev
}

func newD2rec() *d2rec {
	return &d2rec{d2state: d2state{fill: color.White, stroke: color.Black, width: 1, cap: draw2d.RoundCap, join: draw2d.RoundJoin,
		rule: draw2d.FillRuleEvenOdd, tr: draw2d.NewIdentityMatrix()}}
}

func (r *d2rec) LastPoint() (x, y float64)             { return r.path.LastPoint() }
func (r *d2rec) MoveTo(x, y float64)                   { r.path.MoveTo(x, y) }
func (r *d2rec) LineTo(x, y float64)                   { r.path.LineTo(x, y) }
func (r *d2rec) QuadCurveTo(cx, cy, x, y float64)      { r.path.QuadCurveTo(cx, cy, x, y) }
func (r *d2rec) CubicCurveTo(a, b, c, d, x, y float64) { r.path.CubicCurveTo(a, b, c, d, x, y) }
func (r *d2rec) ArcTo(cx, cy, rx, ry, start, angle float64) {
	r.path.ArcTo(cx, cy, rx, ry, start, angle)
}
func (r *d2rec) Close()                                            { r.path.Close() }
func (r *d2rec) BeginPath()                                        { r.path.Clear() }
func (r *d2rec) GetPath() draw2d.Path                              { return *r.path.Copy() }
func (r *d2rec) GetMatrixTransform() draw2d.Matrix                 { return r.tr }
func (r *d2rec) SetMatrixTransform(tr draw2d.Matrix)               { r.tr = tr }
func (r *d2rec) ComposeMatrixTransform(tr draw2d.Matrix)           { r.tr.Compose(tr) }
func (r *d2rec) Rotate(angle float64)                              { r.tr.Rotate(angle) }
func (r *d2rec) Translate(tx, ty float64)                          { r.tr.Translate(tx, ty) }
func (r *d2rec) Scale(sx, sy float64)                              { r.tr.Scale(sx, sy) }
func (r *d2rec) SetStrokeColor(c color.Color)                      { r.stroke = c }
func (r *d2rec) SetFillColor(c color.Color)                        { r.fill = c }
func (r *d2rec) SetFillRule(f draw2d.FillRule)                     { r.rule = f }
func (r *d2rec) SetLineWidth(w float64)                            { r.width = w }
func (r *d2rec) SetLineCap(c draw2d.LineCap)                       { r.cap = c }
func (r *d2rec) SetLineJoin(j draw2d.LineJoin)                     { r.join = j }
func (r *d2rec) SetLineDash(d []float64, off float64)              { r.dash, r.off = d, off }
func (r *d2rec) SetFontSize(float64)                               {}
func (r *d2rec) GetFontSize() float64                              { return 10 }
func (r *d2rec) SetFontData(draw2d.FontData)                       {}
func (r *d2rec) GetFontData() (f draw2d.FontData)                  { return f }
func (r *d2rec) GetFontName() string                               { return "" }
func (r *d2rec) DrawImage(image.Image)                             { r.other() }
func (r *d2rec) Save()                                             { r.stack = append(r.stack, r.d2state) }
func (r *d2rec) Clear()                                            { r.other() }
func (r *d2rec) ClearRect(x1, y1, x2, y2 int)                      { r.other() }
func (r *d2rec) SetDPI(int)                                        {}
func (r *d2rec) GetDPI() int                                       { return 72 }
func (r *d2rec) GetStringBounds(string) (a, b, c, d float64)       { return }
func (r *d2rec) CreateStringPath(string, float64, float64) float64 { r.other(); return 0 }
func (r *d2rec) FillString(string) float64                         { r.other(); return 0 }
func (r *d2rec) FillStringAt(string, float64, float64) float64     { r.other(); return 0 }
func (r *d2rec) StrokeString(string) float64                       { r.other(); return 0 }
func (r *d2rec) StrokeStringAt(string, float64, float64) float64   { r.other(); return 0 }

func (r *d2rec) Restore() {
	if n := len(r.stack); n > 0 {
		r.d2state, r.stack = r.stack[n-1], r.stack[:n-1]
	}
}

// other notes a painting that is neither fill nor stroke.
func (r *d2rec) other() { r.evs = append(r.evs, pev{k: '?', ops: []zop{{k: '?'}}}) }

// ops is the current path together with the given ones, as draw2d's image context draws them.
func (r *d2rec) ops(paths []*draw2d.Path) []zop {
	var out []zop
	for _, p := range append(append([]*draw2d.Path{}, paths...), &r.path) {
		n := 0
		for _, c := range p.Components {
			k, w := byte('?'), 0
			switch c {
			case draw2d.MoveToCmp:
				k, w = 'M', 2
			case draw2d.LineToCmp:
				k, w = 'L', 2
			case draw2d.QuadCurveToCmp:
				k, w = 'Q', 4
			case draw2d.CubicCurveToCmp:
				k, w = 'C', 6
			case draw2d.ArcToCmp:
				w = 6
			case draw2d.CloseCmp:
				k = 'Z'
			}
			o := zop{k: k}
			for i := n; i < n+w; i += 2 {
				x, y := r.tr.TransformPoint(p.Points[i], p.Points[i+1])
				o.p = append(o.p, x, y)
			}
			n += w
			out = append(out, o)
		}
	}
	return out
}

func (r *d2rec) Fill(paths ...*draw2d.Path) {
	r.addFill(r.ops(paths))
	r.path.Clear()
}

func (r *d2rec) Stroke(paths ...*draw2d.Path) {
	r.addStroke(r.ops(paths))
	r.path.Clear()
}

func (r *d2rec) FillStroke(paths ...*draw2d.Path) {
	o := r.ops(paths)
	r.addFill(o)
	r.addStroke(o)
	r.path.Clear()
}

func (r *d2rec) addFill(o []zop) {
	r.evs = append(r.evs, pev{k: 'F', ops: o, nonzero: r.rule == draw2d.FillRuleWinding, col: nrgba(r.fill)})
}

func (r *d2rec) addStroke(o []zop) {
	scale := 1.0
	if r.tr != draw2d.NewIdentityMatrix() {
		scale = r.tr.GetScale()
	}
	e := pev{k: 'S', ops: o, col: nrgba(r.stroke), width: r.width * scale, dash: append([]float64{}, r.dash...), off: r.off, join: 2}
	switch r.cap {
	case draw2d.RoundCap:
		e.cap = 1
	case draw2d.SquareCap:
		e.cap = 2
	}
	switch r.join {
	case draw2d.RoundJoin:
		e.join = 1
	case draw2d.BevelJoin:
		e.join = 0
	}
	r.evs = append(r.evs, e)
}

func drawD2(s *svg.Svg, opts []renderer.RenderOption) []pev {
	r := newD2rec()
	// what an earlier drawing may have left behind
	r.SetLineDash([]float64{1, 2}, 3)
	r.MoveTo(1, 2)
	r.LineTo(3, 4)
	d2d.Draw(r, s, opts...)
	return r.evs
}

func C19_geometry() {
	drawGeometry(drawD2, false, true)
}

func C19_style() {
	drawStyle(drawD2, false, true)
}

func C19_sequence() {
	drawSequence(drawD2, false, true)
}

func C19_gradients() {
	drawGradients(drawD2, false, true)
}
