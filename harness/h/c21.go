package h

import (
	"errors"
	"fmt"
	"io"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

type custom struct{ code int }

func (c *custom) Error() string { return "custom" }

// failures are errors a reader can fail with.
func failure(k int) error {
	switch k {
	case 0:
		return errors.New("disk on fire")
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return fmt.Errorf("connection lost: %w", io.EOF)
	case 3:
		return io.ErrClosedPipe
	}
	return &custom{7}
}

const failTokens = 16

// failDoc writes a document and lets it fail before its n-th token.
func failDoc(n int, fail func(d *nd.Doc), x, y coord) *nd.Doc {
	d := nd.NewDoc()
	i := 0
	at := func() bool { i++; return i-1 == n }
	steps := []func(){
		func() { d.Header() },
		func() { d.Start("svg", "viewBox", "0 0 10 20", "width", "5") },
		func() { d.Start("defs") },
		func() { d.Start("linearGradient", "id", "g") },
		func() { d.Elem("stop", "offset", "0.5", "stop-color", "red") },
		func() { d.End() },
		func() { d.Elem("line", "id", "l", "x1", x.s) },
		func() { d.End() },
		func() { d.Start("title").Text("one") },
		func() { d.Text(" two").End() },
		func() { d.Start("mask", "id", "m").Elem("line", "x2", y.s) },
		func() { d.End() },
		func() { d.Start("g", "fill", "url(#g)").Elem("line", "y1", x.s, "y2", y.s) },
		func() { d.Elem("use", "href", "#l") },
		func() { d.End().Elem("path", "d", "M1 2L"+x.s+" 3") },
		func() { d.Done() },
	}
	for _, s := range steps {
		if at() {
			fail(d)
			return d
		}
		s()
	}
	return d
}

// A read error, malformed XML or a truncated document at every point.
func C21_fail() {
	nd.Bound("a document of 16 parts (gradients, definitions, titles, masks, groups, uses, paths) failing before each part and after the last: read errors of five kinds, malformed XML of five kinds (four of which a lenient decoder would accept), or the end of the text; all error modes")
	n := nd.Choice("at", failTokens+1)
	how := nd.Choice("how", 11)
	x, y := num("x"), num("y")
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	var want error
	fail := func(d *nd.Doc) {
		switch {
		case how < 5:
			want = failure(how)
			d.Fail(want)
		case how == 5:
			d.Garbage()
		case how > 6:
			d.Sloppy(how - 7).Done()
		}
	}
	d := failDoc(n, fail, x, y)
	if n == failTokens {
		fail(d)
	}
	got, err := svg.Parse(d, mode)
	if n == failTokens && how == 6 {
		nd.Assert(err == nil, "the complete document is accepted")
		return
	}
	nd.Assert(err != nil, "a failure is reported")
	if how < 5 {
		nd.Assert(errors.Is(err, want), "the error of the reader is reported")
	}
	if n < 2 {
		return
	}
	// what was parsed before is what the shorter document gives
	ref := failDoc(n, func(d *nd.Doc) { d.Done() }, x, y)
	rest, err := svg.Parse(ref, mode)
	nd.Assert(err == nil, "the shorter document is accepted")
	if got != nil {
		samePaths("paths before the failure", got.SvgPaths, rest.SvgPaths)
		eqTexts("titles before the failure", got.Titles, rest.Titles)
		eqF("viewBox", got.ViewBox.W, rest.ViewBox.W)
		eqF("viewBox", got.ViewBox.H, rest.ViewBox.H)
	}
}

// Documents without elements are errors.
func C21_empty() {
	nd.Bound("documents of up to three pieces without an element: nothing, white space, text, comments, a header; all error modes")
	d := nd.NewDoc()
	for i := 0; i < 3; i++ {
		switch nd.Choice("piece", 4) {
		case 0:
			d.Comment()
		case 1:
			d.Text(nd.Text("t", 1, " \nx"))
		case 2:
			if i == 0 {
				d.Header()
			}
		}
	}
	_, err := svg.Parse(d, svg.ErrorMode(nd.Choice("mode", 3)))
	nd.Assert(err != nil, "a document without elements is an error")
}

// Documents that declare a character encoding.
func C21_encoding() {
	nd.Bound("a document with a header that declares one of 8 known encodings (ASCII content) or of 3 unknown ones; all error modes")
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	x, y := num("x"), num("y")
	k := nd.Choice("label", 11)
	label := []string{"utf-8", "ISO-8859-1", "iso-8859-1", "latin1", "windows-1252", "US-ASCII", "koi8-r", "Shift_JIS", "klingon", "utf-99", "x"}[k]
	d := nd.NewDoc().Encoding(label).Start("svg", "viewBox", "0 0 10 20").Elem("line", "x1", x.s, "y2", y.s).Start("title").Text("one").Done()
	got, err := svg.Parse(d, mode)
	if k >= 8 {
		nd.Assert(err != nil, "an unknown encoding is an error")
		return
	}
	nd.Assert(err == nil, "a known encoding is accepted")
	nd.Assert(len(got.SvgPaths) == 1, "paths")
	checkPath("line", got.SvgPaths[0].Path, []zop{{'M', []float64{x.v, 0}}, {'L', []float64{0, y.v}}}, 2*px+1e-9)
	eqTexts("titles", got.Titles, []string{"one"})
}

// ParseFile.
func C21_file() {
	nd.Bound("files that are missing or hold a document of 16 parts truncated, malformed or unknown content before each part, or complete; all error modes")
	mode := svg.ErrorMode(nd.Choice("mode", 3))
	x, y := num("x"), num("y")
	k := nd.Choice("kind", 5)
	if k == 0 {
		before := nd.OpenCount()
		got, err := svg.ParseFile([]string{"/nonexistent/dir/file.svg", "", "/nonexistent"}[nd.Choice("name", 3)], mode)
		nd.Assert(err != nil, "a missing file is an error")
		nd.Assert(got == nil, "and gives no result")
		nd.Assert(nd.OpenCount() == before, "nothing left open")
		return
	}
	n := failTokens
	if k > 1 {
		n = nd.Choice("at", failTokens)
	}
	make := func() *nd.Doc {
		return failDoc(n, func(d *nd.Doc) {
			switch k {
			case 2:
				d.Garbage()
			case 3:
				if n > 1 {
					d.Elem("unknown").Elem("rect", "x", "bad").Done()
				}
			}
		}, x, y)
	}
	name := nd.PutFile(make())
	before := nd.OpenCount()
	got, err := svg.ParseFile(name, mode)
	nd.Assert(nd.OpenCount() == before, "the file is closed")
	want, werr := svg.Parse(make(), mode)
	nd.Assert((err == nil) == (werr == nil), "the outcome of Parse")
	if err != nil {
		nd.Assert(err.Error() == werr.Error(), "the error of Parse")
	}
	same("the result of Parse", got, want)
}
