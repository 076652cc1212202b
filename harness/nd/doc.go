package nd

// Doc is a document under construction. Natively it is read as XML text by the real
// decoder; symbolically the engine hands its tokens over in place of the decoder's
// (NextToken), following encoding/xml: an element's end for every start, character data
// in a buffer that is reused, io.EOF after the last token of a complete document, a
// syntax error when the document ends inside an element.

import (
	"bytes"
	"encoding/xml"
	"errors"
	"io"
	"strings"
	"sync"
)

const (
	tokStart = iota
	tokEnd
	tokText
	tokComment
	tokProcInst
	tokFail
	tokGarbage
	tokSloppy
)

type Tok struct {
	Kind  int
	Name  string
	Text  string
	Attrs []xml.Attr
	Err   error

	Full     xml.Name // the name with its namespace
	FullAttr []xml.Attr
}

// space is a namespace declaration in effect for the element at a depth and its content.
type space struct {
	prefix, url string
	depth       int
}

type Doc struct {
	Toks []Tok
	Open []string
	pos  int
	deep int
	ends []string // ends of elements the decoder closes by itself
	buf  []byte

	raw    []byte
	rawErr error
	built  bool

	spaces []space
	full   []xml.Name // of the open elements
}

// translate gives a name its namespace, as the decoder does.
func (d *Doc) translate(n xml.Name, element bool) xml.Name {
	switch {
	case n.Space == "xmlns", n.Space == "" && !element:
		return n
	case n.Space == "xml":
		return xml.Name{Space: "http://www.w3.org/XML/1998/namespace", Local: n.Local}
	}
	for i := len(d.spaces) - 1; i >= 0; i-- {
		if d.spaces[i].prefix == n.Space {
			return xml.Name{Space: d.spaces[i].url, Local: n.Local}
		}
	}
	return n
}

func splitName(name string) xml.Name {
	if p, l, ok := strings.Cut(name, ":"); ok {
		return xml.Name{Space: p, Local: l}
	}
	return xml.Name{Local: name}
}

func NewDoc() *Doc { return &Doc{} }

// Start opens an element; kv are attribute names and values.
func (d *Doc) Start(name string, kv ...string) *Doc {
	attrs := []xml.Attr{}
	for i := 0; i+1 < len(kv); i += 2 {
		n := splitName(kv[i])
		if n.Space == "xmlns" {
			d.spaces = append(d.spaces, space{n.Local, kv[i+1], len(d.Open)})
		} else if n.Space == "" && n.Local == "xmlns" {
			d.spaces = append(d.spaces, space{"", kv[i+1], len(d.Open)})
		}
		attrs = append(attrs, xml.Attr{Name: n, Value: kv[i+1]})
	}
	full := make([]xml.Attr, len(attrs))
	for i, a := range attrs {
		full[i] = xml.Attr{Name: d.translate(a.Name, false), Value: a.Value}
	}
	n := d.translate(splitName(name), true)
	d.Toks = append(d.Toks, Tok{Kind: tokStart, Name: name, Attrs: attrs, Full: n, FullAttr: full})
	d.Open = append(d.Open, name)
	d.full = append(d.full, n)
	return d
}

// End closes the innermost open element.
func (d *Doc) End() *Doc {
	n := d.Open[len(d.Open)-1]
	d.Open = d.Open[:len(d.Open)-1]
	full := splitName(n)
	if len(d.full) > len(d.Open) {
		full = d.full[len(d.Open)]
		d.full = d.full[:len(d.Open)]
	}
	for len(d.spaces) > 0 && d.spaces[len(d.spaces)-1].depth >= len(d.Open) {
		d.spaces = d.spaces[:len(d.spaces)-1]
	}
	d.Toks = append(d.Toks, Tok{Kind: tokEnd, Name: n, Full: full})
	return d
}

// Elem is an element without content.
func (d *Doc) Elem(name string, kv ...string) *Doc {
	d.Start(name, kv...)
	return d.End()
}

// Text is one piece of character data.
func (d *Doc) Text(s string) *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokText, Text: s})
	return d
}

func (d *Doc) Comment() *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokComment})
	return d
}

func (d *Doc) Header() *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokProcInst})
	return d
}

// Encoding is a header that declares a character encoding; the document has ASCII characters only.
func (d *Doc) Encoding(label string) *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokProcInst, Text: label})
	return d
}

// Fail makes the underlying reader fail here with err.
func (d *Doc) Fail(err error) *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokFail, Err: err})
	return d
}

// Garbage is text that is not well-formed XML.
func (d *Doc) Garbage() *Doc {
	d.Toks = append(d.Toks, Tok{Kind: tokGarbage})
	return d
}

// Sloppy is XML that only a lenient decoder accepts: 0 an element that ends without its child's end,
// 1 an unknown entity, 2 an attribute value without quotes, 3 an attribute without a value.
func (d *Doc) Sloppy(kind int) *Doc {
	t := Tok{Kind: tokSloppy, Text: []string{"", "&foo;", "<g a=5>", "<g a>"}[kind]}
	if kind == 0 {
		n := len(d.Open)
		if n < 2 || d.Open[n-1] == d.Open[n-2] {
			return d.Garbage()
		}
		t.Name, t.Text = d.Open[n-2], d.Open[n-1]
		d.Open = d.Open[:n-2]
	}
	d.Toks = append(d.Toks, t)
	if kind >= 2 {
		d.Open = append(d.Open, "g")
		d.End()
	}
	return d
}

// Done closes all open elements.
func (d *Doc) Done() *Doc {
	for len(d.Open) > 0 {
		d.End()
	}
	return d
}

type charsetReader func(charset string, input io.Reader) (io.Reader, error)

// NextToken stands for (*xml.Decoder).Token in the symbolic run.
func NextToken(d *Doc, strict bool, cr charsetReader) (xml.Token, error) {
	return next(d, strict, false, cr)
}

// NextRaw stands for (*xml.Decoder).RawToken in the symbolic run.
func NextRaw(d *Doc, strict bool, cr charsetReader) (xml.Token, error) {
	return next(d, strict, true, cr)
}

func next(d *Doc, strict, raw bool, cr charsetReader) (xml.Token, error) {
	if n := len(d.ends); n > 0 {
		e := d.ends[n-1]
		d.ends = d.ends[:n-1]
		d.deep--
		return xml.EndElement{Name: xml.Name{Local: e}}, nil
	}
	if d.pos >= len(d.Toks) {
		if d.deep > 0 && !raw {
			return nil, errors.New("XML syntax error on line 1: unexpected EOF")
		}
		return nil, io.EOF
	}
	t := &d.Toks[d.pos]
	switch t.Kind {
	case tokStart:
		d.pos++
		d.deep++
		if raw {
			return xml.StartElement{Name: splitName(t.Name), Attr: append([]xml.Attr{}, t.Attrs...)}, nil
		}
		return xml.StartElement{Name: t.Full, Attr: append([]xml.Attr{}, t.FullAttr...)}, nil
	case tokEnd:
		d.pos++
		d.deep--
		if raw {
			return xml.EndElement{Name: splitName(t.Name)}, nil
		}
		return xml.EndElement{Name: t.Full}, nil
	case tokText:
		d.pos++
		d.buf = append(d.buf[:0], t.Text...)
		return xml.CharData(d.buf), nil
	case tokComment:
		d.pos++
		d.buf = append(d.buf[:0], " c "...)
		return xml.Comment(d.buf), nil
	case tokProcInst:
		if t.Text != "" {
			if cr == nil {
				return nil, errors.New("xml: encoding declared but Decoder.CharsetReader is nil")
			}
			if r, err := cr(t.Text, d); err != nil {
				return nil, errors.New("xml: opening charset: " + err.Error())
			} else if r == nil {
				panic("CharsetReader returned a nil Reader for charset " + t.Text)
			}
		}
		d.pos++
		return xml.ProcInst{Target: "xml"}, nil
	case tokGarbage:
		return nil, errors.New("XML syntax error on line 1: expected element name after <")
	case tokSloppy:
		if t.Name != "" && raw {
			d.pos++
			d.deep--
			return xml.EndElement{Name: xml.Name{Local: t.Name}}, nil
		}
		if strict {
			return nil, errors.New("XML syntax error on line 1: sloppy")
		}
		d.pos++
		switch {
		case t.Name != "":
			d.ends = append(d.ends, t.Name)
			d.deep--
			return xml.EndElement{Name: xml.Name{Local: t.Text}}, nil
		case t.Text[0] == '&':
			d.buf = append(d.buf[:0], t.Text...)
			return xml.CharData(d.buf), nil
		}
		d.deep++
		return xml.StartElement{Name: xml.Name{Local: "g"}, Attr: []xml.Attr{{Name: xml.Name{Local: "a"}, Value: "5"}}}, nil
	}
	return nil, t.Err
}

// SkipElement stands for (*xml.Decoder).Skip in the symbolic run.
func SkipElement(d *Doc, strict bool, cr charsetReader) error {
	depth := 0
	for {
		t, err := next(d, strict, false, cr)
		if err != nil {
			return err
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth == 0 {
				return nil
			}
			depth--
		}
	}
}

// ReaderLabel stands for charset.NewReaderLabel in the symbolic run.
func ReaderLabel(label string, input io.Reader) (io.Reader, error) {
	switch label {
	case "UTF-8", "utf-8", "ISO-8859-1", "iso-8859-1", "latin1", "windows-1252", "US-ASCII", "koi8-r", "Shift_JIS":
		return input, nil
	}
	return nil, errors.New("unsupported charset: " + label)
}

var docMu sync.Mutex

func (d *Doc) build() {
	d.built = true
	var b bytes.Buffer
	d.rawErr = io.EOF
	lastText := false
loop:
	for _, t := range d.Toks {
		wasText := lastText
		lastText = false
		switch t.Kind {
		case tokStart:
			b.WriteString("<" + t.Name)
			for _, a := range t.Attrs {
				b.WriteByte(' ')
				if a.Name.Space != "" {
					b.WriteString(a.Name.Space + ":")
				}
				b.WriteString(a.Name.Local + `="`)
				xml.EscapeText(&b, []byte(a.Value))
				b.WriteByte('"')
			}
			b.WriteByte('>')
		case tokEnd:
			b.WriteString("</" + t.Name + ">")
		case tokText:
			if wasText {
				b.WriteString("<![CDATA[" + t.Text + "]]>")
			} else {
				xml.EscapeText(&b, []byte(t.Text))
			}
			lastText = true
		case tokComment:
			b.WriteString("<!-- c -->")
		case tokProcInst:
			e := t.Text
			if e == "" {
				e = "UTF-8"
			}
			b.WriteString(`<?xml version="1.0" encoding="` + e + `"?>`)
		case tokSloppy:
			if t.Name != "" {
				b.WriteString("</" + t.Name + ">")
			} else if t.Text[0] == '&' {
				b.WriteString("<!---->" + t.Text) // not part of the text before it
			} else {
				b.WriteString(t.Text)
			}
		case tokFail:
			d.rawErr = t.Err
			break loop
		case tokGarbage:
			b.WriteString("< <&")
		}
	}
	d.raw = b.Bytes()
	if rep != nil {
		docMu.Lock()
		rep.Docs = append(rep.Docs, b.String())
		docMu.Unlock()
	}
}

// Read serves the XML text in small pieces.
func (d *Doc) Read(p []byte) (int, error) {
	if !d.built {
		d.build()
	}
	if len(d.raw) == 0 {
		return 0, d.rawErr
	}
	n := len(p)
	if n > 64 {
		n = 64
	}
	n = copy(p[:n], d.raw)
	d.raw = d.raw[n:]
	return n, nil
}
