package main

import (
	"bytes"
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"io"
	"net/url"
	"path"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// c18 is an inline filing with files that may be images.
type c18 struct {
	Entry string
	Head  string
	Body  []piece
	Files []afile
	Enc   string `json:",omitempty"`
}

// piece is a part of the document: markup as written, or an image element.
type piece struct {
	Raw string  `json:",omitempty"`
	Img *imgTag `json:",omitempty"`
}
type imgTag struct {
	Src          string // as read
	Before, Post string // other attributes as written
	Quote, End   string
}
type afile struct {
	Name string
	Kind string // png jpg gif text svg
	Salt int
}

func (f *afile) bytes() []byte {
	fill := bytes.Repeat([]byte{byte(f.Salt), 0, 0xff, '<', byte(f.Salt >> 8)}, f.Salt%7)
	switch f.Kind {
	case "png":
		return append([]byte("\x89PNG\x0d\x0a\x1a\x0a"), fill...)
	case "jpg":
		return append([]byte("\xff\xd8\xff\xe0"), fill...)
	case "gif":
		return append([]byte("GIF89a"), fill...)
	case "svg":
		return []byte("<svg xmlns=\"http://www.w3.org/2000/svg\"/>")
	}
	return []byte(fmt.Sprintf("plain text %d", f.Salt))
}

func (f *afile) uri() string {
	switch f.Kind {
	case "png":
		return "data:image/png;base64," + base64.StdEncoding.EncodeToString(f.bytes())
	case "jpg":
		return "data:image/jpeg;base64," + base64.StdEncoding.EncodeToString(f.bytes())
	}
	return ""
}

func (c *c18) doc(final bool) string {
	images := map[string]string{}
	for i := range c.Files {
		if u := c.Files[i].uri(); u != "" {
			images[c.Files[i].Name] = u
		}
	}
	var b strings.Builder
	if c.Enc != "" {
		b.WriteString(`<?xml version="1.0" encoding="` + c.Enc + `"?>` + "\n")
	}
	b.WriteString(`<html xmlns="` + nsXHTML + `" xmlns:ix="` + nsIX + `" xmlns:co="http://vh.test/co/2020"><head>` + c.Head + `</head><body>`)
	for _, p := range c.Body {
		if p.Img == nil {
			b.WriteString(p.Raw)
			continue
		}
		src := p.Img.Src
		if u, ok := images[path.Base(src)]; ok && final {
			src = u
		}
		b.WriteString("<img" + p.Img.Before + " src=" + p.Img.Quote + escAttr(src) + p.Img.Quote + p.Img.Post + p.Img.End)
	}
	b.WriteString(`<p><ix:nonNumeric name="co:A" contextRef="c" id="F1">x</ix:nonNumeric></p></body></html>`)
	return b.String()
}

func (c *c18) spec() *Spec {
	sp := &Spec{Entry: c.Entry, SchemaRef: []string{"co.xsd"}}
	role := "http://vh.test/role/T"
	sp.Schemas = []Schema{{File: "co.xsd", NS: "http://vh.test/co/2020", Prefix: "co", Roles: []Role{{URI: role, ID: "r", Def: "0001 - T"}},
		Concepts: []Concept{{ID: "co_A", Name: "A", Kind: "string"}}}}
	sp.Contexts = []Context{{ID: "c", Scheme: "http://vh.test/lei", Ident: "ABC", Instant: "2020-12-31"}}
	sp.Facts = []Fact{{Concept: "co.xsd#co_A", Ctx: "c", Inner: "x"}}
	sp.Inline = &Inline{Raw: c.doc(false)}
	sp.Extra = map[string]string{}
	for i := range c.Files {
		sp.Extra[c.Files[i].Name] = string(c.Files[i].bytes())
	}
	return sp
}

var docBits = []string{"text ", "más ñ &amp; é ", "1 &lt; 2 ", "<p>a</p>", "<p/>", "<a id=\"x\"/>", "<div/>after", "<td/>", "<table><tr><td/><td>1</td></tr></table>", "<br/>", "<BR/>",
	"<div title=\"a.png\">t</div>", "<!-- <img src=\"a.png\"/> -->", "<![CDATA[<img src=\"a.png\"/> & <b>]]>", "<script/>", "<script>var a = 1;</script>", "<style/>", "<title/>", "<textarea/>",
	"<ix:nonNumeric name=\"co:A\" contextRef=\"c\" continuedAt=\"Z\">val</ix:nonNumeric>", "<ix:nonFraction name=\"co:B\" contextRef=\"c\" format=\"ixt:numdotdecimal\" scale=\"3\" sign=\"-\">1,000</ix:nonFraction>",
	"<IMG/>", "<span style='color:red'>x</span>", "<p title='a\"b'>q</p>", "&#160;", "&#x20AC;", "<image src=\"a.png\"/>", "<imgx src=\"a.png\"/>", "<ix:img src=\"a.png\"/>", "<p src=\"a.png\">s</p>",
	"<img/>", "<img alt=\"a.png\"/>", "<img data-src=\"a.png\"/>", "<?pi <img src=\"a.png\"?>", "\n\t", "]]", "<p>\r\nx</p>", "<form><p><form/></p></form>", "<p><p>nested</p></p>", "<a><a>n</a></a>", "<li>x</li>", "<select><p>x</p></select>", "<b><p>x</p></b>", "<tr><td>loose</td></tr>", "<body/>", "<html/>", "<head/>", "<frameset/>", "<plaintext/>", "<svg viewBox=\"0 0 1 1\"/>", "<p a=\"1\" b=\"2\" A=\"3\">attrs</p>", "<p title=\"a > b\">x</p>", "<iframe src=\"a.png\"/>", "<noscript/>", "<xmp/>", "<hr class=\"\"/>", "<input disabled=\"disabled\"/>"}

func init() {
	names := []string{"a.png", "b.jpg", "logo.gif", "a", "image", "x y.png", "ñ.png", "a.png.txt", "A.PNG", "b&c.png", "data.txt"}
	register(&Check{ID: "C18", Quick: 20000, Thorough: 80000, New: func() any { return &c18{} },
		Rule:  "a document with at least three pieces and at least one image element or image file",
		Setup: func(e *Env) { e.maxUse = 400 },
		Show:  func(c any) string { return j(c) },
		Gen: func(s *Src) any {
			c := &c18{Entry: Pick(s, []string{"doc.htm", "d.xhtml", "a.b.htm"}), Head: Pick(s, []string{"<title>t</title>", "<title/>", "", "<meta charset=\"utf-8\"/><title>T &amp; t</title>", "<style>p { color: red }</style>"})}
			if s.P(40) {
				c.Enc = "UTF-8"
			}
			used := map[string]bool{}
			if s.P(80) {
				s.List(1, 5, 60, func(int) {
					n := Pick(s, names)
					if !used[n] {
						used[n] = true
						c.Files = append(c.Files, afile{Name: n, Kind: Pick(s, []string{"png", "jpg", "png", "jpg", "gif", "text", "svg"}), Salt: s.N(3000)})
					}
				})
			}
			s.List(0, 8, 80, func(int) {
				if s.P(60) {
					c.Body = append(c.Body, piece{Raw: Pick(s, docBits)})
					return
				}
				n := Pick(s, names)
				n = Pick(s, []string{"", "", "", "images/", "./", "../", "http://other.test/p/", "/abs/", "a.png/", "x%20"}) + n + Pick(s, []string{"", "", "", "", "", "?v=1", "#f", "x", "/z"})
				if s.P(4) {
					n = Pick(s, []string{"", "data:image/png;base64,AAAA", "cid:a.png", "a\tb.png", "missing.png"})
				}
				c.Body = append(c.Body, piece{Img: &imgTag{Src: n, Quote: Pick(s, []string{"\"", "\"", "'"}),
					Before: Pick(s, []string{"", "", " alt=\"a.png\"", " style=\"width:1px\" title='\"q\"'", " data-src=\"b.jpg\"", "\n  alt=''", " width=\"10\""}),
					Post:   Pick(s, []string{"", "", " height=\"1\"", " alt=\"x &amp; y &lt;z&gt;\"", " title=\"é\" class=\"a  b\""}),
					End:    Pick(s, []string{"/>", " />", "></img>", "\n/>"})}})
			})
			return c
		},
		Run: func(e *Env, cs any) Verdict {
			c := cs.(*c18)
			id, err := e.put(c.spec().Files())
			if err != nil {
				return Verdict{Err: err}
			}
			r, err := e.try("wweb", &proto.Req{Op: "http", HTTP: []proto.HTTPReq{{Method: "GET", Path: "/folders/" + id + "/" + url.PathEscape(c.Entry)}}})
			if err != nil {
				return asBad(err)
			}
			a := r.HTTP[0]
			if a.Status != 200 {
				return fail("status", "the document is answered with status %d: %s\n%s", a.Status, clip(string(a.Data), 300), c.doc(false))
			}
			stored, want := c.doc(false), c.doc(true)
			nimg := 0
			for i := range c.Files {
				if c.Files[i].uri() != "" {
					nimg++
				}
			}
			if nimg == 0 && string(a.Data) != stored {
				return fail("changed", "without image files the document is served as\n%s\ninstead of\n%s", a.Data, stored)
			}
			if why := sameXML(want, string(a.Data)); why != "" {
				return fail("changed", "%s\nstored:\n%s\nserved:\n%s", why, stored, a.Data)
			}
			nel, hit := 0, 0
			for _, p := range c.Body {
				if p.Img != nil {
					nel++
				}
			}
			if want != stored {
				hit = 1
			}
			return Verdict{Non: len(c.Body) >= 3 && nel+nimg > 0, Tags: []string{fmt.Sprintf("images%s elements%s replaced%d", bucket(nimg, 0, 1), bucket(nel, 0, 1), hit)}}
		}})
}

// sameXML compares two documents by elements, attributes and text.
func sameXML(want, got string) string {
	w, err := flatXML(want)
	if err != nil {
		return "harness wrote a bad document: " + err.Error()
	}
	g, err := flatXML(got)
	if err != nil {
		return "the served document is not well-formed: " + err.Error()
	}
	for i := range w {
		if i >= len(g) {
			return "the served document ends before " + w[i]
		}
		if w[i] != g[i] {
			return fmt.Sprintf("the served document has %s instead of %s", clip(g[i], 400), clip(w[i], 400))
		}
	}
	if len(g) > len(w) {
		return "the served document goes on with " + g[len(w)]
	}
	return ""
}

func flatXML(s string) ([]string, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var out []string
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, fmt.Sprintf("text %q", text))
			text = ""
		}
	}
	depth := 0
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			flush()
			if depth != 0 {
				return nil, fmt.Errorf("elements are not closed")
			}
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			flush()
			depth++
			var as []string
			for _, a := range x.Attr {
				as = append(as, fmt.Sprintf("%s:%s=%q", a.Name.Space, a.Name.Local, a.Value))
			}
			sort.Strings(as)
			out = append(out, fmt.Sprintf("start %s:%s %v", x.Name.Space, x.Name.Local, as))
		case xml.EndElement:
			flush()
			depth--
			out = append(out, fmt.Sprintf("end %s:%s", x.Name.Space, x.Name.Local))
		case xml.CharData:
			if depth > 0 {
				text += string(x)
			}
		}
	}
}
