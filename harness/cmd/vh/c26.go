package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"mime"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C26 ----

type webCase struct {
	ID    string
	Sp    *Spec
	Asks  []webAsk
	Other bool `json:",omitempty"` // a second folder exists
}
type webAsk struct {
	Method string
	Kind   string // catalog page doc fact raw
	Page   int    `json:",omitempty"`
	Link   string `json:",omitempty"`
	Name   string `json:",omitempty"`
	Ctx    string `json:",omitempty"`
	Form   int    `json:",omitempty"` // how the request is written
	ID     string `json:",omitempty"` // another folder id
}

func (c *webCase) spec() *Spec { return c.Sp }

// oddContexts gives contexts ids that depend on how they are transported.
func oddContexts(s *Src, sp *Spec) {
	ren := map[string]string{}
	for i := range sp.Contexts {
		if s.P(35) {
			n := sp.Contexts[i].ID + Pick(s, []string{"+x", "%41", "%2B", "%", " y", "&z", "=w", "é", "#h", "&contextref=q", "?", "/s", "..", "%2525", ";v", "\"", "'", "ü+ü", "&amp;"})
			ren[sp.Contexts[i].ID] = n
			sp.Contexts[i].ID = n
		}
	}
	for i := range sp.Facts {
		if n, ok := ren[sp.Facts[i].Ctx]; ok {
			sp.Facts[i].Ctx = n
		}
	}
	if sp.Inline != nil {
		for i := range sp.Inline.Tags {
			if n, ok := ren[sp.Inline.Tags[i].Ctx]; ok {
				sp.Inline.Tags[i].Ctx = n
			}
		}
	}
}

func allPct(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02X", s[i])
	}
	return b.String()
}

func (c *webCase) target(a webAsk, links []string) string {
	id := c.ID
	if a.ID != "" {
		id = a.ID
	}
	esc := url.PathEscape
	if a.Form&1 == 1 {
		esc = allPct
		if id == "." || id == ".." {
			esc = url.PathEscape
		}
	}
	p := "/folders/" + esc(id)
	link := a.Link
	if link == "" {
		link = "none"
		if len(links) > 0 {
			link = links[a.Page%len(links)]
		}
	}
	switch a.Kind {
	case "catalog":
		return p
	case "page":
		return p + "/" + esc(link)
	case "doc":
		return p + "/" + esc(c.Sp.Entry)
	case "raw":
		return strings.ReplaceAll(a.Link, "{f}", p)
	}
	q := url.QueryEscape
	switch a.Form >> 1 & 3 {
	case 1:
		q = allPct
	case 2:
		q = func(s string) string { return strings.ReplaceAll(url.QueryEscape(s), "+", "%20") }
	}
	n, x := "name="+q(a.Name), "contextref="+q(a.Ctx)
	t := p + "/facts?"
	switch a.Form >> 3 & 3 {
	case 0:
		return t + n + "&" + x
	case 1:
		return t + x + "&" + n
	case 2:
		return t + "v=1&" + n + "&other=" + q(a.Name) + "&" + x
	}
	return t + n + "&" + x + "&Name=no&contextRef=no"
}

func init() {
	pr := histProf
	pr.Contexts, pr.Style, pr.Inline, pr.Odd = 5, 0, 80, true
	register(&Check{ID: "C26", Quick: 4000, Thorough: 40000, New: func() any { return &webCase{} },
		Rule:  "at least three requests with data and one without",
		Setup: func(e *Env) { e.maxUse = 300 },
		Gen: func(s *Src) any {
			c := &webCase{Sp: genSpec(s, pr)}
			c.ID = Pick(s, []string{"f", "a b", "ñ", "a+b", "a%20b", "a;b", "a=b&c", "facts", "a?b", "x#y", "A.B-C_d~e", "a\"b", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "a,b", "@a:b", "catalog"})
			s.Span(func() { oddContexts(s, c.Sp) })
			if c.Sp.Inline != nil && s.P(40) {
				c.Sp.Entry = Pick(s, []string{"a b.htm", "ñ.xhtml", "a%41.htm", "a+b.xhtml", "x&y.htm", "d;e.htm", "facts.htm", "a?b.htm", "a#b.htm", "a.xml.htm", strings.Repeat("report", 32) + ".htm"})
			}
			ls := tagLookups(c.Sp)
			s.List(3, 24, 90, func(int) {
				a := webAsk{Method: "GET", Form: s.N(32)}
				if s.P(12) {
					a.Method = Pick(s, []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "X"})
				}
				if s.P(6) {
					a.ID = Pick(s, []string{"nosuch", "folders", "names.json", c.ID + "x", "F"})
				}
				switch s.PickW(15, 30, 10, 40, 5) {
				case 0:
					a.Kind = "catalog"
				case 1:
					a.Kind, a.Page = "page", s.N(8)
					if s.P(15) {
						a.Link = Pick(s, []string{"x", "none.htm", "facts2", "_", "co.xsd", "doc.htm.xml", "0", "%", " ", "inst.xml"})
					}
				case 2:
					a.Kind = "doc"
				case 3:
					a.Kind = "fact"
					if len(ls) > 0 && s.P(85) {
						l := ls[s.N(len(ls))]
						a.Name, a.Ctx = l.Name, l.Context
						if s.P(10) {
							a.Ctx = Pick(s, []string{"", "nothing", l.Context + " ", strings.ToUpper(l.Context)})
						}
						if s.P(8) {
							a.Name = Pick(s, []string{"", "co:Nothing", strings.ReplaceAll(l.Name, ":", "%3A"), l.Name + "+"})
						}
					} else {
						a.Name, a.Ctx = Pick(s, []string{"", "a:b", "%", "+", "é", "\x00", strings.Repeat("n", 3000)}), Pick(s, []string{"", "c1", "&", "%zz"})
					}
				case 4:
					a.Kind = "raw"
					a.Link = Pick(s, []string{"/folders", "/folders/", "{f}/", "{f}/x/y", "/", "/folders//", "{f}/facts/x", "/folders/facts", "{f}/facts?name=%zz", "{f}//", "/Folders/x", "/nothing", "/names.json", "/folders/..", "//folders"})
				}
				c.Asks = append(c.Asks, a)
			})
			return c
		},
		Run: runWeb})
}

func runWeb(e *Env, cs any) Verdict {
	c := cs.(*webCase)
	// every case has its own ids, so that one process can serve many of them
	id, err := e.put(c.Sp.Files())
	if err != nil {
		return Verdict{Err: err}
	}
	real := *c
	real.ID = id + c.ID
	c = &real
	if err := e.putAs(c.ID, c.Sp.Files()); err != nil {
		return Verdict{Err: err}
	}
	q := &proto.Req{ID: c.ID, AllPages: true}
	for _, a := range c.Asks {
		q.Lookups = append(q.Lookups, proto.Lookup{Name: a.Name, Context: a.Ctx})
		if a.Kind == "page" && a.Link != "" {
			q.Slugs = append(q.Slugs, a.Link)
		}
	}
	lib, err := e.try("wcore", q)
	if err != nil {
		return asBad(err)
	}
	if lib.Failed {
		return fail("load", "the filing is not loaded: %s", lib.Err)
	}
	cat, err := decodeCatalog(lib.Catalog.Data)
	if err != nil {
		return fail("load", "%v", err)
	}
	var links []string
	for _, x := range sortedKeys(cat.Networks) {
		for _, y := range sortedKeys(cat.Networks[x]) {
			links = append(links, cat.Networks[x][y])
		}
	}
	hq := &proto.Req{Op: "http"}
	for _, a := range c.Asks {
		hq.HTTP = append(hq.HTTP, proto.HTTPReq{Method: a.Method, Path: c.target(a, links)})
	}
	r, err := e.try("wweb", hq)
	if err != nil {
		return asBad(err)
	}
	files := c.Sp.Files()
	found, none, methods := 0, 0, 0
	for i, a := range c.Asks {
		got := r.HTTP[i]
		what := fmt.Sprintf("%s %s", a.Method, hq.HTTP[i].Path)
		if got.Status == -1 {
			continue // not a request
		}
		var want []byte
		ctype := "json"
		ok, either := false, false
		switch {
		case a.Method != "GET" || a.ID != "" || a.Kind == "raw":
		case a.Kind == "catalog":
			ok, want = true, lib.Catalog.Data
		case a.Kind == "page":
			l := a.Link
			if l == "" && len(links) > 0 {
				l = links[a.Page%len(links)]
			}
			if p, known := lib.Pages[l]; known && !p.Failed {
				ok, want = true, p.Data
			}
			if l == c.Sp.Entry && c.Sp.Inline != nil {
				ok, want, ctype = true, []byte(files[c.Sp.Entry]), "markup"
			}
		case a.Kind == "doc":
			if c.Sp.Inline != nil {
				ok, want, ctype = true, []byte(files[c.Sp.Entry]), "markup"
			}
		case a.Kind == "fact":
			if l := lib.Lookups[i]; !l.Failed {
				ok, want = true, l.Data
				either = len(want) == 0
			}
		}
		if a.Method != "GET" {
			methods++
		}
		if either {
			if len(got.Data) > 0 && got.Status == 200 {
				return fail("none", "%s finds something that is not there: %s", what, clip(string(got.Data), 300))
			}
			none++
			continue
		}
		if !ok {
			if got.Status == 200 || got.Status == 206 {
				return fail("served", "%s is answered with status %d and %s", what, got.Status, clip(string(got.Data), 300))
			}
			if d := bytes.TrimSpace(got.Data); len(d) > 0 && (d[0] == '{' || d[0] == '[') && json.Valid(d) {
				return fail("served", "%s is answered with status %d and data: %s", what, got.Status, clip(string(d), 300))
			}
			none++
			continue
		}
		if got.Status != 200 {
			return fail("status", "%s is answered with status %d: %s", what, got.Status, clip(string(got.Data), 300))
		}
		if !bytes.Equal(got.Data, want) {
			return fail("data", "%s gives not what the library gives, %s", what, diffAt(want, got.Data))
		}
		mt, _, err := mime.ParseMediaType(got.CType)
		if err != nil {
			return fail("type", "%s declares %q", what, got.CType)
		}
		isJSON := mt == "application/json" || strings.HasSuffix(mt, "+json")
		isMarkup := mt == "text/html" || mt == "application/xhtml+xml" || mt == "text/xml" || mt == "application/xml"
		if ctype == "json" && !isJSON || ctype == "markup" && !isMarkup {
			return fail("type", "%s is declared as %q", what, got.CType)
		}
		found++
	}
	return Verdict{Non: found >= 3 && none >= 1, Tags: []string{"found" + bucket(found, 0, 2, 6, 12), "none" + bucket(none, 0, 1, 4), "other methods" + bucket(methods, 0, 1, 2), fmt.Sprintf("inline=%v", c.Sp.Inline != nil)}}
}
