package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

var richProf = Prof{Schemas: 3, Items: 6, Roles: 3, Entities: 3, Contexts: 9, Density: 40, Pres: 85, Defs: 60, Calcs: 60, Dims: 2, TDims: 2, Nil: 5, Style: 40, Big: 4,
	LabelPct: 30, LFiles: 3, Footnotes: 50, Numbers: 1, Text: 15, Inline: 50, SplitLB: true, NonISO: 15, WildDefs: true, Odd: true}

// ---- C20 ----

// unsettle adds what a filing may say more than once.
func unsettle(s *Src, sp *Spec) {
	if s.P(40) && len(sp.Labels) > 0 { // a label for the same concept, role and language in another place
		lb := &sp.Labels[s.N(len(sp.Labels))]
		if n := len(lb.Links); n > 0 && len(lb.Links[s.N(n)]) > 0 {
			var l LLabel
			for _, x := range lb.Links {
				if len(x) > 0 {
					l = x[s.N(len(x))]
				}
			}
			to := &sp.Labels[s.N(len(sp.Labels))]
			l.Text += " again"
			to.Links = append(to.Links, []LLabel{l})
		}
	}
	if s.P(30) && len(sp.Pres) > 0 { // a section in two presentation linkbases
		l := sp.Pres[s.N(len(sp.Pres))]
		f := "b-pre2.xml"
		c := PLinkbase{File: f}
		for _, x := range l.Links {
			y := PLink{Role: x.Role, Arcs: append([]PArc(nil), x.Arcs...)}
			if len(y.Arcs) > 1 {
				y.Arcs = y.Arcs[:len(y.Arcs)-1]
			}
			c.Links = append(c.Links, y)
		}
		sp.Pres = append(sp.Pres, c)
		sp.Schemas[0].Links = append(sp.Schemas[0].Links, LBRef{"P", f})
	}
	if s.P(30) && len(sp.Calcs) > 0 {
		l := sp.Calcs[s.N(len(sp.Calcs))]
		c := CLinkbase{File: "b-cal2.xml", Links: l.Links}
		sp.Calcs = append(sp.Calcs, c)
		sp.Schemas[0].Links = append(sp.Schemas[0].Links, LBRef{"C", c.File})
	}
	if s.P(30) && len(sp.Defs) > 0 {
		l := sp.Defs[s.N(len(sp.Defs))]
		c := DLinkbase{File: "b-def2.xml", Links: l.Links}
		sp.Defs = append(sp.Defs, c)
		sp.Schemas[0].Links = append(sp.Schemas[0].Links, LBRef{"D", c.File})
	}
	if s.P(25) && len(sp.Facts) > 0 { // a fact reported twice
		f := sp.Facts[s.N(len(sp.Facts))]
		if f.ID != "" {
			f.ID += "-again"
		}
		if !strings.ContainsAny(f.Inner, "<&") && f.Unit == "" {
			f.Inner += "x"
		}
		sp.Facts = append(sp.Facts, f)
	}
	if s.P(25) { // orders that do not tell siblings apart
		for i := range sp.Pres {
			for k := range sp.Pres[i].Links {
				for a := range sp.Pres[i].Links[k].Arcs {
					sp.Pres[i].Links[k].Arcs[a].Order = "1"
				}
			}
		}
		for i := range sp.Calcs {
			for k := range sp.Calcs[i].Links {
				for a := range sp.Calcs[i].Links[k].Arcs {
					sp.Calcs[i].Links[k].Arcs[a].Order = "1"
				}
			}
		}
	}
	if s.P(25) { // a namespace with several locations
		sc := &sp.Schemas[s.N(len(sp.Schemas))]
		switch s.N(4) {
		case 0:
			sp.SchemaRef = append(sp.SchemaRef, "./"+sc.File)
		case 1:
			sp.Schemas[0].Imports = append(sp.Schemas[0].Imports, Import{sc.NS, "./" + sc.File})
		case 2:
			sp.Schemas[0].Imports = append(sp.Schemas[0].Imports, Import{sc.NS, globalSchemas[0].File})
		case 3:
			c := *sc
			c.File = "copy-" + c.File
			c.Links = nil
			sp.Schemas = append(sp.Schemas, c)
			sp.SchemaRef = append(sp.SchemaRef, c.File)
		}
	}
	if s.P(20) && len(sp.Contexts) > 1 { // contexts that say the same
		c := sp.Contexts[s.N(len(sp.Contexts))]
		old := c.ID
		c.ID += "-same"
		sp.Contexts = append(sp.Contexts, c)
		for i := range sp.Facts {
			if sp.Facts[i].Ctx == old && s.P(50) {
				sp.Facts[i].Ctx = c.ID
			}
		}
	}
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-80)
	return fmt.Sprintf("at byte %d: %q and %q", i, clip(string(a[lo:]), 200), clip(string(b[lo:]), 200))
}

// sameAnswers says how two productions of the answers of a folder differ.
func sameAnswers(a, b *proto.Res) string {
	one := func(what string, x, y proto.Ans) string {
		if x.Failed != y.Failed {
			return fmt.Sprintf("%s: one production fails and one does not (%q, %q)", what, x.Err, y.Err)
		}
		if !x.Failed && !bytes.Equal(x.Data, y.Data) {
			return what + " differs " + diffAt(x.Data, y.Data)
		}
		return ""
	}
	if a.Failed != b.Failed {
		return fmt.Sprintf("the folder is loaded only sometimes (%q, %q)", a.Err, b.Err)
	}
	if s := one("catalog", a.Catalog, b.Catalog); s != "" {
		return s
	}
	for _, k := range sortedKeys(a.Pages) {
		if _, ok := b.Pages[k]; !ok {
			return "page " + k + " appears only once"
		}
		if s := one("page "+k, a.Pages[k], b.Pages[k]); s != "" {
			return s
		}
	}
	for i := range a.Lookups {
		if s := one(fmt.Sprintf("lookup %d", i), a.Lookups[i], b.Lookups[i]); s != "" {
			return s
		}
	}
	return ""
}

func init() {
	register(&Check{ID: "C20", Quick: 3500, Thorough: 30000, New: newSpec,
		Rule:   "at least two pages, one of them with rows and a column",
		Assume: []string{"scheduling is left to the runtime; every case is produced three times"},
		Gen: func(s *Src) any {
			if s.P(25) {
				return genReach(s)
			}
			sp := genSpec(s, richProf)
			s.Span(func() { unsettle(s, sp) })
			return sp
		},
		Setup: func(e *Env) { e.maxUse = 400 },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			id, err := e.put(sp.Files())
			if err != nil {
				return Verdict{Err: err}
			}
			q := &proto.Req{ID: id, AllPages: true, Lookups: tagLookups(sp)}
			var first *proto.Res
			for r := 0; r < 1+2*e.again; r++ {
				x, err := e.try([]string{"wcore", "wcore:b"}[r%2], q)
				if err != nil {
					return asBad(err)
				}
				if first == nil {
					first = x
				} else if d := sameAnswers(first, x); d != "" {
					return fail("differs", "the same filing, asked twice: %s", d)
				}
			}
			v := Verdict{}
			if sp.Inline != nil {
				h := proto.HTTPReq{Method: "GET", Path: "/folders/" + id + "/" + url.PathEscape(sp.Entry)}
				var a []proto.Ans
				for r := 0; r < 1+e.again; r++ {
					x, err := e.try([]string{"wweb:dry", "wweb:dry2"}[r%2], &proto.Req{Op: "http", HTTP: []proto.HTTPReq{h, h}})
					if err != nil {
						return asBad(err)
					}
					a = append(a, x.HTTP...)
				}
				for i := 1; i < len(a); i++ {
					if a[i].Status != a[0].Status || a[0].Status == 200 && !bytes.Equal(a[i].Data, a[0].Data) {
						return fail("document", "the same document, asked twice: status %d and %d, %s", a[0].Status, a[i].Status, diffAt(a[0].Data, a[i].Data))
					}
				}
			}
			grids := 0
			for _, k := range sortedKeys(first.Pages) {
				if p, err := decodePage(first.Pages[k].Data); err == nil && len(p.PGrid.PeriodHeaders) > 0 && len(p.PGrid.IndentedLabels) > 1 {
					grids++
				}
			}
			v.Non = grids > 0 && len(first.Pages) > 1
			v.Tags = []string{"pages" + bucket(len(first.Pages), 0, 1, 4, 8), "grids" + bucket(grids, 0, 1, 4), fmt.Sprintf("inline=%v", sp.Inline != nil)}
			return v
		}})
}

// ---- C21 ----

// histCase is a history of requests over a few folders.
type histCase struct {
	Folders []histFolder
	Asks    []histAsk
	Alone   bool `json:",omitempty"` // every expectation from a process of its own
}
type histFolder struct {
	ID   string
	Sp   *Spec  `json:",omitempty"`
	Like int    // copy of an earlier folder with other values, -1 if not
	Salt string `json:",omitempty"`
}
type histAsk struct {
	Folder int    // -1: unknown folder
	Kind   string // catalog page doc fact
	Page   int    `json:",omitempty"` // which page of Of
	Of     int    `json:",omitempty"` // folder the link is taken from
	Link   string `json:",omitempty"` // literal link
	Name   string `json:",omitempty"`
	Ctx    string `json:",omitempty"`
	ID     string `json:",omitempty"` // literal folder id
	Times  int    `json:",omitempty"` // further repetitions
}

func (h *histCase) spec() *Spec { return h.Folders[0].Sp }

// content gives the filing of a folder.
func (h *histCase) content(i int) *Spec {
	f := h.Folders[i]
	if f.Like < 0 {
		return f.Sp
	}
	sp := cloneSpec(h.content(f.Like))
	for k := range sp.Facts {
		x := &sp.Facts[k]
		if x.Nil {
			continue
		}
		if x.Unit == "" {
			x.Inner = f.Salt + x.Inner
		} else {
			x.Inner = strings.TrimSpace(f.Salt)[:1] + "1"
		}
	}
	if sp.Inline != nil {
		sp.Inline.Body += "<p>" + f.Salt + "</p>"
	}
	for k := range sp.Labels {
		for l := range sp.Labels[k].Links {
			for m := range sp.Labels[k].Links[l] {
				sp.Labels[k].Links[l][m].Text += f.Salt
			}
		}
	}
	return sp
}

// files is what is stored for a folder.
func (h *histCase) files(i int) map[string]string { return h.content(i).Files() }

var histProf = Prof{Schemas: 2, Items: 4, Roles: 2, Entities: 2, Contexts: 4, Density: 50, Pres: 90, Defs: 30, Calcs: 30, Dims: 1, TDims: 1, LabelPct: 15, Footnotes: 20, Numbers: 1, Inline: 70, Style: 10, Text: 10}

func genHist(s *Src, asks int) *histCase {
	h := &histCase{}
	ids := []string{"a", "ab", "a b", "A", "a\"", "b", "facts", "ñ"}
	used := map[string]bool{}
	n := s.Range(1, 4)
	for i := 0; i < n; i++ {
		s.Span(func() {
			id := Pick(s, ids)
			for used[id] {
				id += "b"
			}
			used[id] = true
			f := histFolder{ID: id, Like: -1}
			if i > 0 && s.P(60) {
				f.Like = s.N(i)
				f.Salt = fmt.Sprintf("%d%s", i+1, Pick(s, []string{" other", "!", "z"}))
			} else {
				if s.P(20) {
					f.Sp = genReach(s)
				} else {
					f.Sp = genSpec(s, histProf)
				}
				if i > 0 && s.P(20) {
					f.Sp.Break = append(f.Sp.Break, Pick(s, []string{f.Sp.Entry, f.Sp.Schemas[0].File}))
				} else if i > 0 && s.P(10) {
					f.Sp.Drop = append(f.Sp.Drop, f.Sp.Entry)
				}
			}
			h.Folders = append(h.Folders, f)
		})
	}
	var lk []proto.Lookup
	for i := range h.Folders {
		lk = append(lk, tagLookups(h.content(i))...)
	}
	s.List(2, asks, 95, func(int) {
		a := histAsk{Folder: s.N(n)}
		if len(h.Asks) > 0 && s.P(20) { // something that was asked before, perhaps elsewhere
			a = h.Asks[s.N(len(h.Asks))]
			if s.P(60) {
				a.Folder = s.N(n)
				a.ID = ""
			}
			h.Asks = append(h.Asks, a)
			return
		}
		a.Of = a.Folder
		if s.P(10) {
			a.Times = s.Range(1, 3)
		}
		if s.P(6) {
			a.ID = Pick(s, []string{"nosuch", h.Folders[0].ID + "x", "a ", "abb"})
		}
		switch s.PickW(20, 40, 10, 30) {
		case 0:
			a.Kind = "catalog"
		case 1:
			a.Kind = "page"
			a.Page = s.N(6)
			if s.P(20) {
				a.Of = s.N(n)
			}
			if s.P(12) {
				a.Link = Pick(s, []string{"x", "b", "0", "catalog", "facts"})
			} else if len(lk) > 0 && s.P(10) {
				l := lk[s.N(len(lk))]
				a.Link = l.Name + Pick(s, []string{"", "_", "-", "?", ","}) + l.Context
			}
		case 2:
			a.Kind = "doc"
			a.Link = Pick(s, []string{h.content(a.Folder).Entry, "doc.htm", "other.htm", "inst.xhtml"})
		case 3:
			a.Kind = "fact"
			if len(lk) > 0 && s.P(90) {
				l := lk[s.N(len(lk))]
				a.Name, a.Ctx = l.Name, l.Context
				switch s.PickW(60, 15, 15, 5, 5) {
				case 1: // move the boundary
					all := l.Name + l.Context
					k := s.Range(0, len(all))
					a.Name, a.Ctx = all[:k], all[k:]
				case 2: // with something between
					sep := Pick(s, []string{"/", ",", "_", "-", "|", ":", " ", "\" \"", "&contextref=", "?name=", "#", ";"})
					if s.P(50) {
						a.Name, a.Ctx = l.Name+sep+l.Context, ""
					} else {
						a.Name, a.Ctx = "", l.Name+sep+l.Context
					}
				case 3:
					a.Name, a.Ctx = l.Context, l.Name
				case 4:
					a.Ctx = Pick(s, []string{"", "nothing", " " + l.Context})
				}
			} else {
				a.Name, a.Ctx = Pick(s, []string{"", "co:X", "nothing"}), Pick(s, []string{"", "c1"})
			}
			if s.P(5) { // the link of a page as a name
				a.Kind, a.Page = "factlink", s.N(6)
			}
		}
		h.Asks = append(h.Asks, a)
	})
	return h
}

// target gives the request of an ask; links are taken from the catalogs.
func (h *histCase) target(a histAsk, links [][]string) string {
	id := h.Folders[a.Folder].ID
	if a.ID != "" {
		id = a.ID
	}
	p := "/folders/" + url.PathEscape(id)
	link := a.Link
	if link == "" && len(links[a.Of]) > 0 {
		link = links[a.Of][a.Page%len(links[a.Of])]
	}
	if link == "" {
		link = "none"
	}
	switch a.Kind {
	case "catalog":
		return p
	case "page", "doc":
		return p + "/" + url.PathEscape(link)
	case "factlink":
		return p + "/facts?name=" + url.QueryEscape(link) + "&contextref="
	}
	return p + "/facts?name=" + url.QueryEscape(a.Name) + "&contextref=" + url.QueryEscape(a.Ctx)
}

// linksOf finds the links of all folders, in a process that caches nothing.
func (h *histCase) linksOf(e *Env) ([][]string, Verdict) {
	links := make([][]string, len(h.Folders))
	for i := range h.Folders {
		r, err := e.try("wcore", &proto.Req{ID: h.Folders[i].ID, Catalog: true})
		if err != nil {
			return nil, asBad(err)
		}
		if r.Failed || r.Catalog.Failed {
			continue
		}
		c, err := decodeCatalog(r.Catalog.Data)
		if err != nil {
			return nil, fail("load", "%v", err)
		}
		for _, x := range sortedKeys(c.Networks) {
			for _, y := range sortedKeys(c.Networks[x]) {
				links[i] = append(links[i], c.Networks[x][y])
			}
		}
	}
	return links, Verdict{}
}

// expect asks every request on its own.
func expect(e *Env, targets []string, alone bool) (map[string]proto.Ans, Verdict) {
	want := map[string]proto.Ans{}
	var hs []proto.HTTPReq
	for _, t := range targets {
		if _, ok := want[t]; ok {
			continue
		}
		want[t] = proto.Ans{}
		hs = append(hs, proto.HTTPReq{Method: "GET", Path: t})
	}
	if alone {
		for _, x := range hs {
			e.fresh("wweb:alone")
			r, err := e.try("wweb:alone", &proto.Req{Op: "http", HTTP: []proto.HTTPReq{x}})
			if err != nil {
				return nil, asBad(err)
			}
			want[x.Path] = r.HTTP[0]
		}
		return want, Verdict{}
	}
	r, err := e.try("wweb:dry", &proto.Req{Op: "http", HTTP: hs})
	if err != nil {
		return nil, asBad(err)
	}
	for i, x := range hs {
		want[x.Path] = r.HTTP[i]
	}
	return want, Verdict{}
}

func sameAns(want, got proto.Ans) string {
	if (want.Status == 200) != (got.Status == 200) {
		return fmt.Sprintf("status %d instead of %d (%s)", got.Status, want.Status, clip(string(got.Data), 200))
	}
	if want.Status == 200 && !bytes.Equal(want.Data, got.Data) {
		return "other content " + diffAt(want.Data, got.Data)
	}
	return ""
}

func (h *histCase) store(e *Env) error {
	for i := range h.Folders {
		if err := e.putAs(h.Folders[i].ID, h.files(i)); err != nil {
			return err
		}
	}
	return nil
}

func (h *histCase) targets(links [][]string) []string {
	var out []string
	for _, a := range h.Asks {
		for k := 0; k <= a.Times; k++ {
			out = append(out, h.target(a, links))
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C21", Quick: 1500, Thorough: 20000, New: func() any { return &histCase{} },
		Rule: "at least four distinct requests with an answer over at least two folders, and something asked twice",
		Gen: func(s *Src) any {
			h := genHist(s, 40)
			h.Alone = s.P(6)
			return h
		},
		Run: func(e *Env, c any) Verdict {
			h := c.(*histCase)
			if err := h.store(e); err != nil {
				return Verdict{Err: err}
			}
			links, bad := h.linksOf(e)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			ts := h.targets(links)
			want, bad := expect(e, ts, h.Alone)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			// a process that has been asked nothing about these folders
			e.fresh("wweb")
			var hs []proto.HTTPReq
			for _, t := range ts {
				hs = append(hs, proto.HTTPReq{Method: "GET", Path: t})
			}
			r, err := e.try("wweb", &proto.Req{Op: "http", HTTP: hs})
			if err != nil {
				return asBad(err)
			}
			ok, fold, rep := map[string]bool{}, map[string]bool{}, false
			seen := map[string]bool{}
			for i, t := range ts {
				if d := sameAns(want[t], r.HTTP[i]); d != "" {
					return fail("answer", "request %d of %d, %s: %s", i+1, len(ts), t, d)
				}
				rep = rep || seen[t]
				seen[t] = true
				if want[t].Status == 200 && len(want[t].Data) > 0 {
					ok[t] = true
					fold[strings.Split(t, "/")[2]] = true
				}
			}
			return Verdict{Non: len(ok) >= 4 && len(fold) >= 2 && rep, Tags: []string{"folders" + fmt.Sprint(len(h.Folders)), "answered" + bucket(len(ok), 0, 1, 3, 10), "errors" + bucket(len(seen)-len(ok), 0, 1, 3, 10)}}
		}})

	register(&Check{ID: "C22", Quick: 600, Thorough: 5000, New: func() any { return &histCase{} }, Shards: 6,
		Rule:   "at least four simultaneous distinct requests with an answer",
		Assume: []string{"scheduling is left to the runtime; the race detector observes the executions that occur"},
		Gen:    func(s *Src) any { return genHist(s, 24) },
		Run: func(e *Env, c any) Verdict {
			h := c.(*histCase)
			if err := h.store(e); err != nil {
				return Verdict{Err: err}
			}
			links, bad := h.linksOf(e)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			ts := h.targets(links)
			want, bad := expect(e, ts, false)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			var hs []proto.HTTPReq
			ok := map[string]bool{}
			for _, t := range ts {
				hs = append(hs, proto.HTTPReq{Method: "GET", Path: t})
				if want[t].Status == 200 && len(want[t].Data) > 0 {
					ok[t] = true
				}
			}
			for k := 0; k < e.again; k++ {
				e.fresh("wrace")
				for round := 0; round < 2; round++ { // cold, then warm
					r, err := e.try("wrace", &proto.Req{Op: "http", HTTP: hs, Parallel: true})
					if err != nil {
						return asBad(err)
					}
					for i, t := range ts {
						if d := sameAns(want[t], r.HTTP[i]); d != "" {
							return fail("answer", "simultaneous request %s: %s", t, d)
						}
					}
				}
			}
			return Verdict{Non: len(ok) >= 4, Tags: []string{"folders" + fmt.Sprint(len(h.Folders)), "simultaneous" + bucket(len(ts), 2, 5, 10, 20), "answered" + bucket(len(ok), 0, 1, 3, 10)}}
		}})
}
