package main

import (
	"fmt"
	"reflect"
	"sort"
)

// ---- C19 ----

// effective is the part of the filing that can be reached from the instance:
// what the answers have to show, and all they may show.
func (s *Spec) effective() (*Spec, map[string]bool) {
	gone := map[string]bool{}
	for _, f := range s.Drop {
		gone[f] = true
	}
	for _, f := range s.Break {
		gone[f] = true
	}
	byFile := map[string]*Schema{}
	for i := range s.Schemas {
		byFile[s.Schemas[i].File] = &s.Schemas[i]
	}
	reach := map[string]bool{}
	lbs := map[string]bool{}
	global := map[string]bool{}
	var visit func(f string)
	visit = func(f string) {
		sc := byFile[f]
		if sc == nil || gone[f] || reach[f] {
			return
		}
		reach[f] = true
		for _, l := range sc.Links {
			if !gone[l.Href] {
				lbs[l.Kind+l.Href] = true
			}
		}
		for _, im := range sc.Imports {
			for i := range globalSchemas {
				if im.Loc == globalSchemas[i].File {
					global[globalSchemas[i].NS] = true
				}
			}
			visit(im.Loc)
		}
		for _, in := range sc.Includes {
			visit(in)
		}
	}
	for _, r := range s.SchemaRef {
		visit(r)
	}
	e := cloneSpec(s)
	e.Schemas, e.Pres, e.Defs, e.Calcs, e.Labels, e.Facts = nil, nil, nil, nil, nil, nil
	for _, sc := range s.Schemas {
		if reach[sc.File] {
			e.Schemas = append(e.Schemas, sc)
		}
	}
	for _, l := range s.Pres {
		if lbs["P"+l.File] {
			e.Pres = append(e.Pres, l)
		}
	}
	for _, l := range s.Defs {
		if lbs["D"+l.File] {
			e.Defs = append(e.Defs, l)
		}
	}
	for _, l := range s.Calcs {
		if lbs["C"+l.File] {
			e.Calcs = append(e.Calcs, l)
		}
	}
	for _, l := range s.Labels {
		if lbs["L"+l.File] {
			e.Labels = append(e.Labels, l)
		}
	}
	for _, f := range s.Facts {
		c, sc := e.find(f.Concept)
		if c == nil {
			continue
		}
		if byFile[sc.File] == nil && !global[sc.NS] {
			continue
		}
		e.Facts = append(e.Facts, f)
	}
	return e, reach
}

func genReach(s *Src) *Spec {
	sp := &Spec{Entry: "inst.xml"}
	n := s.Range(2, 6)
	letters := []string{"a", "b", "c", "d", "e", "f"}
	group := make([]int, n)
	var all []string
	leaf := make([]bool, n) // in a directory of its own, and refers to nothing
	for i := 0; i < n; i++ {
		group[i] = s.N(3)
		l := letters[i]
		file := l + ".xsd"
		if i > 0 && s.P(8) {
			leaf[i] = true
			file = "dir/" + file
		}
		sc := Schema{File: file, NS: fmt.Sprintf("http://vh.test/ns%d", group[i]), Prefix: fmt.Sprintf("ns%d", group[i])}
		k := s.Range(1, 3)
		for c := 0; c < k; c++ {
			name := fmt.Sprintf("%s%d", []string{"A", "B", "C", "D", "E", "F"}[i], c)
			sc.Concepts = append(sc.Concepts, Concept{ID: "id_" + name, Name: name, Kind: "string"})
			all = append(all, sc.File+"#id_"+name)
		}
		if s.P(85) {
			sc.Roles = append(sc.Roles, Role{URI: "http://vh.test/role/" + l, ID: "r" + l, Def: "00" + l + " - Statement"})
		}
		sp.Schemas = append(sp.Schemas, sc)
	}
	inner := func(i int) int {
		if leaf[i] {
			return 0
		}
		return i
	}
	edge := func(i, k int) {
		i = inner(i)
		a, b := &sp.Schemas[i], &sp.Schemas[k]
		if a.NS == b.NS {
			a.Includes = append(a.Includes, b.File)
		} else {
			a.Imports = append(a.Imports, Import{b.NS, b.File})
		}
	}
	// a spanning shape and further edges, cycles included
	shape := s.PickW(30, 30, 25, 15)
	for i := 1; i < n; i++ {
		switch shape {
		case 0:
			edge(s.N(i), i)
		case 1:
			edge(i-1, i)
		case 2:
			edge(0, i)
		}
	}
	s.List(0, 6, 65, func(int) { edge(s.N(n), s.N(n)) })
	if n > 2 && s.P(25) { // cut something off
		k := s.Range(1, n-1)
		for i := range sp.Schemas {
			var im []Import
			for _, x := range sp.Schemas[i].Imports {
				if x.Loc != sp.Schemas[k].File {
					im = append(im, x)
				}
			}
			var in []string
			for _, x := range sp.Schemas[i].Includes {
				if x != sp.Schemas[k].File {
					in = append(in, x)
				}
			}
			sp.Schemas[i].Imports, sp.Schemas[i].Includes = im, in
		}
	}
	sp.SchemaRef = []string{"a.xsd"}
	s.List(0, 2, 30, func(int) { sp.SchemaRef = append(sp.SchemaRef, sp.Schemas[s.N(n)].File) })
	if s.P(15) {
		sp.SchemaRef = append([]string{globalSchemas[0].File}, sp.SchemaRef...)
	}
	// global taxonomies
	if s.P(50) {
		gs := &globalSchemas[s.N(2)]
		k := inner(s.N(n))
		sp.Schemas[k].Imports = append(sp.Schemas[k].Imports, Import{gs.NS, gs.File})
		if s.P(40) {
			k = inner(s.N(n))
			sp.Schemas[k].Imports = append(sp.Schemas[k].Imports, Import{gs.NS, gs.File})
		}
		all = append(all, gs.File+"#std_Name", gs.File+"#std_StatementAbstract")
	}
	if s.P(20) {
		k := inner(s.N(n))
		sp.Schemas[k].Imports = append(sp.Schemas[k].Imports, Import{"http://vh.test/none", Pick(s, []string{"http://vh.test/none/none.xsd", "none.xsd"})})
	}
	// a reference for a known namespace that leads nowhere
	if s.P(20) {
		k := inner(s.N(n))
		sp.Schemas[k].Imports = append(sp.Schemas[k].Imports, Import{fmt.Sprintf("http://vh.test/ns%d", (group[k]+1)%3), "gone.xsd"})
	}
	// linkbases: for every section and kind at most one file has the network
	used := map[string]bool{}
	ref := func(kind, file string) {
		if used[kind+file] {
			return
		}
		used[kind+file] = true
		k := inner(s.N(n))
		sp.Schemas[k].Links = append(sp.Schemas[k].Links, LBRef{kind, file})
		if s.P(25) {
			k = inner((k + 1) % n)
			sp.Schemas[k].Links = append(sp.Schemas[k].Links, LBRef{kind, file})
		}
	}
	g := &G{Src: s}
	pair := func() [][2]string { return g.forest(all, 2, 6, false) }
	for i := 0; i < n; i++ {
		if len(sp.Schemas[i].Roles) == 0 {
			continue
		}
		role := sp.Schemas[i].Roles[0].URI
		if s.P(80) {
			f := letters[s.N(n)] + "-pre.xml"
			var arcs []PArc
			for o, p := range pair() {
				arcs = append(arcs, PArc{From: p[0], To: p[1], Order: fmt.Sprint(o + 1)})
			}
			k := -1
			for x := range sp.Pres {
				if sp.Pres[x].File == f {
					k = x
				}
			}
			if k < 0 {
				sp.Pres = append(sp.Pres, PLinkbase{File: f})
				k = len(sp.Pres) - 1
			}
			sp.Pres[k].Links = append(sp.Pres[k].Links, PLink{role, arcs})
			ref("P", f)
		}
		if s.P(35) {
			f := letters[s.N(n)] + "-def.xml"
			var arcs []DArc
			for o, p := range pair() {
				arcs = append(arcs, DArc{From: p[0], To: p[1], Kind: "dm", Order: fmt.Sprint(o + 1)})
			}
			k := -1
			for x := range sp.Defs {
				if sp.Defs[x].File == f {
					k = x
				}
			}
			if k < 0 {
				sp.Defs = append(sp.Defs, DLinkbase{File: f})
				k = len(sp.Defs) - 1
			}
			sp.Defs[k].Links = append(sp.Defs[k].Links, DLink{role, arcs})
			ref("D", f)
		}
		if s.P(35) {
			f := letters[s.N(n)] + "-cal.xml"
			var arcs []CArc
			for o, p := range pair() {
				arcs = append(arcs, CArc{From: p[0], To: p[1], Order: fmt.Sprint(o + 1), Weight: "1"})
			}
			k := -1
			for x := range sp.Calcs {
				if sp.Calcs[x].File == f {
					k = x
				}
			}
			if k < 0 {
				sp.Calcs = append(sp.Calcs, CLinkbase{File: f})
				k = len(sp.Calcs) - 1
			}
			sp.Calcs[k].Links = append(sp.Calcs[k].Links, CLink{role, arcs})
			ref("C", f)
		}
	}
	for li, c := range all {
		if s.P(35) {
			f := letters[s.N(n)] + "-lab.xml"
			k := -1
			for x := range sp.Labels {
				if sp.Labels[x].File == f {
					k = x
				}
			}
			if k < 0 {
				sp.Labels = append(sp.Labels, LLinkbase{File: f, Links: [][]LLabel{nil}})
				k = len(sp.Labels) - 1
			}
			sp.Labels[k].Links[0] = append(sp.Labels[k].Links[0], LLabel{Concept: c, Role: roleLabel, Lang: Pick(s, []string{"en-US", "es"}), Text: fmt.Sprintf("Label %d", li)})
			ref("L", f)
		}
	}
	if s.P(30) { // a linkbase that is referred to but does not exist
		k := inner(s.N(n))
		sp.Schemas[k].Links = append(sp.Schemas[k].Links, LBRef{Pick(s, []string{"P", "D", "C", "L"}), "nosuch.xml"})
	}
	// facts on everything
	nc := s.Range(1, 2)
	for c := 0; c < nc; c++ {
		sp.Contexts = append(sp.Contexts, Context{ID: fmt.Sprintf("c%d", c), Scheme: "http://vh.test/lei", Ident: "ABC", Instant: fmt.Sprintf("2020-12-%02d", 10+c)})
		for i, h := range all {
			if cn, _ := sp.find(h); cn.Abstract || !s.P(80) {
				continue
			}
			sp.Facts = append(sp.Facts, Fact{ID: fmt.Sprintf("f%d-%d", c, i), Concept: h, Ctx: fmt.Sprintf("c%d", c), Inner: fmt.Sprintf("v%d-%d", c, i)})
		}
	}
	// missing and malformed files
	if s.P(45) {
		var files []string
		for f := range sp.Files() {
			if f != "_" && f != sp.Entry {
				files = append(files, f)
			}
		}
		sort.Strings(files)
		s.List(1, 3, 40, func(int) {
			f := Pick(s, files)
			if s.P(50) {
				sp.Drop = append(sp.Drop, f)
			} else {
				sp.Break = append(sp.Break, f)
			}
		})
	}
	if s.P(20) {
		sp.Inline = &Inline{}
		sp.Entry = "doc.htm"
	}
	sp.Style = genStyle(s, 30)
	sp.Style.Split = false
	return sp
}

func init() {
	register(&Check{ID: "C19", Quick: 12000, Thorough: 80000, New: newSpec,
		Rule: "at least three schemas take part, or a file that does not take part exists",
		Gen:  func(s *Src) any { return genReach(s) },
		Run:  runReach,
		Directed: func() []Directed {
			two := &Spec{Entry: "inst.xml", SchemaRef: []string{"a.xsd"}}
			role := "http://vh.test/role/a"
			two.Schemas = []Schema{{File: "a.xsd", NS: "http://vh.test/ns0", Prefix: "ns0", Roles: []Role{{URI: role, ID: "ra", Def: "0001 - A"}},
				Concepts: []Concept{{ID: "A", Name: "A", Kind: "string"}, {ID: "B", Name: "B", Kind: "string"}, {ID: "C", Name: "C", Kind: "string"}, {ID: "D", Name: "D", Kind: "string"}},
				Links:    []LBRef{{"P", "a-pre.xml"}, {"P", "b-pre.xml"}}}}
			two.Pres = []PLinkbase{{File: "a-pre.xml", Links: []PLink{{role, []PArc{{From: "a.xsd#A", To: "a.xsd#B", Order: "1"}}}}},
				{File: "b-pre.xml", Links: []PLink{{role, []PArc{{From: "a.xsd#C", To: "a.xsd#D", Order: "1"}}}}}}
			two.Contexts = []Context{{ID: "c0", Scheme: "http://vh.test/lei", Ident: "ABC", Instant: "2020-12-31"}}
			two.Facts = []Fact{{Concept: "a.xsd#B", Ctx: "c0", Inner: "b"}, {Concept: "a.xsd#D", Ctx: "c0", Inner: "d"}}
			return []Directed{{"two-linkbases-one-section", two}}
		}})
}

func runReach(e *Env, cs any) Verdict {
	full := cs.(*Spec)
	sp, reach := full.effective()
	id, err := e.put(full.Files())
	if err != nil {
		return Verdict{Err: err}
	}
	v, bad := fetchID(e, "wcore", id, sp, nil)
	if bad.Fail != "" || bad.Err != nil {
		return bad
	}
	if want := sp.sections(); !sameList(want, v.Cat.RelationshipSets) {
		return fail("sections", "sections: %s", firstDiff(want, v.Cat.RelationshipSets))
	}
	known := func(h string) bool { c, _ := sp.find(h); return c != nil }
	cells := 0
	bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
		want := sp.presTree(sec.RoleURI)
		var hs []string
		var ls []int
		for _, r := range p.PGrid.IndentedLabels {
			hs = append(hs, r.Href)
			ls = append(ls, r.Indentation)
			if w := sp.pack(r.Href); !reflect.DeepEqual(w, trimPack(r.Label)) {
				return fail("label", "labels of row %s: %s", r.Href, firstDiff(w, r.Label))
			}
		}
		got, err := parseRows(hs, ls)
		if err != nil {
			return fail("rows", "%v", err)
		}
		if err := matchForest("the section", want, got, true); err != nil {
			return fail("rows", "%v", err)
		}
		g := &p.PGrid.Grid
		for _, x := range p.grids() {
			if err := x.shape(); err != nil {
				return fail("shape", "%v", err)
			}
		}
		rel := sp.relevant(hs, en)
		if len(g.PeriodHeaders) != len(rel) {
			return fail("columns", "%d columns for %d contexts with facts on the rows", len(g.PeriodHeaders), len(rel))
		}
		// columns are told apart by their instants
		for col := range g.PeriodHeaders {
			ctx := ""
			for _, c := range sp.Contexts {
				if c.Instant == g.PeriodHeaders[col]["Unlabelled"] {
					ctx = c.ID
				}
			}
			for r, h := range hs {
				f := sp.fact(h, ctx)
				if why := sp.cellShows(f, g.FactualQuadrant[r][col]); why != "" {
					return fail("cell", "row %s, context %s: %s", h, ctx, why)
				}
				if f != nil {
					cells++
				}
			}
		}
		// calculations between known concepts
		by := map[string][]string{}
		for _, a := range sp.calcArcs(sec.RoleURI) {
			if known(a.From) && known(a.To) {
				by[a.From] = append(by[a.From], a.To)
			}
		}
		shownBy := map[string][]string{}
		for _, si := range p.CGrid.SummationItems {
			for _, c := range si.ContributingConcepts {
				if known(si.Href) && known(c.Href) {
					shownBy[si.Href] = append(shownBy[si.Href], c.Href)
				}
			}
		}
		if !reflect.DeepEqual(by, shownBy) {
			return fail("calc", "calculations: %s", firstDiff(by, shownBy))
		}
		// definition relationships
		var dw, dg []string
		for _, a := range sp.defArcs(sec.RoleURI) {
			dw = append(dw, a.From+" -> "+a.To)
		}
		for _, l := range p.DGrid.DRS.Links {
			dg = append(dg, l.SourceHref+" -> "+l.TargetHref)
		}
		sort.Strings(dw)
		sort.Strings(dg)
		if !sameList(dw, dg) {
			return fail("def", "definition relationships: %s", firstDiff(dw, dg))
		}
		return Verdict{}
	})
	out := len(full.Schemas) - len(sp.Schemas) + len(full.Pres) - len(sp.Pres) + len(full.Calcs) - len(sp.Calcs) + len(full.Defs) - len(sp.Defs) + len(full.Labels) - len(sp.Labels)
	bad.Non = len(reach) >= 3 || out > 0
	bad.Tags = []string{"reached" + bucket(len(reach), 0, 1, 2, 4), "left out" + bucket(out, 0, 1, 3), "cells" + bucket(cells, 0, 3, 10), fmt.Sprintf("removed%d", len(full.Drop)+len(full.Break))}
	return bad
}

func trimPack(p Pack) Pack {
	o := Pack{}
	for r, m := range p {
		if len(m) > 0 {
			o[r] = m
		}
	}
	return o
}
