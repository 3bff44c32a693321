package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"ecksbee.com/telefacts/vh/proto"
)

func newSpec() any { return &Spec{} }

func firstDiff(want, got any) string {
	return fmt.Sprintf("expected %s, got %s", clip(j(want), 1500), clip(j(got), 1500))
}

// ---- C01 ----

func init() {
	pr := Prof{SlashEnts: true, Schemas: 4, Items: 2, Roles: 8, Entities: 6, Contexts: 12, Density: 40, Pres: 30, ManyAnn: true, Inline: 30, Style: 40, Big: 5}
	register(&Check{ID: "C01", Quick: 20000, Thorough: 90000, New: newSpec,
		Rule: "at least two entities or at least two sections",
		Gen: func(s *Src) any {
			sp := genSpec(s, pr)
			return sp
		},
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			id, err := e.put(sp.Files())
			if err != nil {
				return Verdict{Err: err}
			}
			r, err := e.try("wcore", &proto.Req{ID: id, Catalog: true})
			if err != nil {
				return asBad(err)
			}
			if r.Failed || r.Catalog.Failed {
				return fail("load", "no catalog: %s%s", r.Err, r.Catalog.Err)
			}
			var cat Catalog
			if err := unjson(r.Catalog.Data, &cat); err != nil {
				return fail("load", "catalog is not JSON: %v", err)
			}
			ents, secs := sp.entities(), sp.sections()
			var subj []Subject
			for _, en := range ents {
				subj = append(subj, Subject{entityName(en), en})
			}
			if !sameList(subj, cat.Subjects) {
				return fail("entities", "entities: %s", firstDiff(subj, cat.Subjects))
			}
			if !sameList(secs, cat.RelationshipSets) {
				return fail("sections", "sections: %s", firstDiff(secs, cat.RelationshipSets))
			}
			doc := ""
			if sp.Inline != nil {
				doc = sp.Entry
			}
			if cat.DocumentName != doc {
				return fail("document", "document name: expected %q, got %q", doc, cat.DocumentName)
			}
			return Verdict{Non: len(ents) > 1 || len(secs) > 1, Tags: []string{"entities" + bucket(len(ents), 1, 2, 4), "sections" + bucket(len(secs), 0, 1, 2, 4), fmt.Sprint("inline=", sp.Inline != nil), fmt.Sprint("schemas=", len(sp.Schemas))}}
		}})
}

func sameList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- C02 ----

type c02 struct {
	A, B  *Spec // B differs from A in parts that have nothing to do with the shared pairs
	Wrong []string
}

func (c *c02) spec() *Spec { return c.A }

func init() {
	pr := Prof{Schemas: 2, Items: 2, Roles: 6, Entities: 5, Contexts: 9, Density: 35, Pres: 50, Calcs: 15, ManyAnn: true, Style: 20}
	register(&Check{ID: "C02", Quick: 8000, Thorough: 35000, New: func() any { return &c02{} },
		Rule: "at least four links in the catalog",
		Gen: func(s *Src) any {
			c := &c02{A: genSpec(s, pr)}
			b := cloneSpec(c.A)
			// drop some entities, sections, facts and links from the copy
			if s.P(50) {
				ents := b.entities()
				if len(ents) > 1 {
					d := ents[s.N(len(ents))]
					dropEntity(b, d)
				}
			}
			if s.P(50) {
				b.Facts = nil
			}
			if s.P(50) {
				b.Pres = nil
				b.Calcs = nil
				for i := range b.Schemas {
					b.Schemas[i].Links = nil
				}
			}
			if s.P(50) {
				for i := range b.Schemas {
					if len(b.Schemas[i].Roles) > 0 && len(b.sections()) > 1 {
						u := b.Schemas[i].Roles[0].URI
						dropRole(b, u)
						break
					}
				}
			}
			c.B = b
			s.List(1, 6, 70, func(int) {
				c.Wrong = append(c.Wrong, fmt.Sprintf("%d:%d", s.N(8), s.N(40)))
			})
			return c
		},
		Run: func(e *Env, x any) Verdict {
			c := x.(*c02)
			v, bad := fetch(e, c.A, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			ents, secs := c.A.entities(), c.A.sections()
			links := map[string]string{}
			var all []string
			for _, en := range ents {
				for _, sec := range secs {
					slug := v.Cat.Networks[entKey(en.Scheme, en.CharData)][sec.RoleURI]
					pair := j(en) + " / " + j(sec)
					if slug == "" {
						return fail("missing", "no link for %s", pair)
					}
					if o, dup := links[slug]; dup {
						return fail("dup", "the same link %s for %s and %s", slug, o, pair)
					}
					links[slug] = pair
					all = append(all, slug)
					p := v.Pages[slug]
					if p == nil || p.Subject.Entity != en || p.RelationshipSet != sec {
						return fail("wrongpage", "the link for %s opens %s", pair, clip(j(p), 300))
					}
					if p.Subject.Name != entityName(en) {
						return fail("wrongpage", "the page for %s names its subject %q", pair, p.Subject.Name)
					}
				}
			}
			n := 0
			for _, m := range v.Cat.Networks {
				n += len(m)
			}
			if n != len(links) {
				return fail("surplus", "%d links for %d pairs of entity and section: %s", n, len(links), j(v.Cat.Networks))
			}
			// wrong links
			sort.Strings(all)
			var wrong []string
			for _, w := range c.Wrong {
				var k, i int
				fmt.Sscanf(w, "%d:%d", &k, &i)
				slug := all[i%len(all)]
				pos := i % len(slug)
				var m string
				switch k {
				case 0:
					m = slug[:len(slug)-1]
				case 1:
					m = slug + "0"
				case 2:
					m = slug[:pos] + string("0123456789abcdef"[(strings.IndexByte("0123456789abcdef", slug[pos])+1)%16]) + slug[pos+1:]
				case 3:
					m = ""
				case 4:
					m = slug[1:]
				case 5:
					m = secs[i%len(secs)].RoleURI
				case 6:
					m = strings.ToUpper(slug)
				case 7:
					m = slug[len(slug)/2:] + slug[:len(slug)/2]
				}
				if links[m] == "" {
					wrong = append(wrong, m)
				}
			}
			id, err := e.put(c.A.Files())
			if err != nil {
				return Verdict{Err: err}
			}
			r, err := e.try("wcore", &proto.Req{ID: id, Slugs: wrong})
			if err != nil {
				return asBad(err)
			}
			for _, w := range wrong {
				if a := r.Pages[w]; !a.Failed {
					return fail("notfound", "opening %q, which is no link, is answered with %q and no error", w, clip(string(a.Data), 200))
				}
			}
			// stability
			id, err = e.put(c.B.Files())
			if err != nil {
				return Verdict{Err: err}
			}
			r, err = e.try("wcore", &proto.Req{ID: id, Catalog: true})
			if err != nil {
				return asBad(err)
			}
			var cat Catalog
			if err := unjson(r.Catalog.Data, &cat); err != nil {
				return fail("load", "no catalog for the changed filing: %v %s", err, r.Err)
			}
			for _, en := range c.B.entities() {
				for _, sec := range c.B.sections() {
					was := v.Cat.Networks[entKey(en.Scheme, en.CharData)][sec.RoleURI]
					is := cat.Networks[entKey(en.Scheme, en.CharData)][sec.RoleURI]
					if was != is {
						return fail("unstable", "the link for %s / %s changes from %q to %q when unrelated parts of the filing change", j(en), j(sec), was, is)
					}
				}
			}
			return Verdict{Non: len(links) >= 4, Tags: []string{"links" + bucket(len(links), 1, 4, 10, 20)}}
		},
		Directed: func() []Directed {
			mk := func(ents [][2]string, roles [][2]string) *Spec {
				sp := &Spec{Entry: "inst.xml", SchemaRef: []string{"co.xsd"}}
				sc := Schema{File: "co.xsd", NS: "http://vh.test/co/2020", Prefix: "co", Concepts: []Concept{{ID: "co_Name", Name: "Name", Kind: "string"}}}
				for i, r := range roles {
					sc.Roles = append(sc.Roles, Role{URI: r[0], Def: r[1], ID: fmt.Sprint("r", i)})
				}
				sp.Schemas = []Schema{sc}
				for i, e := range ents {
					sp.Contexts = append(sp.Contexts, Context{ID: fmt.Sprint("c", i), Scheme: e[0], Ident: e[1], Instant: "2020-12-31"})
				}
				return sp
			}
			amb := mk([][2]string{{"urn:a", "1"}}, [][2]string{{"urn:r", "1 - A"}, {"urn:r1", " - A"}})
			amb2 := mk([][2]string{{"urn:a", "b/1"}, {"urn:a/b", "1"}}, [][2]string{{"urn:r", "A"}})
			return []Directed{
				{"uri-title-boundary", &c02{A: amb, B: amb}},
				{"scheme-identifier-boundary", &c02{A: amb2, B: amb2}},
			}
		}})
}

func dropEntity(sp *Spec, d Entity) {
	gone := map[string]bool{}
	var cs []Context
	for _, x := range sp.Contexts {
		if x.Scheme == d.Scheme && x.Ident == d.CharData {
			gone[x.ID] = true
		} else {
			cs = append(cs, x)
		}
	}
	sp.Contexts = cs
	var fs []Fact
	for _, f := range sp.Facts {
		if !gone[f.Ctx] {
			fs = append(fs, f)
		}
	}
	sp.Facts = fs
}

func dropRole(sp *Spec, uri string) {
	for i := range sp.Schemas {
		var rs []Role
		for _, r := range sp.Schemas[i].Roles {
			if r.URI != uri {
				rs = append(rs, r)
			}
		}
		sp.Schemas[i].Roles = rs
	}
}

// ---- C03 ----

func init() {
	pr := Prof{Schemas: 2, Items: 9, Roles: 4, Entities: 1, Contexts: 2, Density: 20, Pres: 90, Defs: 20, Calcs: 20, PNodes: 11, SplitLB: true, Style: 70, Big: 12, Dims: 1}
	register(&Check{ID: "C03", Quick: 15000, Thorough: 60000, New: newSpec,
		Rule: "a section with at least four presentation rows and two levels",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				want := sp.presTree(sec.RoleURI)
				var hs []string
				var ls []int
				for _, r := range p.PGrid.IndentedLabels {
					hs = append(hs, r.Href)
					ls = append(ls, r.Indentation)
				}
				got, err := parseRows(hs, ls)
				if err != nil {
					return fail("indent", "%v", err)
				}
				if err := matchForest("the section", want, got, true); err != nil {
					return fail("rows", "%v", err)
				}
				deep := false
				for _, w := range want {
					for _, k := range w.kids {
						deep = deep || len(k.kids) > 0
					}
				}
				non = non || len(hs) >= 4 && deep
				tags["rows"+bucket(len(hs), 0, 3, 8, 20, 40)] = true
				if len(want) > 1 {
					tags["several roots"] = true
				}
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

// ---- C04 ----

var gridProf = Prof{Schemas: 2, Items: 6, Roles: 2, Entities: 3, Contexts: 9, Density: 35, Pres: 80, Defs: 50, Calcs: 50, Dims: 2, TDims: 1, Nil: 10, Style: 40, Big: 6}

func init() {
	register(&Check{ID: "C04", Quick: 12000, Thorough: 50000, New: newSpec,
		Rule: "a grid with at least two columns",
		Gen: func(s *Src) any {
			pr := gridProf
			pr.AbsFacts = 20
			return genSpec(s, pr)
		},
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					want := sp.relevant(g.Rows, en)
					ids := sp.identify(g, en)
					seen := map[string]bool{}
					for i, id := range ids {
						if id == "" {
							return fail("surplus", "%s: column %d (%s) belongs to no context of the entity that reports on the rows", g.Where, i, clip(g.sig(i), 200))
						}
						if !want[id] {
							return fail("foreign", "%s: column %d shows context %s, which is not to be shown", g.Where, i, id)
						}
						if seen[id] {
							return fail("twice", "%s: context %s has two columns", g.Where, id)
						}
						seen[id] = true
					}
					for id := range want {
						if !seen[id] {
							return fail("missing", "%s: no column for context %s", g.Where, id)
						}
					}
					for i := 1; i < len(ids); i++ {
						a, b := sp.ctx(ids[i-1]), sp.ctx(ids[i])
						if a.period() > b.period() {
							return fail("order", "%s: column of %s (%s) before %s (%s)", g.Where, a.ID, a.period(), b.ID, b.period())
						}
						if a.period() == b.period() && len(a.members()) > len(b.members()) && !nested(a) && !nested(b) {
							return fail("order", "%s: column of %s (%d members) before %s (%d members)", g.Where, a.ID, len(a.members()), b.ID, len(b.members()))
						}
					}
					if len(ids) >= 2 {
						non = true
					}
					tags["columns"+bucket(len(ids), 0, 1, 3, 8)+" "+strings.Fields(g.Where)[0]] = true
				}
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

func nested(c *Context) bool {
	for _, m := range c.members() {
		if m.Typed != nil && len(m.Typed.Kids) > 0 {
			return true
		}
	}
	return false
}

// ---- C05 ----

func init() {
	num := gridProf
	num.Numbers = 1
	num.Inline = 10
	register(&Check{ID: "C05", Quick: 10000, Thorough: 50000, New: newSpec,
		Rule: "at least three facts are shown in grids with at least two columns",
		Gen: func(s *Src) any {
			pr := gridProf
			if s.P(40) {
				pr = num
			}
			if s.P(30) { // cells are shown in the languages of the labels
				pr.LabelPct = 15
			}
			return genSpec(s, pr)
		},
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			n := 0
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					ids := sp.identify(g, en)
					shownAt := map[string]bool{}
					for col, id := range ids {
						shownAt[id] = true
						for r, h := range g.Rows {
							cell := g.FactualQuadrant[r][col]
							var f *Fact
							if id != "" {
								f = sp.fact(h, id)
							}
							if why := sp.cellShows(f, cell); why != "" {
								return fail("cell", "%s: row %s (%d), column %d (context %s): %s", g.Where, h, r, col, id, why)
							}
							if f != nil && len(ids) > 1 {
								n++
								c, _ := sp.find(f.Concept)
								tags[fmt.Sprintf("%s nil=%v dec=%v", c.Kind, f.Nil, f.Dec != "")] = true
							}
						}
					}
					// every fact of the entity on a row is shown
					row := map[string]bool{}
					for _, h := range g.Rows {
						row[h] = true
					}
					for _, f := range sp.Facts {
						cx := sp.ctx(f.Ctx)
						if row[f.Concept] && cx.Scheme == en.Scheme && cx.Ident == en.CharData && !shownAt[f.Ctx] {
							return fail("lost", "%s: the fact of %s in context %s is not shown", g.Where, f.Concept, f.Ctx)
						}
					}
				}
				return Verdict{}
			})
			bad.Non, bad.Tags = n >= 3, sortedKeys(tags)
			return bad
		}})
}

// cellShows says what is wrong with a cell that should show the fact.
func (s *Spec) cellShows(f *Fact, cell Cell) string {
	if f == nil {
		for l, t := range cell {
			if t != (CellText{}) {
				return fmt.Sprintf("nothing is reported but %s shows %q", l, t.Head+t.Core+t.Tail+t.InnerHtml)
			}
		}
		return ""
	}
	if f.Nil {
		if t := cell["Unlabelled"]; t != (CellText{Core: "nil"}) {
			return fmt.Sprintf("a nil fact is shown as %s", j(cell))
		}
		for l, t := range cell {
			if l != "Unlabelled" && t.Core != "nil" {
				return fmt.Sprintf("a nil fact is shown as %s", j(cell))
			}
		}
		return ""
	}
	c, _ := s.find(f.Concept)
	if _, ok := cell["Unlabelled"]; !ok {
		return fmt.Sprintf("the fact is shown as %s", j(cell))
	}
	for l, t := range cell {
		txt := t.Head + t.Core + t.Tail + t.InnerHtml
		if f.Dec == "" || c.Kind == "string" {
			if c.Kind == "text" {
				continue
			}
			if txt != f.Inner {
				return fmt.Sprintf("%s shows %q instead of %q", l, txt, f.Inner)
			}
			continue
		}
		if c.Kind == "text" {
			continue
		}
		want := f.Inner
		if c.Kind == "percent" {
			want += "00"
		}
		got, ok := readPlain(txt)
		if !ok || got != want {
			return fmt.Sprintf("%s shows %q instead of %s", l, txt, want)
		}
	}
	return ""
}

// ---- C06 ----

func init() {
	pr := gridProf
	pr.Dims, pr.TDims, pr.Contexts, pr.Entities, pr.Nil, pr.Inline = 3, 3, 8, 2, 3, 25
	register(&Check{ID: "C06", Quick: 12000, Thorough: 50000, New: newSpec,
		Rule: "a grid whose columns use at least two dimensions, or a typed dimension, over at least two columns",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			lk := tagLookups(sp)
			v, bad := fetch(e, sp, lk)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					ids := sp.identify(g, en)
					for i, id := range ids {
						if id == "" {
							return fail("column", "%s: column %d (%s) is of no context of the entity", g.Where, i, clip(g.sig(i), 200))
						}
					}
					why, ex, ty := sp.headings(ids, g.VoidQuadrant, g.ContextualMemberGrid)
					if why != "" {
						return fail("headings", "%s: %s", g.Where, why)
					}
					if len(ids) > 1 && (ex+ty > 1 || ty > 0) {
						non = true
					}
					tags[fmt.Sprintf("explicit%s typed%s", bucket(ex, 0, 1, 2), bucket(ty, 0, 1, 2))] = true
				}
				return Verdict{}
			})
			if bad.Fail == "" && bad.Err == nil {
				for i, l := range lk {
					x, b := decodeExpr(v.Res.Lookups[i])
					if b.Fail != "" {
						bad = b
						break
					}
					if x == nil {
						continue
					}
					if len(x.Context.VoidQuadrant) > 0 && len(x.Context.ContextualMemberGrid) != len(x.Context.VoidQuadrant) {
						bad = fail("headings", "lookup %v: %d headings, %d member rows", l, len(x.Context.VoidQuadrant), len(x.Context.ContextualMemberGrid))
						break
					}
					if why, _, _ := sp.headings([]string{l.Context}, x.Context.VoidQuadrant, x.Context.ContextualMemberGrid); why != "" {
						bad = fail("headings", "lookup %v: %s", l, why)
						break
					}
					tags["lookup"] = true
				}
			}
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

// headings compares dimension headings with the columns' contexts.
func (s *Spec) headings(ids []string, void []*VoidCell, grid [][]*MemCell) (why string, nEx, nTy int) {
	exp := map[string]bool{}
	typ := map[string]map[string]bool{}
	deep, mixed := map[string]int{}, map[string]bool{}
	mem := make([]map[string]string, len(ids))
	for i, id := range ids {
		mem[i] = map[string]string{}
		c := s.ctx(id)
		for _, m := range c.members() {
			if m.Typed == nil {
				exp[m.Dim] = true
				mem[i][m.Dim] = m.Mem
				continue
			}
			if typ[m.Dim] == nil {
				typ[m.Dim] = map[string]bool{}
			}
			m.Typed.depths(m.Dim, 1, deep, mixed)
			for _, el := range m.Typed.elements() {
				typ[m.Dim][el[0]] = true
				mem[i][m.Dim+"|"+el[0]] = el[1]
			}
		}
	}
	for k := range mixed { // nested differently in different contexts
		delete(deep, k)
	}
	nEx, nTy = len(exp), len(typ)
	seenE := map[string]bool{}
	seenT := map[string]map[string]bool{}
	last := ""
	indent := map[string]int{}
	for r, v := range void {
		if v == nil {
			return fmt.Sprintf("heading row %d is empty", r), nEx, nTy
		}
		d := v.Dimension.Href
		key := d
		switch {
		case v.TypedDomain == nil && exp[d]:
			if seenE[d] {
				return "two heading rows for dimension " + d, nEx, nTy
			}
			seenE[d] = true
			last = ""
		case v.TypedDomain == nil && typ[d] != nil:
			if seenT[d] != nil {
				return "two heading rows for typed dimension " + d, nEx, nTy
			}
			seenT[d] = map[string]bool{}
			last = d
			key = "-"
			indent[d] = v.Indentation
		case v.TypedDomain != nil && typ[d] != nil && typ[d][v.TypedDomain.Href]:
			if last != d {
				return fmt.Sprintf("the row of value element %s does not follow its dimension %s", v.TypedDomain.Href, d), nEx, nTy
			}
			if seenT[d][v.TypedDomain.Href] {
				return fmt.Sprintf("two rows for value element %s of dimension %s", v.TypedDomain.Href, d), nEx, nTy
			}
			if depth, ok := deep[d+"|"+v.TypedDomain.Href]; ok && v.Indentation-indent[d] != depth {
				return fmt.Sprintf("value element %s of dimension %s is nested %d deep and indented by %d", v.TypedDomain.Href, d, depth, v.Indentation-indent[d]), nEx, nTy
			}
			seenT[d][v.TypedDomain.Href] = true
			key = d + "|" + v.TypedDomain.Href
		default:
			td := ""
			if v.TypedDomain != nil {
				td = v.TypedDomain.Href
			}
			return fmt.Sprintf("heading row for dimension %q (value element %q), which no column uses that way", d, td), nEx, nTy
		}
		if r >= len(grid) || len(grid[r]) != len(ids) {
			return fmt.Sprintf("heading row %d has no cells", r), nEx, nTy
		}
		for i, cell := range grid[r] {
			want := mem[i][key]
			got := ""
			if cell != nil {
				if cell.ExplicitMember != nil {
					got = cell.ExplicitMember.Href
				} else {
					got = cell.TypedMember
				}
				if cell.ExplicitMember != nil && (v.TypedDomain != nil || !exp[d]) {
					return fmt.Sprintf("an explicit member %s in a row of typed dimension %s", got, d), nEx, nTy
				}
			}
			if want != got {
				return fmt.Sprintf("column %d (context %s), row %s: expected %q, shown %q", i, ids[i], key, want, got), nEx, nTy
			}
		}
	}
	for d := range exp {
		if !seenE[d] {
			return "no heading row for dimension " + d, nEx, nTy
		}
	}
	for d, els := range typ {
		if seenT[d] == nil {
			return "no heading row for typed dimension " + d, nEx, nTy
		}
		for el := range els {
			if !seenT[d][el] {
				return fmt.Sprintf("no heading row for value element %s of dimension %s", el, d), nEx, nTy
			}
		}
	}
	return "", nEx, nTy
}

// tagLookups lists a lookup for every tagged fact of an inline filing.
func tagLookups(sp *Spec) []proto.Lookup {
	if sp.Inline == nil {
		return nil
	}
	var out []proto.Lookup
	for _, t := range sp.Inline.Tags {
		n := t.Local
		if t.Prefix != "" {
			n = t.Prefix + ":" + t.Local
		}
		out = append(out, proto.Lookup{Name: n, Context: t.Ctx})
	}
	return out
}

func decodeExpr(a proto.Ans) (*Expr, Verdict) {
	if a.Failed {
		return nil, fail("lookup", "a fact lookup gives an error: %s", a.Err)
	}
	if len(a.Data) == 0 || string(a.Data) == "null" {
		return nil, Verdict{}
	}
	var x Expr
	if err := unjson(a.Data, &x); err != nil {
		return nil, fail("lookup", "a fact lookup is not understood: %v", err)
	}
	return &x, Verdict{}
}

// ---- C07 ----

var months = map[string][]string{
	langEN: {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"},
	langES: {"enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"},
}

// periodText is the heading of a period in a language; several texts are
// listed where the spelling of the date is open.
func periodText(c *Context, lang string) []string {
	raw := c.period()
	m := months[lang]
	if m == nil {
		return []string{raw}
	}
	plain := func(s string) (y, mo, d int, ok bool) {
		if len(s) != 10 || s[4] != '-' || s[7] != '-' {
			return
		}
		for i, ch := range s {
			if i != 4 && i != 7 && (ch < '0' || ch > '9') {
				return
			}
		}
		fmt.Sscanf(s, "%d-%d-%d", &y, &mo, &d)
		ok = mo >= 1 && mo <= 12 && d >= 1 && d <= daysIn(y, mo)
		return
	}
	end := c.Instant
	if end == "" {
		end = c.End
	}
	y, mo, d, ok := plain(end)
	if !ok {
		return []string{raw}
	}
	var dates []string
	if lang == langEN {
		dates = []string{fmt.Sprintf("%s %d, %d", m[mo-1], d, y), fmt.Sprintf("%s %d, %04d", m[mo-1], d, y)}
	} else {
		dates = []string{fmt.Sprintf("%02d %s %d", d, m[mo-1], y), fmt.Sprintf("%d %s %d", d, m[mo-1], y)}
	}
	var pre string
	if c.Instant != "" {
		pre = map[string]string{langEN: "as of ", langES: "al "}[lang]
	} else {
		y0, m0, d0, ok := plain(c.Start)
		if !ok {
			return []string{raw}
		}
		if dayNum(y, mo, d)-dayNum(y0, m0, d0) < 30 {
			return []string{raw}
		}
		n := (y-y0)*12 + mo - m0 + 1
		switch {
		case n == 1 && lang == langEN:
			pre = "1 month ended "
		case n == 1:
			pre = "un mes terminado al "
		case lang == langEN:
			pre = fmt.Sprintf("%d months ended ", n)
		default:
			pre = fmt.Sprintf("%d meses terminados al ", n)
		}
	}
	for i := range dates {
		dates[i] = pre + dates[i]
	}
	return dates
}

func daysIn(y, m int) int {
	return [...]int{31, 28 + leap(y), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
}

func leap(y int) int {
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		return 1
	}
	return 0
}

// dayNum counts days since a fixed epoch.
func dayNum(y, m, d int) int {
	return int(time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}

func oneOf(s string, xs []string) bool {
	for _, x := range xs {
		if s == x {
			return true
		}
	}
	return false
}

func init() {
	pr := gridProf
	pr.LabelPct, pr.NonISO, pr.Dims, pr.TDims, pr.Contexts, pr.Inline, pr.Odd = 35, 12, 1, 0, 8, 25, true
	register(&Check{ID: "C07", Quick: 9000, Thorough: 50000, New: newSpec,
		Rule: "a period heading in English or Spanish is compared",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			lk := tagLookups(sp)
			v, bad := fetch(e, sp, lk)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					ids := sp.identify(g, en)
					for i, id := range ids {
						h := g.PeriodHeaders[i]
						cx := sp.ctx(id)
						if cx == nil {
							return fail("column", "%s: column %d (%s) is of no context of the entity", g.Where, i, clip(g.sig(i), 200))
						}
						if h["Unlabelled"] != cx.period() {
							return fail("raw", "%s: column of %s is headed %q instead of %q", g.Where, id, h["Unlabelled"], cx.period())
						}
						for _, l := range p.Lang {
							want := periodText(cx, l)
							if got, ok := h[l]; !ok || !oneOf(got, want) {
								return fail("text", "%s: column of %s (%s) is headed %q in %q instead of %q", g.Where, id, cx.period(), got, l, want[0])
							}
							if months[l] != nil {
								non = true
								tags[strings.Fields(want[0] + " -")[0]+" "+l] = true
							}
						}
					}
				}
				return Verdict{}
			})
			if bad.Fail == "" && bad.Err == nil {
				for i, l := range lk {
					x, b := decodeExpr(v.Res.Lookups[i])
					if b.Fail != "" {
						bad = b
						break
					}
					if x == nil {
						continue
					}
					cx := sp.ctx(l.Context)
					if x.Context.Period["Unlabelled"] != cx.period() {
						bad = fail("raw", "lookup %v: period %q instead of %q", l, x.Context.Period["Unlabelled"], cx.period())
						break
					}
					for _, lt := range x.Labels {
						for lang := range lt {
							if months[lang] == nil {
								continue
							}
							if got := x.Context.Period[lang]; !oneOf(got, periodText(cx, lang)) {
								bad = fail("text", "lookup %v: period %q in %q instead of %q", l, got, lang, periodText(cx, lang)[0])
							}
							tags["lookup"] = true
						}
					}
				}
			}
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}
