package main

import (
	"bytes"
	"fmt"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C28 ----

// isoCase is a filing and parts of it that are left out in a second filing.
type isoCase struct {
	Sp   *Spec
	Cuts []isoCut
}

// isoCut leaves out everything about one thing: an entity (A scheme, B
// identifier), a section (A role), the labels, facts or footnotes of a concept
// (A reference), a concept declaration (A file, B id), a unit (A id).
type isoCut struct {
	Kind string
	A, B string `json:",omitempty"`
}

func (c *isoCase) spec() *Spec { return c.Sp }

// dropFacts leaves out facts together with the locators of their footnotes.
func dropFacts(sp *Spec, facts bool, gone func(f *Fact) bool) {
	ids, kept := map[string]bool{}, map[string]bool{}
	var fs []Fact
	for i := range sp.Facts {
		f := &sp.Facts[i]
		if gone(f) {
			ids[f.ID] = true
			if facts {
				continue
			}
		} else {
			kept[f.ID] = true
		}
		fs = append(fs, *f)
	}
	sp.Facts = fs
	for i := range sp.FnLinks {
		l := &sp.FnLinks[i]
		var locs []FnLoc
		was, is := map[string]bool{}, map[string]bool{}
		for _, x := range l.Locs {
			was[x.Label] = true
			if ids[x.Fact] && !kept[x.Fact] {
				continue
			}
			is[x.Label] = true
			locs = append(locs, x)
		}
		l.Locs = locs
		var arcs []FnArc
		for _, a := range l.Arcs {
			if was[a.From] && !is[a.From] {
				continue
			}
			arcs = append(arcs, a)
		}
		l.Arcs = arcs
	}
}

func keep[T any](l []T, f func(x *T) bool) []T {
	var out []T
	for i := range l {
		if f(&l[i]) {
			out = append(out, l[i])
		}
	}
	return out
}

func (k isoCut) apply(sp *Spec) {
	switch k.Kind {
	case "entity":
		gone := map[string]bool{}
		for _, c := range sp.Contexts {
			if c.Scheme == k.A && c.Ident == k.B {
				gone[c.ID] = true
			}
		}
		sp.Contexts = keep(sp.Contexts, func(c *Context) bool { return !gone[c.ID] })
		dropFacts(sp, true, func(f *Fact) bool { return gone[f.Ctx] })
	case "section":
		for i := range sp.Schemas {
			sp.Schemas[i].Roles = keep(sp.Schemas[i].Roles, func(r *Role) bool { return r.URI != k.A })
		}
		for i := range sp.Pres {
			sp.Pres[i].Links = keep(sp.Pres[i].Links, func(l *PLink) bool { return l.Role != k.A })
		}
		for i := range sp.Defs {
			sp.Defs[i].Links = keep(sp.Defs[i].Links, func(l *DLink) bool { return l.Role != k.A })
		}
		for i := range sp.Calcs {
			sp.Calcs[i].Links = keep(sp.Calcs[i].Links, func(l *CLink) bool { return l.Role != k.A })
		}
	case "labels":
		for i := range sp.Labels {
			for n := range sp.Labels[i].Links {
				sp.Labels[i].Links[n] = keep(sp.Labels[i].Links[n], func(l *LLabel) bool { return l.Concept != k.A })
			}
			sp.Labels[i].Links = keep(sp.Labels[i].Links, func(l *[]LLabel) bool { return len(*l) > 0 })
		}
	case "facts":
		dropFacts(sp, true, func(f *Fact) bool { return f.Concept == k.A })
	case "notes":
		dropFacts(sp, false, func(f *Fact) bool { return f.Concept == k.A })
	case "decl":
		for i := range sp.Schemas {
			if sp.Schemas[i].File == k.A {
				sp.Schemas[i].Concepts = keep(sp.Schemas[i].Concepts, func(c *Concept) bool { return c.ID != k.B })
			}
		}
	case "unit":
		sp.Units = keep(sp.Units, func(u *Unit) bool { return u.ID != k.A })
	}
}

// tied tells whether other sections may depend on this one: a target role
// leads to it, or it states a default, which holds for all sections.
func (sp *Spec) tied(role string) bool {
	for _, lb := range sp.Defs {
		for _, l := range lb.Links {
			for _, a := range l.Arcs {
				if l.Role == role && a.Kind == "df" || a.Target == role {
					return true
				}
			}
		}
	}
	return false
}

func genIso(s *Src, pr Prof) *isoCase {
	c := &isoCase{Sp: genSpec(s, pr)}
	sp := c.Sp
	var used []string
	seen := map[string]bool{}
	for _, f := range sp.Facts {
		if !seen[f.Concept] {
			seen[f.Concept] = true
			used = append(used, f.Concept)
		}
	}
	s.List(1, 4, 55, func(int) {
		switch s.PickW(30, 25, 12, 15, 8, 5, 5) {
		case 0:
			if l := sp.entities(); len(l) > 1 {
				e := l[s.N(len(l))]
				c.Cuts = append(c.Cuts, isoCut{"entity", e.Scheme, e.CharData})
			}
		case 1:
			if l := sp.roleList(); len(l) > 1 {
				if r := l[s.N(len(l))].URI; !sp.tied(r) {
					c.Cuts = append(c.Cuts, isoCut{"section", r, ""})
				}
			}
		case 2:
			var l []string
			for _, lb := range sp.Labels {
				for _, k := range lb.Links {
					for _, x := range k {
						l = append(l, x.Concept)
					}
				}
			}
			if len(l) > 0 {
				c.Cuts = append(c.Cuts, isoCut{"labels", Pick(s, l), ""})
			}
		case 3:
			if len(used) > 0 {
				c.Cuts = append(c.Cuts, isoCut{"facts", Pick(s, used), ""})
			}
		case 4:
			if len(used) > 0 && len(sp.FnLinks) > 0 {
				c.Cuts = append(c.Cuts, isoCut{"notes", Pick(s, used), ""})
			}
		case 5: // a concept nothing refers to
			x := &sp.Schemas[s.N(len(sp.Schemas))]
			n := fmt.Sprintf("Spare%d", len(c.Cuts))
			k := Concept{ID: x.Prefix + "_" + n, Name: n, Kind: Pick(s, []string{"string", "money", "pure"}), Abstract: s.P(20), Instant: s.P(50)}
			at := s.N(len(x.Concepts) + 1)
			x.Concepts = append(x.Concepts[:at:at], append([]Concept{k}, x.Concepts[at:]...)...)
			c.Cuts = append(c.Cuts, isoCut{"decl", x.File, k.ID})
		case 6: // a unit no fact has
			u := Unit{ID: fmt.Sprintf("spare%d", len(c.Cuts)), Num: Measure{nsISO, Pick(s, []string{"USD", "EUR", "XXX"})}}
			at := s.N(len(sp.Units) + 1)
			sp.Units = append(sp.Units[:at:at], append([]Unit{u}, sp.Units[at:]...)...)
			c.Cuts = append(c.Cuts, isoCut{"unit", u.ID, ""})
		}
	})
	return c
}

func init() {
	pr := richProf
	pr.Distinct, pr.Odd, pr.Inline, pr.Big, pr.Roles, pr.NonISO, pr.Entities = true, false, 40, 2, 4, 5, 4
	register(&Check{ID: "C28", Quick: 4000, Thorough: 60000, New: func() any { return &isoCase{} },
		Rule: "something is left out and a page that shows a fact is compared",
		Gen:  func(s *Src) any { return genIso(s, pr) },
		Assume: []string{"a section that states a dimension default, or that a target role leads to, is not left out",
			"entries for which the filing states no sequence are compared without it"},
		Run: runIso})
}

func runIso(e *Env, cs any) Verdict {
	c := cs.(*isoCase)
	less := cloneSpec(c.Sp)
	var about []string // concepts of which something is left out
	for _, k := range c.Cuts {
		if k.Kind == "section" && c.Sp.tied(k.A) {
			continue
		}
		k.apply(less)
		if k.Kind == "labels" || k.Kind == "facts" || k.Kind == "notes" {
			about = append(about, k.A)
		}
	}
	ents, secs := less.entities(), less.sections()
	if len(ents) == 0 || len(secs) == 0 || j(less) == j(c.Sp) {
		return Verdict{Tags: []string{"nothing left out"}}
	}
	ask := tagLookups(c.Sp)
	v, bad := fetch(e, c.Sp, ask)
	if bad.Fail != "" || bad.Err != nil {
		return bad
	}
	w, bad := fetch(e, less, ask)
	if bad.Fail != "" || bad.Err != nil {
		return bad
	}
	// the catalog
	has := func(x Entity) bool {
		for _, y := range ents {
			if x == y {
				return true
			}
		}
		return false
	}
	lists := func(x RSet) bool {
		for _, y := range secs {
			if x == y {
				return true
			}
		}
		return false
	}
	cat := func(x *Catalog) []string {
		out := []string{"document " + x.DocumentName}
		for _, s := range x.Subjects {
			if has(s.Entity) {
				out = append(out, "entity "+j(s))
			}
		}
		for _, s := range x.RelationshipSets {
			if lists(s) {
				out = append(out, "section "+j(s))
			}
		}
		for _, a := range ents {
			for _, b := range secs {
				k := entKey(a.Scheme, a.CharData)
				out = append(out, "link "+k+" "+b.RoleURI+" "+x.Networks[k][b.RoleURI])
			}
		}
		return out
	}
	if a, b := cat(v.Cat), cat(w.Cat); !sameList(a, b) {
		return fail("catalog", "leaving out %s changes the rest of the catalog: %s", j(c.Cuts), listDiff(b, a))
	}
	mentions := func(b []byte) bool {
		for _, a := range about {
			x := strings.Trim(j(a), `"`)
			if bytes.Contains(b, []byte(x)) {
				return true
			}
		}
		return false
	}
	// the pages
	pages, cells := 0, 0
	for _, a := range ents {
		for _, b := range secs {
			slug := v.Cat.Networks[entKey(a.Scheme, a.CharData)][b.RoleURI]
			p, q := v.Pages[slug], w.Pages[slug]
			if p == nil || q == nil {
				return fail("nopage", "no page for entity %s and section %s", entKey(a.Scheme, a.CharData), b.RoleURI)
			}
			if mentions(v.Res.Pages[slug].Data) {
				continue
			}
			if x, y := p.canon(), q.canon(); !sameList(x, y) {
				return fail("page", "leaving out %s changes the page of %s, %s: %s", j(c.Cuts), entKey(a.Scheme, a.CharData), b.RoleURI, listDiff(y, x))
			}
			n := 0
			for _, r := range p.PGrid.FactualQuadrant {
				for _, x := range r {
					if len(x) > 0 {
						n++
					}
				}
			}
			if n > 0 {
				pages++
				cells += n
			}
		}
	}
	// the lookups
	looks := 0
	for i, l := range ask {
		x := less.ctx(l.Context)
		if c.Sp.ctx(l.Context) == nil != (x == nil) || mentions(v.Res.Lookups[i].Data) {
			continue
		}
		a, bad := lookupLines(v.Res.Lookups[i])
		if bad.Fail != "" {
			return bad
		}
		b, bad := lookupLines(w.Res.Lookups[i])
		if bad.Fail != "" {
			return bad
		}
		if !sameList(a, b) {
			return fail("lookup", "leaving out %s changes the answer for %s: %s", j(c.Cuts), j(l), listDiff(b, a))
		}
		looks++
	}
	tags := []string{"pages" + bucket(pages, 0, 1, 3, 10), "cells" + bucket(cells, 0, 5, 20, 100)}
	if looks > 0 {
		tags = append(tags, "lookups")
	}
	for _, k := range c.Cuts {
		tags = append(tags, "without "+k.Kind)
	}
	return Verdict{Non: pages > 0, Tags: tags}
}

func lookupLines(a proto.Ans) ([]string, Verdict) {
	x, bad := decodeExpr(a)
	if bad.Fail != "" {
		return nil, bad
	}
	if x == nil {
		return []string{"nothing"}, Verdict{}
	}
	return x.canon(), Verdict{}
}
