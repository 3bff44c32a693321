package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// ---- C10 ----

// walkRefs visits every object of an answer that has a reference and labels.
func walkRefs(v any, path string, f func(path, href string, label any) string) string {
	switch x := v.(type) {
	case []any:
		for i, y := range x {
			if why := walkRefs(y, fmt.Sprintf("%s[%d]", path, i), f); why != "" {
				return why
			}
		}
	case map[string]any:
		h, ok := x["Href"].(string)
		l, has := x["Label"]
		if !has {
			l, has = x["Labels"]
		}
		if ok && has {
			if why := f(path, h, l); why != "" {
				return why
			}
		}
		for _, k := range sortedKeys(x) {
			if why := walkRefs(x[k], path+"."+k, f); why != "" {
				return why
			}
		}
	}
	return ""
}

func anyPack(v any) Pack {
	b, _ := json.Marshal(v)
	p := Pack{}
	json.Unmarshal(b, &p)
	for r, m := range p {
		if len(m) == 0 {
			delete(p, r)
		}
	}
	return p
}

func init() {
	pr := gridProf
	pr.LabelPct, pr.LFiles, pr.Dims, pr.TDims, pr.Style, pr.Inline, pr.Items, pr.Contexts = 45, 3, 2, 1, 60, 20, 4, 5
	register(&Check{ID: "C10", Quick: 7000, Thorough: 50000, New: newSpec,
		Rule: "at least three labels of the filing are attached to concepts that are shown",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			lk := tagLookups(sp)
			v, bad := fetch(e, sp, lk)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			n := 0
			tags := map[string]bool{}
			seen := map[string]bool{}
			check := func(data []byte) Verdict {
				var doc any
				if err := json.Unmarshal(data, &doc); err != nil {
					return fail("load", "not JSON: %v", err)
				}
				why := walkRefs(doc, "", func(path, href string, l any) string {
					if href == "" {
						return ""
					}
					got, want := anyPack(l), sp.pack(href)
					if !reflect.DeepEqual(got, want) {
						return fmt.Sprintf("%s: concept %s: %s", path, href, firstDiff(want, got))
					}
					if !seen[href] {
						seen[href] = true
						for r, m := range want {
							for l := range m {
								if l == langEN || l == langES {
									n++
									tags[r+" "+l] = true
								}
							}
						}
					}
					return ""
				})
				if why != "" {
					return fail("label", "%s", why)
				}
				return Verdict{}
			}
			for _, slug := range sortedKeys(v.Res.Pages) {
				if bad = check(v.Res.Pages[slug].Data); bad.Fail != "" {
					return bad
				}
			}
			for i := range lk {
				if x, b := decodeExpr(v.Res.Lookups[i]); b.Fail != "" {
					return b
				} else if x == nil {
					continue
				}
				if bad = check(v.Res.Lookups[i].Data); bad.Fail != "" {
					return bad
				}
				tags["lookup"] = true
			}
			// every row, dimension and member that is shown carries labels at all
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, r := range p.PGrid.IndentedLabels {
					if len(r.Label) == 0 {
						return fail("label", "row %s has no label pack", r.Href)
					}
				}
				return Verdict{}
			})
			bad.Non, bad.Tags = n >= 3, sortedKeys(tags)
			return bad
		}})
}

// ---- C11 ----

func (p Pack) into(langs, roles map[string]bool) {
	for r, m := range p {
		for l := range m {
			langs[l] = true
			roles[r] = true
		}
	}
}

func init() {
	pr := gridProf
	pr.LabelPct, pr.LFiles, pr.Dims, pr.TDims, pr.Defs, pr.Calcs, pr.Numbers = 8, 2, 2, 1, 60, 60, 1
	register(&Check{ID: "C11", Quick: 8000, Thorough: 50000, New: newSpec,
		Rule: "the page's labels offer English or Spanish but not every concept has them",
		Gen: func(s *Src) any {
			p := pr
			p.LabelPct = Pick(s, []int{1, 3, 8, 25})
			return genSpec(s, p)
		},
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				slug := v.Cat.Networks[entKey(en.Scheme, en.CharData)][sec.RoleURI]
				var doc any
				json.Unmarshal(v.Res.Pages[slug].Data, &doc)
				upL, upR := map[string]bool{}, map[string]bool{}
				walkRefs(doc, "", func(path, href string, l any) string {
					anyPack(l).into(upL, upR)
					return ""
				})
				gotL, gotR := map[string]bool{}, map[string]bool{}
				for _, l := range p.Lang {
					if gotL[l] {
						return fail("twice", "language %q is listed twice: %s", l, j(p.Lang))
					}
					gotL[l] = true
					if !upL[l] {
						return fail("surplus", "language %q is listed but no label of the page offers it", l)
					}
				}
				for _, r := range p.LabelRoles {
					if gotR[r] {
						return fail("twice", "label role %q is listed twice: %s", r, j(p.LabelRoles))
					}
					gotR[r] = true
					if !upR[r] {
						return fail("surplus", "label role %q is listed but no label of the page offers it", r)
					}
				}
				part := 0
				for _, g := range p.grids() {
					lo, lr := map[string]bool{}, map[string]bool{}
					add := func(pk Pack) { pk.into(lo, lr) }
					switch {
					case g == &p.PGrid.Grid:
						for _, r := range p.PGrid.IndentedLabels {
							add(r.Label)
						}
					default:
						for i := range p.DGrid.RootDomains {
							if d := &p.DGrid.RootDomains[i]; g == &d.Grid {
								add(d.Label)
								for _, x := range d.PrimaryItems {
									add(x.Label)
								}
							}
						}
						for i := range p.CGrid.SummationItems {
							if s := &p.CGrid.SummationItems[i]; g == &s.Grid {
								add(s.Label)
								for _, x := range s.ContributingConcepts {
									add(x.Label)
								}
							}
						}
					}
					for _, vc := range g.VoidQuadrant {
						if vc != nil {
							add(vc.Dimension.Label)
						}
					}
					for _, row := range g.ContextualMemberGrid {
						for _, m := range row {
							if m != nil && m.ExplicitMember != nil {
								add(m.ExplicitMember.Label)
							}
						}
					}
					for _, l := range sortedKeys(lo) {
						if !gotL[l] {
							return fail("missing", "%s: labels are available in %q but the page lists %s", g.Where, l, j(p.Lang))
						}
					}
					for _, r := range sortedKeys(lr) {
						if !gotR[r] {
							return fail("missing", "%s: labels are available in role %q but the page lists %s", g.Where, r, j(p.LabelRoles))
						}
					}
					for r, row := range g.FactualQuadrant {
						for col, cell := range row {
							t := cell.text()
							empty := true
							for _, x := range cell {
								if x != (CellText{}) {
									empty = false
								}
							}
							if empty || t == "nil" {
								continue
							}
							for _, l := range []string{langEN, langES} {
								if _, has := cell[l]; lo[l] && !has {
									return fail("cell", "%s: cell %d/%d has no text in %q although the grid's labels offer it: %s", g.Where, r, col, l, j(cell))
								}
							}
							for l := range cell {
								if !gotL[l] {
									return fail("cell", "%s: cell %d/%d has a text in %q, which the page does not list", g.Where, r, col, l)
								}
							}
							part++
						}
					}
				}
				if gotL[langEN] || gotL[langES] {
					all := true
					for _, r := range p.PGrid.IndentedLabels {
						l, ro := map[string]bool{}, map[string]bool{}
						r.Label.into(l, ro)
						if len(l) < len(gotL) {
							all = false
						}
					}
					non = non || !all || len(p.DGrid.RootDomains)+len(p.CGrid.SummationItems) > 0
				}
				tags[fmt.Sprintf("langs=%d roles=%d cells%s", len(gotL), len(gotR), bucket(part, 0, 3, 10))] = true
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

// ---- C12 ----

func (s *Spec) calcArcs(role string) []CArc {
	var out []CArc
	for _, lb := range s.Calcs {
		for _, l := range lb.Links {
			if l.Role != role {
				continue
			}
			for _, a := range l.Arcs {
				if a.Arcrole == "" {
					out = append(out, a)
				}
			}
		}
	}
	return out
}

func init() {
	pr := gridProf
	pr.Calcs, pr.Pres, pr.Defs, pr.Items, pr.SplitLB, pr.CalcFrac, pr.Style, pr.Roles, pr.Big = 90, 20, 15, 9, true, true, 70, 4, 10
	register(&Check{ID: "C12", Quick: 12000, Thorough: 50000, New: newSpec,
		Rule: "a section with at least two totals, or a total with at least three contributors",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				arcs := sp.calcArcs(sec.RoleURI)
				by := map[string][]CArc{}
				for _, a := range arcs {
					by[a.From] = append(by[a.From], a)
				}
				want := sortedKeys(by)
				var got []string
				for _, s := range p.CGrid.SummationItems {
					got = append(got, s.Href)
				}
				if !sameList(want, got) {
					return fail("totals", "totals: %s", firstDiff(want, got))
				}
				for _, s := range p.CGrid.SummationItems {
					w := by[s.Href]
					sort.SliceStable(w, func(i, k int) bool { return ratCmp(w[i].Order, w[k].Order) < 0 })
					if len(w) != len(s.ContributingConcepts) {
						return fail("contributors", "total %s: expected contributors %s, shown %s", s.Href, j(w), j(contrib(s)))
					}
					tc, _ := sp.find(s.Href)
					if s.BalanceType != tc.Balance {
						return fail("balance", "total %s: balance %q instead of %q", s.Href, s.BalanceType, tc.Balance)
					}
					for i := 0; i < len(w); {
						k := i + 1
						for k < len(w) && ratCmp(w[i].Order, w[k].Order) == 0 {
							k++
						}
						var a, b []string
						for m := i; m < k; m++ {
							cc, _ := sp.find(w[m].To)
							a = append(a, fmt.Sprintf("%s weight %s balance %q total %v", w[m].To, ratKey(w[m].Weight), cc.Balance, by[w[m].To] != nil))
							x := s.ContributingConcepts[m]
							sign := x.Sign
							if sign == "+" {
								sign = ""
							}
							r, ok := newRat(sign + x.Scale)
							if !ok || (x.Sign != "+" && x.Sign != "-") {
								return fail("weight", "total %s, contributor %s: unreadable sign %q and magnitude %q", s.Href, x.Href, x.Sign, x.Scale)
							}
							b = append(b, fmt.Sprintf("%s weight %s balance %q total %v", x.Href, r.String(), x.BalanceType, x.IsSummationItem))
						}
						sort.Strings(a)
						sort.Strings(b)
						if !sameList(a, b) {
							return fail("contributors", "total %s: expected %s at order %s, shown %s", s.Href, j(a), w[i].Order, j(b))
						}
						i = k
					}
					if len(w) >= 3 {
						non = true
					}
				}
				for _, g := range p.grids() {
					if !strings.HasPrefix(g.Where, "calculation") {
						continue
					}
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					// the fact rows follow the contributors and end with the total
					ids := sp.identify(g, en)
					for col, id := range ids {
						for r, h := range g.Rows {
							f := sp.fact(h, id)
							if id == "" {
								continue
							}
							if why := sp.cellShows(f, g.FactualQuadrant[r][col]); why != "" {
								return fail("rows", "%s: fact row %d should be %s: %s", g.Where, r, h, why)
							}
						}
					}
				}
				if len(want) >= 2 {
					non = true
				}
				tags["totals"+bucket(len(want), 0, 1, 3, 6)] = true
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

func contrib(s SumItem) []string {
	var out []string
	for _, c := range s.ContributingConcepts {
		out = append(out, c.Sign+c.Scale+" "+c.Href)
	}
	return out
}

// ---- C13 ----

func (s *Spec) defArcs(role string) []DArc {
	var out []DArc
	for _, lb := range s.Defs {
		for _, l := range lb.Links {
			if l.Role == role {
				out = append(out, l.Arcs...)
			}
		}
	}
	return out
}

func xsBool(s string, def bool) bool {
	switch s {
	case "true", "1":
		return true
	case "false", "0":
		return false
	}
	return def
}

func init() {
	pr := gridProf
	pr.Defs, pr.Pres, pr.Calcs, pr.Contexts, pr.Dims, pr.TDims, pr.Targets, pr.WildDefs, pr.SplitLB, pr.Style, pr.Roles = 95, 10, 5, 2, 3, 1, true, true, true, 70, 4
	register(&Check{ID: "C13", Quick: 15000, Thorough: 70000, New: newSpec,
		Rule: "a section with at least three definition relationships",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				arcs := sp.defArcs(sec.RoleURI)
				nodes := map[string]bool{}
				var want, got []string
				for _, a := range arcs {
					nodes[a.From], nodes[a.To] = true, true
					w := fmt.Sprintf("%s -> %s %s external=%s", a.From, a.To, a.Kind, a.Target)
					switch a.Kind {
					case "all", "not":
						w += fmt.Sprintf(" closed=%v element=%s", xsBool(a.Closed, false), a.CtxElem)
					case "hd":
						w += " order=" + ratKey(a.Order)
					case "dd", "dm":
						w += fmt.Sprintf(" order=%s usable=%v", ratKey(a.Order), xsBool(a.Usable, true))
					case "df":
						w += " order=" + ratKey(a.Order)
					}
					want = append(want, w)
					tags[a.Kind+" closed="+a.Closed+" usable="+a.Usable+" target="+fmt.Sprint(a.Target != "")] = true
				}
				for _, l := range p.DGrid.DRS.Links {
					var g, ext string
					n := 0
					if h := l.HypercubeConnection; h != nil {
						n++
						k := "not"
						if h.IsInclusive {
							k = "all"
						}
						ext = h.External
						g = fmt.Sprintf("%s external=%s closed=%v element=%s", k, ext, h.IsClosed, h.ContextElement)
					}
					if h := l.HypercubeDimensionConnection; h != nil {
						n++
						g = fmt.Sprintf("hd external=%s order=%s", h.External, ratKey(h.Order))
					}
					if h := l.DimensionDomainConnection; h != nil {
						n++
						if h.Default {
							g = fmt.Sprintf("df external=%s order=%s", h.External, ratKey(h.Order))
						} else {
							g = fmt.Sprintf("dd external=%s order=%s usable=%v", h.External, ratKey(h.Order), h.Usable)
						}
					}
					if h := l.DomainMemberConnection; h != nil {
						n++
						g = fmt.Sprintf("dm external=%s order=%s usable=%v", h.External, ratKey(h.Order), h.Usable)
					}
					if n != 1 {
						return fail("links", "link %s -> %s is of %d kinds", l.SourceHref, l.TargetHref, n)
					}
					got = append(got, l.SourceHref+" -> "+l.TargetHref+" "+g)
				}
				sort.Strings(want)
				sort.Strings(got)
				if !sameList(want, got) {
					return fail("links", "links: %s", listDiff(want, got))
				}
				var ns []string
				for _, n := range p.DGrid.DRS.Nodes {
					ns = append(ns, n.Href)
				}
				if w := sortedKeys(nodes); !sameList(w, ns) {
					return fail("nodes", "nodes: %s", firstDiff(w, ns))
				}
				non = non || len(arcs) >= 3
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

// listDiff reports the elements only one of two sorted lists has.
func listDiff(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var a, b []string
	for _, k := range sortedKeys(m) {
		for n := m[k]; n > 0; n-- {
			a = append(a, k)
		}
		for n := m[k]; n < 0; n++ {
			b = append(b, k)
		}
	}
	if len(a) == 1 && len(b) == 1 { // long texts: where they part
		i := 0
		for i < len(a[0]) && i < len(b[0]) && a[0][i] == b[0][i] {
			i++
		}
		if i = strings.LastIndexAny(a[0][:i], "\n "); i > 300 {
			return fmt.Sprintf("in %s: expected %s, got %s", clip(a[0], 100), clip(j(a[0][i:]), 700), clip(j(b[0][i:]), 700))
		}
	}
	return fmt.Sprintf("missing %s, surplus %s", clip(j(a), 1500), clip(j(b), 1500))
}

// ---- C14 ----

func init() {
	pr := gridProf
	pr.Defs, pr.Pres, pr.Calcs, pr.Contexts, pr.Dims, pr.TDims, pr.SplitLB, pr.Style, pr.Roles, pr.Items, pr.PNodes = 95, 10, 5, 2, 3, 1, true, 70, 3, 7, 7
	pr.OtherDefs = true
	register(&Check{ID: "C14", Quick: 15000, Thorough: 70000, New: newSpec,
		Rule: "a section in which a row has a hypercube with an explicit dimension that has a domain or default",
		Gen:  func(s *Src) any { return genSpec(s, pr) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				m := newDimModel(sp.defArcs(sec.RoleURI))
				var want, got []string
				rootOf := map[string]*tnode{}
				for _, t := range m.lineTrees {
					want = append(want, t.href)
					rootOf[t.href] = t
				}
				for _, d := range p.DGrid.RootDomains {
					got = append(got, d.Href)
				}
				sort.Strings(want)
				sort.Strings(got)
				if !sameList(want, got) {
					return fail("groups", "dimensional groups: %s", firstDiff(want, got))
				}
				tags["groups"+bucket(len(got), 0, 1, 2)] = true
				for _, d := range p.DGrid.RootDomains {
					var hs []string
					var ls []int
					for _, x := range d.PrimaryItems {
						hs = append(hs, x.Href)
						ls = append(ls, x.Level)
					}
					forest, err := parseRows(hs, ls)
					if err != nil {
						return fail("items", "group %s: %v", d.Href, err)
					}
					if err := matchForest(d.Href, rootOf[d.Href].kids, forest, false); err != nil {
						return fail("items", "%v", err)
					}
					var dims []string
					for _, x := range d.EffectiveDimensions {
						dims = append(dims, x.Href)
					}
					wd := sortedKeys(m.allDims)
					sd := append([]string(nil), dims...)
					sort.Strings(sd)
					if !sameList(wd, sd) {
						return fail("dims", "group %s: dimensions: %s", d.Href, firstDiff(wd, dims))
					}
					if len(dims) == 0 {
						continue
					}
					rows := append([]string{d.Href}, hs...)
					if len(d.EffectiveDomainGrid) != len(rows) {
						return fail("grid", "group %s: %d rows of effective members for %d rows", d.Href, len(d.EffectiveDomainGrid), len(rows))
					}
					for r, row := range d.EffectiveDomainGrid {
						if len(row) != len(dims) {
							return fail("grid", "group %s: row %d has %d cells for %d dimensions", d.Href, r, len(row), len(dims))
						}
						for k, cell := range row {
							dim := dims[k]
							var list []string
							for _, x := range cell {
								if !x.IsDefault && m.isDefault(dim, x.Href) && m.inDomain(dim, x.Href) {
									// the default may be listed a second time at its place in the domain
									if excludedOther(cell, x.Href, x.IsStrikethrough) {
										continue
									}
								}
								list = append(list, fmt.Sprintf("%s default=%v excluded=%v", x.Href, x.IsDefault, x.IsStrikethrough))
								if !m.memberOf(x.Href, dim) {
									return fail("foreign", "group %s, row %s lists %s, which is no member of dimension %s", d.Href, rows[r], x.Href, dim)
								}
							}
							cubes := m.attached(rows[r], dim)
							if len(cubes) == 0 {
								continue
							}
							var exp []string
							for _, a := range cubes {
								for _, x := range m.effective(dim) {
									exp = append(exp, fmt.Sprintf("%s default=%v excluded=%v", x, m.isDefault(dim, x), a.Kind == "not"))
								}
							}
							sort.Strings(exp)
							sort.Strings(list)
							if !sameList(exp, list) {
								return fail("members", "group %s, row %s, dimension %s (%s hypercube %s): %s", d.Href, rows[r], dim, cubes[0].Kind, cubes[0].To, listDiff(exp, list))
							}
							if len(exp) > 0 {
								non = true
							}
							tags[fmt.Sprintf("members%s hypercubes%d excluded=%v", bucket(len(exp), 0, 1, 2, 4), len(cubes), cubes[len(cubes)-1].Kind == "not")] = true
						}
					}
				}
				return Verdict{}
			})
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}

// dimModel is the meaning of one section's definition relationships.
type dimModel struct {
	arcs      []DArc
	lineTrees []*tnode
	allDims   map[string]bool
}

func newDimModel(arcs []DArc) *dimModel {
	m := &dimModel{arcs: arcs, allDims: map[string]bool{}}
	dom := map[string]bool{} // domains and defaults
	var dm [][3]string
	for _, a := range arcs {
		switch a.Kind {
		case "dd", "df":
			dom[a.To] = true
		case "dm":
			dm = append(dm, [3]string{a.From, a.To, a.Order})
		case "hd":
			m.allDims[a.To] = true
		}
	}
	for _, t := range forestOf(dm) {
		if !dom[t.href] {
			m.lineTrees = append(m.lineTrees, t)
		}
	}
	return m
}

// below lists a member and everything below it.
func (m *dimModel) below(x string, seen map[string]bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	for _, a := range m.arcs {
		if a.Kind == "dm" && a.From == x {
			m.below(a.To, seen)
		}
	}
}

func (m *dimModel) effective(dim string) []string {
	seen := map[string]bool{}
	for _, a := range m.arcs {
		if a.From == dim && a.Kind == "dd" {
			m.below(a.To, seen)
		}
	}
	for _, a := range m.arcs {
		if a.From == dim && a.Kind == "df" {
			seen[a.To] = true
		}
	}
	return sortedKeys(seen)
}

func (m *dimModel) inDomain(dim, x string) bool {
	seen := map[string]bool{}
	for _, a := range m.arcs {
		if a.From == dim && a.Kind == "dd" {
			m.below(a.To, seen)
		}
	}
	return seen[x]
}

// excludedOther tells whether the same member is also listed as the default.
func excludedOther(cell []EffMember, href string, struck bool) bool {
	for _, y := range cell {
		if y.Href == href && y.IsDefault && y.IsStrikethrough == struck {
			return true
		}
	}
	return false
}

func (m *dimModel) memberOf(x, dim string) bool {
	for _, y := range m.effective(dim) {
		if x == y {
			return true
		}
	}
	return false
}

func (m *dimModel) isDefault(dim, x string) bool {
	for _, a := range m.arcs {
		if a.From == dim && a.Kind == "df" && a.To == x {
			return true
		}
	}
	return false
}

// attached finds the hypercube that brings the dimension to the row.
func (m *dimModel) attached(row, dim string) (out []DArc) {
	for _, a := range m.arcs {
		if (a.Kind == "all" || a.Kind == "not") && a.From == row {
			for _, b := range m.arcs {
				if b.Kind == "hd" && b.From == a.To && b.To == dim {
					out = append(out, a)
				}
			}
		}
	}
	return out
}

// ---- C15 ----

// footnotesOf lists the contents of the footnotes linked to a fact.
func (s *Spec) footnotesOf(f *Fact) []string {
	if f == nil || f.ID == "" {
		return nil
	}
	var out []string
	for _, l := range s.FnLinks {
		for _, lo := range l.Locs {
			if lo.Fact != f.ID {
				continue
			}
			for _, a := range l.Arcs {
				if a.From != lo.Label || a.Arcrole != "" {
					continue
				}
				for _, n := range l.Notes {
					if n.Label == a.To {
						out = append(out, n.Inner)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func init() {
	pr := gridProf
	pr.Footnotes, pr.Inline, pr.Items, pr.Contexts, pr.Density, pr.Dims, pr.TDims, pr.Entities, pr.Big = 95, 25, 5, 4, 60, 1, 0, 2, 10
	register(&Check{ID: "C15", Quick: 12000, Thorough: 60000, New: newSpec,
		Rule: "a grid shows at least two facts with footnotes or a fact with two",
		Gen:  func(s *Src) any { return separate(genSpec(s, pr)) },
		Run: func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			lk := tagLookups(sp)
			v, bad := fetch(e, sp, lk)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					ids := sp.identify(g, en)
					used := map[string]bool{}
					n := 0
					for col, id := range ids {
						for r, h := range g.Rows {
							var want []string
							if id != "" {
								want = sp.footnotesOf(sp.fact(h, id))
							}
							var got []string
							for _, k := range g.FootnoteGrid[r][col] {
								if k < 1 || k > len(g.Footnotes) {
									return fail("number", "%s: row %s, column %d: footnote number %d, but %d footnotes", g.Where, h, col, k, len(g.Footnotes))
								}
								got = append(got, g.Footnotes[k-1])
							}
							sort.Strings(got)
							if !sameList(want, got) {
								return fail("cell", "%s: row %s, column %d (context %s): footnotes %s", g.Where, h, col, id, firstDiff(want, got))
							}
							for _, w := range want {
								used[w] = true
							}
							if len(want) > 0 {
								n++
							}
							if len(want) > 1 {
								n++
							}
						}
					}
					fs := append([]string(nil), g.Footnotes...)
					sort.Strings(fs)
					if w := sortedKeys(used); !sameList(w, fs) {
						return fail("list", "%s: footnote list: %s", g.Where, firstDiff(w, g.Footnotes))
					}
					non = non || n >= 2
					tags["notes"+bucket(len(fs), 0, 1, 3, 6)] = true
				}
				return Verdict{}
			})
			if bad.Fail == "" && bad.Err == nil {
				for i, l := range lk {
					x, b := decodeExpr(v.Res.Lookups[i])
					if b.Fail != "" {
						bad = b
						break
					}
					if x == nil {
						continue
					}
					want := sp.footnotesOf(sp.fact(x.Href, l.Context))
					got := append([]string(nil), x.Footnotes...)
					sort.Strings(got)
					if !sameList(want, got) {
						bad = fail("lookup", "lookup %v: footnotes %s", l, firstDiff(want, got))
						break
					}
					if len(want) > 0 {
						tags["lookup"] = true
					}
				}
			}
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}
