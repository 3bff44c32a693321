package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C27 ----

// styleCase is a filing and two ways of writing it, compared with the plain one.
type styleCase struct {
	Sp     *Spec
	Styles []Style
}

// spec is the filing in the last of its writings.
func (c *styleCase) spec() *Spec {
	sp := cloneSpec(c.Sp)
	if n := len(c.Styles); n > 0 {
		sp.Style = c.Styles[n-1]
	}
	return sp
}

func num(s string) string {
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return fmt.Sprint(f)
	}
	return s
}

// canonGrid describes a grid without the sequences the filing does not state.
// order gives the rows in the sequence in which they are to be described.
func canonGrid(g *Grid, order []int) []string {
	var cols []string
	for c := range g.PeriodHeaders {
		var heads []string
		for r := range g.VoidQuadrant {
			if r < len(g.ContextualMemberGrid) && c < len(g.ContextualMemberGrid[r]) {
				heads = append(heads, j(g.VoidQuadrant[r])+" = "+j(g.ContextualMemberGrid[r][c]))
			}
		}
		sort.Strings(heads)
		s := "column " + j(g.PeriodHeaders[c]) + " " + strings.Join(heads, "; ")
		for _, r := range order {
			var notes []string
			if r < len(g.FootnoteGrid) && c < len(g.FootnoteGrid[r]) {
				for _, k := range g.FootnoteGrid[r][c] {
					if k >= 1 && k <= len(g.Footnotes) {
						notes = append(notes, g.Footnotes[k-1])
					} else {
						notes = append(notes, fmt.Sprintf("number %d", k))
					}
				}
			}
			sort.Strings(notes)
			cell := "-"
			if r < len(g.FactualQuadrant) && c < len(g.FactualQuadrant[r]) {
				cell = j(g.FactualQuadrant[r][c])
			}
			s += "\n    " + cell
			if len(notes) > 0 {
				s += " notes " + strings.Join(notes, " | ")
			}
		}
		cols = append(cols, s)
	}
	sort.Strings(cols)
	fs := append([]string(nil), g.Footnotes...)
	sort.Strings(fs)
	return append(cols, "footnotes "+j(fs))
}

func sorted(l []string) []string {
	o := append([]string(nil), l...)
	sort.Strings(o)
	return o
}

func (p *Page) canon() []string {
	out := []string{"section " + j(p.RelationshipSet), "entity " + j(p.Subject), "languages " + j(sorted(p.Lang)), "label roles " + j(sorted(p.LabelRoles))}
	// presentation: trees below roots, which have no stated sequence
	type tree struct {
		text string
		rows []int
	}
	var trees []tree
	for i, r := range p.PGrid.IndentedLabels {
		t := fmt.Sprintf("%d %s %s\n", r.Indentation, r.Href, j(r.Label))
		if r.Indentation == 0 || len(trees) == 0 {
			trees = append(trees, tree{})
		}
		k := &trees[len(trees)-1]
		k.text += t
		k.rows = append(k.rows, i)
	}
	sort.SliceStable(trees, func(a, b int) bool { return trees[a].text < trees[b].text })
	var order []int
	for _, t := range trees {
		out = append(out, "rows "+t.text)
		order = append(order, t.rows...)
	}
	out = append(out, canonGrid(&p.PGrid.Grid, order)...)
	// dimensional groups
	var groups []string
	for i := range p.DGrid.RootDomains {
		d := &p.DGrid.RootDomains[i]
		keys := []string{"0 " + d.Href + " " + j(d.Label)}
		for _, x := range d.PrimaryItems {
			keys = append(keys, fmt.Sprintf("%d %s %s", x.Level, x.Href, j(x.Label)))
		}
		ord := make([]int, len(keys))
		for k := range ord {
			ord[k] = k
		}
		sort.SliceStable(ord, func(a, b int) bool { return keys[ord[a]] < keys[ord[b]] })
		s := "dimensional group " + d.Href
		for _, k := range ord {
			s += "\n  row " + keys[k]
			if k < len(d.EffectiveDomainGrid) {
				var ds []string
				for x, ms := range d.EffectiveDomainGrid[k] {
					var l []string
					for _, m := range ms {
						l = append(l, j(m))
					}
					sort.Strings(l)
					dim := "?"
					if x < len(d.EffectiveDimensions) {
						dim = j(d.EffectiveDimensions[x])
					}
					ds = append(ds, dim+": "+strings.Join(l, ","))
				}
				sort.Strings(ds)
				s += " members " + strings.Join(ds, "; ")
			}
		}
		s += "\n  " + strings.Join(canonGrid(&d.Grid, ord), "\n  ")
		groups = append(groups, s)
	}
	out = append(out, sorted(groups)...)
	var ns []string
	for _, n := range p.DGrid.DRS.Nodes {
		ns = append(ns, "node "+j(n))
	}
	for _, l := range p.DGrid.DRS.Links {
		if x := l.HypercubeDimensionConnection; x != nil {
			x.Order = num(x.Order)
		}
		if x := l.DimensionDomainConnection; x != nil {
			x.Order = num(x.Order)
		}
		if x := l.DomainMemberConnection; x != nil {
			x.Order = num(x.Order)
		}
		ns = append(ns, "link "+j(l))
	}
	out = append(out, sorted(ns)...)
	// calculation groups
	groups = nil
	for i := range p.CGrid.SummationItems {
		c := &p.CGrid.SummationItems[i]
		s := "calculation group " + c.Href + " " + c.BalanceType + " " + j(c.Label)
		var ord []int
		for k, x := range c.ContributingConcepts {
			x.Scale = num(x.Scale)
			s += "\n  row " + j(x)
			ord = append(ord, k)
		}
		ord = append(ord, len(ord))
		s += "\n  " + strings.Join(canonGrid(&c.Grid, ord), "\n  ")
		groups = append(groups, s)
	}
	return append(out, sorted(groups)...)
}

func (x *Expr) canon() []string {
	out := []string{"concept " + x.Href, "labels " + j(x.Labels), "period " + j(x.Context.Period), "fact " + j(x.Expression)}
	var heads []string
	for r := range x.Context.VoidQuadrant {
		m := "-"
		if r < len(x.Context.ContextualMemberGrid) {
			m = j(x.Context.ContextualMemberGrid[r])
		}
		heads = append(heads, "member "+j(x.Context.VoidQuadrant[r])+" = "+m)
	}
	out = append(out, sorted(heads)...)
	return append(out, "footnotes "+j(sorted(x.Footnotes)))
}

// canonView describes everything the library says about a filing.
func canonView(v *View) (map[string][]string, Verdict) {
	out := map[string][]string{}
	cat := []string{"document " + v.Cat.DocumentName}
	var l []string
	for _, s := range v.Cat.Subjects {
		l = append(l, "entity "+j(s))
	}
	for _, s := range v.Cat.RelationshipSets {
		l = append(l, "section "+j(s))
	}
	for e, m := range v.Cat.Networks {
		for r, s := range m {
			l = append(l, "link "+e+" "+r+" "+s)
		}
	}
	out["catalog"] = append(cat, sorted(l)...)
	for s, p := range v.Pages {
		out["page "+s] = p.canon()
	}
	for i, a := range v.Res.Lookups {
		k := fmt.Sprintf("lookup %d", i)
		if a.Failed || len(a.Data) == 0 {
			out[k] = []string{"nothing"}
			continue
		}
		var x Expr
		if err := json.Unmarshal(a.Data, &x); err != nil {
			return nil, fail("json", "%s: %v", k, err)
		}
		out[k] = x.canon()
	}
	return out, Verdict{}
}

func init() {
	pr := richProf
	pr.Style, pr.Distinct, pr.Odd, pr.Inline, pr.Numbers, pr.Big, pr.SplitLB = 0, true, false, 40, 2, 2, true
	register(&Check{ID: "C27", Quick: 2500, Thorough: 30000, New: func() any { return &styleCase{} },
		Rule: "a page with at least two rows and a column with a fact",
		Gen: func(s *Src) any {
			c := &styleCase{Sp: genSpec(s, pr)}
			n := s.Range(1, 2)
			for i := 0; i < n; i++ {
				c.Styles = append(c.Styles, genStyle(s, 100))
			}
			return c
		},
		Run: func(e *Env, cs any) Verdict {
			c := cs.(*styleCase)
			ask := append(tagLookups(c.Sp), proto.Lookup{Name: "co:Nothing", Context: "c"})
			v, bad := fetch(e, c.Sp, ask)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			want, bad := canonView(v)
			if bad.Fail != "" {
				return bad
			}
			for _, st := range c.Styles {
				sp := cloneSpec(c.Sp)
				sp.Style = st
				w, bad := fetch(e, sp, ask)
				if bad.Fail != "" || bad.Err != nil {
					return bad
				}
				got, bad := canonView(w)
				if bad.Fail != "" {
					return bad
				}
				for _, k := range sortedKeys(want) {
					g, ok := got[k]
					if !ok {
						return fail("differs", "written as %s, the filing has no %s", j(st), k)
					}
					if !sameList(want[k], g) {
						return fail("differs", "written as %s, the filing has another %s: %s", j(st), k, listDiff(want[k], g))
					}
				}
				if len(got) != len(want) {
					return fail("differs", "written as %s, the filing has %d answers instead of %d", j(st), len(got), len(want))
				}
			}
			non, cells := false, 0
			for _, k := range sortedKeys(v.Pages) {
				p := v.Pages[k]
				for _, r := range p.PGrid.FactualQuadrant {
					for _, x := range r {
						if len(x) > 0 {
							cells++
						}
					}
				}
				non = non || len(p.PGrid.IndentedLabels) > 1 && cells > 0
			}
			tags := []string{"cells" + bucket(cells, 0, 5, 20, 100)}
			for _, st := range c.Styles {
				for n, on := range map[string]bool{"shuffle": st.Shuffle, "prefix": st.Prefix, "labels": st.Labels, "split": st.Split, "space": st.Space, "attrs": st.Attrs, "forms": st.Forms, "enc": st.Enc} {
					if on {
						tags = append(tags, n)
					}
				}
			}
			return Verdict{Non: non, Tags: tags}
		}})
}
