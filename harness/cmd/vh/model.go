package main

import (
	"fmt"
	"sort"
	"strings"
)

func entKey(scheme, ident string) string { return scheme + "/" + ident }

// entities lists the distinct reporting entities by scheme and identifier.
func (s *Spec) entities() []Entity {
	seen := map[Entity]bool{}
	var out []Entity
	for _, c := range s.Contexts {
		e := Entity{c.Scheme, c.Ident}
		if !seen[e] {
			seen[e] = true
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Scheme != out[j].Scheme {
			return out[i].Scheme < out[j].Scheme
		}
		return out[i].CharData < out[j].CharData
	})
	return out
}

func entityName(e Entity) string {
	if n, ok := entityNames[e.Scheme][e.CharData]; ok {
		return n
	}
	return e.Scheme + "/" + e.CharData
}

// sections lists the distinct sections by title and URI.
func (s *Spec) sections() []RSet {
	var out []RSet
	for _, r := range s.roleList() {
		out = append(out, RSet{r.Def, r.URI})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Title != out[j].Title {
			return out[i].Title < out[j].Title
		}
		return out[i].RoleURI < out[j].RoleURI
	})
	return out
}

func (s *Spec) ctx(id string) *Context {
	for i := range s.Contexts {
		if s.Contexts[i].ID == id {
			return &s.Contexts[i]
		}
	}
	return nil
}

func (s *Spec) fact(concept, ctx string) *Fact {
	for i := range s.Facts {
		if s.Facts[i].Concept == concept && s.Facts[i].Ctx == ctx {
			return &s.Facts[i]
		}
	}
	return nil
}

func (s *Spec) unit(id string) *Unit {
	for i := range s.Units {
		if s.Units[i].ID == id {
			return &s.Units[i]
		}
	}
	return nil
}

func (c *Context) period() string {
	if c.Instant != "" {
		return c.Instant
	}
	if c.Start != "" && c.End != "" {
		return c.Start + "/" + c.End
	}
	return ""
}

func (c *Context) members() []Member { return append(append([]Member(nil), c.Seg...), c.Scen...) }

// elements lists the value elements of a typed value with their texts.
func (v *TypedV) elements() [][2]string {
	out := [][2]string{{v.El, ""}}
	if len(v.Kids) == 0 {
		out[0][1] = v.Text
	}
	for i := range v.Kids {
		out = append(out, v.Kids[i].elements()...)
	}
	return out
}

// depths notes how deep each value element of a dimension is nested.
func (v *TypedV) depths(dim string, depth int, at map[string]int, mixed map[string]bool) {
	k := dim + "|" + v.El
	if d, ok := at[k]; ok && d != depth {
		mixed[k] = true
	}
	at[k] = depth
	for i := range v.Kids {
		v.Kids[i].depths(dim, depth+1, at, mixed)
	}
}

// sig is what a column shows about its context: period and members.
func (c *Context) sig() string {
	var p []string
	for _, m := range c.members() {
		if m.Typed != nil {
			for _, e := range m.Typed.elements() {
				if e[1] != "" {
					p = append(p, m.Dim+"|"+e[0]+"="+e[1])
				}
			}
		} else {
			p = append(p, m.Dim+"="+m.Mem)
		}
	}
	sort.Strings(p)
	return c.period() + "\n" + strings.Join(p, "\n")
}

func (g *Grid) sig(col int) string {
	var p []string
	for r, v := range g.VoidQuadrant {
		if r >= len(g.ContextualMemberGrid) || col >= len(g.ContextualMemberGrid[r]) || v == nil {
			continue
		}
		c := g.ContextualMemberGrid[r][col]
		if c == nil {
			continue
		}
		if c.ExplicitMember != nil {
			p = append(p, v.Dimension.Href+"="+c.ExplicitMember.Href)
		} else if c.TypedMember != "" && v.TypedDomain != nil {
			p = append(p, v.Dimension.Href+"|"+v.TypedDomain.Href+"="+c.TypedMember)
		}
	}
	sort.Strings(p)
	return g.PeriodHeaders[col]["Unlabelled"] + "\n" + strings.Join(p, "\n")
}

func (c Cell) text() string {
	t := c["Unlabelled"]
	return t.Head + t.Core + t.Tail + t.InnerHtml
}

// relevant lists the contexts of the entity that report on the rows.
func (s *Spec) relevant(rows []string, e Entity) map[string]bool {
	row := map[string]bool{}
	for _, r := range rows {
		if c, _ := s.find(r); c != nil && !c.Abstract {
			row[r] = true
		}
	}
	out := map[string]bool{}
	for _, f := range s.Facts {
		if row[f.Concept] {
			if c := s.ctx(f.Ctx); c != nil && c.Scheme == e.Scheme && c.Ident == e.CharData {
				out[f.Ctx] = true
			}
		}
	}
	return out
}

// identify finds out which context each column stands for: the one-to-one
// assignment of contexts to columns that agrees best with what the cells and
// headings show. A column that agrees with no context is "".
func (s *Spec) identify(g *Grid, e Entity) []string {
	type key struct{ concept, ctx string }
	text := map[key]string{}
	for i := range s.Facts {
		f := &s.Facts[i]
		t := "nil"
		if !f.Nil {
			t = shown(s, f)
		}
		if _, dup := text[key{f.Concept, f.Ctx}]; !dup {
			text[key{f.Concept, f.Ctx}] = t
		}
	}
	block := map[string]bool{}
	for _, h := range g.Rows {
		if c, _ := s.find(h); c != nil && c.Kind == "text" {
			block[h] = true
		}
	}
	rel := s.relevant(g.Rows, e)
	n, m := len(g.PeriodHeaders), len(s.Contexts)
	cost := make([][]int, n)
	for col := range cost {
		cost[col] = make([]int, m+n) // the last n stand for no context
		shows := make([]string, len(g.Rows))
		for r := range shows {
			if r < len(g.FactualQuadrant) && col < len(g.FactualQuadrant[r]) {
				if t := g.FactualQuadrant[r][col].text(); t != "nil" {
					t = canonShown(t)
					shows[r] = t
				} else {
					shows[r] = t
				}
			}
		}
		want := g.sig(col)
		for i := range s.Contexts {
			c := &s.Contexts[i]
			score := 0
			for r, h := range g.Rows {
				t := text[key{h, c.ID}]
				show := shows[r]
				if block[h] { // markup is not shown as written
					t, show = lastNumber(t), lastNumber(show)
				}
				switch {
				case t != show:
					score -= 3
				case t == "":
					score++
				case t == "nil":
					score += 4
				default:
					score += 20
				}
			}
			if c.sig() == want {
				score += 6
			}
			if rel[c.ID] {
				score += 2
			}
			cost[col][i] = -score
		}
	}
	out := make([]string, n)
	for col, i := range assign(cost) {
		if i < m {
			out[col] = s.Contexts[i].ID
		}
	}
	return out
}

// lastNumber is the last run of digits; generated texts end in a number of
// their own.
func lastNumber(t string) string {
	j := strings.LastIndexAny(t, "0123456789") + 1
	i := j
	for i > 0 && t[i-1] >= '0' && t[i-1] <= '9' {
		i--
	}
	if i == j {
		return t
	}
	return t[i:j]
}

// assign returns the column chosen for each row of the matrix (at least as
// many columns as rows) such that the sum of costs is least.
func assign(a [][]int) []int {
	n := len(a)
	if n == 0 {
		return nil
	}
	m := len(a[0])
	const inf = 1 << 40
	u, v, p, way := make([]int, n+1), make([]int, m+1), make([]int, m+1), make([]int, m+1)
	for i := 1; i <= n; i++ {
		p[0] = i
		j0 := 0
		minv, used := make([]int, m+1), make([]bool, m+1)
		for j := range minv {
			minv[j] = inf
		}
		for {
			used[j0] = true
			i0, delta, j1 := p[j0], inf, 0
			for j := 1; j <= m; j++ {
				if used[j] {
					continue
				}
				if cur := a[i0-1][j-1] - u[i0] - v[j]; cur < minv[j] {
					minv[j], way[j] = cur, j0
				}
				if minv[j] < delta {
					delta, j1 = minv[j], j
				}
			}
			for j := 0; j <= m; j++ {
				if used[j] {
					u[p[j]] += delta
					v[j] -= delta
				} else {
					minv[j] -= delta
				}
			}
			j0 = j1
			if p[j0] == 0 {
				break
			}
		}
		for j0 != 0 {
			j1 := way[j0]
			p[j0] = p[j1]
			j0 = j1
		}
	}
	out := make([]int, n)
	for j := 1; j <= m; j++ {
		if p[j] > 0 {
			out[p[j]-1] = j - 1
		}
	}
	return out
}

// shown is the comparable form of what a cell shows for a fact: the content as
// written, or the number for numeric facts.
func shown(s *Spec, f *Fact) string {
	if c, _ := s.find(f.Concept); c != nil && c.Kind == "percent" && f.Dec != "" {
		return canonShown(f.Inner + "00")
	}
	return canonShown(f.Inner)
}

// canonShown drops grouping, accuracy layout and units from plain numbers so
// that they can be compared with the content of the fact.
func canonShown(t string) string {
	if n, ok := readPlain(t); ok {
		return "#" + n
	}
	return strings.TrimSpace(t)
}

// ---- trees ----

type tnode struct {
	href  string
	order string
	kids  []*tnode
}

// presTree is the forest of the section's presentation relationships.
func (s *Spec) presTree(role string) []*tnode {
	var arcs []PArc
	for _, lb := range s.Pres {
		for _, l := range lb.Links {
			if l.Role == role {
				for _, a := range l.Arcs {
					if a.Arcrole == "" {
						arcs = append(arcs, a)
					}
				}
			}
		}
	}
	var e [][3]string
	for _, a := range arcs {
		e = append(e, [3]string{a.From, a.To, a.Order})
	}
	return forestOf(e)
}

func forestOf(arcs [][3]string) []*tnode {
	isTo := map[string]bool{}
	for _, a := range arcs {
		isTo[a[1]] = true
	}
	var build func(key, order string, depth int) *tnode
	build = func(key, order string, depth int) *tnode {
		n := &tnode{href: hrefOf(key), order: order}
		if depth > 60 {
			return n
		}
		for _, a := range arcs {
			if a[0] == key {
				n.kids = append(n.kids, build(a[1], a[2], depth+1))
			}
		}
		sort.SliceStable(n.kids, func(i, j int) bool { return ratCmp(n.kids[i].order, n.kids[j].order) < 0 })
		return n
	}
	var out []*tnode
	seen := map[string]bool{}
	for _, a := range arcs {
		if !isTo[a[0]] && !seen[a[0]] {
			seen[a[0]] = true
			out = append(out, build(a[0], "0", 0))
		}
	}
	return out
}

func ratCmp(a, b string) int {
	x, _ := newRat(a)
	y, _ := newRat(b)
	return x.Cmp(y)
}

func (n *tnode) count() int {
	c := 1
	for _, k := range n.kids {
		c += k.count()
	}
	return c
}

func (n *tnode) canon() string {
	return n.href + canonKids(n.kids)
}

// canonKids writes children so that siblings of equal order compare as a set.
func canonKids(kids []*tnode) string {
	if len(kids) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString("(")
	for i := 0; i < len(kids); {
		j := i + 1
		for j < len(kids) && ratCmp(kids[i].order, kids[j].order) == 0 {
			j++
		}
		var g []string
		for k := i; k < j; k++ {
			g = append(g, kids[k].canon())
		}
		sort.Strings(g)
		b.WriteString("[" + strings.Join(g, " ") + "]")
		i = j
	}
	b.WriteString(")")
	return b.String()
}

// parseRows turns an indented list into a forest.
func parseRows(hrefs []string, level []int) ([]*tnode, error) {
	var roots []*tnode
	var stack []*tnode
	for i, h := range hrefs {
		l := level[i]
		if l < 0 || l > len(stack) {
			return nil, fmt.Errorf("row %d (%s) is indented by %d below a row at depth %d", i, h, l, len(stack)-1)
		}
		n := &tnode{href: h}
		stack = append(stack[:l], n)
		if l == 0 {
			roots = append(roots, n)
		} else {
			p := stack[l-1]
			p.kids = append(p.kids, n)
		}
	}
	return roots, nil
}

// matchForest compares expected (with order values) and shown children. When
// free is set the sequence of the children themselves is not compared.
func matchForest(path string, want, got []*tnode, free bool) error {
	if len(want) != len(got) {
		return fmt.Errorf("below %s: expected %s, shown %s", path, hrefs(want), hrefs(got))
	}
	match := func(w, g []*tnode) error {
		w = append([]*tnode(nil), w...)
		g = append([]*tnode(nil), g...)
		sort.SliceStable(w, func(i, j int) bool { return w[i].href < w[j].href })
		sort.SliceStable(g, func(i, j int) bool { return g[i].href < g[j].href })
		for i := range w {
			if w[i].href != g[i].href {
				return fmt.Errorf("below %s: expected %s, shown %s", path, hrefs(want), hrefs(got))
			}
		}
		for i := 0; i < len(w); {
			j := i + 1
			for j < len(w) && w[j].href == w[i].href {
				j++
			}
			if j == i+1 {
				if err := matchForest(path+" > "+w[i].href, w[i].kids, g[i].kids, false); err != nil {
					return err
				}
			} else { // same concept several times at the same order: any pairing
				used := make([]bool, j-i)
				for k := i; k < j; k++ {
					var err error
					ok := false
					for m := i; m < j; m++ {
						if used[m-i] {
							continue
						}
						if err = matchForest(path+" > "+w[k].href, w[k].kids, g[m].kids, false); err == nil {
							used[m-i] = true
							ok = true
							break
						}
					}
					if !ok {
						return err
					}
				}
			}
			i = j
		}
		return nil
	}
	if free {
		return match(want, got)
	}
	for i := 0; i < len(want); {
		j := i + 1
		for j < len(want) && ratCmp(want[i].order, want[j].order) == 0 {
			j++
		}
		if err := match(want[i:j], got[i:j]); err != nil {
			return err
		}
		i = j
	}
	return nil
}

func hrefs(ns []*tnode) string {
	var b []string
	for _, n := range ns {
		if n.order != "" {
			b = append(b, n.href+"@"+n.order)
		} else {
			b = append(b, n.href)
		}
	}
	return "[" + strings.Join(b, ", ") + "]"
}

// ---- labels ----

// pack is the label pack the filing assigns to a concept.
func (s *Spec) pack(href string) Pack {
	p := Pack{"Default": {"Unlabelled": href}}
	if i := strings.IndexByte(href, '#'); i >= 0 {
		p["Default"]["Truncated"] = href[i:]
	}
	for _, lb := range s.Labels {
		for _, l := range lb.Links {
			for _, x := range l {
				if x.Concept != href || x.Arcrole != "" {
					continue
				}
				role := map[string]string{roleLabel: "Default", roleTerse: "Terse", roleVerbose: "Verbose"}[x.Role]
				lang := map[string]string{"en": langEN, "en-US": langEN, "es": langES}[x.Lang]
				if role == "" || lang == "" {
					continue
				}
				if p[role] == nil {
					p[role] = LangText{}
				}
				p[role][lang] = x.Text
			}
		}
	}
	return p
}

const (
	langEN = "en - english"
	langES = "es - español"
)
