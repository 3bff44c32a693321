package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

type c16 struct {
	Sp   *Spec
	Asks []proto.Lookup
}

func (c *c16) spec() *Spec { return c.Sp }

func (t IxTag) name() string {
	if t.Prefix != "" {
		return t.Prefix + ":" + t.Local
	}
	return t.Local
}

// answer says which concept a lookup is about, or "" if nothing is to be found.
func (s *Spec) answer(l proto.Lookup) string {
	if s.Inline == nil {
		return ""
	}
	var href string
	ctx := false
	for _, t := range s.Inline.Tags {
		if t.name() == l.Name {
			ns := s.Inline.Prefixes[t.Prefix]
			for _, f := range s.Facts {
				if n, local := s.nsOf(f.Concept); n == ns && local == t.Local {
					href = f.Concept
				}
			}
		}
		ctx = ctx || t.Ctx == l.Context
	}
	if href == "" || !ctx || s.fact(href, l.Context) == nil {
		return ""
	}
	return href
}

func init() {
	pr := gridProf
	pr.Inline, pr.Dims, pr.TDims, pr.LabelPct, pr.LFiles, pr.Footnotes, pr.Numbers, pr.NonISO, pr.Entities, pr.Text = 94, 2, 1, 30, 1, 50, 1, 5, 2, 40
	register(&Check{ID: "C16", Quick: 8000, Thorough: 50000, New: func() any { return &c16{} },
		Rule: "at least two lookups find a fact and at least one finds none",
		Gen: func(s *Src) any {
			sp := genSpec(s, pr)
			c := &c16{Sp: sp}
			names, ctxs := []string{"co:Nothing", "", ":", "Assets"}, []string{"c", "", "nothing"}
			for _, x := range sp.Contexts {
				ctxs = append(ctxs, x.ID)
			}
			var tagged []proto.Lookup
			if sp.Inline != nil {
				for _, t := range sp.Inline.Tags {
					names = append(names, t.name())
					tagged = append(tagged, proto.Lookup{Name: t.name(), Context: t.Ctx})
				}
				for _, f := range sp.Facts {
					ns, local := sp.nsOf(f.Concept)
					for _, p := range sortedKeys(sp.Inline.Prefixes) {
						n := sp.Inline.Prefixes[p]
						if n == ns && s.P(30) {
							names = append(names, p+":"+local)
						}
						if n != ns && s.P(3) {
							names = append(names, p+":"+local)
						}
					}
				}
			}
			sort.Strings(names)
			s.List(1, 12, 85, func(int) {
				l := proto.Lookup{Name: Pick(s, names), Context: Pick(s, ctxs)}
				if len(tagged) > 0 && s.P(50) {
					l = Pick(s, tagged)
				}
				switch s.PickW(70, 4, 4, 4, 4, 4, 4) {
				case 1:
					l.Name = strings.ToUpper(l.Name)
				case 2:
					l.Name += " "
				case 3:
					l.Name += "X"
				case 4:
					l.Context = strings.ToLower(l.Context)
				case 5:
					l.Context += " "
				case 6:
					_, local, _ := strings.Cut(l.Name, ":")
					l.Name = local
				}
				c.Asks = append(c.Asks, l)
			})
			return c
		},
		Run: func(e *Env, cs any) Verdict {
			c := cs.(*c16)
			sp := c.Sp
			v, bad := fetch(e, sp, c.Asks)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			// what the pages show, by concept and context, where the column is certain
			type at struct{ href, ctx string }
			type view struct {
				cell  Cell
				label Pack
				notes []string
				where string
				head  LangText
			}
			pages := map[at][]view{}
			sigs := map[string]int{}
			for i := range sp.Contexts {
				sigs[entKey(sp.Contexts[i].Scheme, sp.Contexts[i].Ident)+sp.Contexts[i].sig()]++
			}
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				labels := map[string]Pack{}
				for _, r := range p.PGrid.IndentedLabels {
					labels[r.Href] = r.Label
				}
				for _, g := range p.grids() {
					if err := g.shape(); err != nil {
						return fail("shape", "%v", err)
					}
					for col, id := range sp.identify(g, en) {
						if id == "" || sigs[entKey(en.Scheme, en.CharData)+sp.ctx(id).sig()] != 1 {
							continue
						}
						for r, h := range g.Rows {
							w := view{cell: g.FactualQuadrant[r][col], label: labels[h], where: g.Where, head: g.PeriodHeaders[col]}
							for _, k := range g.FootnoteGrid[r][col] {
								if k >= 1 && k <= len(g.Footnotes) {
									w.notes = append(w.notes, g.Footnotes[k-1])
								}
							}
							sort.Strings(w.notes)
							pages[at{h, id}] = append(pages[at{h, id}], w)
						}
					}
				}
				return Verdict{}
			})
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			hits, misses := 0, 0
			tags := map[string]bool{}
			for i, l := range c.Asks {
				a := v.Res.Lookups[i]
				href := sp.answer(l)
				if href == "" {
					if len(a.Data) > 0 && string(a.Data) != "null" {
						return fail("ghost", "lookup %q %q should find nothing, answer %s", l.Name, l.Context, clip(string(a.Data), 300))
					}
					misses++
					tags["none"] = true
					continue
				}
				x, b := decodeExpr(a)
				if b.Fail != "" {
					return b
				}
				if x == nil {
					return fail("lost", "lookup %q %q finds nothing instead of %s", l.Name, l.Context, href)
				}
				hits++
				f := sp.fact(href, l.Context)
				cx := sp.ctx(l.Context)
				if x.Href != href {
					return fail("concept", "lookup %q %q: concept %s instead of %s", l.Name, l.Context, x.Href, href)
				}
				if want := sp.pack(href); !reflect.DeepEqual(anyPack(x.Labels), want) {
					return fail("labels", "lookup %q %q: labels %s", l.Name, l.Context, firstDiff(want, x.Labels))
				}
				if x.Context.Period["Unlabelled"] != cx.period() {
					return fail("period", "lookup %q %q: period %q instead of %q", l.Name, l.Context, x.Context.Period["Unlabelled"], cx.period())
				}
				for _, lt := range sp.pack(href) {
					for lang := range lt {
						if months[lang] != nil && !oneOf(x.Context.Period[lang], periodText(cx, lang)) {
							return fail("period", "lookup %q %q: period %q in %s instead of %q", l.Name, l.Context, x.Context.Period[lang], lang, periodText(cx, lang)[0])
						}
					}
				}
				if why, _, _ := sp.headings([]string{l.Context}, x.Context.VoidQuadrant, x.Context.ContextualMemberGrid); why != "" {
					return fail("members", "lookup %q %q: %s", l.Name, l.Context, why)
				}
				if why := sp.cellShows(f, x.Expression); why != "" {
					return fail("text", "lookup %q %q: %s", l.Name, l.Context, why)
				}
				notes := append([]string(nil), x.Footnotes...)
				sort.Strings(notes)
				if want := sp.footnotesOf(f); !sameList(want, notes) {
					return fail("notes", "lookup %q %q: footnotes %s", l.Name, l.Context, firstDiff(want, notes))
				}
				for _, w := range pages[at{href, l.Context}] {
					if w.cell["Unlabelled"] != x.Expression["Unlabelled"] {
						return fail("differs", "lookup %q %q shows %s, %s shows %s", l.Name, l.Context, j(x.Expression), w.where, j(w.cell))
					}
					if w.label != nil && !reflect.DeepEqual(w.label, x.Labels) {
						return fail("differs", "lookup %q %q is labelled %s, %s %s", l.Name, l.Context, j(x.Labels), w.where, j(w.label))
					}
					if !sameList(w.notes, notes) {
						return fail("differs", "lookup %q %q has footnotes %s, %s %s", l.Name, l.Context, j(notes), w.where, j(w.notes))
					}
					for lang, t := range x.Context.Period {
						if h, ok := w.head[lang]; ok && h != t {
							return fail("differs", "lookup %q %q has period %q, %s %q", l.Name, l.Context, t, w.where, h)
						}
					}
					tags["compared with page"] = true
				}
				tags[fmt.Sprintf("found, members%s", bucket(len(cx.members()), 0, 1))] = true
			}
			if sp.Inline == nil {
				tags["plain"] = true
			}
			return Verdict{Non: hits >= 2 && misses >= 1, Tags: sortedKeys(tags)}
		}})
}
