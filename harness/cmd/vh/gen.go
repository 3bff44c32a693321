package main

import (
	"fmt"
	"strings"
	"time"
)

// Prof sets what a generated filing contains. Zero means "default".
type Prof struct {
	Schemas   int // max local schemas
	Items     int // max reportable concepts per schema
	Roles     int // max sections
	Entities  int
	Contexts  int
	Dims      int // max explicit dimensions
	TDims     int // max typed dimensions
	Density   int // percent of concept/context pairs with a fact
	Pres      int // percent chance of a presentation network per role
	Defs      int
	Calcs     int
	PNodes    int
	LabelPct  int // percent chance of each label
	LFiles    int
	Footnotes int // percent
	Numbers   int // 0 text only, 1 simple numbers, 2 hard numbers
	Text      int // percent of facts that are text blocks (with content)
	Nil       int // percent nil facts
	Inline    int // percent inline filings
	Style     int // percent non-canonical writing
	Targets   bool
	ManyAnn   bool // roles in several annotations
	Distinct  bool // distinct sibling order values
	Odd       bool // odd identifiers, titles, periods
	Big       int  // percent chance of a large instance of the main structure
	NoGlobal  bool
	SplitLB   bool // several linkbase files per kind
	NonISO    int  // percent of periods that are not plain dates
	CalcFrac  bool // weights with more decimals
	WildDefs  bool // unstructured definition arcs too
	OtherDefs bool // definition arcs of other kinds
	AbsFacts  int  // percent of filings that report on abstract concepts
	SlashEnts bool // entities that differ in where scheme and identifier meet
}

// G is the generator state of one filing.
type G struct {
	*Src
	pr    Prof
	sp    *Spec
	items []string // reportable concepts
	abst  []string
	dims  []string
	tdims []string
	mems  []string
	cubes []string
	tels  map[string][]string // schema file -> typed value elements
	seq   int
}

func genSpec(s *Src, pr Prof) *Spec {
	g := &G{Src: s, pr: pr, sp: &Spec{}, tels: map[string][]string{}}
	g.sp.Entry = Pick(s, []string{"inst.xml", "co-2020.xbrl", "co_htm.xml"})
	s.Span(g.schemas)
	s.Span(g.roles)
	s.Span(g.contexts)
	s.Span(g.networks)
	s.Span(g.facts)
	s.Span(g.labels)
	s.Span(g.footnotes)
	s.Span(g.inline)
	g.sp.Style = genStyle(s, pr.Style)
	return g.sp
}

func genStyle(s *Src, pct int) Style {
	var st Style
	if !s.P(pct) {
		return st
	}
	st.Seed = s.draw(1 << 20)
	st.Shuffle = s.P(80)
	st.Prefix = s.P(50)
	st.Labels = s.P(50)
	st.Split = s.P(40)
	st.Space = s.P(40)
	st.Attrs = s.P(40)
	st.Forms = s.P(40)
	st.Enc = s.P(30)
	return st
}

var itemNames = []string{"Assets", "AssetsNet", "Asset", "Liabilities", "Revenue", "Cost", "CostOfRevenue", "EPS", "Shares", "Rate", "Ratio", "Name", "Note", "Policy", "Fee", "Équité", "Z", "assets", "ASSETS", "eps",
	longName, longName + "Net"}

var longName = strings.Repeat("IncreaseDecreaseInOther", 6)
var itemKinds = []string{"money", "money", "money", "perShare", "shares", "pure", "percent", "string", "string", "text"}

func or(a, b int) int {
	if a == 0 {
		return b
	}
	return a
}

func (g *G) schemas() {
	sp := g.sp
	files := []string{"co.xsd", "sub.xsd", "co-types.xsd", "co.xsd.xsd"}
	nss := []string{"http://vh.test/co/2020", "http://vh.test/sub/2020", "http://vh.test/co/2020/types", "urn:vh:x"}
	pxs := []string{"co", "sub", "cot", "x"}
	if g.P(25) {
		nss[1] = Pick(g.Src, []string{"http://vh.test/co/2020/", "http://vh.test/CO/2020", "http://vh.test/co/2020#", "https://vh.test/co/2020"})
	}
	n := g.Range(1, or(g.pr.Schemas, 2))
	for i := 0; i < n; i++ {
		sc := Schema{File: files[i], NS: nss[i], Prefix: pxs[i]}
		used := map[string]bool{}
		add := func(name string, c Concept) string {
			for used[name] {
				name += "A"
			}
			used[name] = true
			c.Name = name
			c.ID = sc.Prefix + "_" + name
			sc.Concepts = append(sc.Concepts, c)
			return sc.File + "#" + c.ID
		}
		lo := 0
		if i == 0 {
			lo = 1
		}
		g.List(lo, or(g.pr.Items, 6), 75, func(int) {
			kinds := itemKinds
			if g.pr.Numbers == 0 && g.pr.Text == 0 {
				kinds = []string{"string", "money"}
			}
			k := Pick(g.Src, kinds)
			if g.pr.Text > 0 && g.P(g.pr.Text) {
				k = "text"
			}
			c := Concept{Kind: k, Instant: g.P(40)}
			if k == "money" {
				c.Balance = Pick(g.Src, []string{"", "debit", "credit"})
			}
			g.items = append(g.items, add(Pick(g.Src, itemNames), c))
		})
		g.List(0, 2, 50, func(int) {
			g.abst = append(g.abst, add(Pick(g.Src, []string{"StatementAbstract", "LineItems", "Abstract"}), Concept{Kind: "string", Abstract: true}))
		})
		if g.pr.Dims > 0 {
			g.List(0, g.pr.Dims, 60, func(int) {
				g.dims = append(g.dims, add(Pick(g.Src, []string{"RegionAxis", "ProductAxis", "Axis"}), Concept{Kind: "string", Abstract: true, Subst: "dim"}))
			})
			g.List(1, 6, 75, func(int) {
				g.mems = append(g.mems, add(Pick(g.Src, []string{"NorthMember", "SouthMember", "Member", "RegionDomain"}), Concept{Kind: "domain", Abstract: true}))
			})
			if g.pr.Defs > 0 {
				g.List(0, 3, 60, func(int) {
					g.cubes = append(g.cubes, add(Pick(g.Src, []string{"Table", "Table2", "Cube"}), Concept{Kind: "string", Abstract: true, Subst: "cube"}))
				})
			}
		}
		if g.pr.TDims > 0 {
			var els []string
			g.List(0, g.pr.TDims, 60, func(k int) {
				root := add(Pick(g.Src, []string{"PolicyNo", "Value", "Addr"}), Concept{Kind: "elem"})
				els = append(els, root)
				g.tdims = append(g.tdims, add(Pick(g.Src, []string{"TypedAxis", "PolicyAxis"}), Concept{Kind: "string", Abstract: true, Subst: "dim", Typed: root}))
			})
			if len(els) > 0 {
				g.List(0, 3, 50, func(int) {
					els = append(els, add(Pick(g.Src, []string{"Street", "City", "Zip"}), Concept{Kind: "elem"}))
				})
			}
			g.tels[sc.File] = els
		}
		sp.Schemas = append(sp.Schemas, sc)
	}
	for i := 1; i < n; i++ {
		sp.Schemas[0].Imports = append(sp.Schemas[0].Imports, Import{nss[i], files[i]})
	}
	sp.SchemaRef = []string{files[0]}
	if !g.pr.NoGlobal && g.P(60) {
		for i := range globalSchemas {
			if i > 0 && !g.P(40) {
				break
			}
			gs := &globalSchemas[i]
			sp.Schemas[0].Imports = append(sp.Schemas[0].Imports, Import{gs.NS, gs.File})
			for _, c := range gs.Concepts {
				h := gs.File + "#" + c.ID
				switch {
				case c.Kind == "elem":
				case c.Typed != "":
					if g.pr.TDims > 0 {
						g.tdims = append(g.tdims, h)
					}
				case c.Subst == "dim":
					if g.pr.Dims > 0 {
						g.dims = append(g.dims, h)
					}
				case c.Subst == "cube":
					if g.pr.Defs > 0 {
						g.cubes = append(g.cubes, h)
					}
				case c.Kind == "domain":
					g.mems = append(g.mems, h)
				case c.Abstract:
					g.abst = append(g.abst, h)
				default:
					if g.pr.Numbers > 0 || c.Kind == "money" || c.Kind == "string" {
						g.items = append(g.items, h)
					}
				}
			}
		}
	}
}

func (g *G) roles() {
	uris := []string{"http://vh.test/role/R1", "http://vh.test/role/R10", "http://vh.test/role/R1/sub", "http://vh.test/role/R", "urn:vh:role:a", "http://vh.test/role/Z", "http://vh.test/role/R2", "http://vh.test/role/r1", "http://vh.test/role/R1/"}
	defs := []string{"0001 - Statement - A", "0002 - Statement - B", "0001 - Statement - A ", "Document", "10 - Disclosure - Ñ & <x>", "2 - X", "", "0001 - Statement - a"}
	used := map[string]bool{}
	concat := map[string]bool{}
	ids := map[string]bool{}
	lo := 1
	g.List(lo, or(g.pr.Roles, 3), 70, func(i int) {
		u := uris[g.N(len(uris))]
		if i > 0 && g.P(30) {
			u = fmt.Sprintf("http://vh.test/role/R%d", g.N(30))
		}
		if g.P(8) { // long ones that differ at the end only
			u += strings.Repeat(Pick(g.Src, []string{"/x", "Ab", "/"}), Pick(g.Src, []int{60, 130, 300})) + Pick(g.Src, []string{"", "1", "2"})
		}
		d := defs[g.N(len(defs))]
		if g.P(40) {
			d = fmt.Sprintf("%04d - Statement - S%d", g.N(20), g.N(20))
		}
		if g.P(4) {
			d += strings.Repeat(" and more", g.Range(10, 60)) + Pick(g.Src, []string{"", "1", "2"})
		}
		if used[u] || concat[u+d] {
			return
		}
		used[u], concat[u+d] = true, true
		sc := &g.sp.Schemas[g.N(len(g.sp.Schemas))]
		r := Role{URI: u, Def: d, ID: fmt.Sprintf("role%d", len(ids))}
		ids[r.ID] = true
		if g.pr.ManyAnn {
			r.Ann, r.App = g.PickW(60, 25, 15), g.PickW(70, 30)
		}
		sc.Roles = append(sc.Roles, r)
		if g.pr.ManyAnn && g.P(15) { // the same section declared again elsewhere
			k := g.N(len(g.sp.Schemas))
			r2 := r
			r2.ID = fmt.Sprintf("role%d", len(ids))
			ids[r2.ID] = true
			g.sp.Schemas[k].Roles = append(g.sp.Schemas[k].Roles, r2)
		}
	})
}

func (s *Spec) roleList() []Role {
	var out []Role
	seen := map[[2]string]bool{}
	for _, sc := range s.Schemas {
		for _, r := range sc.Roles {
			k := [2]string{r.URI, r.Def}
			if !seen[k] {
				seen[k] = true
				out = append(out, r)
			}
		}
	}
	return out
}

var entityPool = [][2]string{
	{"http://www.sec.gov/CIK", "0000000001"}, {"http://www.sec.gov/CIK", "0000000002"}, {"http://vh.test/lei", "0000000001"},
	{"http://www.sec.gov/CIK", "1"}, {"http://www.sec.gov/CIK", "00000000010"}, {"http://vh.test/lei", "ABC"}, {"http://vh.test/le", "iABC"},
	{"http://vh.test/lei", "AB"}, {"urn:x", "Ä & Co <1>"}, {"http://www.sec.gov/CIKX", "0000000001"},
	{"http://www.sec.gov/CIK", "001"}, {"http://www.sec.gov/CIK", "2"}, {"http://vh.test/lei", "abc"}, {"http://vh.test/LEI", "ABC"}, {"https://www.sec.gov/CIK", "0000000001"},
	{"http://vh.test/lei", longIdent + "1"}, {"http://vh.test/lei", longIdent + "2"},
}

var longIdent = strings.Repeat("00", 150)

var datePool = []string{"2020-12-31", "2020-01-01", "2019-12-31", "2020-09-30", "2020-02-29", "2021-02-28", "2020-06-30", "2019-01-01", "2020-10-01"}

func (g *G) date() string {
	if g.P(30) {
		return fmt.Sprintf("%04d-%02d-%02d", g.Range(1999, 2026), g.Range(1, 12), g.Range(1, 28))
	}
	return Pick(g.Src, datePool)
}

func (g *G) word() string {
	g.seq++
	return fmt.Sprintf("%s%d", Pick(g.Src, []string{"alpha", "Beta", "x", "Ünïc", "a&amp;b", "1,234", "-", "&lt;i&gt;", "tab"}), g.seq)
}

// swapCase is the same name in the other case.
// otherArc names a kind of relationship that is not the given one.
func (g *G) otherArc(not string) string {
	if a := Pick(g.Src, []string{arcOther, arcPC, arcSI, arcCL, arcFF, "http://www.xbrl.org/2003/arcrole/concept-reference", "http://www.xbrl.org/2003/arcrole/fact-explanatoryFact", "http://vh.test/arcrole" + not[strings.LastIndex(not, "/"):]}); a != not {
		return a
	}
	return arcOther
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func (g *G) contexts() {
	var ents [][2]string
	seen := map[string]bool{}
	g.List(1, or(g.pr.Entities, 2), 45, func(int) {
		e := Pick(g.Src, entityPool)
		k := e[0] + "/" + e[1]
		if g.pr.SlashEnts {
			if i := strings.LastIndex(e[0], "/"); i >= 0 && g.P(25) {
				e = [2]string{e[0][:i], e[0][i+1:] + "/" + e[1]}
			}
			k = e[0] + " " + e[1]
		}
		if !seen[k] {
			seen[k] = true
			ents = append(ents, e)
		}
	})
	type per struct{ s, e, i string }
	var pers []per
	g.List(1, 4, 65, func(int) {
		var p per
		switch {
		case g.P(g.pr.NonISO):
			switch g.N(5) {
			case 0:
				p.i = g.date() + "T00:00:00"
			case 1:
				p.s, p.e = g.date()+"T00:00:00", g.date()
			case 2:
				p.s, p.e = g.date(), g.date()+"Z"
			case 3:
				p.i = "2020-02-30"
			case 4:
				p.i = "2020-1-1"
			}
		case g.P(50):
			a, b := g.date(), g.date()
			if g.P(40) { // about a month, a quarter, a year
				if t, err := time.Parse("2006-01-02", a); err == nil {
					b = t.AddDate(0, 0, Pick(g.Src, []int{0, 1, 7, 28, 29, 30, 31, 32, 59, 60, 61, 89, 90, 91, 92, 181, 364, 365, 366, 367, 730})).Format("2006-01-02")
				}
			}
			if a > b {
				a, b = b, a
			}
			p.s, p.e = a, b
		default:
			p.i = g.date()
		}
		pers = append(pers, p)
	})
	scen := map[string]bool{} // dimension -> kept in scenario
	nc := or(g.pr.Contexts, 6)
	more := 75
	if g.P(g.pr.Big) {
		nc, more = nc*5, 95
	}
	ids := map[string]bool{}
	g.List(1, nc, more, func(i int) {
		c := Context{}
		c.ID = fmt.Sprintf("%s%d", Pick(g.Src, []string{"c", "C_", "ctx-", "D2020_", "a."}), g.N(40))
		if i > 0 && g.P(10) {
			c.ID = swapCase(Pick(g.Src, g.sp.Contexts).ID)
		}
		for ids[c.ID] {
			c.ID += "0"
		}
		ids[c.ID] = true
		e := Pick(g.Src, ents)
		c.Scheme, c.Ident = e[0], e[1]
		p := Pick(g.Src, pers)
		c.Start, c.End, c.Instant = p.s, p.e, p.i
		usedD := map[string]bool{}
		put := func(m Member) {
			if usedD[m.Dim] {
				return
			}
			usedD[m.Dim] = true
			sc, ok := scen[m.Dim]
			if !ok {
				sc = g.P(35)
				scen[m.Dim] = sc
			}
			if sc {
				c.Scen = append(c.Scen, m)
			} else {
				c.Seg = append(c.Seg, m)
			}
		}
		if len(g.dims) > 0 && len(g.mems) > 0 {
			g.List(0, 3, 45, func(int) {
				put(Member{Dim: Pick(g.Src, g.dims), Mem: Pick(g.Src, g.mems)})
			})
		}
		if len(g.tdims) > 0 {
			g.List(0, 2, 40, func(int) {
				d := Pick(g.Src, g.tdims)
				cn, sc := g.sp.find(d)
				v := TypedV{El: cn.Typed}
				els := g.tels[sc.File]
				var kids []string
				for _, x := range els {
					if ec, _ := g.sp.find(x); x != cn.Typed && ec != nil && (strings.HasPrefix(ec.Name, "Street") || strings.HasPrefix(ec.Name, "City") || strings.HasPrefix(ec.Name, "Zip")) {
						kids = append(kids, x)
					}
				}
				val := func() string {
					return Pick(g.Src, []string{"v1", "v2", "P-100", "V1", "Ünï", "a & b", "<x>", "0", "two words"})
				}
				if len(kids) > 0 && g.P(50) {
					for _, k := range kids {
						if g.P(70) {
							v.Kids = append(v.Kids, TypedV{El: k, Text: val()})
						}
					}
				}
				if len(v.Kids) == 0 {
					v.Text = val()
				}
				put(Member{Dim: d, Typed: &v})
			})
		}
		g.sp.Contexts = append(g.sp.Contexts, c)
	})
}

func (g *G) order(used map[string]bool) string {
	for {
		o := ""
		switch g.PickW(48, 18, 14, 14, 6) {
		case 4:
			o = Pick(g.Src, []string{"1.00000001", "1.00000002", "16777216", "16777217", "100000000.5", "100000001", "-1", "-0.5", "-10", "0", "0.001", "1000000"})
		case 0:
			o = fmt.Sprint(g.Range(1, 12))
		case 1:
			o = fmt.Sprintf("%d.%d", g.N(10), g.Range(1, 9))
		case 2:
			o = fmt.Sprint(g.N(2000))
		case 3:
			o = fmt.Sprintf("%d.%02d", g.N(3), g.Range(1, 99))
		}
		if used == nil {
			return o
		}
		k := ratKey(o)
		if !used[k] {
			used[k] = true
			return o
		}
		if g.over { // exhausted replay: make it distinct deterministically
			for n := 1; ; n++ {
				o = fmt.Sprint(n)
				if !used[ratKey(o)] {
					used[ratKey(o)] = true
					return o
				}
			}
		}
	}
}

func ratKey(o string) string { r, _ := newRat(o); return r.String() }

// forest draws a forest (with occasional sharing) over the given concepts and
// returns parent/child pairs.
func (g *G) forest(pool []string, lo, hi int, share bool) [][2]string {
	var nodes []string
	taken := map[string]bool{}
	g.List(lo, hi, 85, func(int) {
		c := Pick(g.Src, pool)
		if !taken[c] {
			taken[c] = true
			nodes = append(nodes, c)
		}
	})
	var out [][2]string
	has := map[[2]string]bool{}
	add := func(a, b string) {
		if !has[[2]string{a, b}] {
			has[[2]string{a, b}] = true
			out = append(out, [2]string{a, b})
		}
	}
	shape := g.PickW(50, 20, 20, 10)
	extra := 0
	for i := 1; i < len(nodes); i++ {
		p := 0
		switch shape {
		case 0:
			p = g.N(i)
		case 1: // deep
			p = i - 1
		case 2: // wide
			p = 0
		case 3: // several roots
			p = g.N(i)
			if g.P(40) {
				continue
			}
		}
		add(nodes[p], nodes[i])
		if share && extra < 3 && i >= 2 && g.P(20) {
			q := g.N(i)
			if q != p {
				extra++
				add(nodes[q], nodes[i])
			}
		}
	}
	return out
}

func (g *G) networks() {
	sp := g.sp
	roles := sp.roleList()
	pick := func(kind string, files []string, n *int) int {
		if g.pr.SplitLB && g.P(35) {
			return g.N(len(files))
		}
		return 0
	}
	pf := []string{"co-pre.xml", "co-pre2.xml", "a-pre.xml"}
	df := []string{"co-def.xml", "co-def2.xml", "a-def.xml"}
	cf := []string{"co-cal.xml", "co-cal2.xml", "a-cal.xml"}
	pl, dl, cl := map[int]*PLinkbase{}, map[int]*DLinkbase{}, map[int]*CLinkbase{}
	for _, r := range roles {
		if g.P(g.pr.Pres) {
			k := pick("P", pf, nil)
			if pl[k] == nil {
				pl[k] = &PLinkbase{File: pf[k]}
			}
			g.Span(func() {
				pl[k].Links = append(pl[k].Links, PLink{r.URI, g.presArcs()})
			})
		}
		if g.P(g.pr.Defs) {
			k := pick("D", df, nil)
			if dl[k] == nil {
				dl[k] = &DLinkbase{File: df[k]}
			}
			g.Span(func() {
				dl[k].Links = append(dl[k].Links, DLink{r.URI, g.defArcs(roles)})
			})
		}
		if g.P(g.pr.Calcs) {
			k := pick("C", cf, nil)
			if cl[k] == nil {
				cl[k] = &CLinkbase{File: cf[k]}
			}
			g.Span(func() {
				cl[k].Links = append(cl[k].Links, CLink{r.URI, g.calcArcs()})
			})
		}
	}
	ref := func(kind, file string) {
		k := g.N(len(sp.Schemas))
		sp.Schemas[k].Links = append(sp.Schemas[k].Links, LBRef{kind, file})
	}
	for k := 0; k < 3; k++ {
		if pl[k] != nil {
			sp.Pres = append(sp.Pres, *pl[k])
			ref("P", pf[k])
		}
		if dl[k] != nil {
			sp.Defs = append(sp.Defs, *dl[k])
			ref("D", df[k])
		}
		if cl[k] != nil {
			sp.Calcs = append(sp.Calcs, *cl[k])
			ref("C", cf[k])
		}
	}
}

func (g *G) presPool() []string {
	pool := append([]string(nil), g.items...)
	pool = append(pool, g.abst...)
	if len(g.dims) > 0 {
		pool = append(pool, g.dims[0])
	}
	if len(g.mems) > 0 {
		pool = append(pool, g.mems[0])
	}
	return pool
}

func (g *G) presArcs() []PArc {
	pool := g.presPool()
	hi := or(g.pr.PNodes, 10)
	lo := 2
	if g.P(g.pr.Big) {
		hi, lo = hi*3, hi*2
	}
	pairs := g.forest(pool, lo, hi, true)
	var arcs []PArc
	used := map[string]map[string]bool{}
	ord := func(from string) string {
		if !g.pr.Distinct {
			return g.order(nil)
		}
		if used[from] == nil {
			used[from] = map[string]bool{}
		}
		return g.order(used[from])
	}
	parent := map[string]bool{}
	for _, p := range pairs {
		parent[p[0]] = true
	}
	for _, p := range pairs {
		a := PArc{From: p[0], To: p[1], Order: ord(p[0])}
		if g.P(15) {
			a.Pref = Pick(g.Src, []string{roleTerse, roleVerbose, "http://www.xbrl.org/2003/role/totalLabel"})
		}
		arcs = append(arcs, a)
		if !parent[p[1]] && g.P(8) { // the same leaf placed once more, through a locator of its own
			q := p[0]
			if g.P(50) {
				q = pairs[g.N(len(pairs))][0]
			}
			arcs = append(arcs, PArc{From: q, To: p[1] + "@2", Order: ord(q), Pref: "http://www.xbrl.org/2003/role/periodEndLabel"})
		}
	}
	g.List(0, 2, 15, func(int) { // relationships of another kind
		a, b := Pick(g.Src, pool), Pick(g.Src, pool)
		if a != b {
			arcs = append(arcs, PArc{From: a, To: b, Order: ord(a), Arcrole: g.otherArc(arcPC)})
		}
	})
	// at most one extra place per leaf locator and parent
	seen := map[[2]string]bool{}
	var out []PArc
	for _, a := range arcs {
		k := [2]string{a.From, a.To}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, a)
	}
	return out
}

func (g *G) calcArcs() []CArc {
	var pool []string
	for _, i := range g.items {
		c, _ := g.sp.find(i)
		if c.Kind != "string" && c.Kind != "text" || g.P(20) {
			pool = append(pool, i)
		}
	}
	if len(pool) == 0 {
		pool = g.items
	}
	hi := 8
	if g.P(g.pr.Big) {
		hi = 20
	}
	pairs := g.forest(pool, 2, hi, true)
	used := map[string]map[string]bool{}
	var out []CArc
	for _, p := range pairs {
		var u map[string]bool
		if g.pr.Distinct {
			if used[p[0]] == nil {
				used[p[0]] = map[string]bool{}
			}
			u = used[p[0]]
		}
		w := Pick(g.Src, []string{"1", "-1", "1.0", "-1.0", "0.5", "2", "-0.1"})
		if g.pr.CalcFrac && g.P(15) {
			w = Pick(g.Src, []string{"0.25", "-1.05", "0.01", "12.345", "-0.04"})
		}
		out = append(out, CArc{From: p[0], To: p[1], Order: g.order(u), Weight: w})
	}
	g.List(0, 2, 15, func(int) { // relationships of another kind
		a, b := Pick(g.Src, pool), Pick(g.Src, pool)
		if a != b {
			out = append(out, CArc{From: a, To: b, Order: g.order(nil), Weight: "1", Arcrole: g.otherArc(arcSI)})
		}
	})
	return out
}

func (g *G) defArcs(roles []Role) []DArc {
	var out []DArc
	seen := map[[3]string]bool{}
	used := map[string]map[string]bool{}
	add := func(a DArc) {
		k := [3]string{a.From, a.To, a.Kind}
		if seen[k] {
			return
		}
		seen[k] = true
		var u map[string]bool
		if g.pr.Distinct {
			if used[a.From+a.Kind] == nil {
				used[a.From+a.Kind] = map[string]bool{}
			}
			u = used[a.From+a.Kind]
		}
		a.Order = g.order(u)
		if g.P(35) {
			a.Usable = Pick(g.Src, []string{"true", "false", "0", "1"})
		}
		if (a.Kind == "all" || a.Kind == "not") && g.P(70) {
			a.Closed = Pick(g.Src, []string{"true", "false", "1", "0"})
		}
		if a.Kind == "all" || a.Kind == "not" {
			a.CtxElem = Pick(g.Src, []string{"segment", "scenario"})
		}
		if g.pr.Targets && g.P(15) {
			a.Target = Pick(g.Src, roles).URI
		}
		out = append(out, a)
	}
	// line items
	linePool := append(append([]string(nil), g.items...), g.abst...)
	isRow := map[string]bool{}
	var lines [][2]string
	g.Span(func() { lines = g.forest(linePool, 2, or(g.pr.PNodes, 8), true) })
	for _, p := range lines {
		isRow[p[0]], isRow[p[1]] = true, true
		add(DArc{From: p[0], To: p[1], Kind: "dm"})
	}
	var rows []string
	for _, c := range linePool {
		if isRow[c] {
			rows = append(rows, c)
		}
	}
	if len(rows) == 0 {
		rows = append(rows, linePool[0])
	}
	// domains: a partition of members over the dimensions used here
	dims := append(append([]string(nil), g.dims...), g.tdims...)
	if len(dims) == 0 || len(g.cubes) == 0 {
		return out
	}
	var use []string
	takenD := map[string]bool{}
	g.List(1, 3, 60, func(int) {
		d := Pick(g.Src, dims)
		if !takenD[d] {
			takenD[d] = true
			use = append(use, d)
		}
	})
	memOwner := map[string]string{}
	for _, d := range use {
		d := d
		c, _ := g.sp.find(d)
		if c.Typed != "" || len(g.mems) == 0 {
			continue
		}
		g.Span(func() {
			var own []string
			g.List(1, 6, 75, func(int) {
				m := Pick(g.Src, g.mems)
				if memOwner[m] == "" {
					memOwner[m] = d
					own = append(own, m)
				}
			})
			if len(own) == 0 {
				return
			}
			if g.P(85) {
				add(DArc{From: d, To: own[0], Kind: "dd"})
			}
			for i := 1; i < len(own); i++ {
				add(DArc{From: own[g.N(i)], To: own[i], Kind: "dm"})
			}
			switch g.PickW(40, 30, 30) {
			case 0:
				add(DArc{From: d, To: own[0], Kind: "df"})
			case 1:
				add(DArc{From: d, To: own[g.N(len(own))], Kind: "df"})
			}
		})
	}
	// hypercubes: each dimension belongs to one hypercube, or to two
	cubeOf, dimsOf := map[string]string{}, map[string][]string{}
	var cubes []string
	takenC := map[string]bool{}
	g.List(1, 2, 50, func(int) {
		c := Pick(g.Src, g.cubes)
		if !takenC[c] {
			takenC[c] = true
			cubes = append(cubes, c)
		}
	})
	for _, d := range use {
		c := Pick(g.Src, cubes)
		cubeOf[d] = c
		add(DArc{From: c, To: d, Kind: "hd"})
		dimsOf[c] = append(dimsOf[c], d)
		if c2 := Pick(g.Src, cubes); g.pr.OtherDefs && c2 != c && g.P(70) {
			add(DArc{From: c2, To: d, Kind: "hd"})
			dimsOf[c2] = append(dimsOf[c2], d)
		}
	}
	attached := map[[2]string]bool{}
	reached := map[[3]string]bool{} // at most once by each kind of hypercube
	g.List(1, 4, 60, func(int) {
		r, c := Pick(g.Src, rows), Pick(g.Src, cubes)
		if attached[[2]string{r, c}] {
			return
		}
		kind := "all"
		if g.P(30) {
			kind = "not"
		}
		for _, d := range dimsOf[c] {
			if reached[[3]string{r, kind, d}] {
				return
			}
		}
		for _, d := range dimsOf[c] {
			reached[[3]string{r, kind, d}] = true
		}
		attached[[2]string{r, c}] = true
		add(DArc{From: r, To: c, Kind: kind})
	})
	if g.pr.OtherDefs {
		all := append(append(append(append([]string(nil), rows...), g.mems...), use...), cubes...)
		g.List(0, 3, 25, func(int) { // relationships of another kind
			a, b := Pick(g.Src, all), Pick(g.Src, all)
			if a != b {
				add(DArc{From: a, To: b, Kind: "gs"})
			}
		})
	}
	if g.pr.WildDefs && g.P(30) {
		all := append(append(append(append([]string(nil), g.items...), g.abst...), g.mems...), g.dims...)
		g.List(0, 5, 70, func(int) {
			add(DArc{From: Pick(g.Src, all), To: Pick(g.Src, all), Kind: Pick(g.Src, []string{"dm", "dd", "df", "hd", "all", "not"})})
		})
	}
	return out
}

func (g *G) facts() {
	sp := g.sp
	if g.pr.Numbers > 0 {
		g.units()
	}
	ids := map[string]bool{}
	items := g.items
	if g.pr.AbsFacts > 0 && g.P(g.pr.AbsFacts) {
		items = append(append([]string(nil), items...), g.abst...)
	}
	for _, it := range items {
		c, _ := sp.find(it)
		for _, cx := range sp.Contexts {
			if !g.P(or(g.pr.Density, 55)) {
				continue
			}
			g.Span(func() {
				f := Fact{Concept: it, Ctx: cx.ID}
				if g.P(75) {
					f.ID = fmt.Sprintf("%s%d", Pick(g.Src, []string{"f", "Fact_", "z", "a-"}), g.N(200))
					if n := len(sp.Facts); n > 0 && sp.Facts[n-1].ID != "" && g.P(8) {
						f.ID = swapCase(sp.Facts[n-1].ID)
					}
					for ids[f.ID] {
						f.ID += "1"
					}
					ids[f.ID] = true
				}
				if g.P(g.pr.Nil) {
					f.Nil = true
				} else {
					g.value(&f, c)
				}
				sp.Facts = append(sp.Facts, f)
			})
		}
	}
}

var measures = []Measure{{nsISO, "USD"}, {nsISO, "EUR"}, {nsISO, "CHF"}, {nsISO, "JPY"}, {nsXBRLI, "shares"}, {nsXBRLI, "pure"},
	{nsMyUnits, "kg"}, {nsMyUnits, "USD"}, {nsMyUnits, "shares"}, {nsMyUnits, "widget"}, {nsISO, "XXX"}, {nsMyUnits, "mi"},
	{nsISO, "kg"}, {nsXBRLI, "USD"}, {nsMyUnits, "EUR"}, {nsMyUnits, "pure"}, {nsISO, "usd"}, {nsISO, "shares"}}

func (g *G) units() {
	ids := map[string]bool{}
	g.List(1, 6, 80, func(int) {
		u := Unit{ID: fmt.Sprintf("%s%d", Pick(g.Src, []string{"u", "USD", "U_"}), g.N(9)), Num: Pick(g.Src, measures)}
		if n := len(g.sp.Units); n > 0 && g.P(10) {
			u.ID = swapCase(g.sp.Units[n-1].ID)
		}
		for ids[u.ID] {
			u.ID += "x"
		}
		ids[u.ID] = true
		if g.P(35) {
			d := Pick(g.Src, measures)
			u.Den = &d
		}
		g.sp.Units = append(g.sp.Units, u)
	})
}

func (g *G) value(f *Fact, c *Concept) {
	g.seq++
	numeric := c.Kind != "string" && c.Kind != "text"
	if !numeric || g.pr.Numbers == 0 {
		if c.Kind == "text" && g.pr.Text > 0 {
			f.Inner = escText(genMarkup(g.Src)) + fmt.Sprintf(" tb%d", g.seq)
			return
		}
		f.Inner = g.word()
		if g.P(8) {
			f.Inner = Pick(g.Src, []string{" ", "\n\t", ""}) + f.Inner + Pick(g.Src, []string{" ", "", "\n"})
		}
		return
	}
	if len(g.sp.Units) > 0 {
		f.Unit = Pick(g.Src, g.sp.Units).ID
		if g.P(5) {
			f.Unit = "nosuch"
		}
	}
	if c.Kind == "percent" {
		// percent items are reported as pure numbers
		f.Unit = ""
		for _, u := range g.sp.Units {
			if u.Den == nil && (u.Num == Measure{nsXBRLI, "pure"} || findUnit(u.Num) == nil) {
				f.Unit = u.ID
			}
		}
	}
	if g.pr.Numbers == 1 {
		f.Dec = Pick(g.Src, []string{"0", "INF", "-3", "2", ""})
		f.Inner = fmt.Sprintf("%d", 1000*g.Range(1, 999)+g.seq)
		if g.P(20) {
			f.Inner = "-" + f.Inner
		}
		return
	}
	if g.pr.Numbers == 3 {
		f.Dec = Pick(g.Src, []string{"0", "INF", "-3", "2", "1"})
		f.Inner = fmt.Sprintf("%d", g.Range(-20, 99999))
		return
	}
	f.Dec = genDecimals(g.Src)
	f.Inner = genNumeral(g.Src)
	if g.P(4) {
		f.Inner = Pick(g.Src, []string{"abc", "1,000", "1 000", "--1", "1.2.3", "-", "0x10", "NaN", "INF", "1_000", "12a"})
	}
	if g.P(4) {
		f.Inner = Pick(g.Src, []string{" ", "\n\t"}) + f.Inner + Pick(g.Src, []string{"", " "})
	}
}

func genDecimals(s *Src) string {
	switch s.PickW(55, 20, 6, 15, 4) {
	case 0:
		return fmt.Sprint(s.Range(-11, 11))
	case 1:
		return "INF"
	case 2:
		return ""
	case 4:
		return Pick(s, []string{"12", "-12", "15", "x", "1.5", "inf"})
	}
	return Pick(s, []string{"0", "-3", "-6", "2", "4"})
}

// genNumeral draws a decimal numeral.
func genNumeral(s *Src) string {
	var b strings.Builder
	switch s.PickW(70, 25, 5) {
	case 1:
		b.WriteByte('-')
	case 2:
		b.WriteByte('+')
	}
	digits := func(n int) {
		mode := s.PickW(60, 15, 15, 10)
		for i := 0; i < n; i++ {
			switch mode {
			case 0:
				b.WriteByte(byte('0' + s.N(10)))
			case 1:
				b.WriteByte('0')
			case 2:
				b.WriteByte('9')
			case 3:
				b.WriteByte("0459"[s.N(4)])
			}
		}
	}
	if s.P(15) {
		b.WriteString(strings.Repeat("0", s.Range(1, 3)))
	}
	ni := s.Range(0, 12)
	if s.P(10) {
		ni = s.Range(12, 30)
	}
	start := b.Len()
	digits(ni)
	if b.Len() == start {
		b.WriteByte(byte('0' + s.N(10)))
	}
	if s.P(50) {
		b.WriteByte('.')
		nf := s.Range(1, 6)
		if s.P(15) {
			nf = s.Range(6, 20)
		}
		digits(nf)
	}
	return b.String()
}

func (g *G) labels() {
	sp := g.sp
	if g.pr.LabelPct == 0 {
		return
	}
	// concepts that can appear on pages
	var cs []string
	for _, l := range [][]string{g.items, g.abst, g.dims, g.tdims, g.mems, g.cubes} {
		cs = append(cs, l...)
	}
	files := []string{"co-lab.xml", "co-lab-es.xml", "a-lab.xml"}
	nf := g.Range(1, or(g.pr.LFiles, 2))
	lbs := make([]LLinkbase, nf)
	for i := range lbs {
		lbs[i] = LLinkbase{File: files[i], Links: make([][]LLabel, g.Range(1, 2))}
	}
	scope := g.PickW(60, 40)
	for ci, c := range cs {
		if scope == 1 && ci%3 != 0 {
			continue
		}
		g.Span(func() {
			for _, role := range []string{roleLabel, roleTerse, roleVerbose, "http://www.xbrl.org/2003/role/totalLabel"} {
				for _, lang := range []string{"en", "es", "fr"} {
					pct := g.pr.LabelPct
					if lang == "fr" || role == "http://www.xbrl.org/2003/role/totalLabel" {
						pct /= 4
					}
					if !g.P(pct) {
						continue
					}
					l := lang
					if l == "en" && g.P(50) {
						l = "en-US"
					}
					g.seq++
					t := fmt.Sprintf("%s %d", Pick(g.Src, []string{"Label", "Etiqueta ñ", "A & B <c>", "  padded ", "x\ny", "\"quoted\""}), g.seq)
					lb := &lbs[g.N(nf)]
					k := g.N(len(lb.Links))
					x := LLabel{Concept: c, Role: role, Lang: l, Text: t}
					if g.P(4) {
						x.Arcrole = g.otherArc(arcCL)
					}
					lb.Links[k] = append(lb.Links[k], x)
				}
			}
		})
	}
	for i := range lbs {
		sp.Labels = append(sp.Labels, lbs[i])
		k := g.N(len(sp.Schemas))
		sp.Schemas[k].Links = append(sp.Schemas[k].Links, LBRef{"L", lbs[i].File})
	}
}

func (g *G) footnotes() {
	if !g.P(g.pr.Footnotes) {
		return
	}
	var ids []string
	for _, f := range g.sp.Facts {
		if f.ID != "" {
			ids = append(ids, f.ID)
		}
	}
	noteID := map[string]bool{}
	g.List(1, 4, 60, func(li int) {
		var l FnLink
		l.Title = Pick(g.Src, []string{"", "notes", "a"})
		labels := map[string]bool{}
		fresh := func(s string) string {
			for labels[s] {
				s += "_"
			}
			labels[s] = true
			return s
		}
		max := 4
		if g.P(g.pr.Big) {
			max = 14
		}
		g.List(0, max, 75, func(int) {
			id := fmt.Sprintf("%s%d", Pick(g.Src, []string{"fn", "n", "Footnote"}), g.N(60))
			if n := len(l.Notes); n > 0 && g.P(10) {
				id = swapCase(l.Notes[n-1].ID)
			}
			for noteID[id] {
				id += "0"
			}
			noteID[id] = true
			lab := id
			if g.P(50) {
				lab = Pick(g.Src, []string{"lab", "fn1", "footnote", id + "l", "FN1", "Fact"})
			}
			g.seq++
			in := fmt.Sprintf("%s %d", Pick(g.Src, []string{"Note text", "a &amp; b", "<p xmlns=\"http://www.w3.org/1999/xhtml\">para</p>", "Ñ"}), g.seq)
			l.Notes = append(l.Notes, FnNote{ID: id, Label: fresh(lab), Lang: Pick(g.Src, []string{"en-US", "en", "es"}), Inner: in})
		})
		usedF := map[string]bool{}
		if len(ids) > 0 {
			g.List(0, 8, 75, func(int) {
				f := Pick(g.Src, ids)
				if usedF[f] {
					return
				}
				usedF[f] = true
				lab := f
				if g.P(60) {
					lab = Pick(g.Src, []string{"fact", "loc1", f + "_lbl", "fn1", "FACT", swapCase(f)})
				}
				l.Locs = append(l.Locs, FnLoc{Label: fresh(lab), Fact: f})
			})
		}
		if len(l.Locs) > 0 && len(l.Notes) > 0 {
			seen := map[FnArc]bool{}
			g.List(0, 12, 85, func(int) {
				a := FnArc{From: Pick(g.Src, l.Locs).Label, To: Pick(g.Src, l.Notes).Label}
				if g.P(8) {
					a.Arcrole = g.otherArc(arcFF)
				}
				if !seen[a] {
					seen[a] = true
					l.Arcs = append(l.Arcs, a)
				}
			})
		}
		g.sp.FnLinks = append(g.sp.FnLinks, l)
	})
}

func (g *G) inline() {
	if !g.P(g.pr.Inline) {
		return
	}
	sp := g.sp
	sp.Entry = Pick(g.Src, []string{"doc.htm", "co-2020.xhtml", "a b.htm"})
	in := &Inline{Prefixes: map[string]string{}}
	px := map[string]string{}
	for i, n := range sp.allNS() {
		p := n[1]
		if g.P(30) {
			p = fmt.Sprintf("p%d", i)
		}
		in.Prefixes[p] = n[0]
		px[n[0]] = p
	}
	for _, f := range sp.Facts {
		if g.P(15) {
			continue
		}
		ns, local := sp.nsOf(f.Concept)
		c, _ := sp.find(f.Concept)
		in.Tags = append(in.Tags, IxTag{Prefix: px[ns], Local: local, Ctx: f.Ctx, Numeric: c.Kind != "string" && c.Kind != "text", Inner: "x"})
	}
	sp.Inline = in
}
