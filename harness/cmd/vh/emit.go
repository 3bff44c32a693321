package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// el is one element to be written.
type el struct {
	name  string
	attrs [][2]string
	kids  []*el
	text  string // raw character data / markup; no kids then
	ws    bool   // white space around text is insignificant
	tight bool   // do not add white space between kids
}

func (e *el) a(k, v string) *el { e.attrs = append(e.attrs, [2]string{k, v}); return e }
func (e *el) add(k ...*el) *el  { e.kids = append(e.kids, k...); return e }

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", "'", "&apos;", "\n", "&#10;", "\t", "&#9;", "\r", "&#13;", ">", "&gt;").Replace(s)
}
func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(s)
}

// pen writes one file in a style.
type pen struct {
	st  Style
	r   *rng
	ns  map[string]string // namespace -> prefix ("" = default)
	use [][2]string       // prefix, namespace declared on the root
}

func newPen(st Style, file string) *pen {
	h := st.Seed
	for i := 0; i < len(file); i++ {
		h = (h ^ uint64(file[i])) * 1099511628211
	}
	return &pen{st: st, r: &rng{h}, ns: map[string]string{}}
}

func (p *pen) n(n int) int { return int(p.r.below(uint64(n))) }

// decl declares a namespace with a preferred prefix.
func (p *pen) decl(ns, prefix string) {
	if _, ok := p.ns[ns]; ok {
		return
	}
	taken := func(x string) bool {
		for _, u := range p.use {
			if u[0] == x {
				return true
			}
		}
		return false
	}
	if p.st.Prefix {
		alts := []string{prefix, "ns" + fmt.Sprint(p.n(90)), prefix + "x", "a", "b", "n.1", "_p", "x-y", "A", swapCase(prefix)}
		if n := len(p.use); n > 0 && p.use[n-1][0] != "" {
			alts = append(alts, swapCase(p.use[n-1][0]), p.use[n-1][0]+".1")
		}
		prefix = alts[p.n(len(alts))]
	}
	for k := 0; taken(prefix); k++ {
		prefix += "q"
	}
	p.ns[ns] = prefix
	p.use = append(p.use, [2]string{prefix, ns})
}

func (p *pen) declDefault(ns string) {
	if _, ok := p.ns[ns]; ok {
		return
	}
	p.ns[ns] = ""
	p.use = append(p.use, [2]string{"", ns})
}

func (p *pen) q(ns, local string) string {
	px, ok := p.ns[ns]
	if !ok {
		panic("undeclared namespace " + ns)
	}
	if px == "" {
		return local
	}
	return px + ":" + local
}

func (p *pen) root(e *el) *el {
	var d [][2]string
	for _, u := range p.use {
		if u[0] == "" {
			d = append(d, [2]string{"xmlns", u[1]})
		} else {
			d = append(d, [2]string{"xmlns:" + u[0], u[1]})
		}
	}
	e.attrs = append(d, e.attrs...)
	return e
}

func (p *pen) shuffle(es []*el) []*el {
	if p.st.Shuffle {
		for i := len(es) - 1; i > 0; i-- {
			j := p.n(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

func (p *pen) write(b *strings.Builder, e *el, depth int) {
	b.WriteString("<" + e.name)
	at := e.attrs
	if p.st.Attrs {
		at = append([][2]string(nil), at...)
		for i := len(at) - 1; i > 0; i-- {
			j := p.n(i + 1)
			at[i], at[j] = at[j], at[i]
		}
	}
	for _, a := range at {
		sep := " "
		if p.st.Space && p.n(8) == 0 {
			sep = []string{"\n\t", "  ", "\r\n "}[p.n(3)]
		}
		q := `"`
		if p.st.Space && p.n(4) == 0 {
			q = "'"
		}
		b.WriteString(sep + a[0] + "=" + q + escAttr(a[1]) + q)
	}
	if len(e.kids) == 0 && e.text == "" {
		if p.st.Space && p.n(3) == 0 {
			b.WriteString("></" + e.name + ">")
		} else {
			b.WriteString("/>")
		}
		return
	}
	b.WriteString(">")
	if len(e.kids) == 0 {
		if e.ws && p.st.Space && p.n(3) == 0 {
			b.WriteString([]string{"\n  ", " ", "\t"}[p.n(3)] + e.text + []string{"\n", " ", ""}[p.n(3)])
		} else {
			b.WriteString(e.text)
		}
	}
	for _, k := range e.kids {
		p.gap(b, e, depth+1)
		p.write(b, k, depth+1)
	}
	if len(e.kids) > 0 {
		p.gap(b, e, depth)
	}
	b.WriteString("</" + e.name + ">")
}

func (p *pen) gap(b *strings.Builder, e *el, depth int) {
	if e.tight {
		return
	}
	if p.st.Space {
		switch p.n(12) {
		case 0:
			b.WriteString("<!-- <x y='1'> & note " + fmt.Sprint(p.n(9)) + " -->")
		case 1:
			b.WriteString("\r\n\t\t ")
		case 2:
			b.WriteString("<?pi data?>")
		case 3, 4, 5:
			b.WriteString("\n")
		}
		return
	}
	b.WriteString("\n" + strings.Repeat(" ", depth))
}

// file renders a document and encodes it.
func (p *pen) file(e *el) string {
	var b strings.Builder
	p.write(&b, e, 0)
	body := b.String()
	if !p.st.Enc {
		return `<?xml version="1.0" encoding="UTF-8"?>` + "\n" + body + "\n"
	}
	latin := true
	for _, r := range body {
		if r > 0xff || (r >= 0x80 && r < 0xa0) {
			latin = false
			break
		}
	}
	switch p.n(4) {
	case 0:
		return body
	case 1:
		return "\xef\xbb\xbf" + `<?xml version="1.0" encoding="utf-8" standalone="yes"?>` + body
	case 2:
		if latin {
			var o []byte
			for _, r := range `<?xml version="1.0" encoding="ISO-8859-1"?>` + "\n" + body {
				o = append(o, byte(r))
			}
			return string(o)
		}
	}
	return `<?xml version='1.0'?>` + "\n\n" + body
}

// Files renders the whole filing as file name -> content.
func (s *Spec) Files() map[string]string {
	out := map[string]string{}
	meta, _ := json.Marshal(map[string]string{"Entry": s.Entry, "Note": ""})
	for k, v := range s.Extra {
		out[k] = v
	}
	for i := range s.Schemas {
		out[s.Schemas[i].File] = s.schemaFile(&s.Schemas[i])
	}
	for i := range s.Pres {
		out[s.Pres[i].File] = s.presFile(&s.Pres[i])
	}
	for i := range s.Defs {
		out[s.Defs[i].File] = s.defFile(&s.Defs[i])
	}
	for i := range s.Calcs {
		out[s.Calcs[i].File] = s.calcFile(&s.Calcs[i])
	}
	for i := range s.Labels {
		out[s.Labels[i].File] = s.labelFile(&s.Labels[i])
	}
	if s.Inline != nil {
		out[s.Entry] = s.inlineFile()
		out[s.Entry+".xml"] = s.instanceFile()
	} else if s.Entry != "" {
		out[s.Entry] = s.instanceFile()
	}
	for _, f := range s.Break {
		if c, ok := out[f]; ok {
			out[f] = c[:len(c)/2] + "<"
		}
	}
	for _, f := range s.Drop {
		delete(out, f)
	}
	out["_"] = string(meta)
	return out
}

func (s *Spec) nsOf(href string) (ns, local string) {
	if c, sc := s.find(href); c != nil {
		return sc.NS, c.Name
	}
	return "", ""
}

// find returns the concept and its schema (local or global).
func (s *Spec) find(href string) (*Concept, *Schema) {
	i := strings.LastIndexByte(href, '#')
	if i < 0 {
		return nil, nil
	}
	for k := range s.Schemas {
		if s.Schemas[k].File == href[:i] {
			for j := range s.Schemas[k].Concepts {
				if s.Schemas[k].Concepts[j].ID == href[i+1:] {
					return &s.Schemas[k].Concepts[j], &s.Schemas[k]
				}
			}
		}
	}
	for k := range globalSchemas {
		if globalSchemas[k].File == href[:i] {
			for j := range globalSchemas[k].Concepts {
				if globalSchemas[k].Concepts[j].ID == href[i+1:] {
					return &globalSchemas[k].Concepts[j], &globalSchemas[k]
				}
			}
		}
	}
	return nil, nil
}

func typeOf(p *pen, kind string) string {
	switch kind {
	case "money":
		return p.q(nsXBRLI, "monetaryItemType")
	case "perShare":
		return p.q(nsNUM, "perShareItemType")
	case "shares":
		return p.q(nsXBRLI, "sharesItemType")
	case "pure":
		return p.q(nsXBRLI, "pureItemType")
	case "percent":
		return p.q(nsNUM, "percentItemType")
	case "text":
		return p.q(nsNONNUM, "textBlockItemType")
	case "domain":
		return p.q(nsNONNUM, "domainItemType")
	case "elem":
		return p.q(nsXSD, "string")
	}
	return p.q(nsXBRLI, "stringItemType")
}

func (s *Spec) schemaFile(sc *Schema) string {
	p := newPen(s.Style, sc.File)
	p.decl(nsXSD, "xsd")
	p.decl(nsXBRLI, "xbrli")
	p.decl(nsLINK, "link")
	p.decl(nsXLINK, "xlink")
	p.decl(nsXBRLDT, "xbrldt")
	p.decl(nsNUM, "num")
	p.decl(nsNONNUM, "nonnum")
	p.decl(sc.NS, sc.Prefix)
	x := func(local string) *el { return &el{name: p.q(nsXSD, local)} }
	root := x("schema").a("targetNamespace", sc.NS).a("elementFormDefault", "qualified")
	// annotations
	nAnn, nApp := 1, map[int]int{0: 1}
	for _, r := range sc.Roles {
		if r.Ann+1 > nAnn {
			nAnn = r.Ann + 1
		}
		if r.App+1 > nApp[r.Ann] {
			nApp[r.Ann] = r.App + 1
		}
	}
	apps := map[[2]int][]*el{}
	for _, r := range sc.Roles {
		rt := (&el{name: p.q(nsLINK, "roleType")}).a("roleURI", r.URI).a("id", r.ID)
		rt.add(&el{name: p.q(nsLINK, "definition"), text: escText(r.Def)})
		for _, u := range []string{"presentationLink", "calculationLink", "definitionLink"} {
			rt.add(&el{name: p.q(nsLINK, "usedOn"), text: p.q(nsLINK, u)})
		}
		apps[[2]int{r.Ann, r.App}] = append(apps[[2]int{r.Ann, r.App}], rt)
	}
	for _, l := range sc.Links {
		k := [2]int{0, 0}
		if s.Style.Shuffle {
			k[0] = p.n(nAnn)
			if nApp[k[0]] > 0 {
				k[1] = p.n(nApp[k[0]])
			}
		}
		lr := (&el{name: p.q(nsLINK, "linkbaseRef")}).a(p.q(nsXLINK, "type"), "simple").a(p.q(nsXLINK, "href"), l.Href).
			a(p.q(nsXLINK, "role"), lbRoles[l.Kind]).a(p.q(nsXLINK, "arcrole"), arcLB)
		apps[k] = append(apps[k], lr)
	}
	var imps []*el
	for _, im := range sc.Imports {
		imps = append(imps, x("import").a("namespace", im.NS).a("schemaLocation", im.Loc))
	}
	for _, in := range sc.Includes {
		imps = append(imps, x("include").a("schemaLocation", in))
	}
	var els []*el
	for _, c := range sc.Concepts {
		e := x("element").a("id", c.ID).a("name", c.Name).a("type", typeOf(p, c.Kind))
		if c.Kind != "elem" {
			sub := p.q(nsXBRLI, "item")
			switch c.Subst {
			case "dim":
				sub = p.q(nsXBRLDT, "dimensionItem")
			case "cube":
				sub = p.q(nsXBRLDT, "hypercubeItem")
			}
			e.a("substitutionGroup", sub).a("nillable", "true")
			pt := "duration"
			if c.Instant {
				pt = "instant"
			}
			e.a(p.q(nsXBRLI, "periodType"), pt)
			if c.Abstract {
				e.a("abstract", p.boolForm(true))
			} else if p.st.Forms && p.n(2) == 0 {
				e.a("abstract", p.boolForm(false))
			}
			if c.Balance != "" {
				e.a(p.q(nsXBRLI, "balance"), c.Balance)
			}
			if c.Typed != "" {
				ref := c.Typed
				if strings.HasPrefix(ref, sc.File+"#") {
					ref = ref[len(sc.File):]
				}
				e.a(p.q(nsXBRLDT, "typedDomainRef"), ref)
			}
		}
		els = append(els, e)
	}
	var anns []*el
	for a := 0; a < nAnn; a++ {
		an := x("annotation")
		if nApp[a] == 0 {
			an.add(&el{name: p.q(nsXSD, "documentation"), text: "notes"})
		}
		for k := 0; k < nApp[a]; k++ {
			ap := x("appinfo")
			ap.kids = p.shuffle(apps[[2]int{a, k}])
			an.add(ap)
		}
		anns = append(anns, an)
	}
	root.add(anns...)
	root.add(p.shuffle(imps)...)
	root.add(p.shuffle(els)...)
	return p.file(p.root(root))
}

func (p *pen) boolForm(v bool) string {
	if p.st.Forms && p.n(2) == 0 {
		if v {
			return "1"
		}
		return "0"
	}
	return fmt.Sprint(v)
}

func (p *pen) numForm(v string) string {
	if p.st.Forms && v != "" && !strings.ContainsAny(v, "eE") {
		switch p.n(4) {
		case 0:
			if !strings.Contains(v, ".") {
				return v + ".0"
			}
			return v + "0"
		case 1:
			if strings.HasPrefix(v, "-") {
				return "-0" + v[1:]
			}
			return "0" + v
		}
	}
	return v
}

// labels hands out xlink labels for node keys.
type labeler struct {
	p    *pen
	m    map[string]string
	used map[string]bool
	last string
}

func (p *pen) labeler() *labeler {
	return &labeler{p: p, m: map[string]string{}, used: map[string]bool{}}
}
func (l *labeler) get(key string) string {
	if v, ok := l.m[key]; ok {
		return v
	}
	h := hrefOf(key)
	id := h[strings.LastIndexByte(h, '#')+1:]
	v := fmt.Sprintf("loc_%s_%d", id, len(l.m))
	if l.p.st.Labels {
		switch l.p.n(5) {
		case 4:
			if l.last != "" {
				v = swapCase(l.last)
			}
		case 0:
			v = id
		case 1:
			v = fmt.Sprintf("L%d", l.p.n(1000))
		case 2:
			v = "_" + id + ".a"
		}
	}
	for l.used[v] {
		v += "x"
	}
	l.used[v] = true
	l.last = v
	l.m[key] = v
	return v
}

type arcEl struct {
	from, to string
	e        *el
}

// links writes the extended links of one role.
func (p *pen) links(linkName, role string, arcs []arcEl) []*el {
	lb := p.labeler()
	chunks := [][]arcEl{arcs}
	if p.st.Split && len(arcs) > 1 {
		k := 1 + p.n(3)
		chunks = make([][]arcEl, k)
		for _, a := range arcs {
			j := p.n(k)
			chunks[j] = append(chunks[j], a)
		}
	}
	var out []*el
	for _, c := range chunks {
		l := (&el{name: p.q(nsLINK, linkName)}).a(p.q(nsXLINK, "type"), "extended").a(p.q(nsXLINK, "role"), role)
		seen := map[string]bool{}
		var kids []*el
		loc := func(key string) {
			if seen[key] {
				return
			}
			seen[key] = true
			kids = append(kids, (&el{name: p.q(nsLINK, "loc")}).a(p.q(nsXLINK, "type"), "locator").
				a(p.q(nsXLINK, "href"), hrefOf(key)).a(p.q(nsXLINK, "label"), lb.get(key)))
		}
		for _, a := range c {
			loc(a.from)
			loc(a.to)
			a.e.attrs = append([][2]string{{p.q(nsXLINK, "type"), "arc"}, {p.q(nsXLINK, "from"), lb.get(a.from)}, {p.q(nsXLINK, "to"), lb.get(a.to)}}, a.e.attrs...)
			kids = append(kids, a.e)
		}
		l.kids = p.shuffle(kids)
		out = append(out, l)
	}
	return out
}

func (s *Spec) roleHref(uri string) string {
	for _, sc := range s.Schemas {
		for _, r := range sc.Roles {
			if r.URI == uri {
				return sc.File + "#" + r.ID
			}
		}
	}
	return "other.xsd#role"
}

func (s *Spec) linkbase(file string, roles []string, mk func(p *pen) []*el) string {
	p := newPen(s.Style, file)
	p.decl(nsLINK, "link")
	p.decl(nsXLINK, "xlink")
	p.decl(nsXBRLDT, "xbrldt")
	root := &el{name: p.q(nsLINK, "linkbase")}
	var refs []*el
	seen := map[string]bool{}
	for _, r := range roles {
		if seen[r] || r == "" || r == roleLink {
			continue
		}
		seen[r] = true
		refs = append(refs, (&el{name: p.q(nsLINK, "roleRef")}).a("roleURI", r).a(p.q(nsXLINK, "type"), "simple").a(p.q(nsXLINK, "href"), s.roleHref(r)))
	}
	root.add(p.shuffle(refs)...)
	root.add(p.shuffle(mk(p))...)
	return p.file(p.root(root))
}

func (s *Spec) presFile(lb *PLinkbase) string {
	var roles []string
	for _, l := range lb.Links {
		roles = append(roles, l.Role)
	}
	return s.linkbase(lb.File, roles, func(p *pen) []*el {
		var out []*el
		for _, l := range lb.Links {
			var arcs []arcEl
			for _, a := range l.Arcs {
				ar := a.Arcrole
				if ar == "" {
					ar = arcPC
				}
				e := (&el{name: p.q(nsLINK, "presentationArc")}).a(p.q(nsXLINK, "arcrole"), ar).a("order", p.numForm(a.Order))
				if a.Pref != "" {
					e.a("preferredLabel", a.Pref)
				}
				arcs = append(arcs, arcEl{a.From, a.To, e})
			}
			out = append(out, p.links("presentationLink", l.Role, arcs)...)
		}
		return out
	})
}

func (s *Spec) defFile(lb *DLinkbase) string {
	var roles []string
	for _, l := range lb.Links {
		roles = append(roles, l.Role)
		for _, a := range l.Arcs {
			roles = append(roles, a.Target)
		}
	}
	return s.linkbase(lb.File, roles, func(p *pen) []*el {
		var out []*el
		for _, l := range lb.Links {
			var arcs []arcEl
			for _, a := range l.Arcs {
				e := (&el{name: p.q(nsLINK, "definitionArc")}).a(p.q(nsXLINK, "arcrole"), dArcroles[a.Kind]).a("order", p.numForm(a.Order))
				if a.Closed != "" {
					e.a(p.q(nsXBRLDT, "closed"), a.Closed)
				}
				if a.Usable != "" {
					e.a(p.q(nsXBRLDT, "usable"), a.Usable)
				}
				if a.CtxElem != "" {
					e.a(p.q(nsXBRLDT, "contextElement"), a.CtxElem)
				}
				if a.Target != "" {
					e.a(p.q(nsXBRLDT, "targetRole"), a.Target)
				}
				arcs = append(arcs, arcEl{a.From, a.To, e})
			}
			out = append(out, p.links("definitionLink", l.Role, arcs)...)
		}
		return out
	})
}

func (s *Spec) calcFile(lb *CLinkbase) string {
	var roles []string
	for _, l := range lb.Links {
		roles = append(roles, l.Role)
	}
	return s.linkbase(lb.File, roles, func(p *pen) []*el {
		var out []*el
		for _, l := range lb.Links {
			var arcs []arcEl
			for _, a := range l.Arcs {
				ar := a.Arcrole
				if ar == "" {
					ar = arcSI
				}
				e := (&el{name: p.q(nsLINK, "calculationArc")}).a(p.q(nsXLINK, "arcrole"), ar).a("order", p.numForm(a.Order)).a("weight", p.numForm(a.Weight))
				arcs = append(arcs, arcEl{a.From, a.To, e})
			}
			out = append(out, p.links("calculationLink", l.Role, arcs)...)
		}
		return out
	})
}

func (s *Spec) labelFile(lb *LLinkbase) string {
	return s.linkbase(lb.File, nil, func(p *pen) []*el {
		var out []*el
		for _, labs := range lb.Links {
			l := (&el{name: p.q(nsLINK, "labelLink")}).a(p.q(nsXLINK, "type"), "extended").a(p.q(nsXLINK, "role"), roleLink)
			lab := p.labeler()
			var kids []*el
			byC := map[string][]LLabel{}
			var order []string
			for _, x := range labs {
				if byC[x.Concept] == nil {
					order = append(order, x.Concept)
				}
				byC[x.Concept] = append(byC[x.Concept], x)
			}
			for _, c := range order {
				mode := 0 // one locator, one arc, shared resource label
				if p.st.Labels {
					mode = p.n(3)
				}
				plain := false
				for i, x := range byC[c] {
					lk, rk := c, c+"@r"
					if mode >= 1 || x.Arcrole != "" {
						rk = fmt.Sprintf("%s@r%d", c, i)
					}
					if mode == 2 {
						lk = fmt.Sprintf("%s@l%d", c, i)
					}
					if i == 0 || mode == 2 {
						kids = append(kids, (&el{name: p.q(nsLINK, "loc")}).a(p.q(nsXLINK, "type"), "locator").a(p.q(nsXLINK, "href"), c).a(p.q(nsXLINK, "label"), lab.get(lk)))
					}
					ar := x.Arcrole
					if ar == "" {
						ar = arcCL
					}
					if ar != arcCL || !plain || mode >= 1 {
						plain = plain || ar == arcCL
						kids = append(kids, (&el{name: p.q(nsLINK, "labelArc")}).a(p.q(nsXLINK, "type"), "arc").a(p.q(nsXLINK, "arcrole"), ar).
							a(p.q(nsXLINK, "from"), lab.get(lk)).a(p.q(nsXLINK, "to"), lab.get(rk)))
					}
					kids = append(kids, (&el{name: p.q(nsLINK, "label"), text: escText(x.Text)}).a(p.q(nsXLINK, "type"), "resource").
						a(p.q(nsXLINK, "label"), lab.get(rk)).a(p.q(nsXLINK, "role"), x.Role).a("xml:lang", x.Lang))
				}
			}
			l.kids = p.shuffle(kids)
			out = append(out, l)
		}
		return out
	})
}

// allNS lists the namespaces an instance may need, in a stable sequence.
func (s *Spec) allNS() [][2]string {
	var out [][2]string
	for _, sc := range s.Schemas {
		out = append(out, [2]string{sc.NS, sc.Prefix})
	}
	for _, sc := range globalSchemas {
		out = append(out, [2]string{sc.NS, sc.Prefix})
	}
	return out
}

func (s *Spec) instanceFile() string {
	p := newPen(s.Style, "instance")
	if p.st.Prefix && p.n(2) == 0 {
		p.declDefault(nsXBRLI)
	}
	p.decl(nsXBRLI, "xbrli")
	p.decl(nsLINK, "link")
	p.decl(nsXLINK, "xlink")
	p.decl(nsXSI, "xsi")
	p.decl(nsXBRLDI, "xbrldi")
	p.decl(nsISO, "iso4217")
	for _, n := range s.allNS() {
		p.decl(n[0], n[1])
	}
	for _, u := range s.Units {
		p.decl(u.Num.NS, "unitns")
		if u.Den != nil {
			p.decl(u.Den.NS, "unitns")
		}
	}
	x := func(local string) *el { return &el{name: p.q(nsXBRLI, local)} }
	root := x("xbrl")
	for _, r := range s.SchemaRef {
		root.add((&el{name: p.q(nsLINK, "schemaRef")}).a(p.q(nsXLINK, "type"), "simple").a(p.q(nsXLINK, "href"), r))
	}
	qn := func(href string) string {
		ns, local := s.nsOf(href)
		return p.q(ns, local)
	}
	var typed func(v *TypedV) *el
	typed = func(v *TypedV) *el {
		e := &el{name: qn(v.El), text: escText(v.Text)}
		for i := range v.Kids {
			e.add(typed(&v.Kids[i]))
		}
		return e
	}
	members := func(name string, ms []Member) *el {
		e := x(name)
		for _, m := range ms {
			if m.Typed != nil {
				t := (&el{name: p.q(nsXBRLDI, "typedMember")}).a("dimension", qn(m.Dim))
				e.add(t.add(typed(m.Typed)))
			} else {
				e.add((&el{name: p.q(nsXBRLDI, "explicitMember"), text: qn(m.Mem), ws: true}).a("dimension", qn(m.Dim)))
			}
		}
		e.kids = p.shuffle(e.kids)
		return e
	}
	var body []*el
	for _, c := range s.Contexts {
		ce := x("context").a("id", c.ID)
		en := x("entity").add((&el{name: p.q(nsXBRLI, "identifier"), text: escText(c.Ident), ws: true}).a("scheme", c.Scheme))
		if len(c.Seg) > 0 {
			en.add(members("segment", c.Seg))
		}
		pe := x("period")
		if c.Instant != "" {
			pe.add(&el{name: p.q(nsXBRLI, "instant"), text: escText(c.Instant), ws: true})
		} else if c.Start != "" || c.End != "" {
			pe.add(&el{name: p.q(nsXBRLI, "startDate"), text: escText(c.Start), ws: true}, &el{name: p.q(nsXBRLI, "endDate"), text: escText(c.End), ws: true})
		}
		ce.add(en, pe)
		if len(c.Scen) > 0 {
			ce.add(members("scenario", c.Scen))
		}
		body = append(body, ce)
	}
	for _, u := range s.Units {
		ue := x("unit").a("id", u.ID)
		m := func(ms Measure) *el { return &el{name: p.q(nsXBRLI, "measure"), text: p.q(ms.NS, ms.Local), ws: true} }
		if u.Den == nil {
			ue.add(m(u.Num))
		} else {
			ue.add(x("divide").add(x("unitNumerator").add(m(u.Num)), x("unitDenominator").add(m(*u.Den))))
		}
		body = append(body, ue)
	}
	for _, f := range s.Facts {
		ns, local := s.nsOf(f.Concept)
		e := &el{name: p.q(ns, local), text: f.Inner}
		if p.st.Prefix && p.n(8) == 0 {
			e.name = "own:" + local
			e.a("xmlns:own", ns)
		}
		if f.ID != "" {
			e.a("id", f.ID)
		}
		e.a("contextRef", f.Ctx)
		if f.Unit != "" {
			e.a("unitRef", f.Unit)
		}
		if f.Dec != "" {
			e.a("decimals", f.Dec)
		}
		if f.Nil {
			e.a(p.q(nsXSI, "nil"), p.boolForm(true))
			e.text = ""
		}
		body = append(body, e)
	}
	for _, l := range s.FnLinks {
		le := (&el{name: p.q(nsLINK, "footnoteLink")}).a(p.q(nsXLINK, "type"), "extended").a(p.q(nsXLINK, "role"), roleLink)
		if l.Title != "" {
			le.a(p.q(nsXLINK, "title"), l.Title)
		}
		for _, lo := range l.Locs {
			h := "#" + lo.Fact
			if p.st.Forms && p.n(3) == 0 {
				h = s.Entry + h
			}
			le.add((&el{name: p.q(nsLINK, "loc")}).a(p.q(nsXLINK, "type"), "locator").a(p.q(nsXLINK, "href"), h).a(p.q(nsXLINK, "label"), lo.Label))
		}
		for _, n := range l.Notes {
			le.add((&el{name: p.q(nsLINK, "footnote"), text: n.Inner}).a(p.q(nsXLINK, "type"), "resource").a("id", n.ID).
				a(p.q(nsXLINK, "label"), n.Label).a("xml:lang", n.Lang).a(p.q(nsXLINK, "role"), "http://www.xbrl.org/2003/role/footnote"))
		}
		for _, a := range l.Arcs {
			ar := a.Arcrole
			if ar == "" {
				ar = arcFF
			}
			le.add((&el{name: p.q(nsLINK, "footnoteArc")}).a(p.q(nsXLINK, "type"), "arc").a(p.q(nsXLINK, "arcrole"), ar).
				a(p.q(nsXLINK, "from"), a.From).a(p.q(nsXLINK, "to"), a.To))
		}
		le.kids = p.shuffle(le.kids)
		body = append(body, le)
	}
	root.add(p.shuffle(body)...)
	return p.file(p.root(root))
}

func (s *Spec) inlineFile() string {
	in := s.Inline
	if in.Raw != "" {
		return in.Raw
	}
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	b.WriteString(`<html xmlns="` + nsXHTML + `" xmlns:ix="` + nsIX + `" xmlns:xbrli="` + nsXBRLI + `" xmlns:link="` + nsLINK + `" xmlns:xlink="` + nsXLINK + `"`)
	var ps []string
	for p := range in.Prefixes {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		b.WriteString(` xmlns:` + p + `="` + escAttr(in.Prefixes[p]) + `"`)
	}
	b.WriteString("><head><title>t</title></head><body>")
	for i, t := range in.Tags {
		n := "nonNumeric"
		if t.Numeric {
			n = "nonFraction"
		}
		name := t.Local
		if t.Prefix != "" {
			name = t.Prefix + ":" + t.Local
		}
		fmt.Fprintf(&b, `<p><ix:%s id="ix%d" name="%s" contextRef="%s">%s</ix:%s></p>`, n, i, escAttr(name), escAttr(t.Ctx), t.Inner, n)
	}
	b.WriteString(in.Body)
	b.WriteString("</body></html>")
	return b.String()
}
