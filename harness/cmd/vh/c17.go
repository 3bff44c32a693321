package main

import (
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// mnode is a piece of the content of a text block.
type mnode struct {
	Text string   `json:",omitempty"` // text, as read by people
	Tag  string   `json:",omitempty"` // element
	Attr string   `json:",omitempty"` // attributes as written
	Span int      `json:",omitempty"` // columns of a cell
	Raw  string   `json:",omitempty"` // hostile markup without text to keep
	Kids []*mnode `json:",omitempty"`
}

// c17 is a list of text blocks, each given as a tree or as raw content.
type c17 struct {
	Blocks []c17Block
}
type c17Block struct {
	Tree  []*mnode `json:",omitempty"`
	Soup  string   `json:",omitempty"` // anything; only safety is claimed
	Style int      // how the content is escaped in the file
	Pct   bool     `json:",omitempty"`
}

var blockTexts = []string{"word", "más ñ", "1 < 2", "a & b", "x<y", "<b>bold</b>", "<script>alert(1)</script>", "&lt;i&gt;", "&amp;lt;u&amp;gt;", "\"quoted\"", "it's", "<", ">", "&", "</td>", "</table>", "<!-- no comment -->", "日本", "&nbsp;", "]]>", "<img src=x onerror=alert(1)>", " ", "a\tb\nc", "$1,234", "—", "<td>", "0", "&#60;"}

func genTree(s *Src, depth int, inTable bool, counter *int) []*mnode {
	var out []*mnode
	s.List(0, 4, 60, func(int) {
		k := s.PickW(45, 18, 14, 14, 5, 4)
		if depth > 4 && k != 5 {
			k = 0
		}
		switch k {
		case 0:
			*counter++
			out = append(out, &mnode{Text: Pick(s, blockTexts) + fmt.Sprint(*counter)})
		case 1:
			out = append(out, &mnode{Tag: Pick(s, []string{"div", "p", "h1", "h2", "h3", "h4", "h5", "h6"}), Attr: genAttr(s), Kids: genTree(s, depth+1, inTable, counter)})
		case 2:
			out = append(out, &mnode{Tag: Pick(s, []string{"span", "b", "i", "font", "u", "sup", "a", "ul", "li", "strong", "em", "center"}), Attr: genAttr(s), Kids: genTree(s, depth+1, inTable, counter)})
		case 3:
			out = append(out, genTable(s, depth+1, counter))
		case 4:
			out = append(out, &mnode{Raw: Pick(s, []string{"<br>", "<br/>", "<br />", "<hr>", "<img src=\"x.png\">", "<!-- c -->", "<!-- <td> -->", "<input value='<td>'>", "<meta charset=utf-8>", "<wbr>"})})
		case 5:
			out = append(out, &mnode{Text: Pick(s, []string{" ", "\n", " "})})
		}
	})
	return out
}

func genAttr(s *Src) string {
	if !s.P(35) {
		return ""
	}
	return Pick(s, []string{` style="color:red"`, ` onclick="alert(1)"`, ` class='a>b'`, ` href="javascript:alert(1)"`, ` id=x`, ` title="<td>"`, ` colspan="3"`, ` STYLE=a`})
}

func genTable(s *Src, depth int, counter *int) *mnode {
	t := &mnode{Tag: Pick(s, []string{"table", "table", "table", "TABLE"}), Attr: genAttr(s)}
	s.List(1, 4, 55, func(int) {
		r := &mnode{Tag: "tr", Attr: genAttr(s)}
		s.List(1, 4, 55, func(int) {
			c := &mnode{Tag: Pick(s, []string{"td", "td", "td", "th"}), Span: 1}
			if s.P(35) {
				c.Span = s.Range(2, 5)
				if s.P(5) {
					c.Span = s.Range(6, 30)
				}
			}
			switch {
			case c.Span > 1:
				c.Attr = Pick(s, []string{` colspan="%d"`, ` colspan='%d'`, ` colspan=%d`, ` style="x" colspan="%d"`, ` COLSPAN="%d" rowspan="2"`})
				c.Attr = fmt.Sprintf(c.Attr, c.Span)
			case s.P(25):
				c.Attr = Pick(s, []string{` colspan="1"`, ` colspan=""`, ` colspan="0"`, ` colspan="x"`, ` rowspan="3"`, ` onclick=x`, ` colspan="-2"`})
			}
			c.Kids = genTree(s, depth+1, true, counter)
			r.Kids = append(r.Kids, c)
		})
		t.Kids = append(t.Kids, r)
	})
	if s.P(25) {
		g := &mnode{Tag: Pick(s, []string{"tbody", "thead"}), Kids: t.Kids}
		t.Kids = []*mnode{g}
	}
	return t
}

func genSoup(s *Src) string {
	bits := []string{"<", ">", "</", "/>", "<!", "<!--", "-->", "<script>", "</script>", "<script src=//x>", "<img src=x onerror=alert(1)>", "<table", "<table onload=x>", "<td colspan=", "<td colspan=\"2\">", "</td>", "</tr>", "</table>", "<tr>", "<th>", "&lt;script&gt;", "&amp;lt;script&amp;gt;", "&#60;b&#62;", "&#x3c;b&#x3e;", "&lt", "&amp", "\"", "'", "=", " ", "a", "word", "<svg/onload=alert(1)>", "<style>*{}</style>", "<textarea>", "</textarea>", "<title>", "<plaintext>", "<xmp>", "</xmp>", "<iframe src=x>", "</iframe>", "<?xml ?>", "<![CDATA[", "]]>", "<a href=\"javascript:x\">", "<td\tonclick=x>", "<br onclick=x>", "<TABLE ONLOAD=x>", "<noscript>", "</noscript>", "<b", "\u0000", "\x0b", "é", "<td/onclick=x>", "<base href=x>", "<form action=x>", "<math><mi>", "<template>", "<td colspan=\"-1\">", "<td colspan=\"1e3\">", "<tr/>", "<table/>", "<td/>", "<noembed>", "<option>", "<td colspan=999>"}
	var b strings.Builder
	s.List(0, 12, 85, func(int) {
		x := Pick(s, bits)
		if s.P(15) {
			x = html.EscapeString(x)
		}
		if s.P(5) {
			x = html.EscapeString(html.EscapeString(x))
		}
		if s.P(4) && len(x) > 1 {
			x = x[:s.Range(1, len(x)-1)]
		}
		b.WriteString(x)
	})
	return strings.Map(func(r rune) rune { // characters that XML cannot carry
		if r == 0 || r == 0xb || r == unicode.ReplacementChar {
			return -1
		}
		return r
	}, b.String())
}

func (n *mnode) write(b *strings.Builder) {
	switch {
	case n.Raw != "":
		b.WriteString(n.Raw)
	case n.Tag != "":
		b.WriteString("<" + n.Tag + n.Attr + ">")
		for _, k := range n.Kids {
			k.write(b)
		}
		b.WriteString("</" + n.Tag + ">")
	default:
		b.WriteString(html.EscapeString(n.Text))
	}
}

func squash(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// tview is a table with what its cells say, nested tables aside.
type tview struct {
	Rows [][]cview
}
type cview struct {
	Span   int
	Text   string
	Tables []*tview
}

func textOf(ns []*mnode) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(n.Text)
		b.WriteString(textOf(n.Kids))
	}
	return b.String()
}

// wantTables reads text and tables of the tree; ownText leaves out the text of
// tables inside.
func wantTables(ns []*mnode) (own string, ts []*tview) {
	for _, n := range ns {
		own += n.Text
		switch strings.ToLower(n.Tag) {
		case "table":
			t := &tview{}
			var rows func(ns []*mnode)
			rows = func(ns []*mnode) {
				for _, r := range ns {
					if r.Tag != "tr" {
						rows(r.Kids)
						continue
					}
					var row []cview
					for _, c := range r.Kids {
						o, in := wantTables(c.Kids)
						row = append(row, cview{c.Span, squash(o), in})
					}
					t.Rows = append(t.Rows, row)
				}
			}
			rows(n.Kids)
			ts = append(ts, t)
		default:
			o, in := wantTables(n.Kids)
			own += o
			ts = append(ts, in...)
		}
	}
	return own, ts
}

func gotTables(n *html.Node) (own string, ts []*tview) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch {
		case c.Type == html.TextNode:
			own += c.Data
		case c.DataAtom == atom.Table:
			t := &tview{}
			var rows func(n *html.Node)
			rows = func(n *html.Node) {
				for r := n.FirstChild; r != nil; r = r.NextSibling {
					if r.DataAtom != atom.Tr {
						rows(r)
						continue
					}
					var row []cview
					for d := r.FirstChild; d != nil; d = d.NextSibling {
						if d.DataAtom == atom.Td || d.DataAtom == atom.Th {
							o, in := gotTables(d)
							row = append(row, cview{1, squash(o), in})
						}
					}
					t.Rows = append(t.Rows, row)
				}
			}
			rows(c)
			ts = append(ts, t)
		default:
			o, in := gotTables(c)
			own += o
			ts = append(ts, in...)
		}
	}
	return own, ts
}

func sameTables(want, got []*tview) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d tables instead of %d", len(got), len(want))
	}
	for i := range want {
		if len(want[i].Rows) != len(got[i].Rows) {
			return fmt.Sprintf("%d rows instead of %d", len(got[i].Rows), len(want[i].Rows))
		}
		for r := range want[i].Rows {
			w, g := want[i].Rows[r], got[i].Rows[r]
			n := 0
			for _, c := range w {
				n += c.Span
			}
			if n != len(g) {
				return fmt.Sprintf("row %d has %d cells instead of %d", r, len(g), n)
			}
			at := 0
			for k, c := range w {
				text := ""
				var ts []*tview
				for _, x := range g[at : at+c.Span] {
					text += x.Text
					ts = append(ts, x.Tables...)
				}
				at += c.Span
				if text != c.Text {
					return fmt.Sprintf("row %d, cell %d says %q instead of %q", r, k, text, c.Text)
				}
				if why := sameTables(c.Tables, ts); why != "" {
					return fmt.Sprintf("row %d, cell %d: %s", r, k, why)
				}
			}
		}
	}
	return ""
}

// gaps gives, by number of preceding characters other than white space, where
// the block keeps words apart and where it starts a paragraph outside of tables.
func gaps(ns []*mnode) (space, line map[int]bool) {
	space, line = map[int]bool{}, map[int]bool{}
	n := 0
	var walk func(ns []*mnode, inTable bool)
	walk = func(ns []*mnode, inTable bool) {
		for _, x := range ns {
			switch strings.ToLower(x.Tag) {
			case "div", "p", "h1", "h2", "h3", "h4", "h5", "h6":
				if !inTable {
					line[n] = true
				}
			}
			for _, r := range x.Text {
				if unicode.IsSpace(r) {
					space[n] = true
				} else {
					n++
				}
			}
			walk(x.Kids, inTable || strings.EqualFold(x.Tag, "table"))
		}
	}
	walk(ns, false)
	for _, m := range []map[int]bool{space, line} {
		delete(m, 0)
		delete(m, n)
	}
	return space, line
}

// sameGaps says where the rendered block joins what has to be kept apart.
func sameGaps(ns []*mnode, out string) string {
	space, line := gaps(ns)
	all := squash(textOf(ns))
	z := html.NewTokenizer(strings.NewReader(out))
	n := 0
	for tt := z.Next(); tt != html.ErrorToken; tt = z.Next() {
		t := z.Token()
		if tt != html.TextToken {
			delete(space, n)
			if t.Data != "tr" && t.Data != "td" && t.Data != "th" {
				delete(line, n)
			}
			continue
		}
		for _, r := range t.Data {
			if unicode.IsSpace(r) {
				delete(space, n)
			} else {
				n++
			}
		}
	}
	around := func(n int) string {
		rs := []rune(all)
		return fmt.Sprintf("%q and %q", string(rs[max(0, n-8):n]), string(rs[n:min(len(rs), n+8)]))
	}
	for i := 0; i < n; i++ {
		if space[i] {
			return "no space between " + around(i)
		}
		if line[i] {
			return "no new line between " + around(i)
		}
	}
	return ""
}

// safeMarkup says what the rendered block contains besides text and plain
// table, row, cell and line break elements.
func safeMarkup(out string) (why, text string) {
	z := html.NewTokenizer(strings.NewReader(out))
	var b strings.Builder
	for {
		tt := z.Next()
		t := z.Token()
		switch tt {
		case html.ErrorToken:
			return "", b.String()
		case html.TextToken:
			b.WriteString(t.Data)
		case html.StartTagToken, html.EndTagToken, html.SelfClosingTagToken:
			switch t.Data {
			case "table", "tr", "td", "th", "br":
				if len(t.Attr) > 0 {
					return fmt.Sprintf("element %q with attributes", t.Data), ""
				}
			default:
				return fmt.Sprintf("element %q", t.Data), ""
			}
		default:
			return fmt.Sprintf("markup %q", t.String()), ""
		}
	}
}

// content is the block as it is in the file, and what it says.
func (b *c17Block) content() string {
	raw := b.Soup
	if b.Tree != nil || raw == "" {
		var w strings.Builder
		for _, n := range b.Tree {
			n.write(&w)
		}
		raw = w.String()
	}
	switch b.Style {
	case 1:
		return strings.NewReplacer("&", "&#38;", "<", "&#60;", ">", "&#62;").Replace(raw)
	case 2:
		return strings.NewReplacer("&", "&#x26;", "<", "&#x3C;", ">", "&gt;", "\"", "&quot;").Replace(raw)
	case 3:
		return "<![CDATA[" + strings.ReplaceAll(raw, "]]>", "]]]]><![CDATA[>") + "]]>"
	case 4: // only what must be escaped
		return strings.NewReplacer("&", "&amp;", "<", "&lt;", "]]>", "]]&gt;").Replace(raw)
	}
	return escText(raw)
}

func (c *c17) spec() *Spec {
	sp := &Spec{Entry: "inst.xml", SchemaRef: []string{"co.xsd"}}
	role := "http://vh.test/role/T"
	sc := Schema{File: "co.xsd", NS: "http://vh.test/co/2020", Prefix: "co", Roles: []Role{{URI: role, ID: "r", Def: "0001 - T"}}, Links: []LBRef{{"P", "pre.xml"}}}
	sc.Concepts = append(sc.Concepts, Concept{ID: "co_A", Name: "A", Kind: "string", Abstract: true})
	l := PLink{Role: role}
	for i := range c.Blocks {
		id := fmt.Sprintf("co_T%d", i)
		sc.Concepts = append(sc.Concepts, Concept{ID: id, Name: id[3:], Kind: "text"})
		l.Arcs = append(l.Arcs, PArc{From: "co.xsd#co_A", To: "co.xsd#" + id, Order: fmt.Sprint(i + 1)})
		sp.Facts = append(sp.Facts, Fact{Concept: "co.xsd#" + id, Ctx: "c", Inner: c.Blocks[i].content()})
	}
	sp.Schemas = []Schema{sc}
	sp.Pres = []PLinkbase{{File: "pre.xml", Links: []PLink{l}}}
	sp.Contexts = []Context{{ID: "c", Scheme: "http://vh.test/lei", Ident: "ABC", Instant: "2020-12-31"}}
	return sp
}

func init() {
	register(&Check{ID: "C17", Quick: 25000, Thorough: 120000, New: func() any { return &c17{} },
		Rule: "a block with at least one table and three pieces of text, or hostile markup of at least twenty characters",
		Gen: func(s *Src) any {
			c := &c17{}
			n := 0
			s.List(1, 5, 75, func(int) {
				b := c17Block{Style: s.PickW(60, 10, 10, 8, 12)}
				if s.P(45) {
					b.Soup = genSoup(s)
				} else {
					b.Tree = genTree(s, 0, false, &n)
				}
				c.Blocks = append(c.Blocks, b)
			})
			return c
		},
		Show: func(c any) string { return j(c) },
		Run: func(e *Env, cs any) Verdict {
			c := cs.(*c17)
			sp := c.spec()
			v, bad := fetch(e, sp, nil)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			non := false
			tags := map[string]bool{}
			seen := 0
			bad = v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
				g := p.grids()[0]
				if err := g.shape(); err != nil {
					return fail("shape", "%v", err)
				}
				if len(g.PeriodHeaders) != 1 {
					return fail("shape", "%d columns for one context", len(g.PeriodHeaders))
				}
				for r, h := range g.Rows {
					var i int
					if k, _ := fmt.Sscanf(h, "co.xsd#co_T%d", &i); k != 1 {
						continue
					}
					b := &c.Blocks[i]
					seen++
					for lang, t := range g.FactualQuadrant[r][0] {
						if t.Head+t.Core+t.Tail != "" {
							return fail("text", "block %q is shown outside of the markup as %s (%s)", b.content(), j(t), lang)
						}
						out := t.InnerHtml
						why, text := safeMarkup(out)
						if why != "" {
							return fail("unsafe", "block %q is rendered with %s: %q", b.content(), why, out)
						}
						if b.Soup != "" {
							non = non || len(b.Soup) >= 20
							tags["hostile"] = true
							continue
						}
						if want := squash(textOf(b.Tree)); squash(text) != want {
							return fail("text", "block %q is rendered as %q: text %q instead of %q", b.content(), out, squash(text), want)
						}
						doc, err := html.Parse(strings.NewReader(out))
						if err != nil {
							return fail("unsafe", "block %q is rendered as unreadable %q", b.content(), out)
						}
						own, wt := wantTables(b.Tree)
						gown, gt := gotTables(doc)
						if squash(own) != squash(gown) {
							return fail("text", "block %q is rendered as %q: outside of tables it says %q instead of %q", b.content(), out, squash(gown), squash(own))
						}
						if why := sameTables(wt, gt); why != "" {
							return fail("table", "block %q is rendered as %q: %s", b.content(), out, why)
						}
						if why := sameGaps(b.Tree, out); why != "" {
							return fail("gap", "block %q is rendered as %q: %s", b.content(), out, why)
						}
						if len(wt) > 0 && strings.Count(j(b.Tree), `"Text"`) >= 3 {
							non = true
						}
						tags["tables"+bucket(len(wt), 0, 1)] = true
					}
				}
				return Verdict{}
			})
			if bad.Fail == "" && bad.Err == nil && seen != len(c.Blocks) {
				return fail("shape", "%d of %d blocks are shown", seen, len(c.Blocks))
			}
			bad.Non, bad.Tags = non, sortedKeys(tags)
			return bad
		}})
}
