package main

import (
	"encoding/json"
	"fmt"
)

// Views of the answers, decoded from their JSON.

type LangText map[string]string
type Pack map[string]LangText // role -> language -> text

type Entity struct{ Scheme, CharData string }
type Subject struct {
	Name   string
	Entity Entity
}
type RSet struct{ Title, RoleURI string }

type Catalog struct {
	DocumentName     string
	Subjects         []Subject
	RelationshipSets []RSet
	Networks         map[string]map[string]string
}

type Cell map[string]CellText
type CellText struct{ Head, Core, Tail, InnerHtml string }

type Ref struct {
	Href  string
	Label Pack
}
type MemCell struct {
	ExplicitMember *Ref
	TypedMember    string
}
type VoidCell struct {
	IsParenthesized bool
	Indentation     int
	Dimension       Ref
	TypedDomain     *Ref
}

// Grid is what the three kinds of grid have in common.
type Grid struct {
	Where                string
	Rows                 []string // references of the fact rows
	PeriodHeaders        []LangText
	ContextualMemberGrid [][]*MemCell
	VoidQuadrant         []*VoidCell
	FactualQuadrant      [][]Cell
	FootnoteGrid         [][][]int
	Footnotes            []string
}

type Indented struct {
	Href        string
	Label       Pack
	Indentation int
}
type PrimaryItem struct {
	Href  string
	Label Pack
	Level int
}
type EffMember struct {
	Href            string
	Label           Pack
	IsDefault       bool
	IsStrikethrough bool
}
type RootDomain struct {
	Href                string
	Label               Pack
	PrimaryItems        []PrimaryItem
	EffectiveDomainGrid [][][]EffMember
	EffectiveDimensions []Ref
	Grid
}
type DRSLink struct {
	SourceHref, TargetHref string
	HypercubeConnection    *struct {
		IsClosed       bool
		ContextElement string
		IsInclusive    bool
		External       string
	}
	HypercubeDimensionConnection *struct {
		Order    string
		External string
	}
	DimensionDomainConnection *struct {
		Order           string
		Default, Usable bool
		External        string
	}
	DomainMemberConnection *struct {
		Order    string
		Usable   bool
		External string
	}
}
type DRS struct {
	Nodes []Ref
	Links []DRSLink
}
type Contributing struct {
	Sign            string
	Scale           string
	BalanceType     string
	Href            string
	Label           Pack
	IsSummationItem bool
}
type SumItem struct {
	Href                 string
	Label                Pack
	BalanceType          string
	ContributingConcepts []Contributing
	Grid
}

type Page struct {
	RelationshipSet RSet
	Subject         Subject
	Lang            []string
	LabelRoles      []string
	PGrid           struct {
		IndentedLabels []Indented
		Grid
	}
	DGrid struct {
		RootDomains []RootDomain
		DRS         DRS
	}
	CGrid struct {
		SummationItems []SumItem
	}
}

type Expr struct {
	Href    string
	Labels  Pack
	Context struct {
		Period               LangText
		VoidQuadrant         []*VoidCell
		ContextualMemberGrid [][]*MemCell
	}
	Expression Cell
	Footnotes  []string
}

func decodePage(b []byte) (*Page, error) {
	var p Page
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	return &p, nil
}

// grids lists every grid of the page with the references of its fact rows.
func (p *Page) grids() []*Grid {
	var out []*Grid
	g := &p.PGrid.Grid
	g.Where = "presentation grid"
	g.Rows = nil
	for _, r := range p.PGrid.IndentedLabels {
		g.Rows = append(g.Rows, r.Href)
	}
	out = append(out, g)
	for i := range p.DGrid.RootDomains {
		d := &p.DGrid.RootDomains[i]
		d.Where = "dimensional group " + d.Href
		d.Rows = []string{d.Href}
		for _, x := range d.PrimaryItems {
			d.Rows = append(d.Rows, x.Href)
		}
		out = append(out, &d.Grid)
	}
	for i := range p.CGrid.SummationItems {
		c := &p.CGrid.SummationItems[i]
		c.Where = "calculation group " + c.Href
		c.Rows = nil
		for _, x := range c.ContributingConcepts {
			c.Rows = append(c.Rows, x.Href)
		}
		c.Rows = append(c.Rows, c.Href)
		out = append(out, &c.Grid)
	}
	return out
}

// shape checks that the grid is rectangular in all its parts.
func (g *Grid) shape() error {
	n := len(g.PeriodHeaders)
	if n == 0 {
		// without columns nothing else can be shown
		for _, r := range g.FactualQuadrant {
			if len(r) != 0 {
				return fmt.Errorf("%s: fact cells without columns", g.Where)
			}
		}
		return nil
	}
	if len(g.FactualQuadrant) != len(g.Rows) {
		return fmt.Errorf("%s: %d rows but %d fact rows", g.Where, len(g.Rows), len(g.FactualQuadrant))
	}
	for i, r := range g.FactualQuadrant {
		if len(r) != n {
			return fmt.Errorf("%s: fact row %d has %d cells for %d columns", g.Where, i, len(r), n)
		}
	}
	if len(g.FootnoteGrid) != len(g.Rows) {
		return fmt.Errorf("%s: %d rows but %d footnote rows", g.Where, len(g.Rows), len(g.FootnoteGrid))
	}
	for i, r := range g.FootnoteGrid {
		if len(r) != n {
			return fmt.Errorf("%s: footnote row %d has %d cells for %d columns", g.Where, i, len(r), n)
		}
	}
	if len(g.ContextualMemberGrid) != len(g.VoidQuadrant) {
		return fmt.Errorf("%s: %d dimension headings but %d member rows", g.Where, len(g.VoidQuadrant), len(g.ContextualMemberGrid))
	}
	for i, r := range g.ContextualMemberGrid {
		if len(r) != n {
			return fmt.Errorf("%s: member row %d has %d cells for %d columns", g.Where, i, len(r), n)
		}
	}
	return nil
}
