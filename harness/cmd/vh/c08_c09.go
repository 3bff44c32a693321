package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// shownNumber is a displayed number taken apart.
type shownNumber struct {
	before   string // text before the number, without parenthesis
	whole    string // integer digits with grouping marks
	frac     string
	neg      bool
	after    string // text after the number, without parenthesis
	core     string // the part of the number that is emphasised
	rat      *big.Rat
	decimals int
}

func group(lang string) string {
	if lang == langES {
		return " "
	}
	return ","
}

var wholeRe = map[string]*regexp.Regexp{
	",": regexp.MustCompile(`^[0-9]{1,3}(,[0-9]{3})*$`),
	" ": regexp.MustCompile(`^[0-9]{1,3}( [0-9]{3})*$`),
}

func readNumber(lang string, t CellText) (*shownNumber, string) {
	if t.InnerHtml != "" {
		return nil, "markup is shown"
	}
	g := group(lang)
	n := &shownNumber{before: t.Head}
	if i := strings.LastIndex(t.Head, "("); i >= 0 {
		n.neg = true
		n.before = t.Head[:i]
		if strings.TrimSpace(t.Head[i+1:]) != "" {
			return nil, "text between parenthesis and number"
		}
	}
	text := t.Core + t.Tail
	end := 0
	for end < len(text) && (text[end] >= '0' && text[end] <= '9' || text[end] == '.' || text[end] == g[0]) {
		end++
	}
	num := text[:end]
	num = strings.TrimRight(num, " ")
	n.after = text[len(num):]
	if n.neg {
		if !strings.HasPrefix(n.after, ")") {
			return nil, "the parenthesis is not closed after the number"
		}
		n.after = n.after[1:]
	}
	if strings.ContainsAny(n.before, "()") || strings.ContainsAny(n.after, "()") {
		return nil, "stray parentheses"
	}
	if strings.ContainsAny(n.before+n.after, "0123456789") {
		return nil, "digits outside of the number"
	}
	n.core = t.Core
	if len(n.core) > len(num) {
		return nil, "the emphasised part goes beyond the number"
	}
	var ok bool
	n.whole, n.frac, ok = strings.Cut(num, ".")
	if !ok {
		return nil, "no decimals"
	}
	if !wholeRe[g].MatchString(n.whole) {
		return nil, fmt.Sprintf("integer part %q is not grouped in thousands", n.whole)
	}
	n.decimals = len(n.frac)
	n.rat, ok = newRat(strings.ReplaceAll(num, g, ""))
	if !ok || strings.ContainsAny(n.frac, ".,  ") {
		return nil, fmt.Sprintf("number %q is unreadable", num)
	}
	if n.neg {
		n.rat.Neg(n.rat)
	}
	return n, ""
}

var numeralRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$`)

func pow10(n int) *big.Rat {
	r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(n))), nil))
	if n < 0 {
		r.Inv(r)
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// checkNumber compares one displayed text with the fact.
func checkNumber(kind string, f *Fact, lang string, t CellText) string {
	text := t.Head + t.Core + t.Tail
	inner := strings.TrimSpace(f.Inner)
	usable := numeralRe.MatchString(inner)
	p, perr := strconv.Atoi(f.Dec)
	exact := f.Dec == "INF"
	if !exact && (perr != nil || p < -11 || p > 11) {
		usable = false
	}
	if !usable {
		if text != f.Inner || t.InnerHtml != "" {
			return fmt.Sprintf("is not usable as a number but shown as %q", text)
		}
		return ""
	}
	v, ok := newRat(inner)
	if !ok {
		return "harness cannot read " + inner
	}
	if kind == "percent" {
		v.Mul(v, big.NewRat(100, 1))
	}
	n, why := readNumber(lang, t)
	if why != "" {
		return fmt.Sprintf("is shown as %q: %s", text, why)
	}
	diff := new(big.Rat).Sub(n.rat, v)
	diff.Abs(diff)
	if exact {
		if diff.Sign() != 0 {
			return fmt.Sprintf("is shown as %q, which is not the exact value", text)
		}
	} else {
		lim := new(big.Rat).Mul(pow10(-n.decimals), big.NewRat(1, 2))
		if diff.Cmp(lim) > 0 {
			return fmt.Sprintf("is shown as %q, which is not the reported value rounded to %d decimals", text, n.decimals)
		}
		if n.decimals < p && diff.Sign() != 0 {
			return fmt.Sprintf("is shown as %q with fewer decimals than stated", text)
		}
	}
	if n.decimals < 2 {
		return fmt.Sprintf("is shown as %q with fewer than two decimals", text)
	}
	if n.rat.Sign() != 0 && n.neg != (v.Sign() < 0) || v.Sign() >= 0 && n.neg {
		return fmt.Sprintf("is shown as %q with the wrong sign", text)
	}
	if kind == "percent" {
		return ""
	}
	// the emphasised part
	g := group(lang)
	cw, cf, dot := strings.Cut(n.core, ".")
	cd := len(strings.ReplaceAll(cw, g, ""))
	wd := len(strings.ReplaceAll(n.whole, g, ""))
	switch {
	case exact:
		_, rf, _ := strings.Cut(inner, ".")
		rf = strings.TrimRight(rf, "0")
		if cd != wd || len(cf) < len(rf) {
			return fmt.Sprintf("is shown as %q with %q emphasised, but all its digits are accurate", text, n.core)
		}
	case p > 0:
		if !dot || cd != wd || len(cf) != p {
			return fmt.Sprintf("is shown as %q with %q emphasised instead of %d decimals", text, n.core, p)
		}
	case p == 0:
		if cd != wd || cf != "" {
			return fmt.Sprintf("is shown as %q with %q emphasised instead of the integer part", text, n.core)
		}
	default:
		if cd != max(0, wd+p) || dot || strings.HasSuffix(n.core, g) {
			return fmt.Sprintf("is shown as %q with %q emphasised instead of all but the last %d integer digits", text, n.core, -p)
		}
	}
	return ""
}

// separate gives every context a period of its own and no members, so that
// columns are told apart by their heading.
func separate(sp *Spec) *Spec {
	for i := range sp.Contexts {
		c := &sp.Contexts[i]
		c.Seg, c.Scen, c.Start, c.End = nil, nil, "", ""
		c.Instant = fmt.Sprintf("%d-12-31", 1990+i)
	}
	return sp
}

// eachCell visits every cell that should show a fact. Contexts must have
// distinct headings.
func (v *View) eachCell(f func(where string, f *Fact, c Concept, cell Cell) Verdict) Verdict {
	return v.eachPage(func(en Entity, sec RSet, p *Page) Verdict {
		for _, g := range p.grids() {
			if err := g.shape(); err != nil {
				return fail("shape", "%v", err)
			}
			for col := range g.PeriodHeaders {
				id, want := "", g.sig(col)
				for _, c := range v.sp.Contexts {
					if c.Scheme == en.Scheme && c.Ident == en.CharData && c.sig() == want {
						id = c.ID
					}
				}
				if id == "" {
					return fail("column", "%s: column %d is headed by %q, the period of no context", g.Where, col, want)
				}
				for r, h := range g.Rows {
					fa := v.sp.fact(h, id)
					if fa == nil {
						continue
					}
					c, _ := v.sp.find(h)
					if bad := f(g.Where, fa, *c, g.FactualQuadrant[r][col]); bad.Fail != "" {
						return bad
					}
				}
			}
		}
		return Verdict{}
	})
}

func init() {
	// one context per fact keeps the columns identifiable by their period
	pr := Prof{Schemas: 1, Items: 9, Roles: 1, Entities: 1, Contexts: 6, Density: 80, Pres: 100, Calcs: 15, Defs: 15, LabelPct: 20, LFiles: 1, Numbers: 2, Distinct: true, Inline: 25, Style: 30, Nil: 2, Big: 15}
	run := func(one func(kind string, sp *Spec, f *Fact, lang string, t CellText) (string, string), need int) func(e *Env, c any) Verdict {
		return func(e *Env, c any) Verdict {
			sp := c.(*Spec)
			lk := tagLookups(sp)
			v, bad := fetch(e, sp, lk)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			tags := map[string]bool{}
			seen := map[string]bool{}
			look := func(where string, f *Fact, c Concept, cell Cell) Verdict {
				if c.Kind == "string" || c.Kind == "text" || f.Nil || f.Dec == "" {
					return Verdict{}
				}
				for _, lang := range sortedKeys(cell) {
					why, tag := one(c.Kind, sp, f, lang, cell[lang])
					if why != "" {
						return fail("number", "%s: %s item %s reported as %q with decimals %q and unit %s %s (%s)", where, c.Kind, c.Name, f.Inner, f.Dec, j(sp.unit(f.Unit)), why, lang)
					}
					if tag != "" {
						tags[tag] = true
						seen[f.Concept+f.Ctx] = true
					}
				}
				return Verdict{}
			}
			bad = v.eachCell(look)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			for i, l := range lk {
				x, b := decodeExpr(v.Res.Lookups[i])
				if b.Fail != "" {
					return b
				}
				if x == nil {
					continue
				}
				f := sp.fact(x.Href, l.Context)
				c, _ := sp.find(x.Href)
				if f == nil || c == nil {
					continue
				}
				if b := look("lookup", f, *c, x.Expression); b.Fail != "" {
					return b
				}
			}
			return Verdict{Non: len(seen) >= need, Tags: sortedKeys(tags)}
		}
	}
	register(&Check{ID: "C08", Quick: 10000, Thorough: 60000, New: newSpec,
		Rule: "at least five shown numeric facts with usable number and accuracy",
		Gen:  func(s *Src) any { return separate(genSpec(s, pr)) },
		Run: run(func(kind string, sp *Spec, f *Fact, lang string, t CellText) (string, string) {
			why := checkNumber(kind, f, lang, t)
			if !numeralRe.MatchString(strings.TrimSpace(f.Inner)) {
				return why, ""
			}
			d := f.Dec
			if n, err := strconv.Atoi(d); err == nil {
				d = bucket(n, -6, -1, 0, 2, 6)
			}
			return why, kind + " decimals" + d
		}, 5)})
	pu := pr
	pu.Numbers, pu.Density, pu.Big = 3, 70, 10
	register(&Check{ID: "C09", Quick: 12000, Thorough: 60000, New: newSpec,
		Rule: "at least three shown numeric facts with a registered unit or percent sign",
		Gen:  func(s *Src) any { return separate(genSpec(s, pu)) },
		Run: run(func(kind string, sp *Spec, f *Fact, lang string, t CellText) (string, string) {
			if !numeralRe.MatchString(strings.TrimSpace(f.Inner)) {
				return "", ""
			}
			if n, err := strconv.Atoi(f.Dec); f.Dec != "INF" && (err != nil || abs(n) > 11) {
				return "", ""
			}
			n, why := readNumber(lang, t)
			if why != "" {
				return fmt.Sprintf("is shown as %q: %s", t.Head+t.Core+t.Tail, why), ""
			}
			before, after := "", ""
			tag := "none"
			u := sp.unit(f.Unit)
			if u != nil {
				num := findUnit(u.Num)
				var den *utrUnit
				if u.Den != nil {
					den = findUnit(*u.Den)
				}
				if num != nil && (u.Den == nil || den != nil) {
					tag = "name"
					if num.Symbol != "" {
						before = num.Symbol
						tag = "symbol"
					} else if kind != "percent" {
						after = num.Name
					}
					if den != nil {
						after += "/"
						if den.Symbol != "" {
							after += den.Symbol
							tag += "/symbol"
						} else {
							after += den.Name
							tag += "/name"
						}
					}
				}
			}
			if kind == "percent" {
				after = "%" + after
				tag = "percent"
			}
			squeeze := func(s string) string { return strings.Join(strings.Fields(s), "") }
			if squeeze(n.before) != squeeze(before) || squeeze(n.after) != squeeze(after) {
				return fmt.Sprintf("is shown as %q; expected %q before and %q after the number", t.Head+t.Core+t.Tail, before, after), ""
			}
			if tag == "none" {
				return "", ""
			}
			return "", tag
		}, 3)})
}
