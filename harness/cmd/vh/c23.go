package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C23 ----

// mutCase is a filing and what is done to its files.
type mutCase struct {
	Sp   *Spec
	Muts []mut
}
type mut struct {
	File int // of the sorted files
	Op   string
	A, B int    `json:",omitempty"`
	S    string `json:",omitempty"`
}

func (m *mutCase) spec() *Spec {
	sp := cloneSpec(m.Sp)
	return sp
}

var reTag = regexp.MustCompile(`<[^<>]*>`)
var reAttr = regexp.MustCompile(`\s([A-Za-z_][-\w:.]*)\s*=\s*("[^"]*"|'[^']*')`)
var reName = regexp.MustCompile(`^</?([^\s/>]+)`)

func tagName(t string) string {
	if m := reName.FindStringSubmatch(t); m != nil {
		return m[1]
	}
	return ""
}

// element gives the extent of the element that starts at tag i, or ok=false.
func element(doc string, tags [][]int, i int) (int, int, bool) {
	t := doc[tags[i][0]:tags[i][1]]
	if strings.HasPrefix(t, "</") || strings.HasPrefix(t, "<?") || strings.HasPrefix(t, "<!") {
		return 0, 0, false
	}
	if strings.HasSuffix(t, "/>") {
		return tags[i][0], tags[i][1], true
	}
	n, depth := tagName(t), 0
	for k := i; k < len(tags); k++ {
		x := doc[tags[k][0]:tags[k][1]]
		if tagName(x) != n || strings.HasSuffix(x, "/>") {
			continue
		}
		if strings.HasPrefix(x, "</") {
			depth--
		} else {
			depth++
		}
		if depth == 0 {
			return tags[i][0], tags[k][1], true
		}
	}
	return 0, 0, false
}

const maxMutated = 1 << 20

func (m *mutCase) files() map[string]string {
	fs := m.Sp.Files()
	for _, x := range m.Muts {
		names := sortedKeys(fs)
		if len(names) == 0 {
			break
		}
		if strings.HasPrefix(x.Op, "k") {
			x.applyKind(fs)
			continue
		}
		f := names[x.File%len(names)]
		doc := x.apply(fs[f], func(i int) string { return fs[names[i%len(names)]] })
		switch x.Op {
		case "del":
			delete(fs, f)
			continue
		case "mv":
			to := names[x.A%len(names)]
			fs[to] = fs[f]
			delete(fs, f)
			continue
		}
		if len(doc) <= maxMutated {
			fs[f] = doc
		}
	}
	return fs
}

func (x *mut) apply(doc string, file func(int) string) string {
	tags := reTag.FindAllStringIndex(doc, -1)
	attrs := reAttr.FindAllStringSubmatchIndex(doc, -1)
	cut := func(a, b int, with string) string { return doc[:a] + with + doc[b:] }
	switch x.Op {
	case "empty":
		return ""
	case "copy":
		return file(x.A)
	case "garbage":
		return x.S
	case "trunc":
		return doc[:len(doc)*(x.A%1000)/1000]
	case "bytes":
		if len(doc) == 0 {
			return x.S
		}
		a := x.A % len(doc)
		b := min(len(doc), a+x.B%8)
		return cut(a, b, x.S)
	}
	switch x.Op {
	case "deltag", "delel", "dupel", "movel", "deep", "renel", "text", "cptext", "many":
		if len(tags) == 0 {
			return doc
		}
		i := x.A % len(tags)
		t := tags[i]
		switch x.Op {
		case "deltag":
			return cut(t[0], t[1], "")
		case "renel":
			return strings.ReplaceAll(doc, tagName(doc[t[0]:t[1]]), x.S)
		case "text", "cptext":
			end := len(doc)
			if i+1 < len(tags) {
				end = tags[i+1][0]
			}
			s := x.S
			if x.Op == "cptext" {
				k := x.B % len(tags)
				e := len(doc)
				if k+1 < len(tags) {
					e = tags[k+1][0]
				}
				s = doc[tags[k][1]:e]
			}
			return cut(t[1], end, s)
		}
		// the next element at or after the tag
		for ; i < len(tags); i++ {
			a, b, ok := element(doc, tags, i)
			if !ok {
				continue
			}
			el := doc[a:b]
			switch x.Op {
			case "delel":
				return cut(a, b, "")
			case "dupel":
				return cut(b, b, el)
			case "many":
				if n := 2 + x.B%300; n*len(el) < maxMutated {
					return cut(b, b, strings.Repeat(el, n))
				}
				return doc
			case "movel":
				rest := cut(a, b, "")
				ts := reTag.FindAllStringIndex(rest, -1)
				if len(ts) == 0 {
					return doc
				}
				at := ts[x.B%len(ts)][1]
				return rest[:at] + el + rest[at:]
			case "deep":
				open := doc[tags[i][0]:tags[i][1]]
				if strings.HasSuffix(open, "/>") {
					open = open[:len(open)-2] + ">"
				}
				n := 2 + x.B%400
				if n*len(open) > maxMutated/2 {
					return doc
				}
				return cut(a, b, strings.Repeat(open, n)+el+strings.Repeat("</"+tagName(open)+">", n))
			}
		}
		return doc
	case "decls": // prefixes that are numbered like the ones made up for clashes
		for _, t := range tags {
			n := tagName(doc[t[0]:t[1]])
			if n == "" || strings.HasPrefix(n, "?") || strings.HasPrefix(n, "!") || strings.HasPrefix(doc[t[0]:], "</") {
				continue
			}
			d := ""
			for i := 0; i <= x.A%80; i++ {
				d += fmt.Sprintf(" xmlns:%s%s=\"vh:%d\"", x.S, clashSuffix(i), i%(x.B+1))
			}
			return cut(t[0]+1+len(n), t[0]+1+len(n), d)
		}
	case "delattr", "setattr", "cpattr", "renattr":
		if len(attrs) == 0 {
			return doc
		}
		m := attrs[x.A%len(attrs)]
		switch x.Op {
		case "delattr":
			return cut(m[0], m[1], "")
		case "renattr":
			return cut(m[2], m[3], x.S)
		case "setattr":
			return cut(m[4]+1, m[5]-1, x.S)
		}
		o := attrs[x.B%len(attrs)]
		return cut(m[4]+1, m[5]-1, doc[o[4]+1:o[5]-1])
	}
	return doc
}

// clashSuffix counts "", -a, -b ... -z, -za ...
func clashSuffix(i int) string {
	if i == 0 {
		return ""
	}
	s := "-"
	for i--; i >= 26; i -= 26 {
		s += "z"
	}
	return s + string(rune('a'+i))
}

// applyKind alters one or all elements or attributes of one kind, and gives
// rare kinds the same chance as frequent ones.
func (x *mut) applyKind(fs map[string]string) {
	type place struct {
		file string
		a, b int
	}
	kinds := map[string][]place{}
	for _, f := range sortedKeys(fs) {
		doc := fs[f]
		tags := reTag.FindAllStringIndex(doc, -1)
		for i, t := range tags {
			tag := doc[t[0]:t[1]]
			if strings.HasPrefix(tag, "</") || strings.HasPrefix(tag, "<?") || strings.HasPrefix(tag, "<!") {
				continue
			}
			n := tagName(tag)
			switch x.Op {
			case "kdelel":
				if a, b, ok := element(doc, tags, i); ok {
					kinds[n] = append(kinds[n], place{f, a, b})
				}
			case "ktext":
				if i+1 < len(tags) && !strings.HasSuffix(tag, "/>") && strings.HasPrefix(doc[tags[i+1][0]:], "</") {
					kinds[n] = append(kinds[n], place{f, t[1], tags[i+1][0]})
				}
			default:
				for _, m := range reAttr.FindAllStringSubmatchIndex(tag, -1) {
					k := f + " " + n + " " + tag[m[2]:m[3]]
					if x.Op == "kdelattr" {
						kinds[k] = append(kinds[k], place{f, t[0] + m[0], t[0] + m[1]})
					} else {
						kinds[k] = append(kinds[k], place{f, t[0] + m[4] + 1, t[0] + m[5] - 1})
					}
				}
			}
		}
	}
	if len(kinds) == 0 {
		return
	}
	ps := kinds[sortedKeys(kinds)[x.A%len(kinds)]]
	with := x.S
	if x.Op == "kcpattr" {
		o := ps[x.B/8%len(ps)]
		with = fs[o.file][o.a:o.b]
	}
	if x.B%4 != 0 {
		ps = ps[x.B/4%len(ps):][:1]
	}
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if x.Op == "kcut" { // a part of the value
			with = fs[p.file][p.a:p.b]
			if at := strings.IndexAny(with, "#:/-. "); at >= 0 {
				with = []string{with[:at], with[:at+1], with[at:], with[at+1:], with[at+1:] + with[at:at+1] + with[:at], with[:at] + with[at:at+1] + with[at:]}[x.File%6]
			}
		}
		if i+1 < len(ps) && ps[i+1].file == p.file && p.b > ps[i+1].a {
			continue
		}
		if doc := fs[p.file][:p.a] + with + fs[p.file][p.b:]; len(doc) <= maxMutated {
			fs[p.file] = doc
		}
	}
}

var mutOps = []string{"kdelattr", "ksetattr", "kcpattr", "kcut", "kdelel", "ktext", "delel", "delattr", "setattr", "cpattr", "text", "dupel", "renel", "renattr", "cptext", "movel", "deltag", "trunc", "bytes", "del", "mv", "copy", "empty", "garbage", "deep", "many", "decls"}
var mutW = []int{24, 24, 6, 14, 14, 14, 14, 14, 16, 10, 14, 6, 5, 4, 6, 5, 2, 2, 3, 2, 2, 2, 1, 1, 2, 2, 4}
var mutVals = []string{"", " ", "0", "-1", "#", "##", "x#y", "#x", "co.xsd#", "co.xsd#nothing", "#co_Assets", "nothing", "999999999999999999999", "NaN", "INF", "-INF", "1e400", "1e-400", "0x10", "--1", "1.", ".", "+", "1,000", "12345678901234567890.123456789",
	":", "a:", ":a", "a:b:c", "co:", ":Assets", "std:Name", "9999-99-99", "2020-02-30", "2020-13-01T00:00:00", "P1Y", "-", "&bad;", "&#0;", "&lt;", "é́", "\U0001F600", "xbrli:", "iso4217:", "http://", "http://vh.test/none.xsd", "http://vh.test/std/2020/std.xsd", "http://vh.test/std/2020/std.xsd#", "http://vh.test/std/2020/std.xsd#nothing", "http://%zz/", "://", "%zz", "true", "false", "en", "zz-ZZ-zz",
	"-99", "99", "1000", "2147483648", "http://www.xbrl.org/2003/role/label", "http://www.xbrl.org/2003/arcrole/fact-footnote", "co.xsd", "co-pre.xml", "inst.xml", "doc.htm", "<b", "]]>", "<![CDATA[", "<!--", "  co:Assets  ", "1\n2"}
var mutNames = []string{"id", "name", "x", "xlink:href", "xlink:label", "xlink:from", "xlink:to", "xlink:role", "contextRef", "unitRef", "order", "xml:lang", "xmlns", "href", "src", "a:b:c",
	"xbrli:context", "xbrli:unit", "xbrli:divide", "link:loc", "link:label", "link:footnote", "xsd:element", "xsd:import", "xsd:include", "img", "ix:nonFraction", "ix:continuation", "xbrldi:explicitMember", "xbrldi:typedMember"}

func genMut(s *Src) *mutCase {
	pr := richProf
	pr.Big, pr.Style, pr.Odd = 0, 15, false
	pr.Inline, pr.Text = 70, 25
	m := &mutCase{Sp: genSpec(s, pr)}
	if s.P(30) {
		s.Span(func() { unsettle(s, m.Sp) })
	}
	s.List(1, 6, 55, func(int) {
		x := mut{File: s.N(24), Op: mutOps[s.PickW(mutW...)], A: s.N(2000), B: s.N(400)}
		switch x.Op {
		case "setattr", "ksetattr", "ktext", "text", "garbage", "bytes":
			x.S = Pick(s, mutVals)
			if s.P(2) {
				x.S = strings.Repeat(Pick(s, []string{"a", "9", "é", "../", "0."}), 20000)
			}
		case "decls":
			x.S = Pick(s, []string{"link", "xsi", "xlink", "iso4217", "xbrldi", "xbrli", "co", "ix", "a"})
		case "renel", "renattr":
			x.S = Pick(s, mutNames)
		}
		m.Muts = append(m.Muts, x)
	})
	return m
}

// control is a filing known to be well formed, and its answers.
type control struct {
	sp      *Spec
	targets []string
	want    map[string]proto.Ans
}

func (e *Env) control() (*control, Verdict) {
	if e.ctl != nil {
		return e.ctl, Verdict{}
	}
	var c *control
	for i := 0; ; i++ {
		sp := genSpec(newSrc(caseSeed(4711, "control", i)), histProf)
		if sp.Inline == nil || len(sp.sections()) < 2 || len(sp.Facts) < 6 || len(sp.Schemas[0].Imports) == 0 || len(tagLookups(sp)) < 3 {
			continue
		}
		c = &control{sp: sp}
		break
	}
	id, err := e.put(c.sp.Files())
	if err != nil {
		return nil, Verdict{Err: err}
	}
	v, bad := fetchID(e, "wcore", id, c.sp, nil)
	if bad.Fail != "" || bad.Err != nil {
		return nil, bad
	}
	c.targets = []string{""}
	for _, p := range sortedKeys(v.Pages) {
		c.targets = append(c.targets, "/"+p)
	}
	c.targets = append(c.targets, "/"+c.sp.Entry)
	for _, l := range tagLookups(c.sp)[:3] {
		c.targets = append(c.targets, "/facts?name="+url.QueryEscape(l.Name)+"&contextref="+url.QueryEscape(l.Context))
	}
	var ts []string
	for _, t := range c.targets {
		ts = append(ts, "/folders/"+id+t)
	}
	want, bad := expect(e, ts, false)
	if bad.Fail != "" || bad.Err != nil {
		return nil, bad
	}
	c.want = map[string]proto.Ans{}
	for i, t := range c.targets {
		c.want[t] = want[ts[i]]
		if want[ts[i]].Status != 200 {
			return nil, fail("control", "a well-formed filing is not answered: %s gives %d, %s", ts[i], want[ts[i]].Status, clip(string(want[ts[i]].Data), 300))
		}
	}
	e.ctl = c
	return c, Verdict{}
}

func init() {
	register(&Check{ID: "C23", Quick: 8000, Thorough: 60000, New: func() any { return &mutCase{} },
		Rule:   "the altered filing still gets a catalog with a section",
		Gen:    func(s *Src) any { return genMut(s) },
		Setup:  func(e *Env) { e.maxUse = 600 },
		Assume: []string{"an answer that takes more than 40 s on two fresh processes counts as none"},
		Run: func(e *Env, c any) Verdict {
			m := c.(*mutCase)
			ctl, bad := e.control()
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			id, err := e.put(m.files())
			if err != nil {
				return Verdict{Err: err}
			}
			p := "/folders/" + id
			get := func(ts ...string) ([]proto.Ans, Verdict) {
				var hs []proto.HTTPReq
				for _, t := range ts {
					hs = append(hs, proto.HTTPReq{Method: "GET", Path: t})
				}
				r, err := e.try("wweb", &proto.Req{Op: "http", HTTP: hs})
				if err != nil {
					return nil, asBad(err)
				}
				return r.HTTP, Verdict{}
			}
			a, bad := get(p)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			ts := []string{}
			var cat struct{ Networks map[string]map[string]string }
			sections := 0
			if a[0].Status == 200 {
				if err := json.Unmarshal(a[0].Data, &cat); err != nil {
					return fail("json", "the catalog is no JSON: %v", err)
				}
				for _, x := range sortedKeys(cat.Networks) {
					for _, y := range sortedKeys(cat.Networks[x]) {
						if sections++; sections <= 12 {
							ts = append(ts, p+"/"+cat.Networks[x][y])
						}
					}
				}
			}
			ts = append(ts, p+"/x", p+"/"+url.PathEscape(m.Sp.Entry), p+"/doc.htm")
			ls := tagLookups(m.Sp)
			if len(ls) > 8 {
				ls = ls[:8]
			}
			for _, l := range ls {
				ts = append(ts, p+"/facts?name="+url.QueryEscape(l.Name)+"&contextref="+url.QueryEscape(l.Context))
			}
			ts = append(ts, p+"/facts?name=&contextref=", p+"/facts?name=x&contextref=y")
			n := len(ts)
			cid, err := e.put(ctl.sp.Files())
			if err != nil {
				return Verdict{Err: err}
			}
			for _, t := range ctl.targets {
				ts = append(ts, "/folders/"+cid+t)
			}
			a, bad = get(ts...)
			if bad.Fail != "" || bad.Err != nil {
				return bad
			}
			pages := 0
			for i := 0; i < n; i++ {
				if a[i].Status != 200 && a[i].Status < 400 {
					return fail("status", "%s is answered with status %d", ts[i], a[i].Status)
				}
				data := i < min(sections, 12) || strings.Contains(ts[i], "/facts?")
				if a[i].Status == 200 && data && len(a[i].Data) > 0 && !json.Valid(a[i].Data) {
					return fail("json", "the answer to %s is no JSON: %s", ts[i], clip(string(a[i].Data), 200))
				}
				if a[i].Status == 200 && i < min(sections, 12) {
					pages++
				}
			}
			for i, t := range ctl.targets {
				if a[n+i].Status != 200 || !bytes.Equal(a[n+i].Data, ctl.want[t].Data) {
					return fail("control", "after this filing, %s of another one gives status %d, %s", t, a[n+i].Status, diffAt(ctl.want[t].Data, a[n+i].Data))
				}
			}
			tags := []string{fmt.Sprintf("mutations%d", len(m.Muts)), "pages" + bucket(pages, 0, 1, 4), fmt.Sprintf("catalog=%v", sections > 0)}
			var ops []string
			for _, x := range m.Muts {
				ops = append(ops, "op "+x.Op)
			}
			sort.Strings(ops)
			return Verdict{Non: sections > 0, Tags: append(tags, ops...)}
		}})
}
