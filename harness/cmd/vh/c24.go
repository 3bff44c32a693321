package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C24 ----

// outCase is a filing with references that lead, or seem to lead, out of its
// folder, and URLs to map.
type outCase struct {
	Inline bool     `json:",omitempty"`
	Refs   []outRef `json:",omitempty"`
	URLs   []outURL `json:",omitempty"`
	IDs    []string `json:",omitempty"` // folder parts of request paths
	Subdir bool     `json:",omitempty"` // the folder has a subdirectory
}
type outRef struct {
	At   string // schemaRef import include P D C L entry loc img
	Path string // {wd} {gts} {dir} stand for absolute paths
}
type outURL struct {
	Scheme, Host string
	Segs         []string // as written
	Tail         string   `json:",omitempty"`
}

func (u outURL) String() string {
	return u.Scheme + "://" + u.Host + "/" + strings.Join(u.Segs, "/") + u.Tail
}

const decoyNS = "http://vh.test/decoy"
const decoyRole = "http://vh.test/role/decoy"

// decoyFor is what would show in the answers if the reference were followed.
func decoyFor(at, path string) string {
	s := Spec{}
	sc := Schema{File: path, NS: decoyNS, Prefix: "decoy", Concepts: []Concept{{ID: "decoy_X", Name: "X", Kind: "string"}, {ID: "decoy_Y", Name: "Y", Kind: "string"}},
		Roles: []Role{{URI: decoyRole, ID: "decoy", Def: "0009 - Decoy"}}}
	if at == "include" {
		sc.NS = "http://vh.test/co/2020"
	}
	c := func(n string) string { return "co.xsd#co_" + n }
	switch at {
	case "P":
		s.Pres = []PLinkbase{{File: "x", Links: []PLink{{"http://vh.test/role/b", []PArc{{From: c("A"), To: c("C"), Order: "1"}}}}}}
	case "D":
		s.Defs = []DLinkbase{{File: "x", Links: []DLink{{"http://vh.test/role/b", []DArc{{From: c("A"), To: c("C"), Kind: "dm", Order: "1"}}}}}}
	case "C":
		s.Calcs = []CLinkbase{{File: "x", Links: []CLink{{"http://vh.test/role/b", []CArc{{From: c("A"), To: c("C"), Order: "1", Weight: "1"}}}}}}
	case "L":
		s.Labels = []LLinkbase{{File: "x", Links: [][]LLabel{{{Concept: c("A"), Role: roleLabel, Lang: "en", Text: "Decoy label"}, {Concept: c("B"), Role: roleTerse, Lang: "fr", Text: "Decoy label"}}}}}
	case "entry":
		return baseOut(false).Files()["inst.xml"]
	case "img":
		return "\x89PNG\x0d\x0a\x1a\x0adecoy"
	default:
		return s.schemaFile(&sc)
	}
	// the linkbase of a filing that has the concepts
	b := baseOut(false)
	b.Pres, b.Defs, b.Calcs, b.Labels = s.Pres, s.Defs, s.Calcs, s.Labels
	return b.Files()["x"]
}

func baseOut(inline bool) *Spec {
	sp := &Spec{Entry: "inst.xml", SchemaRef: []string{"co.xsd"}}
	var cs []Concept
	for _, n := range []string{"A", "B", "C"} {
		cs = append(cs, Concept{ID: "co_" + n, Name: n, Kind: "string"})
	}
	sp.Schemas = []Schema{{File: "co.xsd", NS: "http://vh.test/co/2020", Prefix: "co", Concepts: cs,
		Roles: []Role{{URI: "http://vh.test/role/a", ID: "ra", Def: "0001 - A"}, {URI: "http://vh.test/role/b", ID: "rb", Def: "0002 - B"}},
		Links: []LBRef{{"P", "co-pre.xml"}, {"L", "co-lab.xml"}}}}
	sp.Pres = []PLinkbase{{File: "co-pre.xml", Links: []PLink{{"http://vh.test/role/a", []PArc{{From: "co.xsd#co_A", To: "co.xsd#co_B", Order: "1"}}}}}}
	sp.Labels = []LLinkbase{{File: "co-lab.xml", Links: [][]LLabel{{{Concept: "co.xsd#co_B", Role: roleLabel, Lang: "en", Text: "B"}}}}}
	sp.Contexts = []Context{{ID: "c", Scheme: "http://vh.test/lei", Ident: "ABC", Instant: "2020-12-31"}}
	for _, n := range []string{"A", "B", "C"} {
		sp.Facts = append(sp.Facts, Fact{Concept: "co.xsd#co_" + n, Ctx: "c", Inner: n})
	}
	if inline {
		sp.Entry = "doc.htm"
		sp.Inline = &Inline{Prefixes: map[string]string{"co": "http://vh.test/co/2020"}}
	}
	return sp
}

func (c *outCase) build(e *Env) *Spec {
	sp := baseOut(c.Inline)
	inst := ""
	for i, r := range c.Refs {
		p := c.expand(e, r.Path)
		sc := &sp.Schemas[0]
		switch r.At {
		case "schemaRef":
			sp.SchemaRef = append(sp.SchemaRef, p)
		case "import":
			sc.Imports = append(sc.Imports, Import{decoyNS, p})
		case "include":
			sc.Includes = append(sc.Includes, p)
		case "P", "D", "C", "L":
			sc.Links = append(sc.Links, LBRef{r.At, p})
		case "entry":
			sp.Entry = p
		case "loc":
			sp.Pres[0].Links[0].Arcs = append(sp.Pres[0].Links[0].Arcs, PArc{From: "co.xsd#co_A", To: p + "#decoy_Y", Order: fmt.Sprint(i + 2)})
		case "img":
			if sp.Inline != nil {
				sp.Inline.Body += `<img src="` + escAttr(p) + `"/>`
			}
		}
	}
	_ = inst
	return sp
}

func (c *outCase) expand(e *Env, p string) string {
	return strings.NewReplacer("{wd}", e.wd, "{gts}", e.gts, "{dir}", e.dir).Replace(p)
}

func (c *outCase) spec() *Spec { return baseOut(c.Inline) }

// places gives the files a naive reading of a reference could lead to.
func places(e *Env, id, p string) []string {
	folder := filepath.Join(e.wd, "folders", id)
	var out []string
	add := func(f string) {
		f = filepath.Clean(f)
		in := func(d string) bool { return f == d || strings.HasPrefix(f, d+"/") }
		// only inside the scratch directory, and only what is out of bounds
		if !in(e.dir) || in(folder) || in(filepath.Join(e.gts, "concepts")) || f == e.dir || f == e.wd || f == e.gts || in(e.wd+"/names.json") {
			return
		}
		for _, x := range out {
			if x == f || strings.HasPrefix(x, f+"/") || strings.HasPrefix(f, x+"/") {
				return
			}
		}
		out = append(out, f)
	}
	concepts := filepath.Join(e.gts, "concepts")
	forms := []string{p}
	if d, err := url.PathUnescape(p); err == nil && d != p {
		forms = append(forms, d)
	}
	forms = append(forms, strings.ReplaceAll(p, "\\", "/"), strings.TrimSpace(p))
	for _, f := range forms {
		rest, isURL := f, false
		for _, s := range []string{"http://", "https://", "file://", "ftp://"} {
			if strings.HasPrefix(f, s) {
				isURL = true
				rest = f[len(s):]
				add(filepath.Join(concepts, strings.TrimSuffix(s, "://"), rest))
				add(filepath.Join(concepts, rest))
				add(filepath.Join("/", rest))
				if u, err := url.Parse(f); err == nil {
					add(filepath.Join(concepts, u.Scheme, u.Hostname(), u.Path))
					add(filepath.Join(e.gts, u.Scheme, u.Hostname(), u.Path))
					add(u.Path)
				}
			}
		}
		if !isURL {
			add(filepath.Join(folder, f))
			add(f)
			add(filepath.Join(e.wd, "folders", f))
			add(filepath.Join(e.wd, f))
		}
	}
	return out
}

func genOut(s *Src) *outCase {
	c := &outCase{Inline: s.P(40), Subdir: s.P(40)}
	up := func() string {
		switch s.PickW(40, 20, 10, 10, 10, 10) {
		case 0:
			return strings.Repeat("../", s.Range(1, 4))
		case 1:
			return "./../"
		case 2:
			return "sub/../../"
		case 3:
			return "sub/../" + strings.Repeat("../", s.Range(1, 3))
		case 4:
			return Pick(s, []string{"..//", "%2e%2e/", "..%2f", "%2E%2E%2F", "..\\", "//../", "nosuch/../../"})
		}
		return "../" + Pick(s, []string{"./", "nosuch/../", "../folders/../"})
	}
	name := func() string {
		return Pick(s, []string{"decoy/x.xsd", "decoy.xsd", "x.xml", "other/co.xsd", "co.xsd", "folders/other/x.xsd", "decoy.png", "concepts.xsd", "conceptsx/x.xsd"})
	}
	s.List(1, 3, 40, func(int) {
		r := outRef{At: Pick(s, []string{"schemaRef", "import", "include", "P", "D", "C", "L", "entry", "loc", "img"})}
		switch s.PickW(45, 15, 30, 10) {
		case 0:
			r.Path = up() + name()
		case 1:
			r.Path = Pick(s, []string{"{wd}/", "{gts}/", "{dir}/", "file://{wd}/", "file://{dir}/", "file://localhost{dir}/", "/{dir}/", "{wd}/folders/"}) + name()
		case 2:
			h := Pick(s, []string{"vh.test", "..", ".", "%2e%2e", "vh.test:80", "u@vh.test", "..@..", "[::1]", "…", "..:80", ".vh"})
			p := up() + name()
			if s.P(30) {
				p = Pick(s, []string{"std/2020/", "std/../", ""}) + p
			}
			r.Path = Pick(s, []string{"http", "https", "ftp", "http", "..", "."}) + "://" + h + "/" + p
		case 3:
			r.Path = Pick(s, []string{"http:", "http:/", "http:///", "//", "http://vh.test", "file:", "http:..//"}) + up() + name()
		}
		c.Refs = append(c.Refs, r)
	})
	s.List(0, 6, 60, func(int) {
		u := outURL{Scheme: Pick(s, []string{"http", "https", "ftp"}), Host: Pick(s, []string{"vh.test", "www.xbrl.org", "..", "%2e%2e", "a", "vh.test:8080", "..:1", "."})}
		s.List(1, 5, 60, func(int) {
			u.Segs = append(u.Segs, Pick(s, []string{"a", "b.xsd", "b.xml", "b", "B.XSD", "b.xsd.xml", "b.html", "std", "2020", "...", "..a", "a..", "..", "..", "%2e%2e", "%2E.", ".%2e", "..%2f..", "..\\..", "a%20b", "ñ", "%2e%2e%2fb", "x..y", "%252e%252e"}))
		})
		u.Tail = Pick(s, []string{"", "", "", "?q=../..", "#f/../..", "?"})
		c.URLs = append(c.URLs, u)
	})
	s.List(0, 3, 50, func(int) {
		c.IDs = append(c.IDs, Pick(s, []string{"..%2fdecoyf", "%2e%2e%2fdecoyf", "..", "%2e%2e/decoyf", "../decoyf", "x%2f..%2f..%2fdecoyf", "..%5cdecoyf", "%2e%2e", "..%2f..%2fdecoyf", "x/../../decoyf", "%252e%252e%252fdecoyf", "..;/decoyf", "%00/../decoyf", "{id}%2f..%2f..%2fdecoyf", "{id}/../..%2fdecoyf"})+Pick(s, []string{"", "", "/facts?name=co:A&contextref=c", "/doc.htm", "/inst.xml", "%2fdoc.htm"}))
	})
	return c
}

func writeUnder(dir, f, content string) error {
	if !strings.HasPrefix(f, dir+"/") {
		return fmt.Errorf("not in the scratch directory: %s", f)
	}
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		return err
	}
	if st, err := os.Stat(f); err == nil && st.IsDir() {
		return nil
	}
	return os.WriteFile(f, []byte(content), 0o644)
}

func init() {
	register(&Check{ID: "C24", Quick: 12000, Thorough: 50000, New: func() any { return &outCase{} },
		Rule: "at least one decoy file could be placed where a reference seems to lead",
		Gen:  func(s *Src) any { return genOut(s) },
		Run:  runOut})
}

func runOut(e *Env, cs any) Verdict {
	c := cs.(*outCase)
	sp := c.build(e)
	files := sp.Files()
	if b, err := json.Marshal(map[string]string{"Entry": sp.Entry, "Note": ""}); err == nil {
		files["_"] = string(b)
	}
	for f := range files { // entries that are no names of files here
		if strings.ContainsAny(f, "/\\") || f == ".." || f == "." {
			delete(files, f)
		}
	}
	if c.Subdir {
		files["sub/x.txt"] = "x"
	}
	id, err := e.put(files)
	if err != nil {
		return Verdict{Err: err}
	}
	q := &proto.Req{ID: id, AllPages: true, Lookups: []proto.Lookup{{Name: "co:A", Context: "c"}, {Name: "decoy:X", Context: "c"}}}
	hq := &proto.Req{Op: "http", HTTP: []proto.HTTPReq{{Method: "GET", Path: "/folders/" + id}, {Method: "GET", Path: "/folders/" + id + "/doc.htm"}}}
	n := len(hq.HTTP)
	for _, x := range c.IDs {
		hq.HTTP = append(hq.HTTP, proto.HTTPReq{Method: "GET", Path: "/folders/" + strings.ReplaceAll(x, "{id}", id)})
	}
	without, err := e.try("wcore", q)
	if err != nil {
		return asBad(err)
	}
	hwithout, err := e.try("wweb:dry", hq)
	if err != nil {
		return asBad(err)
	}
	// now put files where the references seem to lead
	var placed []string
	defer func() {
		for _, f := range placed {
			if strings.HasPrefix(f, e.dir+"/") {
				os.Remove(f)
			}
		}
		// directories made for decoys
		for _, d := range []string{"decoyf"} {
			os.RemoveAll(filepath.Join(e.wd, d))
			os.RemoveAll(filepath.Join(e.dir, d))
		}
	}()
	decoys := 0
	for _, r := range c.Refs {
		p := c.expand(e, r.Path)
		for _, f := range places(e, id, p) {
			if _, err := os.Lstat(f); err == nil {
				continue
			}
			if err := writeUnder(e.dir, f, decoyFor(r.At, p)); err != nil {
				continue // something else is in the way
			}
			placed = append(placed, f)
			decoys++
		}
	}
	df := baseOut(true).Files()
	for _, d := range []string{filepath.Join(e.wd, "decoyf"), filepath.Join(e.dir, "decoyf")} {
		if err := writeDir(d, df); err != nil {
			return Verdict{Err: err}
		}
	}
	with, err := e.try("wcore", q)
	if err != nil {
		return asBad(err)
	}
	hwith, err := e.try("wweb:dry", hq)
	if err != nil {
		return asBad(err)
	}
	if d := sameAnswers(without, with); d != "" {
		e.fresh("wcore")
		return fail("outside", "files outside the folder contribute (%s): %s", strings.Join(placed, ", "), d)
	}
	if len(with.Pages) != len(without.Pages) {
		return fail("outside", "files outside the folder contribute pages")
	}
	for i := range hq.HTTP {
		if d := sameAns(hwithout.HTTP[i], hwith.HTTP[i]); d != "" {
			e.fresh("wweb:dry")
			return fail("outside", "files outside the folder (%s) contribute to %s: %s", strings.Join(placed, ", "), hq.HTTP[i].Path, d)
		}
		if i >= n && hwith.HTTP[i].Status == 200 {
			return fail("request", "the request %s reaches something outside the folder store: %s", hq.HTTP[i].Path, clip(string(hwith.HTTP[i].Data), 200))
		}
	}
	if bad := checkURLs(e, c.URLs); bad.Fail != "" || bad.Err != nil {
		return bad
	}
	tags := []string{"decoys" + bucket(decoys, 0, 1, 2)}
	for _, r := range c.Refs {
		tags = append(tags, "at "+r.At)
	}
	return Verdict{Non: decoys > 0, Tags: tags}
}

// checkURLs compares the mapping of URLs to files with what the URL says.
func checkURLs(e *Env, us []outURL) Verdict {
	if len(us) == 0 {
		return Verdict{}
	}
	q := &proto.Req{Op: "url"}
	for _, u := range us {
		q.URLs = append(q.URLs, u.String())
	}
	r, err := e.try("wfold", q)
	if err != nil {
		return asBad(err)
	}
	concepts := filepath.Join(e.gts, "concepts")
	for i, u := range us {
		host, _, _ := strings.Cut(u.Host, ":")
		host, err := url.PathUnescape(host)
		if err != nil {
			continue
		}
		p, err := url.PathUnescape(strings.Join(u.Segs, "/"))
		if err != nil {
			continue
		}
		hop := host == ".." || host == "."
		for _, s := range strings.Split(p, "/") {
			hop = hop || s == ".."
		}
		a := r.IDs[i]
		got := string(a.Data)
		home := filepath.Join(concepts, u.Scheme, "x")
		home = home[:len(home)-1] + host
		plain := home + "/" + p
		switch {
		case !hop && a.Failed:
			return fail("url", "%s is not mapped: %s", u, a.Err)
		case !hop && got != plain:
			return fail("url", "%s is mapped to %s instead of %s", u, got, plain)
		case hop && !a.Failed:
			clean := filepath.Clean(plain)
			if got == clean || !strings.HasPrefix(got, concepts+"/"+u.Scheme+"/") || filepath.Clean(got) != got {
				return fail("url", "%s, which has parent segments, is mapped to %s", u, got)
			}
		}
	}
	return Verdict{}
}
