package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// View is everything the library says about one filing.
type View struct {
	Res   *proto.Res
	Cat   *Catalog
	Pages map[string]*Page // by link
	sp    *Spec
}

// fetch stores the filing, loads it and fetches catalog and all pages.
func fetch(e *Env, sp *Spec, lookups []proto.Lookup) (*View, Verdict) {
	id, err := e.put(sp.Files())
	if err != nil {
		return nil, Verdict{Err: err}
	}
	return fetchID(e, "wcore", id, sp, lookups)
}

func fetchID(e *Env, worker, id string, sp *Spec, lookups []proto.Lookup) (*View, Verdict) {
	r, err := e.try(worker, &proto.Req{ID: id, AllPages: true, Lookups: lookups})
	if err != nil {
		return nil, asBad(err)
	}
	v := &View{Res: r, Pages: map[string]*Page{}, sp: sp}
	if r.Failed {
		return v, fail("load", "the filing is not loaded: %s", r.Err)
	}
	if r.Catalog.Failed {
		return v, fail("load", "no catalog: %s", r.Catalog.Err)
	}
	v.Cat = &Catalog{}
	if err := json.Unmarshal(r.Catalog.Data, v.Cat); err != nil {
		return v, fail("load", "catalog is not JSON: %v", err)
	}
	for slug, a := range r.Pages {
		if a.Failed {
			return v, fail("load", "page %s gives an error: %s", slug, a.Err)
		}
		p, err := decodePage(a.Data)
		if err != nil {
			return v, fail("load", "page %s is not understood: %v", slug, err)
		}
		v.Pages[slug] = p
	}
	return v, Verdict{}
}

// page returns the page of an entity and section, nil if there is none.
func (v *View) page(e Entity, role string) *Page {
	slug := v.Cat.Networks[entKey(e.Scheme, e.CharData)][role]
	if slug == "" {
		return nil
	}
	return v.Pages[slug]
}

// eachPage visits the page of every entity and section of the filing.
func (v *View) eachPage(f func(e Entity, r RSet, p *Page) Verdict) Verdict {
	for _, e := range v.sp.entities() {
		for _, r := range v.sp.sections() {
			p := v.page(e, r.RoleURI)
			if p == nil {
				return fail("nopage", "no page for entity %s and section %s", entKey(e.Scheme, e.CharData), r.RoleURI)
			}
			if x := f(e, r, p); x.Fail != "" || x.Err != nil {
				x.Fail = fmt.Sprintf("page of %s, %s: %s", entKey(e.Scheme, e.CharData), r.RoleURI, x.Fail)
				return x
			}
		}
	}
	return Verdict{}
}

func dumpFiles(c *Check, file, dir string) error {
	cs, err := loadReplay(c, file)
	if err != nil {
		return err
	}
	var sp *Spec
	switch x := cs.(type) {
	case *Spec:
		sp = x
	case interface{ spec() *Spec }:
		sp = x.spec()
	case *histCase:
	default:
		return fmt.Errorf("the case is not a filing")
	}
	wd, _, err := writeWorld(dir)
	if err != nil {
		return err
	}
	all := map[string]map[string]string{"f": nil}
	switch x := cs.(type) {
	case *mutCase:
		all["f"] = x.files()
	case *histCase:
		for i, n := range []string{"f", "g", "h", "i"}[:len(x.Folders)] {
			all[n] = x.files(i)
		}
	default:
		all["f"] = sp.Files()
	}
	for _, n := range sortedKeys(all) {
		dir = filepath.Join(wd, "folders", n)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if err := writeDir(dir, all[n]); err != nil {
			return err
		}
	}
	return nil
}

func j(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func bucket(n int, edges ...int) string {
	for _, e := range edges {
		if n <= e {
			return fmt.Sprintf("<=%d", e)
		}
	}
	return fmt.Sprintf(">%d", edges[len(edges)-1])
}

func showSpec(c any) string {
	s, ok := c.(*Spec)
	if !ok {
		return j(c)
	}
	return strings.TrimSpace(j(s))
}

func unjson(b []byte, v any) error { return json.Unmarshal(b, v) }

func cloneSpec(s *Spec) *Spec {
	b, _ := json.Marshal(s)
	var o Spec
	json.Unmarshal(b, &o)
	return &o
}

func decodeCatalog(b []byte) (*Catalog, error) {
	c := &Catalog{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, fmt.Errorf("catalog is not JSON: %v", err)
	}
	return c, nil
}
