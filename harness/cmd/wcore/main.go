// Worker: discovery, hydration and rendering without the caching layer.
package main

import (
	"encoding/json"
	"os"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vh/proto"
	gocache "github.com/patrickmn/go-cache"
)

func ans(b []byte, err error) proto.Ans {
	if err != nil {
		return proto.Ans{Failed: true, Err: err.Error(), Data: b}
	}
	return proto.Ans{Data: b}
}

func handle(q *proto.Req) *proto.Res {
	r := &proto.Res{}
	folder, err := serializables.Discover(q.ID)
	if err != nil {
		return &proto.Res{Failed: true, Err: "discover: " + err.Error()}
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		return &proto.Res{Failed: true, Err: "hydrate: " + err.Error()}
	}
	if q.Catalog || q.AllPages {
		r.Catalog = ans(renderables.MarshalCatalog(h))
	}
	slugs := q.Slugs
	if q.AllPages && !r.Catalog.Failed {
		var c struct{ Networks map[string]map[string]string }
		if json.Unmarshal(r.Catalog.Data, &c) == nil {
			for _, m := range c.Networks {
				for _, s := range m {
					slugs = append(slugs, s)
				}
			}
		}
	}
	r.Pages = map[string]proto.Ans{}
	for _, s := range slugs {
		if _, done := r.Pages[s]; !done {
			r.Pages[s] = ans(renderables.MarshalRenderable(s, h))
		}
	}
	for _, l := range q.Lookups {
		r.Lookups = append(r.Lookups, ans(renderables.MarshalExpressable(l.Name, l.Context, h)))
	}
	return r
}

func main() {
	serializables.WorkingDirectoryPath = os.Getenv("VH_WD")
	serializables.GlobalTaxonomySetPath = os.Getenv("VH_GTS")
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	hydratables.HydrateEntityNames()
	hydratables.HydrateUnitTypeRegistry()
	proto.Serve(handle)
}
