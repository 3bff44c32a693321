// Worker: the HTTP router on top of the caching layer, set up as the server does.
package main

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vh/proto"
	gocache "github.com/patrickmn/go-cache"
)

var router http.Handler
var dry = strings.HasPrefix(os.Getenv("VH_ROLE"), "dry") // nothing is cached

func do(q proto.HTTPReq) proto.Ans {
	u, err := url.ParseRequestURI(q.Path)
	if err != nil {
		return proto.Ans{Failed: true, Err: "bad target: " + err.Error(), Status: -1}
	}
	req := &http.Request{Method: q.Method, URL: u, Host: "localhost", RequestURI: q.Path,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody}
	w := httptest.NewRecorder()
	router.ServeHTTP(w, req)
	res := w.Result()
	hd := map[string]string{}
	for k := range res.Header {
		hd[k] = res.Header.Get(k)
	}
	ct := res.Header.Get("Content-Type")
	if ct == "" && w.Body.Len() > 0 {
		ct = http.DetectContentType(w.Body.Bytes())
	}
	return proto.Ans{Status: res.StatusCode, Data: w.Body.Bytes(), CType: ct, Header: hd, Failed: res.StatusCode != 200}
}

func handle(q *proto.Req) *proto.Res {
	r := &proto.Res{}
	switch q.Op {
	case "http":
		r.HTTP = make([]proto.Ans, len(q.HTTP))
		if q.Parallel {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range q.HTTP {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					r.HTTP[i] = do(q.HTTP[i])
				}(i)
			}
			close(start)
			wg.Wait()
		} else {
			for i := range q.HTTP {
				r.HTTP[i] = do(q.HTTP[i])
				if !dry {
					time.Sleep(100 * time.Microsecond) // answers are stored in the background
				}
			}
		}
	case "lib": // the caching layer directly
		if q.Catalog {
			b, err := cache.MarshalCatalog(q.ID)
			r.Catalog = ans(b, err)
		}
		r.Pages = map[string]proto.Ans{}
		for _, s := range q.Slugs {
			b, err := cache.MarshalRenderable(q.ID, s)
			r.Pages[s] = ans(b, err)
		}
		for _, l := range q.Lookups {
			b, err := cache.MarshalExpressable(q.ID, l.Name, l.Context)
			r.Lookups = append(r.Lookups, ans(b, err))
		}
	}
	return r
}

func ans(b []byte, err error) proto.Ans {
	if err != nil {
		return proto.Ans{Failed: true, Err: err.Error(), Data: b}
	}
	return proto.Ans{Data: b}
}

func main() {
	appCache := cache.NewCache(dry)
	if dry {
		appCache = gocache.New(gocache.NoExpiration, gocache.NoExpiration)
	}
	serializables.WorkingDirectoryPath = os.Getenv("VH_WD")
	serializables.GlobalTaxonomySetPath = os.Getenv("VH_GTS")
	hydratables.InjectCache(appCache)
	hydratables.HydrateEntityNames()
	hydratables.HydrateUnitTypeRegistry()
	router = web.NewRouter()
	proto.Serve(handle)
}
