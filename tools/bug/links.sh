#!/bin/bash
# links.sh <fx> <folder>: writes the catalog of a folder as links-<folder>.json
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/links.XXXXXXXX)"
trap 'rm -rf -- "$tmp"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cp /repo/go.sum "$tmp/go.sum"
sed -e 's|^module .*|module ecksbee.com/telefacts/demo|' /repo/go.mod > "$tmp/go.mod"
printf '\nrequire ecksbee.com/telefacts v0.0.0\nreplace ecksbee.com/telefacts => /repo\n' >> "$tmp/go.mod"
cat > "$tmp/main.go" <<'G'
package main

import (
	"os"
	"path/filepath"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

func main() {
	serializables.WorkingDirectoryPath = filepath.Join(os.Args[1], "wd")
	serializables.GlobalTaxonomySetPath = filepath.Join(os.Args[1], "gts")
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	f, err := serializables.Discover(os.Args[2])
	if err != nil {
		panic(err)
	}
	h, err := hydratables.Hydrate(f)
	if err != nil {
		panic(err)
	}
	b, err := renderables.MarshalCatalog(h)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(os.Args[1], "links-"+os.Args[2]+".json"), b, 0o644)
}
G
(cd "$tmp" && go build -o links .) && "$tmp/links" "$1" "$2"
