// Package proto is the pipe protocol between the runner and the worker
// processes that execute the code under test.
package proto

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
)

// Lookup is one fact lookup.
type Lookup struct{ Name, Context string }

// HTTPReq is one request made to the router.
type HTTPReq struct {
	Method string
	Path   string // raw request target, e.g. /folders/x/facts?name=..
	Alive  bool   // informational
}

// Reg is one folder registration.
type Reg struct{ Key, Entry, Note string }

// Req is one request to a worker.
type Req struct {
	Op       string // lib, http, cold, reg, url, exit
	ID       string
	Catalog  bool
	AllPages bool
	Slugs    []string
	Lookups  []Lookup
	Document bool
	Repeat   int
	HTTP     []HTTPReq
	Parallel bool // run HTTP requests (or registrations) simultaneously
	Regs     []Reg
	URLs     []string
	WD       string // working directory override (reg)
}

// Ans is one answer: data or an error.
type Ans struct {
	Data   []byte
	Err    string
	Failed bool
	Status int
	CType  string
	Header map[string]string
}

// Res is a worker's response.
type Res struct {
	Failed   bool // discovery or hydration failed
	Err      string
	Catalog  Ans
	Pages    map[string]Ans // by slug
	Lookups  []Ans
	Document Ans
	HTTP     []Ans
	IDs      []Ans // registrations: Data = id; url: Data = file name
}

// Write sends a length-prefixed gob value.
func Write(w io.Writer, v any) error {
	var b bytes.Buffer
	b.Write(make([]byte, 8))
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		return err
	}
	d := b.Bytes()
	binary.BigEndian.PutUint64(d, uint64(len(d)-8))
	_, err := w.Write(d)
	return err
}

// Read receives a length-prefixed gob value.
func Read(r *bufio.Reader, v any) error {
	var h [8]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	n := binary.BigEndian.Uint64(h[:])
	if n > 1<<31 {
		return fmt.Errorf("oversized message")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	return gob.NewDecoder(bytes.NewReader(b)).Decode(v)
}
