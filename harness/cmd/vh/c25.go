package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/vh/proto"
)

// ---- C25 ----

// regCase is a history of registrations on one store.
type regCase struct {
	Steps []regStep
}
type regStep struct {
	Regs    []proto.Reg
	Same    bool `json:",omitempty"` // at the same time
	Restart bool `json:",omitempty"` // in a new process
	Race    bool `json:",omitempty"` // watched by the race detector
}

var regKeys = []string{"", "", "a", "b", "a ", " a", "A", "ab", "a/b", "a/", "./a", "a//b", "../a", "..", ".", "_", "\x00", "é", "é", "a\nb", "00000000-0000-0000-0000-000000000000", "0", "1", "ü", "\U0001F600", "key", "KEY", "https://vh.test/f?x=1", "https://vh.test/f?x=2", "https://vh.test/f", "https://vh.test/f/", "HTTPS://VH.TEST/f", "a\r\n", "a\x00"}
var regTexts = []string{"inst.xml", "", "doc.htm", "a b.htm", "ñ.xml", "\"q\".xml", "<a&b>.xml", "x\\y.xml", "line\nbreak", "tab\t", " ", "\U0001F600.htm", "../up.xml", "null", "{}", "\x00\x01\x1f\x7f", "{\"Entry\":\"z\"}", "é"}

func genReg(s *Src) *regCase {
	c := &regCase{}
	text := func() string {
		t := Pick(s, regTexts)
		if s.P(4) {
			t += strings.Repeat(Pick(s, []string{"x", "é", "\"", "<"}), s.Range(1, 20000))
		}
		return t
	}
	key := func() string {
		k := Pick(s, regKeys)
		if s.P(5) {
			k = strings.Repeat("k", s.Range(1, 5000))
		}
		return k
	}
	var prev []string
	s.List(1, 6, 65, func(int) {
		st := regStep{Same: s.P(40), Restart: s.P(25)}
		hi := 5
		if st.Same {
			hi = 16
			st.Race = s.P(25)
		}
		s.List(1, hi, 80, func(int) {
			r := proto.Reg{Key: key(), Entry: text(), Note: text()}
			if len(prev) > 0 && s.P(50) {
				r.Key = prev[s.N(len(prev))]
			}
			prev = append(prev, r.Key)
			st.Regs = append(st.Regs, r)
		})
		c.Steps = append(c.Steps, st)
	})
	return c
}

type regFolder struct {
	id   string
	cand []proto.Reg // one of these is what it was registered with
}

func init() {
	register(&Check{ID: "C25", Quick: 12000, Thorough: 60000, New: func() any { return &regCase{} },
		Rule:   "at least two different keys and a key that is used again",
		Gen:    func(s *Src) any { return genReg(s) },
		Assume: []string{"the store's directory exists and can be written", "keys, entries and notes are valid UTF-8"},
		Run:    runReg})
}

func runReg(e *Env, cs any) Verdict {
	c := cs.(*regCase)
	if e.again > 1 { // what depends on scheduling is tried more than once
		n := e.again
		e.again = 1
		defer func() { e.again = n }()
		var v Verdict
		for i := 0; i < n; i++ {
			if v = runReg(e, cs); v.Fail != "" || v.Err != nil {
				return v
			}
		}
		return v
	}
	e.seq++
	wd := filepath.Join(e.dir, fmt.Sprintf("store%d", e.seq))
	e.hold = append(e.hold, wd)
	folders := filepath.Join(wd, "folders")
	if err := writeUnder(e.dir, filepath.Join(folders, "old", "_"), `{"Entry":"old.xml","Note":"old"}`); err != nil {
		return Verdict{Err: err}
	}
	byKey := map[string]*regFolder{}
	byID := map[string]*regFolder{}
	reused := false
	for si, st := range c.Steps {
		w := "wfold"
		if st.Race {
			w = "wfoldrace"
		}
		if st.Restart {
			e.fresh(w)
		}
		r, err := e.ask(w, &proto.Req{Op: "reg", WD: wd, Regs: st.Regs, Parallel: st.Same})
		if err != nil {
			if c, ok := err.(*crash); ok && (c.kind == "panic" || c.kind == "race") {
				return fail(c.kind, "registering: %s", c.msg)
			}
			return Verdict{Err: err}
		}
		fresh := map[string]*regFolder{} // keys first used in this step
		wins := map[string]int{}
		for i, g := range st.Regs {
			a := r.IDs[i]
			id := string(a.Data)
			at := fmt.Sprintf("step %d, registration %d with key %q", si+1, i+1, clip(g.Key, 60))
			if g.Key == "" {
				if a.Failed {
					return fail("nokey", "%s fails: %s", at, a.Err)
				}
				if byID[id] != nil {
					return fail("nokey", "%s gives the id of another folder", at)
				}
				byID[id] = &regFolder{id: id, cand: []proto.Reg{g}}
				continue
			}
			known := byKey[g.Key]
			if known != nil && fresh[g.Key] == nil { // registered in an earlier step
				reused = true
				if !a.Failed || a.Status != 1 {
					return fail("exists", "%s does not report that the folder exists (failed %v, %s)", at, a.Failed, a.Err)
				}
				if id != known.id {
					return fail("id", "%s gives id %q and gave %q before", at, id, known.id)
				}
				continue
			}
			if known == nil {
				if byID[id] != nil {
					return fail("id", "%s gives the id of a folder with another key", at)
				}
				known = &regFolder{id: id}
				fresh[g.Key], byKey[g.Key], byID[id] = known, known, known
			} else {
				reused = true
			}
			if id != known.id {
				return fail("id", "%s gives id %q and %q", at, known.id, id)
			}
			if a.Failed {
				if a.Status != 1 {
					return fail("error", "%s fails: %s", at, a.Err)
				}
				if !st.Same && wins[g.Key] == 0 {
					return fail("exists", "%s is the first and reports that the folder exists", at)
				}
				continue
			}
			wins[g.Key]++
			known.cand = []proto.Reg{g}
		}
		for k := range fresh {
			if wins[k] != 1 {
				return fail("once", "step %d: %d registrations with key %q create the folder", si+1, wins[k], clip(k, 60))
			}
		}
		// the store has exactly these folders with exactly this content
		ds, err := os.ReadDir(folders)
		if err != nil {
			return Verdict{Err: err}
		}
		if len(ds) != len(byID)+1 {
			return fail("store", "after step %d the store has %d folders, registered are %d", si+1, len(ds)-1, len(byID))
		}
		ids := []string{"old"}
		want := map[string]proto.Reg{"old": {Entry: "old.xml", Note: "old"}}
		for _, id := range sortedKeys(byID) {
			ids = append(ids, id)
			want[id] = byID[id].cand[0]
		}
		for _, id := range ids {
			fs, err := os.ReadDir(filepath.Join(folders, id))
			if err != nil || len(fs) != 1 {
				return fail("store", "folder %s has %d files (%v)", id, len(fs), err)
			}
			b, err := os.ReadFile(filepath.Join(folders, id, fs[0].Name()))
			if err != nil {
				return Verdict{Err: err}
			}
			var u struct{ Entry, Note string }
			if err := json.Unmarshal(b, &u); err != nil || u.Entry != want[id].Entry || u.Note != want[id].Note {
				return fail("content", "folder %s holds %s, registered were entry %q and note %q", id, clip(string(b), 300), clip(want[id].Entry, 100), clip(want[id].Note, 100))
			}
		}
		rr, err := e.ask(w, &proto.Req{Op: "entry", WD: wd, Slugs: append(ids, "nosuch")})
		if err != nil {
			return Verdict{Err: err}
		}
		for i, id := range ids {
			if a := rr.IDs[i]; a.Failed || string(a.Data) != want[id].Entry {
				return fail("entry", "the entry of folder %s is read as %q (%s) and was registered as %q", id, clip(string(a.Data), 100), a.Err, clip(want[id].Entry, 100))
			}
		}
		if !rr.IDs[len(ids)].Failed {
			return fail("entry", "an unknown folder has an entry")
		}
	}
	return Verdict{Non: len(byKey) >= 2 && reused, Tags: []string{"keys" + bucket(len(byKey), 0, 1, 3, 6), fmt.Sprintf("again=%v", reused), "folders" + bucket(len(byID), 1, 4, 10)}}
}
