// Command vh decides the properties by generated-input search.
//
//	vh check ID            run a check (VERIF_SEED, VERIF_TIER)
//	vh replay ID FILE      re-run a saved case
//	vh gen ID [N]          print generated cases
//	vh files ID FILE DIR   write the files of a saved case
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Verdict is the outcome of one case.
type Verdict struct {
	Fail string // what is wrong, if anything
	Kind string // class of the failure; the minimiser stays within it
	Non  bool   // the case is non-trivial by the check's rule
	Tags []string
	Err  error // the harness could not decide
}

func fail(kind, f string, a ...any) Verdict { return Verdict{Kind: kind, Fail: fmt.Sprintf(f, a...)} }

// Directed is a fixed case that runs before the generated ones.
type Directed struct {
	Name string
	Case any
}

// Check decides one property.
type Check struct {
	ID       string
	Quick    int
	Thorough int
	Rule     string
	Gen      func(s *Src) any
	New      func() any
	Run      func(e *Env, c any) Verdict
	Directed func() []Directed
	Setup    func(e *Env) // per-shard settings
	Assume   []string
	Shards   int // limit, 0 = all cores
	Show     func(c any) string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check|replay|gen ID ...")
		os.Exit(64)
	}
	c := checks[os.Args[2]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check", os.Args[2])
		os.Exit(64)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(c))
	case "replay":
		os.Exit(runReplay(c, os.Args[3]))
	case "gen":
		n := 1
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		for i := 0; i < n; i++ {
			b, _ := json.MarshalIndent(c.Gen(newSrc(caseSeed(envSeed(), c.ID, i))), "", " ")
			fmt.Println(string(b))
		}
	case "files":
		if err := dumpFiles(c, os.Args[3], os.Args[4]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(65)
		}
	default:
		os.Exit(64)
	}
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64() >> 2
}

func caseSeed(seed uint64, id string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	r := rng{h.Sum64()}
	return r.next()
}

func verifDir() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "."
}

type failure struct {
	index   int
	name    string // directed case
	v       Verdict
	c       any
	choices []uint64
	spans   []span
}

func runCheck(c *Check) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	n := c.Quick
	soft, hard := 240*time.Second, 780*time.Second
	if tier == "thorough" {
		n = c.Thorough
		soft = 600 * time.Second
	} else {
		tier = "quick"
	}
	if s := os.Getenv("VH_N"); s != "" { // for development
		n, _ = strconv.Atoi(s)
	}
	seed := envSeed()
	scratch, bin := os.Getenv("VH_SCRATCH"), os.Getenv("VH_BIN")
	if scratch == "" || bin == "" {
		fmt.Fprintln(os.Stderr, "VH_SCRATCH and VH_BIN must be set")
		return 64
	}
	go func() {
		time.Sleep(hard)
		fmt.Fprintln(os.Stderr, "inconclusive: time limit of the check reached")
		os.Exit(3)
	}()
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if c.Shards > 0 && shards > c.Shards {
		shards = c.Shards
	}
	var directed []Directed
	if c.Directed != nil {
		directed = c.Directed()
	}
	known := readKnown(c.ID)
	var (
		mu       sync.Mutex
		fails    []failure
		harness  error
		next     atomic.Int64
		stop     atomic.Bool
		evals    int
		dups     int
		distinct = map[[32]byte]bool{}
		tags     = map[string]int{}
		samples  []string
		knownHit []string
	)
	total := len(directed) + n
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			e, err := newEnv(scratch, bin, s)
			if err != nil {
				mu.Lock()
				harness = err
				mu.Unlock()
				stop.Store(true)
				return
			}
			defer e.close()
			if c.Setup != nil {
				c.Setup(e)
			}
			for !stop.Load() {
				k := int(next.Add(1)) - 1
				if k >= total || (k >= len(directed) && time.Since(start) > soft) {
					return
				}
				var f failure
				if k < len(directed) {
					f = failure{index: k - len(directed), name: directed[k].Name, c: directed[k].Case}
				} else {
					src := newSrc(caseSeed(seed, c.ID, k-len(directed)))
					cs := c.Gen(src)
					f = failure{index: k - len(directed), c: cs, choices: src.rec, spans: src.spans}
				}
				v := c.Run(e, f.c)
				e.release()
				f.v = v
				b, _ := json.Marshal(f.c)
				mu.Lock()
				evals++
				for _, t := range v.Tags {
					tags[t]++
				}
				h := sha256.Sum256(b)
				if distinct[h] {
					dups++
				} else if v.Non {
					distinct[h] = true
					if len(samples) < 6 && k%7 == 3 || len(samples) < 3 {
						samples = append(samples, sample(c, f.c, b))
					}
				}
				switch {
				case v.Err != nil:
					harness = v.Err
					stop.Store(true)
				case v.Fail != "":
					if what, ok := known[f.name]; ok && f.name != "" {
						knownHit = append(knownHit, what)
					} else {
						fails = append(fails, f)
						stop.Store(true)
					}
				}
				mu.Unlock()
			}
		}(s)
	}
	wg.Wait()
	sort.Strings(knownHit)
	for _, w := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, w)
	}
	code := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].index < fails[j].index })
		f := fails[0]
		fmt.Printf("failing case %d (%s): %s\n", f.index, f.v.Kind, clip(f.v.Fail, 4000))
		f = shrink(c, f, scratch, bin)
		path := saveReplay(c, f, seed)
		fmt.Printf("minimised: %s\n", clip(f.v.Fail, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		code = 1
	} else if harness != nil {
		fmt.Fprintln(os.Stderr, "check could not decide:", harness)
		return 3
	} else if evals < total/10 {
		fmt.Fprintf(os.Stderr, "inconclusive: only %d of %d cases in the time available\n", evals, total)
		return 3
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c.Rule, "samples": samples,
			"directed_cases": len(directed), "duplicate_cases": dups, "planned": total, "tags": tags, "exhaustive": false,
		},
		"assumptions": append([]string{"generated filings stay inside the input domain described in DESIGN.md"}, c.Assume...),
		"violations":  len(fails),
		"wall_s":      time.Since(start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if code == 0 {
		fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1f s\n", c.ID, evals, len(distinct), time.Since(start).Seconds())
	}
	return code
}

func sample(c *Check, cs any, b []byte) string {
	if c.Show != nil {
		return clip(c.Show(cs), 1500)
	}
	return clip(string(b), 1500)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// shrink minimises a failing case within a budget.
func shrink(c *Check, f failure, scratch, bin string) failure {
	if f.choices == nil {
		return f
	}
	e, err := newEnv(scratch, bin, 99)
	if err != nil {
		return f
	}
	defer e.close()
	if c.Setup != nil {
		c.Setup(e)
	}
	e.again = 6
	begin := time.Now()
	limit := 60 * time.Second
	if s := os.Getenv("VH_SHRINK_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	stop := func() bool { return time.Since(begin) > limit }
	best := f
	run := func(ch []uint64) (bool, []uint64, []span) {
		src := replaySrc(ch)
		cs := c.Gen(src)
		v := c.Run(e, cs)
		e.release()
		if v.Err != nil || v.Fail == "" || v.Kind != f.v.Kind {
			return false, nil, nil
		}
		rec := src.rec
		// trailing zeros are implied
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if less(rec, best.choices) {
			best = failure{index: f.index, v: v, c: cs, choices: append([]uint64(nil), rec...), spans: src.spans}
		}
		return true, rec, src.spans
	}
	minimise(f.choices, f.spans, run, 3000, stop)
	return best
}

type replayFile struct {
	Property string
	Seed     uint64
	Kind     string
	Message  string
	Case     json.RawMessage
}

func saveReplay(c *Check, f failure, seed uint64) string {
	cs, _ := json.Marshal(f.c)
	b, _ := json.MarshalIndent(replayFile{c.ID, seed, f.v.Kind, clip(f.v.Fail, 8000), cs}, "", " ")
	h := sha256.Sum256(cs)
	d, err := filepath.Abs(filepath.Join(verifDir(), "replays"))
	if err != nil {
		d = "replays"
	}
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%x.json", c.ID, h[:6]))
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func loadReplay(c *Check, file string) (any, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	cs := c.New()
	return cs, json.Unmarshal(r.Case, cs)
}

func runReplay(c *Check, file string) int {
	cs, err := loadReplay(c, file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 65
	}
	e, err := newEnv(os.Getenv("VH_SCRATCH"), os.Getenv("VH_BIN"), 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer e.close()
	if c.Setup != nil {
		c.Setup(e)
	}
	e.again = 20
	v := c.Run(e, cs)
	switch {
	case v.Err != nil:
		fmt.Fprintln(os.Stderr, "check could not decide:", v.Err)
		return 3
	case v.Fail != "":
		fmt.Println(v.Fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, file)
		return 1
	}
	fmt.Println("held")
	return 0
}

// readKnown reads the committed list of known findings of a property:
// directed case name -> what fails.
func readKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" case=") {
			continue
		}
		rest := l[len("known: property="+id+" case="):]
		name, what, _ := strings.Cut(rest, " ")
		out[name] = what
	}
	return out
}

func asBad(err error) Verdict {
	var b *bad
	if errors.As(err, &b) {
		return Verdict{Fail: b.msg, Kind: b.kind}
	}
	return Verdict{Err: err}
}
