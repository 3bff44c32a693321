package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"ecksbee.com/telefacts/vh/proto"
)

// Worker is one process executing the code under test.
type Worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	log  *tailBuf
	done chan struct{}
	used int
}

// tailBuf keeps the beginning of the last crash report and a tail of output.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		// keep crash headers: drop from the front only while no report started
		if i := crashStart(t.b); i >= 0 && i < 1<<19 {
			t.b = t.b[:1<<20]
		} else {
			t.b = append(t.b[:0:0], t.b[len(t.b)-1<<16:]...)
		}
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func crashStart(b []byte) int {
	best := -1
	for _, m := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE", "runtime: "} {
		if i := bytes.Index(b, []byte(m)); i >= 0 && (best < 0 || i < best) {
			best = i
		}
	}
	return best
}

// crash is a worker that ended by itself.
type crash struct {
	kind string // panic, race, memory, killed, exit
	msg  string
}

func (c *crash) Error() string { return c.kind + ": " + c.msg }

var errTimeout = errors.New("no answer in time")

func startWorker(bin, wd, gts string, env ...string) (*Worker, error) {
	cmd := exec.Command(bin)
	cmd.Dir = filepath.Dir(wd)
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + cmd.Dir, "TMPDIR=" + cmd.Dir, "VH_WD=" + wd, "VH_GTS=" + gts,
		"GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=3"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w := &Worker{cmd: cmd, log: &tailBuf{}, done: make(chan struct{})}
	cmd.Stderr = w.log
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in, w.out = in, bufio.NewReaderSize(out, 1<<16)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *Worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// call sends one request; on any error the worker is gone.
func (w *Worker) call(q *proto.Req, limit time.Duration) (*proto.Res, error) {
	w.used++
	type rr struct {
		res *proto.Res
		err error
	}
	ch := make(chan rr, 1)
	go func() {
		if err := proto.Write(w.in, q); err != nil {
			ch <- rr{nil, err}
			return
		}
		var r proto.Res
		err := proto.Read(w.out, &r)
		ch <- rr{&r, err}
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case x := <-ch:
		if x.err == nil {
			return x.res, nil
		}
		return nil, w.postmortem()
	case <-t.C:
		w.kill()
		<-ch
		return nil, errTimeout
	}
}

func (w *Worker) postmortem() error {
	w.in.Close()
	waited := make(chan struct{})
	go func() {
		select {
		case <-waited:
		case <-time.After(10 * time.Second):
			w.cmd.Process.Kill()
		}
	}()
	w.cmd.Wait()
	close(waited)
	log := w.log.String()
	ws, _ := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
	msg := log
	if i := crashStart([]byte(log)); i >= 0 {
		msg = log[i:]
	}
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	switch {
	case ws.Signaled():
		return &crash{"killed", fmt.Sprintf("signal %v", ws.Signal())}
	case strings.Contains(log, "out of memory") || strings.Contains(log, "cannot allocate memory") || strings.Contains(log, "failed to create new OS thread"):
		return &crash{"memory", msg}
	case ws.ExitStatus() == 66:
		return &crash{"race", msg}
	case ws.ExitStatus() == 2 && crashStart([]byte(log)) >= 0:
		return &crash{"panic", msg}
	}
	return &crash{"exit", fmt.Sprintf("exit status %d: %s", ws.ExitStatus(), msg)}
}

// Env is what one shard of a check runs in.
type Env struct {
	dir     string
	wd, gts string
	bin     string
	seq     int
	ws      map[string]*Worker
	maxUse  int
	limit   time.Duration
	vars    []string
	hold    []string // folders to remove after the case
	again   int      // how often to repeat what depends on scheduling
	ctl     *control
}

func newEnv(root, bin string, n int) (*Env, error) {
	e := &Env{dir: filepath.Join(root, fmt.Sprintf("shard%d", n)), bin: bin, ws: map[string]*Worker{}, maxUse: 1 << 30, again: 1, limit: 40 * time.Second}
	var err error
	e.wd, e.gts, err = writeWorld(e.dir)
	return e, err
}

func (e *Env) close() {
	for _, w := range e.ws {
		w.kill()
	}
	e.ws = map[string]*Worker{}
}

// put stores a folder and returns its id.
func (e *Env) put(files map[string]string) (string, error) {
	e.seq++
	id := fmt.Sprintf("f%d", e.seq)
	return id, e.putAs(id, files)
}

func (e *Env) putAs(id string, files map[string]string) error {
	d := filepath.Join(e.wd, "folders", id)
	e.hold = append(e.hold, d)
	return writeDir(d, files)
}

func writeDir(d string, files map[string]string) error {
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	for n, c := range files {
		p := filepath.Join(d, n)
		if !strings.HasPrefix(p, d+string(filepath.Separator)) {
			return fmt.Errorf("bad file name %q", n)
		}
		if strings.Contains(n, "/") {
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				return err
			}
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (e *Env) release() {
	for _, d := range e.hold {
		if strings.HasPrefix(d, e.dir+"/") {
			os.RemoveAll(d)
		}
	}
	e.hold = e.hold[:0]
}

// fresh drops a worker so that the next call starts a new process.
func (e *Env) fresh(name string) {
	if w := e.ws[name]; w != nil {
		delete(e.ws, name)
		w.kill()
	}
}

// ask calls the named worker, starting it when needed.
func (e *Env) ask(name string, q *proto.Req) (*proto.Res, error) {
	w := e.ws[name]
	if w != nil && w.used >= e.maxUse {
		e.fresh(name)
		w = nil
	}
	if w == nil {
		bin, role, _ := strings.Cut(name, ":")
		var err error
		w, err = startWorker(filepath.Join(e.bin, bin), e.wd, e.gts, append([]string{"VH_ROLE=" + role}, e.vars...)...)
		if err != nil {
			return nil, &harnessErr{err}
		}
		e.ws[name] = w
	}
	r, err := w.call(q, e.limit)
	if err != nil {
		delete(e.ws, name)
	}
	return r, err
}

// try asks and settles what a failure means: a crash that is a defect of the
// answering process or an answer that never comes on fresh processes too is
// returned as a *bad; everything else that goes wrong is a harness error.
func (e *Env) try(name string, q *proto.Req) (*proto.Res, error) {
	r, err := e.ask(name, q)
	if err == nil {
		return r, nil
	}
	var c *crash
	if errors.As(err, &c) && (c.kind == "panic" || c.kind == "race") {
		return nil, &bad{c.kind, "the process died: " + c.msg}
	}
	var he *harnessErr
	if errors.As(err, &he) {
		return nil, err
	}
	first := err
	kind := func(err error) string {
		if err == errTimeout {
			return "timeout"
		}
		if errors.As(err, &c) {
			return c.kind
		}
		return "other"
	}
	save := e.limit
	e.limit *= 2
	defer func() { e.limit = save }()
	r, err = e.ask(name, q)
	if err == nil {
		return r, nil
	}
	if errors.As(err, &c) && (c.kind == "panic" || c.kind == "race") {
		return nil, &bad{c.kind, "the process died: " + c.msg}
	}
	if k := kind(err); k == kind(first) && k == "timeout" {
		return nil, &bad{"timeout", fmt.Sprintf("no answer within %v, twice, on fresh processes", save)}
	} else if k == kind(first) && k == "memory" {
		return nil, &bad{"memory", "memory exhausted twice on fresh processes: " + err.Error()}
	}
	return nil, &harnessErr{fmt.Errorf("worker %s: %v, then %v", name, first, err)}
}

type harnessErr struct{ err error }

func (h *harnessErr) Error() string { return h.err.Error() }

type bad struct{ kind, msg string }

func (b *bad) Error() string { return b.kind + ": " + b.msg }
