// drive runs Lisp programs on the real interpreter and records what can be observed.
// stdin: one job per line; stdout: one line {"id":n,"trace":[...]} per job, or {"id":n,"traces":[[...],...]}
// for a job with several Worlds.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	g "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/command"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
	h "verif/harness"
)

type job struct {
	Id    int      `json:"id"`
	Calls []string `json:"calls"`
	// files of the working directory: [[name, content], ...]; when it is there (even empty) the job runs in a
	// directory of its own and the trace ends with the files and the number of files left open
	Files [][2]string `json:"files"`
	Stdin string      `json:"stdin"`
	// cancel the context of the call after the n-th event (and that many milliseconds)
	Cancel   int `json:"cancel"`
	CancelMs int `json:"cancelms"`
	// the context is a passed deadline then, not a cancelled one
	Deadline bool `json:"deadline"`
	// the milliseconds each call may take until its context ends
	Timeout int `json:"timeout"`
	// the call (from 1) which gets a context that is cancelled already
	Precancel int `json:"precancel"`
	// which view of the World each call uses (see views)
	Views []int `json:"views"`
	// several Worlds: the calls of each of them, and the order in which they take their turns, or all at the same time
	Worlds [][]string `json:"worlds"`
	Order  []int      `json:"order"`
	Par    bool       `json:"par"`
	// before and after the Worlds run: calls of another World, and of the first one
	Pre   string   `json:"pre"`
	After []string `json:"after"`
	// which function gets the text: 0 Interpret, 1 InterpretBytes, 2 InterpretNodes
	Api int `json:"api"`
	// do not take more than this much stack (MB)
	Stack int `json:"stack"`
}

type result struct {
	Id     int     `json:"id"`
	Trace  []any   `json:"trace,omitempty"`
	Traces [][]any `json:"traces,omitempty"`
}

var out *bufio.Writer

func emit(r result) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

const maxEvents = 3000

func cps(s string) []any {
	r := []any{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// session is one World and what is observed of it
type session struct {
	j      *job
	trace  []any
	w      *g.World
	views  []*g.World
	buf    bytes.Buffer
	ebuf   bytes.Buffer
	cancel func()
	events int
	k      int
}

func newSession(j *job) *session {
	s := &session{j: j, trace: []any{}}
	w := g.New()
	w.SetStdout(&s.buf)
	w.SetErrout(&s.ebuf)
	s.w = w.Flet(g.Functions{
		g.NewSymbol("tr"):        &g.Function{F: s.tr},
		g.NewSymbol("host-fail"): &g.Function{C: 1, F: hostFail},
	})
	s.views = []*g.World{s.w}
	if len(j.Views) > 0 {
		hx, hy, hf := g.NewSymbol("host-x"), g.NewSymbol("host-y"), g.NewSymbol("host-f")
		v1 := s.w.Let(g.Variables{hx: g.Integer(1), hy: g.Integer(2)})
		v2 := v1.Let(&g.Pair{Key: hx, Value: g.Integer(3)})
		v3 := s.w.Flet(g.Functions{hf: &g.Function{C: 1, F: hostF}})
		v4 := v1.Flet(g.Functions{hf: &g.Function{C: 1, F: hostF}, g.NewSymbol("car"): &g.Function{C: 1, F: hostF}})
		s.views = append(s.views, v1, v2, v3, v4)
	}
	return s
}

func hostF(ctx context.Context, w *g.World, args []g.Node) (g.Node, error) {
	return &g.Cons{Car: g.NewSymbol("host"), Cdr: &g.Cons{Car: args[0], Cdr: g.Null}}, nil
}

func hostFail(ctx context.Context, w *g.World, args []g.Node) (g.Node, error) {
	return nil, &h.HostError{Key: args[0].String()}
}

func (s *session) flush() {
	if s.buf.Len() > 0 {
		s.trace = append(s.trace, h.J{"out", cps(s.buf.String())})
		s.buf.Reset()
	}
	if s.ebuf.Len() > 0 {
		s.trace = append(s.trace, h.J{"eout", cps(s.ebuf.String())})
		s.ebuf.Reset()
	}
}

func (s *session) tr(ctx context.Context, w *g.World, args []g.Node) (g.Node, error) {
	ev := h.J{}
	for _, a := range args {
		ev = append(ev, h.Ext(w, a, 0))
	}
	if len(s.trace) > maxEvents {
		return nil, fmt.Errorf("too many events")
	}
	s.trace = append(s.trace, h.J{"ev", ev})
	s.events++
	if s.j.Cancel > 0 && s.events == s.j.Cancel && s.cancel != nil {
		s.trace = append(s.trace, h.J{"cancel"})
		if s.j.CancelMs > 0 {
			c := s.cancel
			time.AfterFunc(time.Duration(s.j.CancelMs)*time.Millisecond, c)
		} else {
			s.cancel()
		}
	}
	if len(args) > 0 {
		return args[len(args)-1], nil
	}
	return g.Null, nil
}

// deadline is a context with a deadline which passes when we say so
type deadline struct {
	context.Context
	done chan struct{}
	once sync.Once
}

func (d *deadline) pass()                 { d.once.Do(func() { close(d.done) }) }
func (d *deadline) Done() <-chan struct{} { return d.done }
func (d *deadline) Err() error {
	select {
	case <-d.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

func (s *session) call(text string) {
	ctx, cf := context.WithCancel(context.Background())
	s.cancel = cf
	if s.j.Deadline {
		d := &deadline{Context: context.Background(), done: make(chan struct{})}
		ctx, s.cancel = d, d.pass
	}
	if s.j.Timeout > 0 {
		ctx, s.cancel = context.WithTimeout(ctx, time.Duration(s.j.Timeout)*time.Millisecond)
		defer s.cancel()
	}
	w := s.w
	if s.k < len(s.j.Views) {
		w = s.views[s.j.Views[s.k]]
	}
	s.k++
	if s.k == s.j.Precancel {
		s.trace = append(s.trace, h.J{"cancel"})
		s.cancel()
	}
	var v g.Node
	var err error
	switch s.j.Api {
	case 1:
		v, err = w.InterpretBytes(ctx, []byte(text))
	case 2:
		var ns []g.Node
		ns, err = g.ReadAll(strings.NewReader(text))
		if err == nil {
			v, err = w.InterpretNodes(ctx, ns)
		}
	default:
		v, err = w.Interpret(ctx, text)
	}
	why := ctx.Err()
	cf()
	s.cancel = nil
	s.flush()
	if err != nil && why != nil && !errors.Is(err, why) && h.ErrClass(err) == "ctx" {
		s.trace = append(s.trace, h.J{"res", "err", h.J{"s", "another context's error"}})
		return
	}
	s.trace = append(s.trace, h.Outcome(s.w, v, err))
}

func (s *session) crashed() {
	if e := recover(); e != nil {
		s.trace = append(s.trace, h.J{"crash", fmt.Sprint(e)})
	}
}

var (
	home, _ = os.Getwd()
	devnull *os.File
)

func openFiles(dir string) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			n++
		}
	}
	return n
}

func listFiles(dir string) []any {
	r := []any{}
	l, _ := os.ReadDir(dir)
	names := []string{}
	for _, e := range l {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err == nil {
			r = append(r, h.J{cps(n), cps(string(b))})
		}
	}
	return r
}

func run(j *job) (res result) {
	res.Id = j.Id
	if len(j.Worlds) > 0 {
		res.Traces = runWorlds(j)
		return
	}
	var s *session
	defer func() { res.Trace = s.trace }()
	if j.Files != nil {
		dir, err := os.MkdirTemp(home, "job")
		if err != nil {
			panic(err)
		}
		sub := filepath.Join(dir, "d")
		os.Mkdir(sub, 0o777)
		defer os.RemoveAll(dir)
		for _, f := range j.Files {
			os.WriteFile(filepath.Join(sub, f[0]), []byte(f[1]), 0o666)
		}
		os.WriteFile(filepath.Join(dir, "stdin"), []byte(j.Stdin), 0o666)
		in, err := os.Open(filepath.Join(dir, "stdin"))
		if err != nil {
			panic(err)
		}
		old := os.Stdin
		os.Stdin = in
		os.Chdir(sub)
		runtime.GC()
		gc := debug.SetGCPercent(-1)
		defer func() {
			debug.SetGCPercent(gc)
			os.Chdir(home)
			os.Stdin = old
			in.Close()
		}()
		defer func() {
			s.trace = append(s.trace, h.J{"files", listFiles(sub), openFiles(sub)})
		}()
	}
	s = newSession(j)
	defer s.crashed()
	for _, c := range j.Calls {
		s.call(c)
	}
	return
}

func runWorlds(j *job) [][]any {
	ss := make([]*session, len(j.Worlds))
	for i := range ss {
		ss[i] = newSession(j)
	}
	if j.Pre != "" {
		newSession(j).call(j.Pre)
	}
	if j.Par {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range ss {
			wg.Add(1)
			go func(s *session, calls []string) {
				defer wg.Done()
				defer s.crashed()
				<-start
				for _, c := range calls {
					s.call(c)
				}
			}(ss[i], j.Worlds[i])
		}
		close(start)
		wg.Wait()
	} else {
		next := make([]int, len(ss))
		dead := make([]bool, len(ss))
		turn := func(i int) {
			s := ss[i]
			defer func() {
				if e := recover(); e != nil {
					s.trace = append(s.trace, h.J{"crash", fmt.Sprint(e)})
					dead[i] = true
				}
			}()
			if !dead[i] && next[i] < len(j.Worlds[i]) {
				c := j.Worlds[i][next[i]]
				next[i]++
				s.call(c)
			}
		}
		for _, i := range j.Order {
			turn(i)
		}
		for i := range ss {
			for !dead[i] && next[i] < len(j.Worlds[i]) {
				turn(i)
			}
		}
	}
	r := make([][]any, len(ss))
	for i, s := range ss {
		r[i] = s.trace
	}
	if len(j.After) > 0 {
		s := ss[0]
		s.trace = []any{}
		func() {
			defer s.crashed()
			for _, c := range j.After {
				s.call(c)
			}
		}()
		r = append(r, s.trace)
	}
	return r
}

func main() {
	// results go to the real standard output: programs which write there must not disturb them
	out = bufio.NewWriter(os.Stdout)
	input := os.Stdin
	devnull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdin, os.Stdout, os.Stderr = devnull, devnull, devnull
	limit := 30 * time.Second
	if s := os.Getenv("DRIVE_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	in := bufio.NewReaderSize(input, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		mb := 512
		if j.Stack > 0 {
			mb = j.Stack
		}
		debug.SetMaxStack(mb << 20)
		done := make(chan result)
		go func() { done <- run(&j) }()
		select {
		case t := <-done:
			emit(t)
		case <-time.After(limit):
			emit(result{Id: j.Id, Trace: []any{h.J{"hang"}}})
			os.Exit(3)
		}
	}
}
