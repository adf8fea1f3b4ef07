package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/harness/drv"
	"verif/harness/toy"

	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func init() { commands["graph"] = graphCmd }

type inRec struct {
	From int    `json:"from"`
	V    string `json:"v"`
}
type edge struct {
	S string `json:"s"`
	T string `json:"t"`
	L struct {
		A string `json:"a"`
		M struct {
			From, To, Type int
			V              string
		} `json:"m"`
		Class string  `json:"class"`
		Res   string  `json:"res"`
		In    []inRec `json:"in"`
		Who   int     `json:"who"`
		Rnd   int     `json:"rnd"`
	} `json:"l"`
	Done bool  `json:"done"`
	Err  []int `json:"err"`
	Rnd  int   `json:"rnd"`
}

func (e *edge) key() string {
	if e.L.A == "P" {
		return "P"
	}
	return fmt.Sprintf("H type=%d from=%d to=%d %s", e.L.M.Type, e.L.M.From, e.L.M.To, e.L.M.V)
}

type graph struct {
	Conf    string
	Self    int
	Parties []int
	Types   []int
	GenFail int
	init    string
	adj     map[string]map[string][]*edge
	keys    map[string][]string // actions of a state in order
	path    map[string][]string // shortest path
}

type mismatch struct {
	Kind string   `json:"kind"`
	Ev   string   `json:"ev"`
	Conf string   `json:"conf"`
	Path []string `json:"path"`
	Note string   `json:"note"`
}

// walker follows the graph with a real session.
type walker struct {
	g    *graph
	st   *state.State
	log  *toy.Log
	at   string
	path []string
	seen int // log entries already judged
	prev drv.Obs
	bad  []mismatch
}

func (w *walker) fail(ev, kind, note string, args ...interface{}) {
	w.bad = append(w.bad, mismatch{Kind: kind, Ev: ev, Conf: w.g.Conf, Path: append([]string{}, w.path...), Note: fmt.Sprintf(note, args...)})
}

func observe(st *state.State) drv.Obs {
	o := drv.Obs{Done: st.IsFinished(), Err: drv.ErrOf(st.Err())}
	select {
	case <-st.Done():
		o.Chan = true
	default:
	}
	return o
}

func (g *graph) start() *walker {
	st, l, err := toy.New(g.Self, g.Parties, g.Types, g.GenFail)
	w := &walker{g: g, st: st, log: l, at: g.init}
	if err != nil {
		w.fail("N", "refused", "%v", err)
	}
	return w
}

func eqInts(a, b []int) bool { return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b)) }

// step performs an action; false when the session cannot be followed any further.
func (w *walker) step(key string) bool {
	w.path = append(w.path, key)
	es := w.g.adj[w.at][key]
	if len(es) == 0 {
		panic("no such action: " + key + " at " + w.at)
	}
	n := len(w.bad)
	if drv.Enough() {
		return false
	}
	if crash := drv.Guard(func() { w.perform(key, es) }); crash != "" {
		w.bad = w.bad[:n:n]
		w.fail(key[:1], "crash", "%s", crash)
	}
	return len(w.bad) == n
}

func (w *walker) perform(key string, es []*edge) {
	e := es[0]
	if e.L.A == "H" {
		err := w.st.HandleMessage(toy.Wire(e.L.M.Type, e.L.M.From, e.L.M.To, e.L.M.V))
		c := e.L.Class
		rejected := c != "accepted" && c != "ignored"
		if rejected && err == nil {
			w.fail("H", "accepts-"+c, "")
		}
		if !rejected && err != nil {
			k := "rejects-" + c
			w.fail("H", k, "%v", err)
		}
		o := observe(w.st)
		w.obs("H", o, e)
		if len(w.log.Calls) != w.seen || len(w.log.Gens) > 0 && w.seenGens() != len(w.log.Gens) {
			w.fail("H", "process-early", "a hand-over reached the round")
		}
	} else {
		gens := len(w.log.Gens)
		out := w.st.ProcessAll()
		o := observe(w.st)
		// choose the outcome the session took
		for _, x := range es {
			if eqInts(x.Err, o.Err) {
				e = x
			}
		}
		calls := w.log.Calls[w.seen:]
		w.seen = len(w.log.Calls)
		got := []string{}
		for _, m := range out {
			if m.Sign2 == nil || m.Type != 4 || int(m.From) != w.g.Self || m.To != 0 {
				got = append(got, "?")
				continue
			}
			got = append(got, drv.Hex(m.Sign2.Zi.Bytes()))
		}
		switch e.L.Res {
		case "idle":
			if len(out) != 0 {
				if e.Done {
					w.fail("P", "emit-after-end", "%v", got)
				} else {
					w.fail("P", "emit-unready", "%v", got)
				}
			}
			if len(calls) != 0 || len(w.log.Gens) != gens {
				w.fail("P", "process-early", "calls %v", calls)
			}
			w.obs("P", o, e)
		case "advance":
			if len(o.Err) != 0 {
				w.fail("P", "aborts-clean", "%v", w.st.Err())
				break
			}
			want := []string{}
			for i := 0; i < toy.Count(e.L.Rnd); i++ {
				want = append(want, toy.Emitted(e.L.Rnd, i))
			}
			if !reflect.DeepEqual(got, want) {
				w.fail("P", "emit-count", "got %v want %v", got, want)
			}
			w.inputs(calls, e, false)
			if len(w.log.Gens) != gens+1 {
				w.fail("P", "emit-count", "generated %d times", len(w.log.Gens)-gens)
			}
			if o.Done != e.Done {
				if o.Done {
					w.fail("P", "ends-early", "")
				} else {
					w.fail("P", "no-end", "")
				}
			}
			w.obs("P", o, e)
		default: // abort, genfail
			if len(out) != 0 {
				w.fail("P", "emit-on-abort", "%v", got)
			}
			if len(o.Err) == 0 {
				w.fail("P", "accepts-fault", "")
				break
			}
			if len(o.Err) != 2 {
				w.fail("P", "blame-form", "%v", w.st.Err())
				break
			}
			found := false
			for _, x := range es {
				found = found || x.Err[0] == o.Err[0]
			}
			if !found {
				w.fail("P", "blame-party", "%v", o.Err)
			}
			if o.Err[1] != e.Err[1] {
				w.fail("P", "blame-round", "%v instead of %v", o.Err, e.Err)
			}
			w.inputs(calls, e, e.L.Res == "abort")
			w.obs("P", o, e)
		}
	}
	w.at = e.T
}

func (w *walker) seenGens() int { return len(w.log.Gens) }

// inputs compares the messages passed to the round with the accepted ones.
func (w *walker) inputs(calls []toy.Call, e *edge, partial bool) {
	want, got := map[string]bool{}, []string{}
	for _, i := range e.L.In {
		want[fmt.Sprintf("%d%s", i.From, i.V)] = true
	}
	seen := map[string]bool{}
	for _, c := range calls {
		if c.From == -1 {
			continue // round 0 has no messages
		}
		k := fmt.Sprintf("%d%s", c.From, c.V)
		got = append(got, k)
		if !want[k] {
			w.fail("P", "inputs", "the round got %v, accepted were %v", k, e.L.In)
		}
		if seen[k] {
			w.fail("P", "inputs", "the round got %v twice", k)
		}
		seen[k] = true
	}
	if !partial && len(seen) != len(want) {
		w.fail("P", "inputs", "the round got %v, accepted were %v", got, e.L.In)
	}
}

// obs compares what can be observed with the state the specification is in.
func (w *walker) obs(ev string, o drv.Obs, e *edge) {
	if o.Done != o.Chan {
		w.fail(ev, "obs-chan", "done %v, channel %v", o.Done, o.Chan)
	}
	if o.Done != e.Done {
		w.fail(ev, "changed-done", "%v", o.Done)
	}
	if !eqInts(o.Err, e.Err) {
		w.fail(ev, "changed-err", "%v instead of %v", o.Err, e.Err)
	}
	if o.Done {
		if err := drv.ErrOf(w.st.WaitForError()); !eqInts(err, o.Err) {
			w.fail(ev, "obs-wait", "%v instead of %v", err, o.Err)
		}
	}
	want := 0
	if e.Done {
		want = 1
	}
	if w.log.Resets != want {
		w.fail(ev, "reset-count", "%d calls of Reset", w.log.Resets)
	}
}

// finish drives the session to its end: accepted is every missing message, then processing.
func (w *walker) finish() {
	for n := 0; n < 40; n++ {
		key := ""
		for _, k := range w.g.keys[w.at] {
			e := w.g.adj[w.at][k][0]
			if e.L.A == "H" && e.L.Class == "accepted" && e.L.M.V == "a" {
				key = k
				break
			}
		}
		if key == "" {
			key = "P"
		}
		done := w.g.adj[w.at]["P"][0].Done && w.g.adj[w.at]["P"][0].L.Res == "idle"
		if !w.step(key) || done {
			return
		}
	}
}

func readGraph(path, conf string) (*graph, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	g := &graph{Conf: conf, adj: map[string]map[string][]*edge{}, keys: map[string][]string{}, path: map[string][]string{}}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "\"EDGE ") {
			if strings.HasPrefix(l, "\"CONF ") {
				s, err := strconv.Unquote(l)
				if err != nil {
					return nil, err
				}
				var c struct {
					Self    int
					Parties []int
					Types   []int
					Genfail int
				}
				if err := json.Unmarshal([]byte(s[5:]), &c); err != nil {
					return nil, err
				}
				g.Self, g.Parties, g.Types, g.GenFail = c.Self, c.Parties, c.Types, c.Genfail
			}
			continue
		}
		s, err := strconv.Unquote(l)
		if err != nil {
			return nil, err
		}
		var e edge
		if err := json.Unmarshal([]byte(s[5:]), &e); err != nil {
			return nil, err
		}
		if g.adj[e.S] == nil {
			g.adj[e.S] = map[string][]*edge{}
		}
		k := e.key()
		if len(g.adj[e.S][k]) == 0 {
			g.keys[e.S] = append(g.keys[e.S], k)
		}
		g.adj[e.S][k] = append(g.adj[e.S][k], &e)
		if g.init == "" && strings.HasPrefix(e.S, "<<0, FALSE") && !strings.Contains(e.S, "\"a\"") && !strings.Contains(e.S, "\"b\"") && !strings.Contains(e.S, "\"x\"") {
			g.init = e.S
		}
	}
	for _, ks := range g.keys {
		sort.Strings(ks)
	}
	// shortest deterministic paths: several outcomes are resolved by the session, so such
	// states are entered by the first outcome the session takes
	g.path[g.init] = []string{}
	queue := []string{g.init}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, k := range g.keys[s] {
			for _, e := range g.adj[s][k] {
				if _, ok := g.path[e.T]; !ok {
					g.path[e.T] = append(append([]string{}, g.path[s]...), k)
					queue = append(queue, e.T)
				}
			}
		}
	}
	return g, sc.Err()
}

// graph <out> <seed> <pairs per state> <walks> <conf> <file> ...
func graphCmd(args []string) error {
	seed, pairs, walks := atoi(args[1]), atoi(args[2]), atoi(args[3])
	type result struct {
		Conf     string     `json:"conf"`
		States   int        `json:"states"`
		Edges    int        `json:"edges"`
		Paths    int        `json:"paths"`
		Steps    int        `json:"steps"`
		Mismatch []mismatch `json:"mismatch"`
		Sample   []string   `json:"sample"`
	}
	var all []result
	for a := 4; a+1 < len(args); a += 2 {
		g, err := readGraph(args[a+1], args[a])
		if err != nil {
			return err
		}
		if g.init == "" || len(g.Parties) == 0 {
			return fmt.Errorf("%s: no graph", args[a])
		}
		res := result{Conf: g.Conf, States: len(g.adj), Mismatch: []mismatch{}}
		states := []string{}
		for s, x := range g.adj {
			states = append(states, s)
			for _, es := range x {
				res.Edges += len(es)
			}
		}
		sort.Strings(states)
		var mu sync.Mutex
		work := make(chan string, 64)
		var wg sync.WaitGroup
		kinds := map[string]int{}
		merge := func(w *walker) {
			mu.Lock()
			res.Paths++
			res.Steps += len(w.path)
			for _, m := range w.bad {
				if kinds[m.Kind] < 4 {
					kinds[m.Kind]++
					res.Mismatch = append(res.Mismatch, m)
				}
			}
			mu.Unlock()
		}
		run := func(prefix []string, more ...string) *walker {
			w := g.start()
			ok := len(w.bad) == 0
			for _, k := range prefix {
				ok = ok && w.step(k)
			}
			for _, k := range more {
				ok = ok && w.step(k)
			}
			if ok {
				w.finish()
			}
			merge(w)
			return w
		}
		for i := 0; i < runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range work {
					r := rand.New(rand.NewSource(int64(seed)*31 + int64(len(s)) + int64(len(g.path[s]))*7919 + hash(s)))
					p := g.path[s]
					var p2 [][2]string
					for _, k := range g.keys[s] {
						run(p, k)
						// the action must not change what later ones do, even if it changed nothing
						for _, e := range g.adj[s][k] {
							for _, k2 := range g.keys[e.T] {
								p2 = append(p2, [2]string{k, k2})
							}
						}
					}
					n := pairs
					if n < 0 || n > len(p2) {
						n = len(p2)
					} else {
						r.Shuffle(len(p2), func(i, j int) { p2[i], p2[j] = p2[j], p2[i] })
					}
					for _, k := range p2[:n] {
						run(p, k[0], k[1])
					}
				}
			}()
		}
		for _, s := range states {
			work <- s
		}
		close(work)
		wg.Wait()
		for i := 0; i < walks; i++ {
			r := rand.New(rand.NewSource(int64(seed)*1000 + int64(i)))
			w := g.start()
			if len(w.bad) == 0 {
				for n := 0; n < 60; n++ {
					ks := g.keys[w.at]
					k := ks[r.Intn(len(ks))]
					if r.Intn(6) == 0 {
						k = "P"
					}
					if !w.step(k) {
						break
					}
				}
				if len(w.bad) == 0 {
					w.finish()
				}
			}
			merge(w)
			if i == 0 {
				res.Sample = w.path
				if len(res.Sample) > 12 {
					res.Sample = res.Sample[:12]
				}
			}
		}
		all = append(all, res)
	}
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	return json.NewEncoder(f).Encode(all)
}

func hash(s string) int64 {
	h := int64(0)
	for _, c := range s {
		h = h*131 + int64(c)
	}
	return h
}
