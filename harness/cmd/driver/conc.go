package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"
	"verif/harness/scen"
	"verif/harness/toy"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func init() {
	commands["conc"] = conc
	commands["concreal"] = concReal
	commands["concshare"] = concShare
}

// lop is one call of a concurrent history. Inv and Ret order the calls in real time.
type lop struct {
	K    string `json:"k"`
	Inv  int64  `json:"inv"`
	Ret  int64  `json:"ret"`
	T0   int64  `json:"t0"` // microseconds
	T1   int64  `json:"t1"`
	Type int    `json:"type"`
	From int    `json:"from"`
	To   int    `json:"to"`
	V    string `json:"v"`
	OK   bool   `json:"ok"`
	Out  []int  `json:"out"`
	Err  []int  `json:"err"`
}

type history struct {
	ID      int    `json:"id"`
	Self    int    `json:"self"`
	Parties []int  `json:"parties"`
	Types   []int  `json:"types"`
	GenFail int    `json:"genfail"`
	Seq     bool   `json:"seq"`
	T       int64  `json:"t"`  // timeout in microseconds, 0: none
	T0      int64  `json:"t0"` // before the session was created
	Note    string `json:"note"`
	Hang    string `json:"hang"`
	Ops     []lop  `json:"ops"`
}

var epoch = time.Now()

func micros() int64 { return time.Since(epoch).Microseconds() }

// player makes calls on a session and records them.
type player struct {
	st    *state.State
	clock *int64
	mu    sync.Mutex
	ops   []lop
	hang  string
}

func (p *player) do(k string, f func(o *lop)) {
	o := lop{K: k, Out: []int{}, Err: []int{}}
	o.T0 = micros()
	o.Inv = atomic.AddInt64(p.clock, 1)
	defer func() {
		if r := recover(); r != nil {
			p.mu.Lock()
			p.hang = fmt.Sprintf("panic in %s: %v", k, r)
			p.mu.Unlock()
		}
	}()
	f(&o)
	o.Ret = atomic.AddInt64(p.clock, 1)
	o.T1 = micros()
	p.mu.Lock()
	p.ops = append(p.ops, o)
	p.mu.Unlock()
}
func (p *player) handle(ty, from, to int, v string) {
	m := toy.Wire(ty, from, to, v)
	p.do("H", func(o *lop) {
		o.Type, o.From, o.To, o.V = ty, from, to, v
		o.OK = p.st.HandleMessage(m) == nil
	})
}
func (p *player) process() {
	p.do("P", func(o *lop) {
		for _, m := range p.st.ProcessAll() {
			if m.Sign2 == nil {
				o.Out = append(o.Out, -1)
				continue
			}
			b := m.Sign2.Zi.Bytes()
			o.Out = append(o.Out, int(b[0])|int(b[1])<<8)
		}
	})
}
func (p *player) finished() { p.do("F", func(o *lop) { o.OK = p.st.IsFinished() }) }
func (p *player) err()      { p.do("E", func(o *lop) { o.Err = drv.ErrOf(p.st.Err()) }) }
func (p *player) done() {
	p.do("D", func(o *lop) {
		select {
		case <-p.st.Done():
			o.OK = true
		default:
		}
	})
}
func (p *player) wait() { p.do("W", func(o *lop) { o.Err = drv.ErrOf(p.st.WaitForError()) }) }
func (p *player) waitDone() {
	p.do("D", func(o *lop) { <-p.st.Done(); o.OK = true })
}

// conc <out> <seed> <count>: histories of concurrent calls on one session of the toy protocol.
func conc(args []string) error {
	seed, count := atoi(args[1]), atoi(args[2])
	hs := make([]*history, count)
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := range hs {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if drv.Enough() {
				return
			}
			r := rand.New(rand.NewSource(int64(seed)*7919 + int64(i)))
			hs[i] = concOne(r)
		}()
	}
	wg.Wait()
	return writeHistories(args[0], hs)
}

func concOne(r *rand.Rand) *history {
	n := 2 + r.Intn(2)
	types := [][]int{{1}, {1, 2}, {3, 4}, {3, 4, 1}}[r.Intn(4)]
	h := &history{Self: 2, Types: types, GenFail: -1}
	for i := 0; i < n; i++ {
		h.Parties = append(h.Parties, 1+i)
	}
	if r.Intn(6) == 0 {
		h.GenFail = r.Intn(len(types) + 1)
	}
	bad := r.Intn(4) == 0
	var hr sync.Mutex
	hrand := rand.New(rand.NewSource(r.Int63()))
	delay := func(string) {
		hr.Lock()
		k := hrand.Intn(8)
		hr.Unlock()
		switch {
		case k < 3:
			runtime.Gosched()
		case k == 3:
			time.Sleep(time.Duration(50*(1+k)) * time.Microsecond)
		case k == 4:
			for i := 0; i < 2000; i++ {
				runtime.Gosched()
			}
		}
	}
	var to time.Duration
	if r.Intn(3) == 0 {
		to = time.Duration(1+r.Intn(4)) * 400 * time.Microsecond
		if r.Intn(4) == 0 {
			to = time.Hour
		}
	}
	h.T, h.T0 = to.Microseconds(), micros()
	var clock int64
	st, _, err := toy.NewHooked(h.Self, h.Parties, types, h.GenFail, to, delay)
	if err != nil {
		h.Hang = "refused: " + err.Error()
		h.Ops = []lop{}
		return h
	}
	p := &player{st: st, clock: &clock}

	// scripts of the goroutines
	type call struct {
		k, ty, from, to int
		v               string
	}
	pool := []call{}
	add := func(c call) { pool = append(pool, c) }
	for _, ty := range types {
		for _, q := range h.Parties {
			if q == h.Self {
				continue
			}
			v := "a"
			if bad && r.Intn(2) == 0 {
				v = "x"
			}
			to := 0
			if ty == 2 {
				to = h.Self
			}
			add(call{0, ty, q, to, v})
			if r.Intn(3) == 0 {
				add(call{0, ty, q, to, "b"})
			}
		}
		add(call{k: 1})
		if r.Intn(2) == 0 {
			add(call{k: 1})
		}
	}
	add(call{k: 1})
	for i := 0; i < 2+r.Intn(4); i++ {
		add(call{k: 2 + r.Intn(3)})
	}
	if r.Intn(4) == 0 {
		add(call{0, types[0], 9, 0, "a"})
	}
	g := 2 + r.Intn(4)
	if r.Intn(2) == 0 {
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	}
	scripts := make([][]call, g)
	for i, c := range pool {
		k := i % g
		if r.Intn(3) == 0 {
			k = r.Intn(g)
		}
		scripts[k] = append(scripts[k], c)
	}
	run := func(c call) {
		switch c.k {
		case 0:
			p.handle(c.ty, c.from, c.to, c.v)
		case 1:
			p.process()
		case 2:
			p.finished()
		case 3:
			p.err()
		case 4:
			p.done()
		}
	}
	start := make(chan bool)
	var wg, ww sync.WaitGroup
	for _, sc := range scripts {
		sc := sc
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, c := range sc {
				run(c)
			}
		}()
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		ww.Add(1)
		viaChan := r.Intn(3) == 0
		go func() {
			defer ww.Done()
			if viaChan {
				p.waitDone()
			} else {
				p.wait()
			}
			p.finished()
			p.err()
		}()
	}
	close(start)
	if !waitFor(&wg) {
		return p.stuck(h, "the calls did not return")
	}
	// bring it to an end
	for i := 0; i < len(types)+2; i++ {
		p.process()
		p.finished()
		p.mu.Lock()
		fin := p.ops[len(p.ops)-1].OK || p.hang != ""
		p.mu.Unlock()
		if fin {
			break
		}
		for _, ty := range types {
			for _, q := range h.Parties {
				if q != h.Self {
					to := 0
					if ty == 2 {
						to = h.Self
					}
					p.handle(ty, q, to, "a")
				}
			}
		}
	}
	if !waitFor(&ww) {
		return p.stuck(h, "a waiter was not woken")
	}
	p.err()
	p.done()
	p.process()
	p.mu.Lock()
	defer p.mu.Unlock()
	h.Ops, h.Hang = p.ops, p.hang
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Inv < h.Ops[j].Inv })
	return h
}

func waitFor(wg *sync.WaitGroup) bool {
	ch := make(chan bool)
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(20 * time.Second):
		drv.Hung()
		return false
	}
}

func (p *player) stuck(h *history, why string) *history {
	p.mu.Lock()
	defer p.mu.Unlock()
	h.Ops = append([]lop{}, p.ops...)
	if h.Hang = p.hang; h.Hang == "" {
		h.Hang = why
	}
	return h
}

// ---------------------------------------------------------------------------

// node is a party of a real protocol run by many goroutines.
type node struct {
	id  uint16
	l   *drv.Live
	in  chan *messages.Message
	mu  sync.Mutex
	acc [][]byte   // accepted messages
	out [][][]byte // what the processing calls returned
}

// concReal <out> <seed> <count>: protocol sessions whose parties are used from many goroutines. What
// happened is written down in the order of the rounds and judged like a sequential session.
func concReal(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	seed, count := atoi(args[1]), atoi(args[2])
	drv.UseStream(fmt.Sprintf("concreal/%d", seed))
	for i := 0; i < count; i++ {
		if drv.Enough() {
			return nil
		}
		r := rand.New(rand.NewSource(int64(seed)*7919 + int64(i)))
		s := concRealOne(r, i)
		s.ID = i + 1
		if err := drv.WriteSessions(w, []*drv.Session{s}); err != nil {
			return err
		}
	}
	return nil
}

func concRealOne(r *rand.Rand, i int) *drv.Session {
	n := 2 + r.Intn(3)
	ids := drv.RandIDs(r, n)
	t := 1 + r.Intn(n-1)
	var s *drv.Session
	var err error
	to := time.Duration(r.Intn(2)) * time.Hour
	if i%2 == 0 {
		s, err = drv.NewKeygen("conckg", ids, ids, t, to)
	} else {
		var key *scen.Key
		if key, err = scen.Deal(r, ids, t); err == nil {
			s, err = drv.NewSign("concsg", ids, ids, key.Shares, key.Public, []byte("concurrent"), to)
		}
	}
	if err != nil {
		s = &drv.Session{Family: "conc", Proto: "keygen", Parties: drv.Ints(ids), T: t, Live: []int{}, Pub: []string{}, Sec: []string{}}
		s.Refuse(err.Error())
		return s
	}
	s.Rand, s.Expect = false, true
	nodes := map[uint16]*node{}
	for _, id := range ids {
		nodes[id] = &node{id: id, l: s.L(id), in: make(chan *messages.Message, 1000)}
	}
	broadcast := func(m *messages.Message) {
		for id, nd := range nodes {
			if id != uint16(m.From) && (m.To == 0 || uint16(m.To) == id) {
				nd.in <- m
				if m.To == 0 {
					nd.in <- m // a repetition
				}
			}
		}
	}
	var hang string
	var hm sync.Mutex
	fail := func(x string) {
		hm.Lock()
		hang = x
		hm.Unlock()
	}
	var wg sync.WaitGroup
	spawn := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					fail(fmt.Sprintf("panic: %v", x))
				}
			}()
			f()
		}()
	}
	limit := time.Now().Add(40 * time.Second)
	for _, nd := range nodes {
		nd := nd
		st := nd.l.St
		for k := 0; k < 3; k++ {
			spawn(func() { // deliver
				for {
					select {
					case m := <-nd.in:
						b, _ := m.MarshalBinary()
						if st.HandleMessage(m) == nil {
							nd.mu.Lock()
							nd.acc = append(nd.acc, b)
							nd.mu.Unlock()
						}
					case <-st.Done():
						return
					case <-time.After(45 * time.Second):
						return
					}
				}
			})
		}
		for k := 0; k < 2; k++ {
			spawn(func() { // process
				for !st.IsFinished() && time.Now().Before(limit) {
					ms := st.ProcessAll()
					if len(ms) > 0 {
						out := [][]byte{}
						for _, m := range ms {
							b, err := m.MarshalBinary()
							if err != nil {
								b = []byte{}
							}
							out = append(out, b)
						}
						nd.mu.Lock()
						nd.out = append(nd.out, out)
						nd.mu.Unlock()
						for _, m := range ms {
							broadcast(m)
						}
					} else {
						runtime.Gosched()
					}
				}
			})
		}
		spawn(func() { // the output may be used as soon as the session has ended
			if st.WaitForError() == nil {
				nd.l.Output()
			}
		})
		spawn(func() {
			<-st.Done()
			if st.Err() == nil && st.IsFinished() {
				nd.l.Output()
			}
		})
		spawn(func() { _ = st.Err(); _ = st.IsFinished(); _ = st.Err() })
	}
	if !waitFor2(&wg, 60*time.Second) {
		fail("a goroutine did not come back")
	}
	hm.Lock()
	defer hm.Unlock()
	if hang != "" {
		s.AddRaw(drv.Event{E: "X", Note: hang})
		return s
	}
	// write it down in the order of the rounds
	for _, id := range ids {
		nd := nodes[id]
		o := nd.l.Observe()
		run := drv.Obs{Err: []int{}, Out: "none"}
		byType := func(l [][]byte) { sort.SliceStable(l, func(a, b int) bool { return l[a][0] < l[b][0] }) }
		byType(nd.acc)
		sort.SliceStable(nd.out, func(a, b int) bool { return nd.out[a][0][0] < nd.out[b][0][0] })
		types := []byte{1, 2}
		if s.Proto == "sign" {
			types = []byte{3, 4}
		}
		emit := func(k int) {
			if k < len(nd.out) {
				e := drv.Event{E: "P", P: int(id), O: run}
				for _, b := range nd.out[k] {
					e.Out = append(e.Out, drv.Hex(b))
				}
				s.AddRaw(e)
			}
		}
		emit(0)
		for ri, ty := range types {
			for _, b := range nd.acc {
				if b[0] == ty && !(len(b) >= 5 && uint16(b[1])<<8|uint16(b[2]) == id) {
					s.AddRaw(drv.Event{E: "H", P: int(id), B: drv.Hex(b), Dec: true, OK: true, O: run})
				}
			}
			if ri == 0 {
				emit(1)
			} else {
				s.AddRaw(drv.Event{E: "P", P: int(id), O: o})
			}
		}
		for k := 2; k < len(nd.out); k++ { // more than the rounds have
			emit(k)
		}
	}
	for _, id := range ids {
		s.Final(id)
	}
	s.Agree()
	_ = ref.Int
	return s
}

// concShare <out> <seed> <count>: groups of sessions that run at the same time, each driven by a single
// goroutine of its own, and share what their callers gave them: the key share, the public data, the list
// of parties and the message. Reading them meanwhile must be possible too.
func concShare(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	seed, count := atoi(args[1]), atoi(args[2])
	drv.UseStream(fmt.Sprintf("concshare/%d", seed))
	id := 0
	for i := 0; i < count && !drv.Enough(); i++ {
		r := rand.New(rand.NewSource(int64(seed)*104729 + int64(i)))
		for _, s := range concShareOne(r, i) {
			id++
			s.ID = id
			if err := drv.WriteSessions(w, []*drv.Session{s}); err != nil {
				return err
			}
		}
	}
	return nil
}

func concShareOne(r *rand.Rand, i int) []*drv.Session {
	n := 2 + r.Intn(3)
	ids := drv.RandIDs(r, n)
	t := 1 + r.Intn(n-1)
	sh := &drv.Shared{List: drv.IDs(ids), Msg: make([]byte, r.Intn(100))}
	r.Read(sh.Msg)
	msg := append([]byte{}, sh.Msg...)
	const groups = 3
	bad := func(f string, why string) *drv.Session {
		s := &drv.Session{Family: f, Proto: "keygen", Parties: drv.Ints(ids), T: t, Live: []int{}, Pub: []string{}, Sec: []string{}}
		s.Refuse(why)
		return s
	}
	var key *scen.Key
	family := "sharekg"
	if i%3 != 0 {
		family = "sharesg"
		var err error
		if key, err = scen.Deal(r, ids, t); err != nil {
			return []*drv.Session{bad(family, err.Error())}
		}
	}
	out := make([]*drv.Session, groups)
	var wg sync.WaitGroup
	start := make(chan bool)
	stop := make(chan bool)
	for g := 0; g < groups; g++ {
		g := g
		rg := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					out[g] = bad(family, fmt.Sprint("panic: ", x))
				}
			}()
			<-start
			var s *drv.Session
			var err error
			if key == nil {
				s, err = drv.NewKeygenWith(family, ids, ids, t, 0, sh)
			} else {
				s, err = drv.NewSignWith(family, ids, ids, key.Shares, key.Public, msg, 0, sh)
			}
			if err != nil {
				out[g] = bad(family, err.Error())
				return
			}
			s.Expect = true
			net := scen.NewNet(rg, s, ids, ids)
			net.Run()
			net.Finish(true)
			out[g] = s
		}()
	}
	var rd sync.WaitGroup
	if key != nil { // somebody reads meanwhile
		rd.Add(1)
		go func() {
			defer rd.Done()
			<-start
			for {
				select {
				case <-stop:
					return
				default:
				}
				for _, id := range ids {
					x := key.Shares[id]
					_, _ = json.Marshal(x)
					_, _ = x.MarshalBinary()
					_ = x.Equal(x)
				}
				_, _ = json.Marshal(key.Public)
				_ = key.Public.Equal(key.Public)
				_ = key.Public.GroupKey.ToEd25519()
				_ = sh.List.N()
				_ = sh.List.Contains(sh.List[0])
				runtime.Gosched()
			}
		}()
	}
	close(start)
	done := waitFor2(&wg, 60*time.Second)
	close(stop)
	rd.Wait()
	if !done {
		return []*drv.Session{bad(family, "the sessions did not end")}
	}
	if key != nil {
		for _, id := range ids {
			if key.Shares[id].Secret.Equal(key.Secrets[id]) != 1 {
				out[0].AddRaw(drv.Event{E: "X", Note: "a key share was modified"})
				break
			}
		}
	}
	return out
}

func waitFor2(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan bool)
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		drv.Hung()
		return false
	}
}
