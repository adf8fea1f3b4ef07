package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/drv"
	"verif/harness/toy"
)

func init() {
	commands["busy"] = busy
	commands["crowd"] = crowd
}

// sched is a schedule of Busy.tla.
type sched struct {
	Gate []interface{} `json:"gate"`
	Pre  int           `json:"pre"`
	V    string        `json:"v"`
	Acts []string      `json:"acts"`
}

// printed collects the distinct lines a specification printed with a prefix, in a random order, at most max.
func printed(path, prefix string, seed, max int) ([]string, error) {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []string
	seen := map[string]bool{}
	for _, l := range strings.Split(string(data), "\n") {
		var t string
		if !strings.HasPrefix(l, "\""+prefix) || json.Unmarshal([]byte(l), &t) != nil || seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, t[len(prefix):])
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("nothing printed in %s", path)
	}
	sort.Strings(out)
	rand.New(rand.NewSource(int64(seed))).Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if max >= 0 && len(out) > max {
		out = out[:max]
	}
	return out, nil
}

func writeHistories(path string, hs []*history) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	for i, h := range hs {
		if h == nil { // given up: too many calls did not return
			continue
		}
		h.ID = i + 1
		j, err := json.Marshal(h)
		if err != nil {
			return err
		}
		w.Write(append(j, '\n'))
	}
	return nil
}

// busy <out> <seed> <schedules> <count>: performs schedules of Busy.tla.
func busy(args []string) error {
	plans, err := printed(args[2], "BUSY ", atoi(args[1]), atoi(args[3]))
	if err != nil {
		return err
	}
	hs := make([]*history, len(plans))
	var wg sync.WaitGroup
	sem := make(chan bool, 24)
	for i := range plans {
		i := i
		var p sched
		if err := json.Unmarshal([]byte(plans[i]), &p); err != nil {
			return err
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if drv.Enough() {
				return
			}
			hs[i] = busyOne(&p)
			hs[i].Note = plans[i]
		}()
	}
	wg.Wait()
	return writeHistories(args[0], hs)
}

func busyOne(s *sched) *history {
	const timeout = 15 * time.Millisecond
	h := &history{Self: 2, Parties: []int{1, 2}, Types: []int{3, 4}, GenFail: -1, Ops: []lop{}}
	at, rnd := s.Gate[0].(string), int(s.Gate[1].(float64))
	open := make(chan bool)
	var mu sync.Mutex
	armed := false
	var l *toy.Log
	hook := func(where string) {
		mu.Lock()
		hit := armed && where == at && (at == "reset" || l.Now == rnd)
		if hit {
			armed = false
		}
		mu.Unlock()
		if hit {
			<-open
		}
	}
	var clock int64
	h.T, h.T0 = timeout.Microseconds(), micros()
	st, log, err := toy.NewHooked(h.Self, h.Parties, h.Types, h.GenFail, timeout, hook)
	if err != nil {
		h.Hang = "refused: " + err.Error()
		return h
	}
	l = log
	p := &player{st: st, clock: &clock}
	var wg sync.WaitGroup
	// call makes a call and gives it a moment to return
	call := func(f func()) {
		wg.Add(1)
		ch := make(chan bool)
		go func() { defer wg.Done(); f(); close(ch) }()
		select {
		case <-ch:
		case <-time.After(500 * time.Microsecond):
		}
	}
	wg.Add(1)
	go func() { defer wg.Done(); p.wait() }()
	give := func(k int) {
		v := "a"
		if k == 2 {
			v = s.V
		}
		call(func() { p.handle(h.Types[k-1], 1, 0, v) })
	}
	for r := 0; r < s.Pre; r++ {
		if r > 0 {
			give(r)
		}
		call(p.process)
	}
	mu.Lock()
	armed = true
	mu.Unlock()
	opened := false
	for _, a := range s.Acts {
		switch a {
		case "P":
			call(p.process)
		case "1":
			give(1)
		case "2":
			give(2)
		case "d":
			call(func() { p.handle(3, 1, 0, "b") })
		case "O":
			call(p.finished)
			call(p.err)
			call(p.done)
		case "T":
			time.Sleep(timeout + 3*time.Millisecond)
		case "G":
			close(open)
			opened = true
			time.Sleep(200 * time.Microsecond)
		}
	}
	if !opened {
		close(open)
	}
	call(p.err)
	if !waitFor(&wg) {
		return p.stuck(h, "the calls did not return or the waiter was not woken")
	}
	p.err()
	p.done()
	time.Sleep(timeout / 2)
	p.finished()
	p.err()
	p.process()
	p.mu.Lock()
	defer p.mu.Unlock()
	h.Ops, h.Hang = p.ops, p.hang
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Inv < h.Ops[j].Inv })
	return h
}

// crowd <out> <seed> <n> <n> ...: sequential histories in groups of n parties.
func crowd(args []string) error {
	var hs []*history
	for i, a := range args[2:] {
		r := rand.New(rand.NewSource(int64(atoi(args[1]))*7919 + int64(i)))
		hs = append(hs, crowdOne(r, atoi(a)))
	}
	return writeHistories(args[0], hs)
}

func crowdOne(r *rand.Rand, n int) *history {
	h := &history{GenFail: -1, Seq: true, Ops: []lop{}, T0: micros()}
	h.Types = [][]int{{3, 4}, {1, 2}, {4}, {2, 3}}[r.Intn(4)]
	used := map[int]bool{}
	for len(used) < n {
		used[1+r.Intn(65535)] = true
	}
	for id := range used {
		h.Parties = append(h.Parties, id)
	}
	sort.Ints(h.Parties)
	h.Self = h.Parties[r.Intn(n)]
	var clock int64
	st, _, err := toy.New(h.Self, h.Parties, h.Types, h.GenFail)
	if err != nil {
		h.Hang = "refused: " + err.Error()
		return h
	}
	p := &player{st: st, clock: &clock}
	to := func(ty int) int {
		if ty == 2 {
			return h.Self
		}
		return 0
	}
	p.process()
	p.process()
	p.finished()
	every := r.Intn(3) // 1 in how many is early; all of them in some histories
	if n > 256 && n%2 == 0 {
		every = 0
	}
	for k, ty := range h.Types {
		order := r.Perm(n)
		done := 0
		for _, i := range order {
			q := h.Parties[i]
			if q == h.Self {
				continue
			}
			v := "a"
			if k == len(h.Types)-1 && r.Intn(3*n) == 0 {
				v = "x"
			}
			p.handle(ty, q, to(ty), v)
			done++
			if r.Intn(40) == 0 || done == 255 || done == 256 || done >= n-3 {
				if done < n-1 || r.Intn(2) == 0 {
					p.process()
				}
			}
			if r.Intn(40) == 0 {
				p.handle(ty, q, to(ty), "b")
			}
			if k+1 < len(h.Types) && r.Intn(1+every) == 0 {
				p.handle(h.Types[k+1], q, to(h.Types[k+1]), "a")
			}
		}
		p.finished()
		p.process()
		p.process()
		p.finished()
		p.err()
	}
	p.done()
	h.Ops, h.Hang = p.ops, p.hang
	return h
}
