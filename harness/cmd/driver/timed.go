package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"
	"verif/harness/scen"
)

func init() { commands["timed"] = timed }

// timed <out> <seed> <count> <timeout in ms> [slow]: sessions with timeouts, all at once, in real time.
// Every call carries the times at which it was made and had returned.
func timed(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	seed, count, ms := atoi(args[1]), atoi(args[2]), atoi(args[3])
	drv.UseStream(fmt.Sprintf("timed/%d", seed))
	d := time.Duration(ms) * time.Millisecond
	// long timeouts, which show when a period starts again too late
	var slow []*drv.Session
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if len(args) > 4 {
			slow = timedBatch(seed, 3*count, 2*len(slowKinds), 11*time.Second, slowKinds)
		}
	}()
	defer wg.Wait()
	out := timedBatch(seed, 0, count, d, timedKinds)
	// a slow random source keeps the first processing call busy
	drv.Cur.Delay = d * 27 / 100
	out = append(out, timedBatch(seed, count, count/10+2, d, []string{"stale", "stale-reject", "stale-early"})...)
	wg.Wait()
	out = append(out, slow...)
	for i, s := range out {
		s.ID = i + 1
	}
	return drv.WriteSessions(w, out)
}

func timedBatch(seed, from, count int, d time.Duration, kinds []string) []*drv.Session {
	out := make([]*drv.Session, count)
	var wg sync.WaitGroup
	sem := make(chan bool, 48)
	for i := 0; i < count; i++ {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := rand.New(rand.NewSource(int64(seed)*7919 + int64(from+i)))
			out[i] = timedOne(r, i, d, kinds)
		}()
	}
	wg.Wait()
	return out
}

// tm is one session of one live party and reference parties.
type tm struct {
	r       *rand.Rand
	s       *drv.Session
	p       uint16
	others  []uint16
	msgs    map[uint16][2][]byte // both messages of the others
	sign    bool
	d       time.Duration
	nonces  map[uint16][2]*ref.Scalar
	key     *scen.Key
	signers []uint16
	msg     []byte
}

var slowKinds = []string{"late-start", "late-advance", "late-round2", "late-reject", "late-query"}

var timedKinds = []string{"silent", "spam-process", "spam-duplicate", "spam-foreign", "spam-own", "spam-other", "spam-type", "spam-garbage", "spam-future-duplicate",
	"accept-current", "accept-early", "accept-before-start", "accept-each", "complete", "fault", "zero", "stall-round2", "spam-all", "restart-twice", "spam-wait"}

func timedOne(r *rand.Rand, i int, d time.Duration, kinds []string) *drv.Session {
	kind := kinds[i%len(kinds)]
	t := 0
	if len(kinds) < 5 {
		t = 1 + i%2
	}
	to := d
	if kind == "zero" {
		to = 0
	}
	x := newTimed(r, "tm "+kind, (i/len(kinds))%2 == 1, 3+r.Intn(2), t, to)
	x.d = d
	if x.s.Crashed() {
		return x.s
	}
	x.run(kind)
	x.s.Final(x.p)
	return x.s
}

// newTimed makes a session of n parties; t is chosen if it is 0.
func newTimed(r *rand.Rand, fam string, sign bool, n, t int, to time.Duration) *tm {
	ids := drv.RandIDs(r, n)
	if t == 0 {
		t = 1 + r.Intn(n-1)
	}
	x := &tm{r: r, sign: sign, d: to, p: ids[r.Intn(n)], msgs: map[uint16][2][]byte{}, nonces: map[uint16][2]*ref.Scalar{}}
	var err error
	if sign {
		if x.key, err = scen.Deal(r, ids, t); err == nil {
			x.signers = ids
			x.msg = []byte("timed")
			x.s, err = drv.NewSign(fam, ids, []uint16{x.p}, x.key.Shares, x.key.Public, x.msg, to)
		}
	} else {
		x.s, err = drv.NewKeygen(fam, ids, []uint16{x.p}, t, to)
	}
	if err != nil {
		x.s = &drv.Session{Family: fam, Proto: "keygen", Parties: drv.Ints(ids), T: t, Live: []int{}, Pub: []string{}, Sec: []string{}}
		x.s.Refuse(err.Error())
		return x
	}
	x.s.Rand = false
	for _, id := range ids {
		if id == x.p {
			continue
		}
		x.others = append(x.others, id)
		if sign {
			a, b := ref.Rand(r), ref.Rand(r)
			x.nonces[id] = [2]*ref.Scalar{a, b}
			x.msgs[id] = [2][]byte{ref.Sign1(id, ref.Base(a), ref.Base(b)), ref.Sign2(id, ref.Rand(r))}
		} else {
			f := ref.Poly(r, t)
			F := ref.Commit(f)
			x.msgs[id] = [2][]byte{ref.KeyGen1(id, ref.Proof(id, ref.Encode(F[0]), f[0], ref.Rand(r)), ref.Commitments(F)), ref.KeyGen2(id, x.p, ref.Eval(f, x.p))}
		}
	}
	return x
}

// addressed returns the message with another header.
func addressed(b []byte, ty byte, from, to uint16) []byte {
	c := append([]byte{}, b...)
	c[0], c[1], c[2], c[3], c[4] = ty, byte(from>>8), byte(from), byte(to>>8), byte(to)
	return c
}

func (x *tm) sleep(f float64) { time.Sleep(time.Duration(f * float64(x.d))) }
func (x *tm) wait()           { x.s.WaitTimeout(x.p, x.d+10*time.Second) }
func (x *tm) give(i, k int)   { x.s.Handle(x.p, x.msgs[x.others[i]][k]) }
func (x *tm) ended() bool     { return x.s.L(x.p).St.IsFinished() || x.s.Crashed() }

// complete processes the first round and gives everything.
func (x *tm) first() [][]byte {
	out := x.s.Process(x.p)
	return out
}

// finishSign makes the second messages fit the commitments of the live party.
func (x *tm) fit(out [][]byte) {
	if !x.sign || len(out) != 1 || len(out[0]) != 69 {
		return
	}
	B := map[uint16]ref.Nonce{x.p: {D: ref.Decode(out[0][5:37]), E: ref.Decode(out[0][37:69])}}
	for id, k := range x.nonces {
		B[id] = ref.Nonce{D: ref.Base(k[0]), E: ref.Base(k[1])}
	}
	for id, k := range x.nonces {
		x.msgs[id] = [2][]byte{x.msgs[id][0], ref.Sign2(id, ref.Share(id, k[0], k[1], x.key.Secrets[id], x.msg, x.signers, B, x.key.A))}
	}
}

// spam repeats a call, much more often than the timeout, until the session ends.
func (x *tm) spam(f func(i int)) {
	end := time.Now().Add(x.d + 10*time.Second)
	for i := 0; i < 300 && time.Now().Before(end) && !x.ended(); i++ {
		f(i)
		x.sleep(0.23)
	}
	x.wait()
}

func (x *tm) run(kind string) {
	r, p := x.r, x.p
	one := byte(1)
	if x.sign {
		one = 3
	}
	early := r.Intn(2) == 0 // start before or after the first processing call
	start := func() {
		if !early {
			x.first()
		}
	}
	foreign := func(int) {
		id := uint16(1 + r.Intn(65535))
		for id == p || x.msgs[id][0] != nil {
			id++
			if id == 0 {
				id = 1
			}
		}
		x.s.Handle(p, addressed(x.msgs[x.others[0]][0], one, id, 0))
	}
	own := func(int) { x.s.Handle(p, addressed(x.msgs[x.others[0]][0], one, p, 0)) }
	other := func(int) {
		b := ref.KeyGen2(x.others[0], x.others[1], ref.Rand(r))
		x.s.Handle(p, b)
	}
	wrong := func(int) {
		b := ref.Sign2(x.others[0], ref.Rand(r))
		if x.sign {
			b = ref.KeyGen2(x.others[0], p, ref.Rand(r))
		}
		x.s.Handle(p, b)
	}
	garbage := func(int) {
		b := make([]byte, r.Intn(80))
		r.Read(b)
		x.s.Handle(p, b)
	}
	process := func(int) { x.s.Process(p) }
	switch kind {
	case "silent":
		start()
		x.wait()
		x.s.Memory(p)
	case "spam-process":
		start()
		x.spam(process)
	case "spam-duplicate":
		start()
		x.give(0, 0)
		x.spam(func(int) { x.give(0, 0) })
	case "spam-future-duplicate":
		start()
		x.give(0, 1)
		x.spam(func(int) { x.give(0, 1) })
	case "spam-foreign":
		start()
		x.spam(foreign)
	case "spam-own":
		start()
		x.spam(own)
	case "spam-other":
		start()
		x.spam(other)
	case "spam-type":
		start()
		x.spam(wrong)
	case "spam-garbage":
		start()
		x.spam(garbage)
	case "spam-all":
		start()
		all := []func(int){foreign, own, other, wrong, garbage, process}
		x.spam(func(i int) { all[r.Intn(len(all))](i) })
	case "spam-wait":
		start()
		x.spam(func(int) { x.s.Final0(p) })
	case "accept-current":
		x.first()
		x.sleep(0.6)
		x.give(0, 0)
		x.wait()
	case "accept-early":
		x.first()
		x.sleep(0.6)
		x.give(0, 1)
		x.wait()
	case "accept-before-start":
		x.sleep(0.6)
		x.give(0, r.Intn(2))
		x.wait()
	case "restart-twice", "accept-each":
		start()
		for k := 0; k < 2; k++ {
			for i := range x.others {
				if kind == "restart-twice" && i > 0 {
					continue
				}
				x.sleep(0.55)
				x.give(i, k)
			}
		}
		x.wait()
	case "complete":
		out := x.first()
		x.fit(out)
		for k := 0; k < 2; k++ {
			for i := range x.others {
				x.give(i, k)
			}
			x.s.Process(p)
		}
		x.s.Final(p)
		x.sleep(2.5)
		x.s.Final(p)
		x.s.Process(p)
	case "fault":
		x.first()
		b := append([]byte{}, x.msgs[x.others[0]][0]...)
		if x.sign {
			b = ref.Sign1(x.others[0], ref.Base(ref.Int(0)), ref.Base(ref.Int(3)))
		} else {
			b[5] ^= 1
		}
		x.s.Handle(p, b)
		for i := 1; i < len(x.others); i++ {
			x.give(i, 0)
		}
		x.s.Process(p)
		x.s.Final(p)
		x.sleep(2.5)
		x.s.Final(p)
	case "zero":
		start()
		x.sleep(1.2)
		x.give(0, 0)
		x.sleep(3)
		x.s.Final(p)
	case "stale", "stale-reject", "stale-early":
		// the timeout expires while a processing call holds the session and a message is being handed over
		x.sleep(0.7)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); x.first() }()
		x.sleep(0.15)
		switch kind {
		case "stale":
			x.give(0, 0)
		case "stale-early":
			x.give(0, 1)
		default:
			foreign(0)
		}
		wg.Wait()
		// the processing call was the first to hold the session
		sort.SliceStable(x.s.Ev, func(i, j int) bool { return x.s.Ev[i].T0 < x.s.Ev[j].T0 })
		if a, b := &x.s.Ev[len(x.s.Ev)-2], &x.s.Ev[len(x.s.Ev)-1]; a.E == "P" && b.E == "H" && a.O.Done && !b.O.Done {
			a.O = b.O // looked at earlier
		}
		for i := 0; i < 10; i++ {
			x.s.Final0(p)
			x.sleep(0.04)
		}
		x.wait()
	case "late-start", "late-advance", "late-round2", "late-reject", "late-query":
		// something that is no reason to start the period again happens at its end
		if kind != "late-start" {
			x.first()
		}
		if kind == "late-advance" || kind == "late-round2" {
			for i := range x.others {
				x.give(i, 0)
			}
		}
		if kind == "late-round2" {
			x.s.Process(p)
			for i := 1; i < len(x.others); i++ {
				x.give(i, 1)
			}
		}
		x.sleep(0.9)
		switch kind {
		case "late-start", "late-advance":
			x.s.Process(p)
		case "late-round2":
			x.give(1, 1)
			x.s.Process(p)
		case "late-reject":
			foreign(0)
			own(0)
			other(0)
			wrong(0)
			garbage(0)
		default:
			x.s.Final0(p)
		}
		x.sleep(0.98)
		x.s.Final0(p)
		x.wait()
	case "stall-round2":
		x.first()
		for i := range x.others {
			x.give(i, 0)
		}
		x.s.Process(p)
		x.sleep(0.5)
		x.give(0, 1)
		x.wait()
		x.s.Memory(p)
	}
}
