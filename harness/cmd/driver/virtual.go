package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"
)

func init() { commands["virtual"] = virtual }

// virtual <out> <seed> <count>: sessions with timeouts on a simulated clock, on which computing takes no time.
// Timeouts are odd numbers of ticks, everything else happens after even ones, so that nothing happens at the same moment.
// (It needs GODEBUG=asynctimerchan=0, as the module asks for an older version of Go.)
func virtual(args []string) error {
	seed, count := atoi(args[1]), atoi(args[2])
	testing.Main(func(a, b string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "virtual", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			f, err := os.Create(args[0])
			if err != nil {
				t.Fatal(err)
			}
			drv.UseStream(fmt.Sprintf("virtual/%d", seed))
			drv.Exact = true
			// An implementation that ends a session only strictly after its deadline is right, as real clocks go on
			// before the session looks; the simulated clock does not, so it is of no use then.
			applies := false
			drv.Tick = time.Millisecond
			for i := 0; i < 4; i++ {
				v := newTimed(rand.New(rand.NewSource(int64(i))), "probe", i%2 == 1, 3, 0, time.Second)
				if v.s.Crashed() {
					applies = true
					continue
				}
				time.Sleep(2*time.Second + 1)
				applies = applies || v.s.L(v.p).St.IsFinished()
			}
			if !applies {
				f.Close()
				os.Exit(0)
			}
			var ss []*drv.Session
			for i := 0; i < count && time.Now().Year() < 2200; i++ { // the clock ends in 2262
				s := virtualOne(rand.New(rand.NewSource(int64(seed)*104729+int64(i))), i)
				s.ID = i + 1
				ss = append(ss, s)
			}
			w := bufio.NewWriter(f)
			if err := drv.WriteSessions(w, ss); err != nil {
				t.Fatal(err)
			}
			w.Flush()
			f.Close()
			os.Exit(0) // whatever goroutines are left in the bubble
		})
	}}}, nil, nil)
	return nil
}

func virtualOne(r *rand.Rand, i int) *drv.Session {
	drv.Tick = []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, 7919 * time.Nanosecond, 333 * time.Millisecond}[r.Intn(6)]
	// all magnitudes, up to some weeks
	d := 1 + 2*(r.Int63n(1<<uint(1+r.Intn(19))))
	if r.Intn(4) == 0 { // times people choose
		x := []time.Duration{time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, 250 * time.Millisecond, time.Second, 1500 * time.Millisecond,
			2 * time.Second, 5 * time.Second, 10 * time.Second, time.Minute, 90 * time.Second, time.Hour, 24 * time.Hour}[r.Intn(13)]
		drv.Tick = x / time.Duration(1+2*r.Intn(40)) // (nearly) that
		d = int64(x / drv.Tick)
		d -= 1 - d%2
		if r.Intn(3) == 0 {
			drv.Tick, d = x, 1
		}
	}
	if r.Intn(12) == 0 {
		d = 0
	}
	v := &vt{base: time.Now(), d: d, tick: drv.Tick}
	v.tm = newTimed(r, fmt.Sprintf("tm virtual %v", time.Duration(d)*drv.Tick), i%2 == 1, 2+r.Intn(3), 0, time.Duration(d)*drv.Tick)
	if v.s.Crashed() {
		return v.s
	}
	v.run()
	return v.s
}

// vt is one session on the simulated clock.
type vt struct {
	*tm
	base time.Time
	tick time.Duration
	d    int64
	at   int64 // the last accepted message, in ticks
}

func (v *vt) now() int64 { return int64(time.Since(v.base) / v.tick) }

// until sleeps until some even tick.
func (v *vt) until(n int64) {
	n += n % 2
	if n > v.now() {
		time.Sleep(v.base.Add(time.Duration(n) * v.tick).Sub(time.Now()))
	}
}

// pause lets some time pass, often almost or just more than what is left.
func (v *vt) pause() {
	r, end := v.r, v.at+v.d
	switch k := r.Intn(32); {
	case k < 9:
	case k < 16:
		v.until(v.now() + r.Int63n(1+v.d/4))
	case k < 20:
		v.until(v.now() + r.Int63n(1+v.d/2))
	case k < 30 || v.d == 0:
		v.until(end - 1)
	case k < 31:
		v.until(end + 1)
	default:
		v.until(end + 1 + r.Int63n(1+v.d))
	}
}

func (v *vt) took(ok bool) {
	if ok {
		v.at = v.now()
	}
}

func (v *vt) run() {
	r, p := v.r, v.p
	if r.Intn(2) == 0 {
		v.pause()
	}
	fits := false
	round := 0
	process := func() {
		out := v.first()
		if len(out) > 0 {
			round++
		}
		if !fits {
			v.fit(out)
			fits = len(out) > 0
		}
	}
	if r.Intn(4) > 0 {
		process()
	}
	var list [][2]int
	for k := 0; k < 2; k++ {
		for i := range v.others {
			list = append(list, [2]int{i, k})
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
	}
	given := 0
	n := len(list) + 3 + r.Intn(12)
	for i := 0; i < n; i++ {
		if r.Intn(3) > 0 {
			v.pause()
		}
		switch k := r.Intn(20); {
		case k < 9 && given < len(list):
			x := list[given]
			if x[1] == 1 && !fits && v.sign { // what it must say is not known yet
				process()
				continue
			}
			given++
			if r.Intn(6) == 0 { // through the byte-level driver
				out, _ := v.s.Drive(p, [][]byte{v.msgs[v.others[x[0]]][x[1]]})
				if len(out) > 0 && !fits {
					v.fit(out)
					fits = true
				}
				v.took(true)
				continue
			}
			v.took(v.s.Handle(p, v.msgs[v.others[x[0]]][x[1]]))
		case k < 12:
			process()
		case k < 13 && given > 0: // again
			x := list[r.Intn(given)]
			v.s.Handle(p, v.msgs[v.others[x[0]]][x[1]])
		case k < 14 && r.Intn(6) == 0:
			v.s.Drive(p, nil)
		case k < 16:
			v.s.Final(p)
		case k < 17 && r.Intn(3) == 0: // wrong contents
			b := append([]byte{}, v.msgs[v.others[0]][0]...)
			b[len(b)-1-r.Intn(30)] ^= 1
			v.took(v.s.Handle(p, b))
		default:
			v.reject()
		}
		if v.ended() && r.Intn(3) == 0 {
			break
		}
	}
	switch {
	case v.d == 0:
		v.until(v.now() + 1 + r.Int63n(1+int64(400*time.Hour/v.tick)%(1<<20)))
	case r.Intn(3) == 0:
		v.until(v.at + v.d - 1)
		v.s.Final(p)
		fallthrough
	default:
		v.until(v.at + v.d + 1)
	}
	v.s.Final(p)
	if r.Intn(4) == 0 {
		v.until(v.now() + 2*v.d + 2)
		v.reject()
		process()
		v.s.Final(p)
	}
}

// reject hands over something that is not accepted.
func (v *vt) reject() {
	r, p := v.r, v.p
	one := byte(1)
	if v.sign {
		one = 3
	}
	switch r.Intn(5) {
	case 0:
		id := uint16(1 + r.Intn(65535))
		for id == p || v.msgs[id][0] != nil {
			id = uint16(1 + r.Intn(65535))
		}
		v.s.Handle(p, addressed(v.msgs[v.others[0]][0], one, id, 0))
	case 1:
		v.s.Handle(p, addressed(v.msgs[v.others[0]][0], one, p, 0))
	case 2:
		to := uint16(1 + r.Intn(65535))
		if to == p {
			to ^= 0x100
		}
		v.s.Handle(p, ref.KeyGen2(v.others[0], to, ref.Rand(r)))
	case 3:
		b := ref.Sign2(v.others[0], ref.Rand(r))
		if v.sign {
			b = ref.KeyGen2(v.others[0], p, ref.Rand(r))
		}
		v.s.Handle(p, b)
	default:
		b := make([]byte, r.Intn(80))
		r.Read(b)
		v.s.Handle(p, b)
	}
}
