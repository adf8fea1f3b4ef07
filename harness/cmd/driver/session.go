package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"verif/harness/drv"
	"verif/harness/scen"
)

func init() {
	commands["session"] = sessions
	commands["net"] = netCmd
	commands["nosource"] = noSource
}

// net <out> <seed> <conf> <file> <max> ...: performs schedules that TLC printed for Net.tla, at most max of
// each file (chosen at random), -1 for all.
func netCmd(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	seed := atoi(args[1])
	l := &later{w: w}
	for a := 2; a+2 < len(args); a += 3 {
		conf, max := args[a], atoi(args[a+2])
		data, err := ioutil.ReadFile(args[a+1])
		if err != nil {
			return err
		}
		plans := []string{}
		seen := map[string]bool{}
		for _, l := range strings.Split(string(data), "\n") {
			var t string
			if !strings.HasPrefix(l, "\"SCHED ") || json.Unmarshal([]byte(l), &t) != nil || seen[t] {
				continue
			}
			seen[t] = true
			plans = append(plans, t[6:])
		}
		if len(plans) == 0 {
			return fmt.Errorf("no schedules in %s", args[a+1])
		}
		sort.Strings(plans)
		pick := rand.New(rand.NewSource(int64(seed)))
		pick.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
		if max >= 0 && len(plans) > max {
			plans = plans[:max]
		}
		for i, t := range plans {
			var p scen.Plan
			if err := json.Unmarshal([]byte(t), &p); err != nil {
				return err
			}
			if drv.Enough() {
				return l.flush(0)
			}
			drv.UseStream(fmt.Sprintf("%s/%d/%d", conf, seed, i))
			s := scen.Perform(rand.New(rand.NewSource(int64(seed)*1000003+int64(i))), "net-"+conf, &p)
			if err := l.add(s); err != nil {
				return err
			}
		}
	}
	return l.flush(0)
}

// noSource <out> <seed> <i>: one session whose random source fails after some bytes. It may end in any way,
// also by the end of the process (crypto/rand does this), but must not go on with other secrets.
func noSource(args []string) error {
	seed, i := atoi(args[1]), atoi(args[2])
	drv.Hang = 3 * time.Second
	r := rand.New(rand.NewSource(int64(seed)*6007 + int64(i)))
	src := drv.UseStream(fmt.Sprintf("nosource/%d/%d", seed, i))
	n := 2 + r.Intn(2)
	o := scen.Opt{Family: "kgnosource", N: n, Early: 0.3}
	reads := n * 3
	if i%2 == 1 {
		o.Family = "sgnosource"
		reads = n * 2
	}
	src.Stop = 64*r.Intn(reads) + []int{0, 1, 8, 32, 40, 63}[r.Intn(6)]
	if src.Stop == 0 {
		src.Stop = -1
	}
	var s *drv.Session
	if o.Family[0] == 'k' {
		s = scen.Keygen(r, o)
	} else {
		s = scen.Sign(r, o, nil)
	}
	s.ID = i + 1
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	return drv.WriteSessions(w, []*drv.Session{s})
}

// session <out> <seed> <family> <count> <family> <count> ...
func sessions(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	seed := atoi(args[1])
	l := &later{w: w}
	for a := 2; a+1 < len(args); a += 2 {
		fam, count := args[a], atoi(args[a+1])
		for i := 0; i < count; i++ {
			r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(i)*7919 + int64(len(fam))*104729 + int64(fam[0])))
			drv.UseStream(fmt.Sprintf("%s/%d/%d", fam, seed, i))
			if drv.Enough() {
				return l.flush(0)
			}
			for _, s := range family(r, fam, i) {
				if err := l.add(s); err != nil {
					return err
				}
			}
		}
	}
	return l.flush(0)
}

// later writes sessions some time after they have ended, when they are looked at once more.
type later struct {
	w    io.Writer
	id   int
	wait []*drv.Session
}

func (l *later) add(s *drv.Session) error {
	l.id++
	s.ID = l.id
	l.wait = append(l.wait, s)
	return l.flush(9)
}

func (l *later) flush(keep int) error {
	for len(l.wait) > keep {
		s := l.wait[0]
		l.wait = l.wait[1:]
		s.Revisit()
		if err := drv.WriteSessions(l.w, []*drv.Session{s}); err != nil {
			return err
		}
	}
	return nil
}

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

// family makes the i-th case of a family of scenarios.
func family(r *rand.Rand, fam string, i int) []*drv.Session {
	one := func(s *drv.Session) []*drv.Session { return []*drv.Session{s} }
	switch fam {
	case "kg": // honest key generation
		return one(scen.Keygen(r, scen.Opt{Family: fam, MaxN: 5, Early: 0.2 + 0.5*r.Float64()}))
	case "kgbig":
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 7 + r.Intn(4), Early: 0.1}))
	case "kgref": // live parties together with honest reference parties
		n := 2 + r.Intn(4)
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n-1), Early: 0.3}))
	case "kgbad": // misbehaving parties
		n := 2 + r.Intn(4)
		live := 1 + r.Intn(n-1)
		v := []string{scen.KeygenVariants[1+i%(len(scen.KeygenVariants)-1)]}
		single := r.Intn(3) == 0
		for len(v) < n-live {
			if single || r.Intn(2) == 0 {
				v = append(v, "honest")
			} else {
				v = append(v, pick(r, scen.KeygenVariants))
			}
		}
		r.Shuffle(len(v), func(a, b int) { v[a], v[b] = v[b], v[a] })
		if i%13 == 0 { // two parties that conspire
			n, live, v = 3+r.Intn(3), 1, []string{"share-collude", "share-collude"}
		}
		return one(scen.Keygen(r, scen.Opt{Family: fam + " " + fmt.Sprint(v), N: n, Live: live, Variants: v, Early: 0.3}))
	case "kgshift": // faults in every byte
		v := []string{"proof-shift", "share-shift"}[(i/32)%2]
		n := 2 + r.Intn(2)
		return one(scen.Keygen(r, scen.Opt{Family: fam + " " + v, N: n, Live: n - 1, Variants: []string{v}, Byte: 1 + i%32, Early: 0.3}))
	case "sgshift":
		n := 2 + r.Intn(2)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: n - 1, Variants: []string{"z-shift"}, Byte: 1 + i%32, Early: 0.3}, nil))
	case "kgmany": // several live parties and misbehaving ones
		n := 4 + r.Intn(3)
		live := 2 + r.Intn(n-2)
		v := []string{}
		for len(v) < n-live {
			v = append(v, pick(r, scen.KeygenVariants))
		}
		return one(scen.Keygen(r, scen.Opt{Family: fam + " " + fmt.Sprint(v), N: n, Live: live, Variants: v, Early: 0.15}))
	case "kgcopy": // contributions copied from a party of this or of an earlier session
		n := 3 + r.Intn(3)
		live := 2 + r.Intn(n-2)
		if i%3 == 0 {
			live = 1 + r.Intn(n-1)
		}
		v := []string{[]string{"copy", "copy-old", "copy-proof", "copy"}[i%4]}
		for len(v) < n-live {
			v = append(v, "honest")
		}
		r.Shuffle(len(v), func(a, b int) { v[a], v[b] = v[b], v[a] })
		return one(scen.Keygen(r, scen.Opt{Family: fam + " " + fmt.Sprint(v), N: n, Live: live, Variants: v, Early: 0.15}))
	case "sglen": // messages of special lengths
		n := 2 + r.Intn(2)
		m := scen.Lengths[i%len(scen.Lengths)]
		b := make([]byte, m)
		r.Read(b)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Early: 0.3, Msg: b}, nil))
	case "kgjunk":
		n := 2 + r.Intn(3)
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Junk: 0.6, Early: 0.3}))
	case "kghost": // hostile messages from parties at any moment
		n := 2 + r.Intn(4)
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Junk: 0.3 * r.Float64(), Early: 0.3, Hostile: true}))
	case "sghost":
		n := 2 + r.Intn(4)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Junk: 0.3 * r.Float64(), Early: 0.3, Hostile: true}, nil))
	case "sg":
		return one(scen.Sign(r, scen.Opt{Family: fam, MaxN: 5, Early: 0.2 + 0.5*r.Float64()}, nil))
	case "sgbig":
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 8 + r.Intn(6), Early: 0.1}, nil))
	case "sgref":
		n := 2 + r.Intn(4)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n-1), Early: 0.3}, nil))
	case "sgbad":
		n := 2 + r.Intn(4)
		live := 1
		v := []string{scen.SignVariants[1+i%(len(scen.SignVariants)-1)]}
		single := r.Intn(2) == 0
		if single { // the only misbehaving one of a larger group
			n = 3 + r.Intn(4)
			live = 1 + r.Intn(n-2)
		}
		for len(v) < n {
			if single || r.Intn(2) == 0 {
				v = append(v, "honest")
			} else {
				v = append(v, pick(r, scen.SignVariants))
			}
		}
		if !single && r.Intn(2) == 0 {
			r.Shuffle(len(v), func(a, b int) { v[a], v[b] = v[b], v[a] })
		}
		if i%7 == 0 && n >= 3 {
			v = []string{"z-collude", "z-collude"}
		}
		if i%11 == 0 {
			n, live, v = 4+r.Intn(2), 1+r.Intn(2), []string{"z-of-ref"}
		}
		return one(scen.Sign(r, scen.Opt{Family: fam + " " + fmt.Sprint(v), N: n, Live: live, Variants: v, Early: 0.3}, nil))
	case "sgjunk":
		n := 2 + r.Intn(3)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Junk: 0.6, Early: 0.3}, nil))
	}
	// the same with objects shared between sessions, and scribbling over everything the caller owns
	if strings.HasPrefix(fam, "alias") || strings.HasPrefix(fam, "scrib") {
		o := scen.Opt{Family: fam, MaxN: 4, Early: 0.2 + 0.5*r.Float64(), Alias: fam[:5] == "alias"}
		drv.Scribble = fam[:5] == "scrib"
		defer func() { drv.Scribble = false }()
		bad := strings.HasSuffix(fam, "bad")
		o.N = 2 + r.Intn(3)
		if r.Intn(2) == 0 || bad {
			o.Live = 1 + r.Intn(o.N-1)
		}
		if strings.Contains(fam, "kg") {
			if bad {
				o.Variants = []string{pick(r, scen.KeygenVariants)}
			}
			return one(scen.Keygen(r, o))
		}
		if bad {
			o.Variants = []string{pick(r, scen.SignVariants)}
		}
		return one(scen.Sign(r, o, nil))
	}
	switch fam {
	case "sglong":
		return one(scen.Sign(r, scen.Opt{Family: fam, MaxN: 4, MsgLen: []int{65535, 65536, 65537, 70001, 131072, 200003}[i%6], Early: 0.3}, nil))
	case "kghuge": // groups of more than 256 parties
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 257 + r.Intn(12), T: 1 + r.Intn(2), Live: 1, InOrder: true, Early: 0.01}))
	case "kgpair": // a single misbehaving party, many times
		v := pick(r, scen.KeygenVariants)
		for i%2 == 0 && !strings.HasPrefix(v, "proof-") {
			v = pick(r, scen.KeygenVariants)
		}
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 2, Live: 1, Variants: []string{v}, Early: 0.02}))
	case "sgpair":
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 2, Live: 1, Variants: []string{pick(r, scen.SignVariants)}, Early: 0.02}, nil))
	case "sgduo": // a plain session of two, many times
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 2, InOrder: true, Early: 0.02}, nil))
	case "kgduo":
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 2, InOrder: true, Early: 0.02}))
	case "kgdeep": // thresholds above 256
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 259 + r.Intn(3), T: 256 + i%2, Live: 1, InOrder: true, Early: 0.01}))
	case "sghuge": // large signer sets
		if i%3 == 2 {
			return one(scen.Sign(r, scen.Opt{Family: fam, N: 270 + r.Intn(12), T: 256, Live: 1, InOrder: true, Early: 0.01}, nil))
		}
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 20 + r.Intn(30), Live: 1 + r.Intn(2), InOrder: true, Early: 0.02}, nil))
	case "sgthousand": // signer sets whose list of commitments exceeds 64 kB
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 995 + r.Intn(60), T: 2 + r.Intn(3), Live: 1, InOrder: true, Early: 0.01, All: true}, nil))
	case "sgwrong": // key material that does not fit together
		n := 2 + r.Intn(4)
		return one(scen.Sign(r, scen.Opt{Family: fam, N: n, Live: 1 + r.Intn(n), Early: 0.3, Wrong: 1 + i%3}, nil))
	case "kgmesh": // many values of every kind: dozens of live parties
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 20 + r.Intn(8), T: 1 + r.Intn(2), InOrder: r.Intn(2) == 0, Early: 0.02}))
	case "sgmesh":
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 20 + r.Intn(8), T: 1 + r.Intn(2), InOrder: r.Intn(2) == 0, Early: 0.02, All: true}, nil))
	case "kgstart": // the first messages of many parties
		return one(scen.Keygen(r, scen.Opt{Family: fam, N: 40, T: 1 + r.Intn(3), Start: true}))
	case "sgstart":
		return one(scen.Sign(r, scen.Opt{Family: fam, N: 40, T: 1 + r.Intn(3), Start: true, All: true}, nil))
	case "sgtwin": // the same key, message and signers several times
		nn := 2 + r.Intn(3)
		ids := drv.RandIDs(r, nn)
		k, err := scen.Deal(r, ids, nn-1)
		if err != nil {
			return one(scen.Sign(r, scen.Opt{Family: fam, N: nn}, nil))
		}
		msg := make([]byte, r.Intn(40))
		r.Read(msg)
		out := []*drv.Session{}
		for j := 0; j < 3; j++ {
			out = append(out, scen.Sign(r, scen.Opt{Family: fam, Early: 0.3, Msg: msg}, k))
		}
		return out
	case "kgtwin":
		seed := r.Int63()
		return []*drv.Session{scen.Keygen(rand.New(rand.NewSource(seed)), scen.Opt{Family: fam, MaxN: 4, Early: 0.3}),
			scen.Keygen(rand.New(rand.NewSource(seed)), scen.Opt{Family: fam, MaxN: 4, Early: 0.3})}
	case "kgshort", "sgshort": // a random source that returns less than asked for
		drv.Cur.Short = true
		if i%2 == 0 {
			drv.Cur.Least = []int{32, 48, 60}[r.Intn(3)]
		}
		if fam[0] == 'k' {
			return one(scen.Keygen(r, scen.Opt{Family: fam, MaxN: 4, Early: 0.3}))
		}
		return one(scen.Sign(r, scen.Opt{Family: fam, MaxN: 4, Early: 0.3}, nil))
	case "kgmemto", "sgmemto": // memory after timeouts
		o := scen.Opt{Family: fam, N: 2 + r.Intn(3), Early: 0.3, Mem: true, Timeout: 25 * time.Millisecond, Steps: 1 + r.Intn(22)}
		o.Live = 1 + r.Intn(o.N)
		if fam[0] == 'k' {
			return one(scen.Keygen(r, o))
		}
		return one(scen.Sign(r, o, nil))
	case "kgmem", "sgmem", "kgmembad", "sgmembad": // memory of the session objects
		o := scen.Opt{Family: fam, N: 2 + r.Intn(4), Early: 0.3, Mem: true}
		o.Live = 1 + r.Intn(o.N)
		if strings.HasSuffix(fam, "bad") {
			if o.Live == o.N {
				o.Live--
			}
			o.Variants = []string{pick(r, scen.KeygenVariants)}
			if fam[0] == 's' {
				o.Variants = []string{pick(r, scen.SignVariants)}
			}
		}
		if fam[0] == 'k' {
			return one(scen.Keygen(r, o))
		}
		return one(scen.Sign(r, o, nil))
	case "kgdrive", "sgdrive", "kgdrivebad", "sgdrivebad": // the byte-level party driver
		o := scen.Opt{Family: fam, N: 2 + r.Intn(3), Early: 0.3, Drive: true}
		o.Live = 1 + r.Intn(o.N)
		if r.Intn(2) == 0 {
			o.Junk = 0.4
		}
		if strings.HasSuffix(fam, "bad") {
			if o.Live == o.N {
				o.Live--
			}
			o.Variants = []string{pick(r, scen.KeygenVariants)}
			if fam[0] == 's' {
				o.Variants = []string{pick(r, scen.SignVariants)}
			}
		}
		if fam[0] == 'k' {
			return one(scen.Keygen(r, o))
		}
		return one(scen.Sign(r, o, nil))
	}
	panic("unknown family " + fam)
}
