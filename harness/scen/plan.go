package scen

import (
	"math/rand"

	"verif/harness/drv"
	"verif/harness/ref"
)

// Plan is a schedule enumerated by Net.tla. Parties are numbered from 1.
type Plan struct {
	Types  []int           `json:"types"`
	Honest []bool          `json:"honest"`
	Plan   [][][]string    `json:"plan"` // sender, round, recipient
	Acts   [][]interface{} `json:"acts"`
	N      int             `json:"n"`
}

var broadcastFaults = []string{"degree-1", "degree+1", "degree0", "degree+7", "degree+zeros", "proof-other-id", "proof-zero", "proof-S0", "proof-R+1",
	"proof-S+1", "proof-random", "proof-other-const", "proof-swap", "proof-ctx", "proof-neg"}

func wrong(r *rand.Rand, s *ref.Scalar) *ref.Scalar {
	switch r.Intn(5) {
	case 0:
		return ref.NewScalar()
	case 1:
		return ref.Rand(r)
	case 2:
		return ref.Sub(ref.NewScalar(), s)
	case 3:
		return ref.Sub(s, ref.Int(1))
	}
	return ref.Add(s, ref.Int(1))
}

// Perform carries out a schedule with real sessions for the honest parties.
func Perform(r *rand.Rand, family string, pl *Plan) *drv.Session {
	ids := drv.RandIDs(r, pl.N)
	live := []uint16{}
	for i, h := range pl.Honest {
		if h {
			live = append(live, ids[i])
		}
	}
	t := 1 + r.Intn(pl.N-1)
	kg := pl.Types[0] == 1
	o := Opt{Family: family}
	var s *drv.Session
	var key *Key
	var err error
	msg := Text(r)
	if kg {
		s, err = drv.NewKeygen(family, ids, live, t, 0)
		if err != nil {
			return refused(o, "keygen", ids, t, err)
		}
	} else {
		if key, err = Deal(r, ids, t); err != nil {
			return refused(o, "sign", ids, t, err)
		}
		s, err = drv.NewSign(family, ids, live, key.Shares, key.Public, msg, 0)
		if err != nil {
			return refused(o, "sign", ids, t, err)
		}
	}
	n := NewNet(r, s, ids, live)
	type slot struct{ from, round, to int }
	box := map[slot][]byte{}
	clean := true
	B := map[uint16]ref.Nonce{}
	idx := func(id uint16) int {
		for i, x := range ids {
			if x == id {
				return i + 1
			}
		}
		return 0
	}
	put := func(b []byte) {
		if len(b) < 5 {
			return
		}
		round := 1
		if int(b[0]) == pl.Types[1] {
			round = 2
		}
		from, to := be(b[1:]), be(b[3:])
		for i, id := range ids {
			if id != from && (to == 0 || to == id) {
				box[slot{idx(from), round, i + 1}] = b
			}
		}
		if b[0] == 3 && len(b) == 69 {
			if D, E := ref.Decode(b[5:37]), ref.Decode(b[37:69]); D != nil && E != nil {
				B[from] = ref.Nonce{D: D, E: E}
			}
		}
	}
	nonces := map[uint16][2]*ref.Scalar{}
	for i, id := range ids {
		if pl.Honest[i] {
			continue
		}
		bad1 := pl.Plan[i][0][idx(live[0])-1] == "x"
		if kg {
			v := "honest"
			if bad1 {
				v = broadcastFaults[r.Intn(len(broadcastFaults))]
				if v == "degree0" && t == 0 {
					v = "proof-zero"
				}
				clean = false
			}
			before := len(n.Sent)
			c := &RefKeygen{ID: id, Variant: v}
			c.Contribute(n, t, live, nil)
			for _, b := range n.Sent[before:] {
				if b[0] == 2 {
					p := be(b[3:])
					if pl.Plan[i][1][idx(p)-1] == "x" {
						b = ref.KeyGen2(id, p, wrong(r, ref.Eval(c.F, p)))
						clean = false
					}
				}
				put(b)
			}
			continue
		}
		d, e := ref.Rand(r), ref.Rand(r)
		if bad1 {
			k := r.Intn(3)
			if k != 0 {
				d = ref.NewScalar()
			}
			if k != 1 {
				e = ref.NewScalar()
			}
			clean = false
		}
		nonces[id] = [2]*ref.Scalar{d, e}
		put(ref.Sign1(id, ref.Base(d), ref.Base(e)))
		if pl.Plan[i][1][idx(live[0])-1] == "x" {
			clean = false
		}
	}
	for _, a := range pl.Acts {
		if s.Crashed() {
			break
		}
		p := ids[int(a[1].(float64))-1]
		if a[0].(string) == "P" {
			out, _ := s.ProcessObj(p)
			for _, b := range out {
				put(b)
			}
			continue
		}
		q, round := int(a[2].(float64)), int(a[3].(float64))
		k := slot{q, round, idx(p)}
		if box[k] == nil && !kg && round == 2 && !pl.Honest[q-1] && len(B) == len(ids) {
			id := ids[q-1]
			x := nonces[id]
			z := ref.Share(id, x[0], x[1], key.Secrets[id], msg, ids, B, key.A)
			if pl.Plan[q-1][1][idx(p)-1] == "x" {
				z = wrong(r, z)
			}
			put(ref.Sign2(id, z))
		}
		if box[k] == nil { // the sender has not sent it: Session.tla has found out why
			break
		}
		s.Handle(p, box[k])
	}
	s.Expect = clean && !s.Crashed()
	for _, p := range live {
		s.Final(p)
	}
	s.Agree()
	s.Snapshot()
	return s
}

// Text is a message to sign: random bytes or text with a structure that careless code may treat specially.
func Text(r *rand.Rand) []byte {
	m := make([]byte, Lengths[r.Intn(len(Lengths))])
	switch r.Intn(6) {
	case 0: // all the same byte
		b := []byte{0, 0xff, ' ', '\n', 'a'}[r.Intn(5)]
		for i := range m {
			m[i] = b
		}
	case 1: // blanks around
		r.Read(m)
		for i := range m {
			m[i] = 'a' + m[i]%26
		}
		ws := []byte{' ', '\n', '\t', '\r', 0}
		for i := 0; i < 3 && len(m) > 0; i++ {
			k := r.Intn(len(m)/3 + 1)
			for j := 0; j < k; j++ {
				if r.Intn(2) == 0 {
					m[j] = ws[r.Intn(5)]
				} else {
					m[len(m)-1-j] = ws[r.Intn(5)]
				}
			}
			m[len(m)-1] = ws[r.Intn(5)]
		}
	case 2: // hexadecimal or base64 digits only
		r.Read(m)
		for i := range m {
			m[i] = "0123456789abcdef"[m[i]%16]
		}
	default:
		r.Read(m)
	}
	return m
}

// Lengths of messages: around the borders of hash blocks, powers of two and buffers.
var Lengths = func() []int {
	l := []int{0, 0, 1, 2, 3, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 111, 112, 113, 127, 128, 129, 175, 176, 177, 191, 192, 193, 200, 239, 240, 241, 1000, 5000, 10000}
	for k := 256; k <= 1<<16; k *= 2 {
		l = append(l, k-1, k, k+1)
	}
	for _, k := range []int{384, 768, 3 * 1024, 5 * 1024, 12288, 20480, 3 << 14, 1000000} {
		l = append(l, k)
	}
	return l
}()
