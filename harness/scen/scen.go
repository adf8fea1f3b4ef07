// Package scen produces protocol runs: random schedules over an asynchronous network, with parties
// played by the reference implementation (honest or misbehaving) and junk traffic.
package scen

import (
	"fmt"
	"math/rand"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// Key is a dealt key.
type Key struct {
	IDs     []uint16
	T       int
	Secrets map[uint16]*ref.Scalar
	Shares  map[uint16]*eddsa.SecretShare
	Public  *eddsa.Public
	A       *ref.Point
}

// Elem converts a point to the element type of the code under test, through its wire decoder.
func Elem(p *ref.Point) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(ref.Encode(p)); err != nil {
		panic(fmt.Sprintf("taurusgroup/frost-ed25519 refuses a canonical element: %v", err))
	}
	return &e
}

// Deal makes a key with the reference implementation.
func Deal(r *rand.Rand, ids []uint16, t int) (*Key, error) {
	f := ref.Poly(r, t)
	k := &Key{IDs: ids, T: t, Secrets: map[uint16]*ref.Scalar{}, Shares: map[uint16]*eddsa.SecretShare{}, A: ref.Base(f[0])}
	pub := map[party.ID]*ristretto.Element{}
	for _, id := range ids {
		s := ref.Eval(f, id)
		k.Secrets[id] = s
		k.Shares[id] = eddsa.NewSecretShare(party.ID(id), s)
		pub[party.ID(id)] = Elem(ref.Base(s))
	}
	p, err := eddsa.NewPublic(pub, party.Size(t))
	if err != nil {
		return nil, err
	}
	k.Public = p
	return k, nil
}

// Subset picks n of ids, in order.
func Subset(r *rand.Rand, ids []uint16, n int) []uint16 {
	perm := r.Perm(len(ids))[:n]
	in := map[int]bool{}
	for _, i := range perm {
		in[i] = true
	}
	out := []uint16{}
	for i, id := range ids {
		if in[i] {
			out = append(out, id)
		}
	}
	return out
}

func contains(ids []uint16, x uint16) bool {
	for _, id := range ids {
		if id == x {
			return true
		}
	}
	return false
}

// Net is a run in progress.
type Net struct {
	R       *rand.Rand
	S       *drv.Session
	Parties []uint16
	Live    []uint16
	Pend    map[uint16][][]byte // undelivered messages per live party
	Sent    [][]byte            // everything ever sent
	polys   [][]*ref.Scalar     // of the reference parties so far
	// OnSend is told about every message a live party sends
	OnSend func(b []byte)
	// Opt
	Junk    float64 // probability of a junk delivery per step
	Early   float64 // probability of a process call per step
	InOrder bool
	KeepDup bool
	Hostile bool        // junk may take the place of genuine messages
	Mem     bool        // look into the memory of sessions
	Alias   bool        // hand over the very objects that were returned
	Drive   bool        // use the byte-level driver
	delta   *ref.Scalar // what two parties that conspire add to and take from their shares
	objs    map[string]*messages.Message
	given   map[string]bool
	dealt   map[uint16]int
	Steps   int             // stop after so many steps
	Start   bool            // only the first processing calls
	Wait    time.Duration   // then wait for the timeouts
	got     map[string]bool // genuine messages the driver accepted
}

func NewNet(r *rand.Rand, s *drv.Session, parties, live []uint16) *Net {
	return &Net{R: r, S: s, Parties: parties, Live: live, Pend: map[uint16][][]byte{}, Early: 0.3,
		objs: map[string]*messages.Message{}, given: map[string]bool{}, dealt: map[uint16]int{}, got: map[string]bool{}}
}

// Send puts b on the wire.
func (n *Net) Send(b []byte) {
	n.Sent = append(n.Sent, b)
	from, to := be(b[1:]), be(b[3:])
	for _, p := range n.Live {
		if p != from && (to == 0 || to == p) {
			n.Pend[p] = append(n.Pend[p], b)
		}
	}
}

// SendTo delivers b to one party only, whatever its header says.
func (n *Net) SendTo(p uint16, b []byte) {
	n.Sent = append(n.Sent, b)
	if contains(n.Live, p) {
		n.Pend[p] = append(n.Pend[p], b)
	}
}

func be(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }

// Process calls processing on p and sends what it returns.
func (n *Net) Process(p uint16) {
	if n.Drive {
		out, _ := n.S.Drive(p, nil)
		n.sendAll(out)
		return
	}
	out, ms := n.S.ProcessObj(p)
	if n.Alias {
		for i, b := range out {
			n.objs[string(b)] = ms[i]
		}
	}
	if n.Mem && len(out) > 0 {
		n.dealt[p]++
		if n.dealt[p] >= 2 || n.S.L(p).St.IsFinished() {
			n.S.Memory(p)
		}
	}
	n.sendAll(out)
}

func (n *Net) sendAll(out [][]byte) {
	for _, b := range out {
		if len(b) < 5 {
			continue
		}
		n.Send(b)
		if n.OnSend != nil {
			n.OnSend(b)
		}
	}
}

func (n *Net) pending() []uint16 {
	out := []uint16{}
	for _, p := range n.Live {
		if len(n.Pend[p]) > 0 {
			out = append(out, p)
		}
	}
	return out
}

// DeliverOne hands one undelivered message to p.
func (n *Net) DeliverOne(p uint16) {
	q := n.Pend[p]
	i := 0
	if !n.InOrder {
		i = n.R.Intn(len(q))
	}
	b := q[i]
	n.Pend[p] = append(append([][]byte{}, q[:i]...), q[i+1:]...)
	if n.Drive {
		n.driveWith(p, b)
		return
	}
	if m := n.objs[string(b)]; m != nil {
		n.given[string(b)] = true
		n.S.HandleObj(p, b, m)
		return
	}
	n.S.Handle(p, b)
}

// driveWith hands b and perhaps more to the byte-level driver.
func (n *Net) driveWith(p uint16, b []byte) {
	r := n.R
	in := [][]byte{b}
	mark := func(l [][]byte, ok bool) {
		for _, x := range l {
			if ok && len(x) > 2 {
				n.got[fmt.Sprint(p, be(x[1:]), x[0])] = true
			}
		}
	}
	for len(n.Pend[p]) > 0 && r.Intn(2) == 0 {
		q := n.Pend[p]
		i := r.Intn(len(q))
		in = append(in, q[i])
		n.Pend[p] = append(append([][]byte{}, q[:i]...), q[i+1:]...)
	}
	genuine := append([][]byte{}, in...)
	if n.Junk > 0 && r.Float64() < n.Junk {
		if x := n.junk(p); x != nil {
			i := r.Intn(len(in) + 1)
			in = append(in[:i:i], append([][]byte{x}, in[i:]...)...)
		}
	}
	if n.Junk > 0 && r.Intn(5) == 0 { // one of them twice in a row
		i := r.Intn(len(in))
		in = append(in[:i+1:i+1], append([][]byte{append([]byte{}, in[i]...)}, in[i+1:]...)...)
	}
	out, ok := n.S.Drive(p, in)
	mark(genuine, ok)
	if !ok && len(in) > 1 { // bring what was not looked at again, one by one
		for _, x := range in {
			if n.S.Crashed() {
				return
			}
			o, ok := n.S.Drive(p, [][]byte{x})
			for _, g := range genuine {
				if len(x) > 0 && len(g) > 0 && &g[0] == &x[0] {
					mark([][]byte{x}, ok)
				}
			}
			n.sendAll(o)
		}
	}
	n.sendAll(out)
}

// Run delivers everything and processes until nothing moves any more.
func (n *Net) Run() {
	if n.Start {
		for _, p := range n.Live {
			n.Process(p)
		}
		return
	}
	quiet := 0
	max := 4000
	if n.Steps > 0 {
		max = n.Steps
	}
	for step := 0; step < max && quiet < 2 && !n.S.Crashed(); step++ {
		if n.Junk > 0 && n.R.Float64() < n.Junk {
			n.JunkOne()
		}
		ready := n.pending()
		if len(ready) == 0 {
			// everything was delivered: a processing call each must move every party that can
			before := len(n.Sent)
			done := n.doneCount()
			for _, i := range n.R.Perm(len(n.Live)) {
				n.Process(n.Live[i])
			}
			if len(n.Sent) == before && n.doneCount() == done {
				quiet++
			} else {
				quiet = 0
			}
			continue
		}
		quiet = 0
		if n.R.Float64() < n.Early {
			n.Process(n.Live[n.R.Intn(len(n.Live))])
		} else {
			n.DeliverOne(ready[n.R.Intn(len(ready))])
		}
	}
}

func (n *Net) doneCount() int {
	c := 0
	for _, p := range n.Live {
		if n.S.L(p).St.IsFinished() {
			c++
		}
	}
	return c
}

// Finish records results, pokes the ended sessions and records the results again.
func (n *Net) Finish(agree bool) {
	if n.Start {
		return
	}
	if n.Wait > 0 {
		for _, p := range n.Live {
			n.S.WaitTimeout(p, n.Wait+10*time.Second)
			n.S.Memory(p)
		}
	}
	for _, p := range n.Live {
		n.S.Final(p)
	}
	for i := 0; i < 3 && len(n.Live) > 0; i++ {
		p := n.Live[n.R.Intn(len(n.Live))]
		n.Process(p)
		n.JunkOne()
		if len(n.Sent) > 0 {
			n.S.Handle(p, n.Sent[n.R.Intn(len(n.Sent))])
		}
	}
	for _, p := range n.Live {
		n.Process(p)
		n.S.Final(p)
		if n.Mem {
			n.S.Memory(p)
		}
	}
	if agree {
		n.S.Agree()
	}
	for b, m := range n.objs {
		if len(b) >= 5 && (be([]byte(b)[3:]) == 0 || !n.given[b]) {
			n.S.CheckMsg([]byte(b), m)
		}
	}
	n.S.Snapshot()
	if n.S.Scribble {
		// outputs are not shared between sessions
		for i, p := range n.Live {
			n.S.ScribbleOutput(p)
			for _, q := range n.Live[i+1:] {
				n.S.Final(q)
			}
		}
	}
}

// JunkOne hands an unexpected message to a live party: a duplicate, an altered duplicate, a message
// of a foreign sender, of a wrong type, with a wrong recipient, from the party itself, or garbage.
func (n *Net) JunkOne() {
	p := n.Live[n.R.Intn(len(n.Live))]
	if b := n.junk(p); b != nil {
		if n.Drive {
			out, _ := n.S.Drive(p, [][]byte{b})
			n.sendAll(out)
		} else {
			n.S.Handle(p, b)
		}
	}
}

func (n *Net) junk(p uint16) []byte {
	r := n.R
	var b []byte
	if len(n.Sent) > 0 && r.Intn(8) != 0 {
		b = append([]byte{}, n.Sent[r.Intn(len(n.Sent))]...)
	} else {
		b = n.fresh()
	}
	switch r.Intn(11) {
	case 0, 1: // duplicate, or a message meant for somebody else, or its own
	case 2: // another sender
		id := n.Parties[r.Intn(len(n.Parties))]
		b[1], b[2] = byte(id>>8), byte(id)
	case 3: // a sender that is not a party
		id := uint16(1 + r.Intn(65535))
		if r.Intn(2) == 0 {
			id = n.Parties[r.Intn(len(n.Parties))] ^ uint16(1<<uint(r.Intn(16)))
		}
		b[1], b[2] = byte(id>>8), byte(id)
	case 4: // another recipient
		id := uint16(r.Intn(65536))
		if r.Intn(2) == 0 {
			id = n.Parties[r.Intn(len(n.Parties))]
		}
		b[3], b[4] = byte(id>>8), byte(id)
	case 5:
		b = n.fresh()
	case 6: // another type
		b[0] = byte(r.Intn(7))
	case 7: // altered payload
		if len(b) > 5 {
			b[5+r.Intn(len(b)-5)] ^= byte(1 << uint(r.Intn(8)))
		}
	case 8: // truncated or extended
		if r.Intn(2) == 0 {
			b = b[:r.Intn(len(b))]
		} else {
			b = append(b, make([]byte, 1+r.Intn(40))...)
		}
	case 9: // own sender id
		b[1], b[2] = byte(p>>8), byte(p)
	case 10: // a valid message of the foreign protocol from a party
		b = n.fresh()
		id := n.Parties[r.Intn(len(n.Parties))]
		b[1], b[2] = byte(id>>8), byte(id)
	}
	// a message that would be accepted changes the run, which is not junk's job:
	// those are only made from parties that have nothing more to lose
	if !n.Hostile && n.wouldCount(p, b) {
		return nil
	}
	return b
}

// wouldCount reports whether b could take the place of a message that is still to come.
func (n *Net) wouldCount(p uint16, b []byte) bool {
	if len(b) < 5 {
		return false
	}
	from, to := be(b[1:]), be(b[3:])
	own := byte(1)
	if n.S.Proto == "sign" {
		own = 3
	}
	if from == p || !contains(n.Parties, from) || (b[0] != own && b[0] != own+1) || (to != 0 && to != p) {
		return false
	}
	if n.Drive {
		return !n.got[fmt.Sprint(p, from, b[0])] && !n.S.L(p).St.IsFinished()
	}
	return !n.S.Has(p, from, b[0]) && !n.S.L(p).St.IsFinished()
}

// fresh is a well-formed message of any type with random content.
func (n *Net) fresh() []byte {
	r := n.R
	from := uint16(1 + r.Intn(65535))
	if n.Hostile {
		return n.hostile(n.Parties[r.Intn(len(n.Parties))])
	}
	switch r.Intn(4) {
	case 0:
		f := ref.Poly(r, r.Intn(3))
		F := ref.Commit(f)
		return ref.KeyGen1(from, ref.Proof(from, ref.Encode(F[0]), f[0], ref.Rand(r)), ref.Commitments(F))
	case 1:
		return ref.KeyGen2(from, n.Parties[r.Intn(len(n.Parties))], ref.Rand(r))
	case 2:
		return ref.Sign1(from, ref.Base(ref.Rand(r)), ref.Base(ref.Rand(r)))
	}
	return ref.Sign2(from, ref.Rand(r))
}

// hostile is a well-formed message from a party with extreme content.
func (n *Net) hostile(from uint16) []byte {
	r := n.R
	sc := func() *ref.Scalar {
		switch r.Intn(4) {
		case 0:
			return ref.Int(0)
		case 1:
			return ref.Int(uint64(1 + r.Intn(2)))
		case 2:
			return ref.Sub(ref.Int(0), ref.Int(1))
		}
		return ref.Rand(r)
	}
	k := r.Intn(4)
	if r.Intn(4) != 0 { // mostly of the protocol that is running
		k = k % 2
		if n.S.Proto == "sign" {
			k += 2
		}
	}
	switch k {
	case 0:
		deg := r.Intn(5)
		switch r.Intn(40) {
		case 0:
			deg = 255 + r.Intn(3)
		}
		f := make([]*ref.Scalar, deg+1)
		for i := range f {
			f[i] = sc()
		}
		F := ref.Commit(f)
		if r.Intn(2) == 0 && n.S.T < 1000 { // of the right degree
			f = ref.Poly(r, n.S.T)
			if r.Intn(2) == 0 {
				f[r.Intn(len(f))] = sc()
			}
			F = ref.Commit(f)
		}
		proof := ref.Proof(from, ref.Encode(F[0]), f[0], sc())
		if r.Intn(3) == 0 {
			proof = append(sc().Bytes(), sc().Bytes()...)
		}
		return ref.KeyGen1(from, proof, ref.Commitments(F))
	case 1:
		return ref.KeyGen2(from, n.Parties[r.Intn(len(n.Parties))], sc())
	case 2:
		return ref.Sign1(from, ref.Base(sc()), ref.Base(sc()))
	}
	return ref.Sign2(from, sc())
}

// KeygenVariants are the ways a reference party can contribute to key generation.
var KeygenVariants = []string{"honest", "degree-1", "degree+1", "degree0", "degree+7", "degree+256", "degree+zeros", "proof-other-id", "proof-zero", "proof-S0", "proof-R+1",
	"proof-S+1", "proof-random", "proof-other-const", "proof-swap", "proof-ctx", "copy", "rogue", "share+1", "share-zero", "share-other", "share-neg", "share-const", "share-all",
	"zero-const", "zero-top", "proof-neg", "const-identity-forged", "share-of-next", "share-of-ref", "silent-ok",
	"zero-poly", "const-only", "nonce-zero", "share-is-zero", "negative", "proof-shift", "share-shift", "proof-weak", "reversed", "share-swapped-id", "same-poly", "zero-middle"}

// unusual contributions that are as good as any other
var unusual = map[string]bool{"honest": true, "zero-const": true, "zero-top": true, "silent-ok": true, "zero-poly": true, "const-only": true, "nonce-zero": true,
	"share-is-zero": true, "negative": true, "same-poly": true, "zero-middle": true}

// PowerOfTwo is 2 to the power of bit.
func PowerOfTwo(bit int) *ref.Scalar {
	b := make([]byte, 32)
	b[bit/8] = 1 << uint(bit%8)
	s, err := ref.NewScalar().SetCanonicalBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

// shift is a power of two, of the given byte of its encoding (1..32) or of any (0).
func shift(r *rand.Rand, byt int) *ref.Scalar {
	if byt == 0 {
		return PowerOfTwo(r.Intn(252))
	}
	bit := 8*(byt-1) + r.Intn(8)
	if bit > 251 {
		bit = 248 + r.Intn(4)
	}
	return PowerOfTwo(bit)
}

// Seen are first messages of earlier sessions.
var Seen [][]byte

// RefKeygen is a reference party's contribution.
type RefKeygen struct {
	ID      uint16
	Variant string
	F       []*ref.Scalar
	Byte    int // where the faults that add a power of two strike (0: anywhere)
}

// Contribute makes the messages of a reference party; others are the first messages already seen.
func (c *RefKeygen) Contribute(n *Net, t int, victims []uint16, others [][]byte) {
	r := n.R
	deg := t
	switch c.Variant {
	case "degree-1":
		deg = t - 1
	case "degree+1":
		deg = t + 1
	case "degree0":
		deg = 0
	case "degree+7":
		deg = t + 7
	case "degree+256":
		deg = t + 256
	case "degree+zeros":
		deg = t + 1 + r.Intn(2)
	}
	c.F = ref.Poly(r, deg)
	if c.Variant == "degree+zeros" { // the same polynomial, written with more coefficients
		for i := t + 1; i <= deg; i++ {
			c.F[i] = ref.NewScalar()
		}
	}
	if c.Variant == "zero-const" {
		c.F[0] = ref.NewScalar()
	}
	if c.Variant == "zero-top" {
		c.F[deg] = ref.NewScalar()
	}
	switch c.Variant {
	case "zero-poly":
		for i := range c.F {
			c.F[i] = ref.NewScalar()
		}
	case "const-only":
		for i := range c.F[1:] {
			c.F[1+i] = ref.NewScalar()
		}
	case "share-is-zero":
		c.F[0] = ref.Sub(c.F[0], ref.Eval(c.F, victims[r.Intn(len(victims))]))
	case "zero-middle":
		for i := 1; i < deg; i++ {
			c.F[i] = ref.NewScalar()
		}
	case "same-poly": // as another party (with its own proof)
		if len(n.polys) > 0 {
			c.F = append([]*ref.Scalar{}, n.polys[r.Intn(len(n.polys))]...)
		}
	case "negative":
		if len(n.polys) > 0 {
			for i, x := range n.polys[r.Intn(len(n.polys))] {
				c.F[i] = ref.Sub(ref.NewScalar(), x)
			}
		}
	}
	if deg == t {
		n.polys = append(n.polys, c.F)
	}
	F := ref.Commit(c.F)
	if c.Variant == "reversed" {
		for i, j := 0, len(F)-1; i < j; i, j = i+1, j-1 {
			F[i], F[j] = F[j], F[i]
		}
	}
	c0 := ref.Encode(F[0])
	k := ref.Rand(r)
	if c.Variant == "nonce-zero" {
		k = ref.NewScalar()
	}
	known := c.F[0] // the discrete logarithm of the constant
	if c.Variant == "reversed" {
		known = c.F[deg]
	}
	proof := ref.Proof(c.ID, c0, known, k)
	S, _ := ref.NewScalar().SetCanonicalBytes(proof[:32])
	Rr, _ := ref.NewScalar().SetCanonicalBytes(proof[32:])
	mk := func(s, rr *ref.Scalar) []byte { return append(append([]byte{}, s.Bytes()...), rr.Bytes()...) }
	switch c.Variant {
	case "proof-other-id":
		id := c.ID + 1
		if r.Intn(2) == 0 && len(n.Live) > 0 {
			id = n.Live[0]
		}
		if r.Intn(3) == 0 {
			id = c.ID<<8 | c.ID>>8
			if id == c.ID {
				id = c.ID ^ 0x100
			}
		}
		proof = ref.Proof(id, c0, c.F[0], k)
	case "proof-zero":
		proof = make([]byte, 64)
	case "proof-S0":
		proof = mk(ref.NewScalar(), ref.Rand(r))
	case "proof-R+1":
		proof = mk(S, ref.Add(Rr, ref.Int(1)))
	case "proof-S+1":
		proof = mk(ref.Add(S, ref.Int(1)), Rr)
	case "proof-shift": // another challenge, but the same nonce point
		d := shift(r, c.Byte)
		proof = mk(ref.Add(S, d), ref.Add(Rr, ref.Mul(d, c.F[0])))
	case "proof-weak": // a part is missing in the hash, or the order is wrong
		parts := [][]byte{ref.U16(c.ID), make([]byte, 32), c0, ref.Encode(ref.Base(k))}
		if i := r.Intn(5); i < 4 {
			parts = append(parts[:i:i], parts[i+1:]...)
		} else {
			i := r.Intn(3)
			parts[i], parts[i+1] = parts[i+1], parts[i]
		}
		s := ref.Uniform(parts...)
		proof = mk(s, ref.Add(k, ref.Mul(s, c.F[0])))
	case "proof-neg":
		proof = mk(S, ref.Sub(ref.NewScalar(), Rr))
	case "proof-swap":
		proof = mk(Rr, S)
	case "proof-random":
		proof = mk(ref.Rand(r), ref.Rand(r))
	case "proof-other-const":
		x := ref.Rand(r)
		proof = ref.Proof(c.ID, ref.Encode(ref.Base(x)), x, k)
	case "proof-ctx":
		ctx := make([]byte, 32)
		ctx[r.Intn(32)] = byte(1 + r.Intn(255))
		s := ref.Uniform(ref.U16(c.ID), ctx, c0, ref.Encode(ref.Base(k)))
		proof = mk(s, ref.Add(k, ref.Mul(s, c.F[0])))
	case "rogue":
		// a constant chosen to cancel another party's; its discrete logarithm is unknown
		if len(others) > 0 {
			o := others[r.Intn(len(others))]
			if P := ref.Decode(o[5+66 : 5+66+32]); P != nil {
				F[0] = ref.PSub(ref.Base(c.F[0]), P)
			}
		}
		proof = ref.Proof(c.ID, ref.Encode(F[0]), c.F[0], k)
	case "const-identity-forged":
		F[0] = ref.Base(ref.NewScalar())
		proof = ref.Proof(c.ID, ref.Encode(F[0]), c.F[0], k)
	}
	kg1 := ref.KeyGen1(c.ID, proof, ref.Commitments(F))
	if c.Variant == "copy" && len(others) > 0 {
		kg1 = append([]byte{}, others[r.Intn(len(others))]...)
		kg1[1], kg1[2] = byte(c.ID>>8), byte(c.ID)
	}
	if c.Variant == "copy-old" && len(Seen) > 0 { // from an earlier session
		kg1 = append([]byte{}, Seen[r.Intn(len(Seen))]...)
		if r.Intn(4) != 0 || be(kg1[1:]) == c.ID {
			kg1[1], kg1[2] = byte(c.ID>>8), byte(c.ID)
		}
	}
	if c.Variant == "copy-proof" && len(others) > 0 { // only the proof
		copy(kg1[5:69], others[r.Intn(len(others))][5:69])
	}
	for _, o := range others {
		if len(Seen) < 64 {
			Seen = append(Seen, o)
		} else {
			Seen[r.Intn(64)] = o
		}
	}
	n.Send(kg1)
	victim := victims[r.Intn(len(victims))]
	delta := ref.Rand(r)
	if c.Variant == "share-collude" {
		if n.delta != nil {
			delta = ref.Sub(ref.NewScalar(), n.delta)
		}
		n.delta = delta
	}
	for i, p := range victims {
		s := ref.Eval(c.F, p)
		hit := p == victim || c.Variant == "share-all" || c.Variant == "share-collude"
		if hit {
			switch c.Variant {
			case "share+1", "share-all":
				s = ref.Add(s, ref.Int(1))
			case "share-shift":
				s = ref.Add(s, shift(r, c.Byte))
			case "share-swapped-id":
				if p>>8 != p&255 {
					s = ref.Eval(c.F, p<<8|p>>8)
				} else {
					s = ref.Eval(c.F, p^0x8000)
				}
			case "share-zero":
				s = ref.NewScalar()
			case "share-other":
				s = ref.Rand(r)
			case "share-neg":
				s = ref.Sub(ref.NewScalar(), s)
			case "share-const":
				s = ref.Add(ref.NewScalar(), c.F[0])
			case "share-of-next":
				o := p + 1
				if len(victims) > 1 {
					o = victims[(i+1)%len(victims)]
				}
				s = ref.Eval(c.F, o)
			case "share-collude":
				s = ref.Add(s, delta)
			case "share-of-ref": // the share another party sends
				if len(n.polys) > 1 {
					s = ref.Eval(n.polys[r.Intn(len(n.polys)-1)], p)
				} else {
					s = ref.Add(s, ref.Int(2))
				}
			}
		}
		n.Send(ref.KeyGen2(c.ID, p, s))
	}
}

// Opt controls a run.
type Opt struct {
	Family   string
	Byte     int // see RefKeygen
	N        int // number of parties (0: random)
	T        int // threshold (0: random)
	MaxN     int
	Live     int      // number of live parties (0: all)
	Variants []string // one per reference party; missing ones are honest
	Junk     float64
	Early    float64
	InOrder  bool
	Timeout  time.Duration
	MsgLen   int
	Hostile  bool
	Mem      bool
	Alias    bool
	Drive    bool
	Steps    int
	Start    bool // nothing is delivered: only the messages of the first processing calls matter
	Msg      []byte
	All      bool // signing: all holders of shares
	Wrong    int  // signing: key material that does not fit: 1 a key share, 2 the group key, 3 a public share of a live party
}

func (o Opt) apply(n *Net) {
	n.Junk = o.Junk
	if o.Early > 0 {
		n.Early = o.Early
	}
	n.InOrder = o.InOrder
	n.Hostile = o.Hostile
	n.Steps = o.Steps
	n.Start = o.Start
	n.Wait = o.Timeout
	n.Mem, n.Alias, n.Drive = o.Mem, o.Alias, o.Drive
}

// refused is a session that could not be created although its parameters are valid.
func refused(o Opt, proto string, ids []uint16, t int, err error) *drv.Session {
	s := &drv.Session{Family: o.Family, Proto: proto, Parties: drv.Ints(ids), T: t, Live: []int{}, Pub: []string{}, Sec: []string{}}
	s.Refuse(err.Error())
	return s
}

// Keygen runs one key generation.
func Keygen(r *rand.Rand, o Opt) *drv.Session {
	nn := o.N
	if nn == 0 {
		nn = 2 + r.Intn(o.MaxN-1)
	}
	ids := drv.RandIDs(r, nn)
	t := 1 + r.Intn(nn-1)
	if o.T > 0 {
		t = o.T
	}
	live := ids
	if o.Live > 0 && o.Live < nn {
		live = Subset(r, ids, o.Live)
	}
	s, err := drv.NewKeygen(o.Family, ids, live, t, o.Timeout)
	if err != nil {
		return refused(o, "keygen", ids, t, err)
	}
	n := NewNet(r, s, ids, live)
	o.apply(n)
	// live parties that start late see messages before their first processing call
	late := map[uint16]bool{}
	for _, p := range live {
		late[p] = r.Intn(3) == 0
	}
	refs := []*RefKeygen{}
	vi := 0
	faulty := false
	for _, id := range ids {
		if !contains(live, id) {
			v := "honest"
			if vi < len(o.Variants) {
				v = o.Variants[vi]
				vi++
			}
			if !unusual[v] {
				faulty = true
			}
			refs = append(refs, &RefKeygen{ID: id, Variant: v, Byte: o.Byte})
		}
	}
	for _, p := range live {
		if !late[p] {
			n.Process(p)
		}
	}
	others := append([][]byte{}, n.Sent...)
	for _, i := range r.Perm(len(refs)) {
		refs[i].Contribute(n, t, live, others)
	}
	s.Expect = !o.Start && !faulty && !o.Hostile && o.Timeout == 0
	n.Run()
	n.Finish(!o.Hostile)
	return s
}

// SignVariants are the ways a reference signer can contribute.
var SignVariants = []string{"honest", "D-identity", "E-identity", "DE-identity", "D=E", "z+1", "z-zero", "z-other-msg", "z-no-lagrange", "z-copy", "z-swap-de",
	"z-other-secret", "z-of-ref", "z-neg", "z-other-set", "z-no-rho", "z-random", "z-old", "z-drop-d", "z-other-rho",
	"z-shift", "D=-E", "nonce-small", "nonce-same", "nonce-live", "nonce-cancel"}

// Sign runs one signing session. key nil deals one.
func Sign(r *rand.Rand, o Opt, key *Key) *drv.Session {
	if key == nil {
		nn := o.N
		if nn == 0 {
			nn = 2 + r.Intn(o.MaxN-1)
		}
		ids := drv.RandIDs(r, nn)
		t := 1 + r.Intn(nn-1)
		if o.T > 0 {
			t = o.T
		}
		var err error
		if key, err = Deal(r, ids, t); err != nil {
			return refused(o, "sign", ids, t, err)
		}
	}
	m := key.T + 1 + r.Intn(len(key.IDs)-key.T)
	if o.Live > m {
		m = o.Live
		if m > len(key.IDs) {
			m = len(key.IDs)
		}
	}
	if o.All {
		m = len(key.IDs)
	}
	signers := Subset(r, key.IDs, m)
	live := signers
	if o.Live > 0 && o.Live < m {
		live = Subset(r, signers, o.Live)
	}
	msg := Text(r)
	if o.MsgLen > 0 {
		msg = make([]byte, o.MsgLen)
		r.Read(msg)
	}
	if o.Msg != nil {
		msg = o.Msg
	}
	if o.Wrong > 0 {
		k := *key
		p := *key.Public
		k.Shares, k.Public = map[uint16]*eddsa.SecretShare{}, &p
		for id, sh := range key.Shares {
			k.Shares[id] = sh
		}
		d := ref.Rand(r)
		x := live[r.Intn(len(live))]
		switch o.Wrong {
		case 1:
			k.Shares[x] = eddsa.NewSecretShare(party.ID(x), ref.Add(key.Secrets[x], d))
		case 2:
			k.A = ref.PAdd(key.A, ref.Base(d))
			p.GroupKey = eddsa.NewPublicKeyFromPoint(Elem(k.A))
		case 3:
			p.Shares = map[party.ID]*ristretto.Element{}
			for id, e := range key.Public.Shares {
				p.Shares[id] = e
			}
			p.Shares[party.ID(x)] = Elem(ref.Base(d))
		}
		key = &k
	}
	s, err := drv.NewSign(o.Family, signers, live, key.Shares, key.Public, msg, o.Timeout)
	if err != nil {
		return refused(o, "sign", signers, key.T, err)
	}
	s.KeyOK = o.Wrong == 0
	n := NewNet(r, s, signers, live)
	o.apply(n)

	type rs struct {
		id   uint16
		v    string
		d, e *ref.Scalar
	}
	refs := []*rs{}
	vi := 0
	faulty, collude := false, false
	B := map[uint16]ref.Nonce{}
	for _, id := range signers {
		if contains(live, id) {
			continue
		}
		v := "honest"
		if vi < len(o.Variants) {
			v = o.Variants[vi]
			vi++
		}
		if v != "honest" {
			faulty = true
		}
		if v == "z-collude" {
			collude = true
		}
		x := &rs{id: id, v: v, d: ref.Rand(r), e: ref.Rand(r)}
		switch v {
		case "D-identity":
			x.d = ref.NewScalar()
		case "E-identity":
			x.e = ref.NewScalar()
		case "DE-identity":
			x.d, x.e = ref.NewScalar(), ref.NewScalar()
		case "D=E":
			x.e = x.d
		case "D=-E":
			x.e = ref.Sub(ref.NewScalar(), x.d)
		case "nonce-small":
			x.d, x.e = ref.Int(uint64(1+r.Intn(3))), ref.Int(uint64(1+r.Intn(3)))
		case "nonce-same": // the nonces of another party
			if len(refs) > 0 {
				x.d, x.e = refs[len(refs)-1].d, refs[len(refs)-1].e
			}
		}
		refs = append(refs, x)
		if v == "nonce-live" || v == "nonce-cancel" { // waits for a commitment to copy
			continue
		}
		B[id] = ref.Nonce{D: ref.Base(x.d), E: ref.Base(x.e)}
	}
	delta := ref.Rand(r)
	first := true
	var live2 []byte
	perm := r.Perm(len(refs))
	contributed := map[uint16]bool{}
	contribute := func() {
		if len(B) < len(signers) {
			return
		}
		for _, i := range perm {
			x := refs[i]
			// the copy of a share has to wait until one was seen
			if contributed[x.id] || live2 == nil && len(live) > 0 && (x.v == "z-copy" || x.v == "z-of-ref" && len(refs) == 1) {
				continue
			}
			contributed[x.id] = true
			z := ref.Share(x.id, x.d, x.e, key.Secrets[x.id], msg, signers, B, key.A)
			c := ref.Challenge(ref.GroupNonce(msg, signers, B), key.A, msg)
			switch x.v {
			case "z-shift":
				z = ref.Add(z, shift(r, o.Byte))
			case "z+1":
				z = ref.Add(z, ref.Int(1))
			case "z-zero":
				z = ref.NewScalar()
			case "z-other-msg":
				z = ref.Share(x.id, x.d, x.e, key.Secrets[x.id], append([]byte("x"), msg...), signers, B, key.A)
			case "z-no-lagrange":
				z = ref.Add(ref.Add(x.d, ref.Mul(x.e, ref.Rho(x.id, msg, signers, B))), ref.Mul(key.Secrets[x.id], c))
			case "z-swap-de":
				z = ref.Share(x.id, x.e, x.d, key.Secrets[x.id], msg, signers, B, key.A)
			case "z-other-secret":
				z = ref.Share(x.id, x.d, x.e, ref.Rand(r), msg, signers, B, key.A)
			case "z-neg":
				z = ref.Sub(ref.NewScalar(), z)
			case "z-other-set":
				set := append([]uint16{}, signers...)
				for j := range set {
					if set[j] != x.id {
						set[j] ^= 0x4000
					}
				}
				z = ref.Add(ref.Add(x.d, ref.Mul(x.e, ref.Rho(x.id, msg, signers, B))), ref.Mul(ref.Mul(ref.Lagrange(x.id, set), key.Secrets[x.id]), c))
			case "z-no-rho":
				z = ref.Add(ref.Add(x.d, x.e), ref.Mul(ref.Mul(ref.Lagrange(x.id, signers), key.Secrets[x.id]), c))
			case "z-other-rho":
				z = ref.Add(ref.Add(x.d, ref.Mul(x.e, ref.Rho(live[0], msg, signers, B))), ref.Mul(ref.Mul(ref.Lagrange(x.id, signers), key.Secrets[x.id]), c))
			case "z-drop-d":
				z = ref.Sub(z, x.d)
			case "z-random":
				z = ref.Rand(r)
			case "z-copy":
				if live2 != nil {
					if q, err := ref.NewScalar().SetCanonicalBytes(live2[5:37]); err == nil {
						z = q
					}
				} else {
					z = ref.Rand(r)
				}
			case "z-of-ref": // the valid share of another party
				y := x
				for _, j := range r.Perm(len(refs)) {
					if refs[j] != x {
						y = refs[j]
					}
				}
				if y != x {
					z = ref.Share(y.id, y.d, y.e, key.Secrets[y.id], msg, signers, B, key.A)
				} else if live2 != nil {
					if q, err := ref.NewScalar().SetCanonicalBytes(live2[5:37]); err == nil {
						z = q
					}
				} else {
					z = ref.Add(z, ref.Int(2))
				}
			case "z-old":
				old := map[uint16]ref.Nonce{}
				for id, b := range B {
					old[id] = b
				}
				old[live[0]] = ref.Nonce{D: ref.Base(ref.Rand(r)), E: ref.Base(ref.Rand(r))}
				z = ref.Share(x.id, x.d, x.e, key.Secrets[x.id], msg, signers, old, key.A)
			case "z-collude":
				if first {
					z = ref.Add(z, delta)
				} else {
					z = ref.Sub(z, delta)
				}
				first = !first
			}
			n.Send(ref.Sign2(x.id, z))
		}
	}
	_ = collude
	n.OnSend = func(b []byte) {
		from := be(b[1:])
		if b[0] == 3 && len(b) == 69 {
			D, E := ref.Decode(b[5:37]), ref.Decode(b[37:69])
			if D != nil && E != nil {
				B[from] = ref.Nonce{D: D, E: E}
				for _, x := range refs {
					if _, ok := B[x.id]; ok {
						continue
					}
					B[x.id] = ref.Nonce{D: D, E: E}
					if x.v == "nonce-cancel" { // so that it cancels another one
						B[x.id] = ref.Nonce{D: ref.PSub(ref.Base(x.d), D), E: ref.PSub(ref.Base(x.e), E)}
					}
					n.Send(ref.Sign1(x.id, B[x.id].D, B[x.id].E))
				}
			}
		}
		if b[0] == 4 && len(b) == 37 {
			live2 = b
		}
		contribute()
	}
	for _, x := range refs {
		if b, ok := B[x.id]; ok {
			n.Send(ref.Sign1(x.id, b.D, b.E))
		}
	}
	contribute()
	s.Expect = !o.Start && !faulty && !o.Hostile && o.Timeout == 0
	n.Run()
	n.Finish(!o.Hostile)
	return s
}
