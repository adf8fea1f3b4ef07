// Package toy is a protocol for the round engine whose rounds only record what the engine does with
// them. It implements the exported interface state.Round.
package toy

import (
	"errors"
	"fmt"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// Call is a message the engine passed to a round.
type Call struct {
	Round int
	From  int
	V     string
}

// Log is what the engine did.
type Log struct {
	Calls  []Call
	Gens   []int
	Resets int
	Now    int // the round that is at work
}

// Round is one round of the toy protocol.
type Round struct {
	*state.BaseRound
	N       int   // number of this round
	Types   []int // types awaited in rounds 1, 2, ...
	GenFail int   // round whose generation fails
	L       *Log
	Hook    func(at string) // called inside the methods
}

// New starts a session.
func New(self int, parties, types []int, genfail int) (*state.State, *Log, error) {
	return NewHooked(self, parties, types, genfail, 0, nil)
}

// NewHooked starts a session with a timeout whose rounds call hook.
func NewHooked(self int, parties, types []int, genfail int, timeout time.Duration, hook func(string)) (*state.State, *Log, error) {
	ids := make(party.IDSlice, len(parties))
	for i, p := range parties {
		ids[i] = party.ID(p)
	}
	b, err := state.NewBaseRound(party.ID(self), ids)
	if err != nil {
		return nil, nil, err
	}
	l := &Log{}
	st, err := state.NewBaseState(&Round{BaseRound: b, Types: types, GenFail: genfail, L: l, Hook: hook}, timeout)
	return st, l, err
}

var variants = map[string]uint64{"a": 1, "b": 2, "x": 3}

// Wire is a message of type ty whose payload carries the variant v.
func Wire(ty, from, to int, v string) *messages.Message {
	k := ref.Int(variants[v])
	f, t := uint16(from), uint16(to)
	var b []byte
	switch ty {
	case 0:
		return &messages.Message{Header: messages.Header{Type: 0, From: party.ID(from), To: party.ID(to)}}
	case 1:
		b = ref.KeyGen1(f, append(k.Bytes(), k.Bytes()...), ref.Commitments([]*ref.Point{base[v]}))
	case 2:
		b = ref.KeyGen2(f, t, k)
	case 3:
		b = ref.Sign1(f, base[v], base[v])
	case 4:
		b = ref.Sign2(f, k)
	}
	m := &messages.Message{}
	if err := m.UnmarshalBinary(b); err != nil {
		panic(fmt.Sprintf("taurusgroup/frost-ed25519 refuses the message %x: %v", b, err))
	}
	return m
}

var base = map[string]*ref.Point{"a": ref.Base(ref.Int(1)), "b": ref.Base(ref.Int(2)), "x": ref.Base(ref.Int(3))}
var byHex = map[string]string{}

func init() {
	for v, k := range variants {
		byHex[drv.Hex(ref.Int(k).Bytes())] = v
		byHex[drv.Hex(ref.Encode(base[v]))] = v
	}
}

// variant reads the variant of a message.
func variant(m *messages.Message) string {
	switch {
	case m.KeyGen1 != nil:
		return byHex[drv.Hex(m.KeyGen1.Proof.S.Bytes())]
	case m.KeyGen2 != nil:
		return byHex[drv.Hex(m.KeyGen2.Share.Bytes())]
	case m.Sign1 != nil:
		return byHex[drv.Hex(m.Sign1.Di.Bytes())]
	case m.Sign2 != nil:
		return byHex[drv.Hex(m.Sign2.Zi.Bytes())]
	}
	return "?"
}

func (r *Round) hook(at string) {
	if r.Hook != nil {
		r.Hook(at)
	}
}

func (r *Round) ProcessMessage(m *messages.Message) *state.Error {
	r.L.Now = r.N
	r.hook("process")
	if m == nil {
		r.L.Calls = append(r.L.Calls, Call{r.N, -1, "nil"})
		return nil
	}
	v := variant(m)
	if r.N == 0 || int(m.Type) != r.Types[r.N-1] {
		v = fmt.Sprintf("type%d", m.Type)
	}
	r.L.Calls = append(r.L.Calls, Call{r.N, int(m.From), v})
	if v == "x" {
		return state.NewError(m.From, errors.New("bad payload"))
	}
	return nil
}

// Emitted is the payload of the i-th message of round n.
func Emitted(n, i int) string { return drv.Hex(ref.Int(uint64(1000*(n+1) + i)).Bytes()) }

// Count is the number of messages round n emits.
func Count(n int) int { return n + 1 }

func (r *Round) GenerateMessages() ([]*messages.Message, *state.Error) {
	r.L.Now = r.N
	r.hook("generate")
	r.L.Gens = append(r.L.Gens, r.N)
	if r.GenFail == r.N {
		return nil, state.NewError(0, errors.New("cannot generate"))
	}
	var out []*messages.Message
	for i := 0; i < Count(r.N); i++ {
		out = append(out, messages.NewSign2(r.SelfID(), ref.Int(uint64(1000*(r.N+1)+i))))
	}
	return out, nil
}

func (r *Round) NextRound() state.Round {
	r.hook("next")
	if r.N == len(r.Types) {
		return nil
	}
	n := *r
	n.N++
	return &n
}

func (r *Round) AcceptedMessageTypes() []messages.MessageType {
	out := []messages.MessageType{messages.MessageTypeNone}
	for _, t := range r.Types {
		out = append(out, messages.MessageType(t))
	}
	return out
}

func (r *Round) Reset() {
	r.hook("reset")
	r.L.Resets++
}
