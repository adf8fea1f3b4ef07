// Package drv runs sessions of the code under test and records every call with what can be observed
// through the exported API. It makes no judgement.
package drv

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	crand "crypto/rand"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// Stream is a deterministic random source (SHA-512 in counter mode) that records what was read.
type Stream struct {
	mu    sync.Mutex
	seed  [64]byte
	ctr   uint64
	buf   []byte
	Reads [][]byte // everything read since the last Take
	N     int
	Short bool // return fewer bytes than asked for, as a reader may
	Least int  // but at least so many
	short uint64
	Delay time.Duration // every read takes at least this long
	Stop  int           // fails after so many bytes, if positive; -1: at once
}

// Cur is the random source in use.
var Cur *Stream

// Take returns what was read since the last call.
func (s *Stream) Take() []string {
	if s == nil {
		return []string{}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []string{}
	for _, b := range s.Reads {
		out = append(out, Hex(b))
	}
	s.Reads = nil
	return out
}

func NewStream(seed string) *Stream {
	s := &Stream{}
	s.seed = sha512.Sum512([]byte("stream " + seed))
	return s
}
func (s *Stream) Read(p []byte) (int, error) {
	if s.Delay > 0 {
		time.Sleep(s.Delay)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	var fail error
	if left := s.Stop - s.N; s.Stop != 0 && left < len(p) {
		if left < 0 {
			left = 0
		}
		p, fail = p[:left], errors.New("the random source failed")
	}
	if s.Short && len(p) > 1 {
		s.short++
		if s.Least > 0 && s.Least < len(p) { // most of it
			p = p[:s.Least+int(s.short)%(len(p)-s.Least)]
		} else {
			p = p[:1+int(s.short*7)%len(p)]
		}
	}
	for len(s.buf) < len(p) {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], s.ctr)
		s.ctr++
		h := sha512.Sum512(append(s.seed[:], c[:]...))
		s.buf = append(s.buf, h[:]...)
	}
	copy(p, s.buf)
	s.buf = s.buf[len(p):]
	s.N += len(p)
	s.Reads = append(s.Reads, append([]byte{}, p...))
	return len(p), fail
}

// UseStream replaces the system's random source by a deterministic one.
func UseStream(seed string) *Stream {
	s := NewStream(seed)
	Cur = s
	crand.Reader = s
	return s
}

var _ io.Reader = (*Stream)(nil)

// Obs is what can be seen of a session at one moment.
type Obs struct {
	Done bool   `json:"done"`
	Chan bool   `json:"chan"`
	Err  []int  `json:"err"`
	Out  string `json:"out"`
}

// Event is one call on a session.
type Event struct {
	E    string      `json:"e"`
	P    int         `json:"p"`
	B    string      `json:"b"`
	Dec  bool        `json:"dec"`
	OK   bool        `json:"ok"`
	Out  []string    `json:"out"`
	O    Obs         `json:"o"`
	Wait []int       `json:"wait"`
	X    interface{} `json:"x"`
	Xs   interface{} `json:"xs"`
	Note string      `json:"note"`
	// what was read from the random source during the call
	RD []string `json:"rd"`
	// when the call was made and had returned, in microseconds since the start of the session
	T0 int64 `json:"t0"`
	T1 int64 `json:"t1"`
	// inputs and failure of a byte-level drive
	In   []string `json:"in"`
	Fail bool     `json:"fail"`
	// memory of the session object, and whether it still refers to the output
	Mem    []string `json:"mem"`
	OutRef bool     `json:"outref"`
	// texts of errors and public records
	Txt []string `json:"txt,omitempty"`
	// what the text of the returned or reported error says
	Say *Say `json:"say,omitempty"`
	// objects that must keep their content
	Objs []Obj `json:"objs,omitempty"`
}

// Obj is an object that was was and is now.
type Obj struct {
	What string `json:"what"`
	Was  string `json:"was"`
	Now  string `json:"now"`
}

// Session is one protocol run with its record.
type Session struct {
	ID      int      `json:"id"`
	Family  string   `json:"family"`
	Proto   string   `json:"proto"`
	Parties []int    `json:"parties"`
	T       int      `json:"t"`
	Live    []int    `json:"live"`
	Msg     string   `json:"msg"`
	GK      string   `json:"gk"`
	Pub     []string `json:"pub"`
	KeyOK   bool     `json:"keyok"`
	Expect  bool     `json:"expect"`
	Timeout int64    `json:"timeout"` // in ticks, 0 for none
	Exact   bool     `json:"exact"`   // the times are those of a simulated clock
	Rand    bool     `json:"rand"`    // reads of the random source are attributed to the calls
	Sec     []string `json:"sec"`     // signing: the key shares of the live parties
	Ev      []Event  `json:"ev"`

	start time.Time
	tick  time.Duration
	// Opt: scribble over everything the caller owns; keep objects
	Scribble bool  `json:"-"`
	Objs     []Obj `json:"-"`
	now      []func() string
	// the lists of messages that were returned, and copies of them
	lists [][2][]*messages.Message

	mu    sync.Mutex
	live  map[uint16]*Live
	crash bool
}

// Live is a party run by the code under test.
type Live struct {
	ID uint16
	St *state.State
	KG *keygen.Output
	SG *sign.Output
	gk *eddsa.PublicKey
	ms []byte

	given    []*messages.Message // objects handed over and not yet scribbled
	consumed int
	textMu   sync.Mutex
	texts    map[string]bool
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

func ErrOf(err error) []int {
	if err == nil {
		return []int{}
	}
	var e *state.Error
	if errors.As(err, &e) {
		return []int{int(e.PartyID), e.RoundNumber}
	}
	var v state.Error
	if errors.As(err, &v) {
		return []int{int(v.PartyID), v.RoundNumber}
	}
	return []int{-1}
}

// Say is what the text of an error says about parties and rounds.
type Say struct {
	Party   []int `json:"party"`
	Culprit []int `json:"culprit"`
	Round   []int `json:"round"`
}

var (
	saysParty   = regexp.MustCompile(`(?i)party\W{0,3}(\d+)`)
	saysCulprit = regexp.MustCompile(`(?i)culprit\W{0,3}(\d+)`)
	saysRound   = regexp.MustCompile(`(?i)round\W{0,3}(\d+)`)
)

// Says reads the text of an error.
func Says(err error) *Say {
	if err == nil {
		return nil
	}
	find := func(re *regexp.Regexp) []int {
		out := []int{}
		for _, m := range re.FindAllStringSubmatch(err.Error(), 5) {
			n, e := strconv.Atoi(m[1])
			if e != nil || n > 1<<30 {
				n = -1
			}
			out = append(out, n)
		}
		return out
	}
	return &Say{find(saysParty), find(saysCulprit), find(saysRound)}
}

func (l *Live) outState() string {
	if l.KG != nil {
		switch {
		case l.KG.Public == nil && l.KG.SecretKey == nil:
			return "none"
		case l.KG.Public != nil && l.KG.SecretKey != nil:
			return "full"
		}
		return "part"
	}
	if l.SG.Signature == nil {
		return "none"
	}
	return "full"
}

// Observe reads everything the API shows about the session, again if it ended (by a timeout) meanwhile.
func (l *Live) Observe() Obs {
	o := l.observe()
	for i := 0; i < 3; i++ {
		was := o.Done
		if o = l.observe(); o.Done == was {
			break
		}
	}
	return o
}

func (l *Live) observe() Obs {
	o := Obs{Done: l.St.IsFinished(), Err: ErrOf(l.St.Err()), Out: l.outState()}
	select {
	case <-l.St.Done():
		o.Chan = true
	default:
	}
	return o
}

func IDs(ids []uint16) party.IDSlice {
	out := make(party.IDSlice, len(ids))
	for i, id := range ids {
		out[i] = party.ID(id)
	}
	return out
}
func Ints(ids []uint16) []int {
	out := make([]int, len(ids))
	for i, id := range ids {
		out[i] = int(id)
	}
	return out
}

// Shared is a party list and a message that sessions created concurrently share with each other.
type Shared struct {
	List party.IDSlice
	Msg  []byte
}

// NewKeygen starts a key generation with the live parties.
func NewKeygen(family string, parties, live []uint16, t int, timeout time.Duration) (*Session, error) {
	return NewKeygenWith(family, parties, live, t, timeout, nil)
}

// NewKeygenWith uses the list given, if any.
func NewKeygenWith(family string, parties, live []uint16, t int, timeout time.Duration, sh *Shared) (*Session, error) {
	s := &Session{Family: family, Proto: "keygen", Parties: Ints(parties), Live: Ints(live), T: t, Pub: []string{}, KeyOK: true, Sec: []string{},
		live: map[uint16]*Live{}, start: time.Now(), tick: Tick, Exact: Exact, Timeout: int64(timeout / Tick), Rand: true, Scribble: Scribble}
	list := IDs(parties)
	if sh != nil {
		list, s.Scribble, s.Rand = sh.List, false, false
	}
	for _, id := range live {
		if s.Scribble {
			list = IDs(parties)
		}
		Cur.Take()
		e := Event{E: "C", P: int(id), T0: s.clock()}
		st, out, err := frost.NewKeygenState(party.ID(id), list, party.Size(t), timeout)
		if err != nil {
			return nil, fmt.Errorf("keygen %d of %v t=%d: %w", id, parties, t, err)
		}
		s.live[id] = &Live{ID: id, St: st, KG: out}
		e.RD, e.T1, e.O = Cur.Take(), s.clock(), s.live[id].Observe()
		s.add(e)
		if s.Scribble {
			s.Objs = append(s.Objs, Obj{"party list", fmt.Sprint(parties), fmt.Sprint(list)})
			scribbleIDs(list)
		}
	}
	return s, nil
}

// NewSign starts a signing session with the live parties.
func NewSign(family string, parties, live []uint16, secrets map[uint16]*eddsa.SecretShare, public *eddsa.Public, msg []byte, timeout time.Duration) (*Session, error) {
	return NewSignWith(family, parties, live, secrets, public, msg, timeout, nil)
}

// NewSignWith uses the list and the message given, if any.
func NewSignWith(family string, parties, live []uint16, secrets map[uint16]*eddsa.SecretShare, public *eddsa.Public, msg []byte, timeout time.Duration, shared *Shared) (*Session, error) {
	s := &Session{Family: family, Proto: "sign", Parties: Ints(parties), Live: Ints(live), T: int(public.Threshold), Msg: Hex(msg), KeyOK: true, Sec: []string{},
		live: map[uint16]*Live{}, start: time.Now(), tick: Tick, Exact: Exact, Timeout: int64(timeout / Tick), Rand: true, Scribble: Scribble}
	gk, err := pkBytes(public.GroupKey)
	if err != nil {
		return nil, err
	}
	s.GK = Hex(gk)
	for _, id := range parties {
		s.Pub = append(s.Pub, Hex(public.Shares[party.ID(id)].Bytes()))
	}
	list, buf := IDs(parties), append([]byte{}, msg...)
	if len(msg) == 0 && len(parties)%2 == 0 {
		buf = nil
	}
	if shared != nil {
		list, buf, s.Scribble, s.Rand = shared.List, shared.Msg, false, false
	}
	if s.Scribble {
		s.keep("public data", func() string { b, _ := json.Marshal(public); return string(b) })
	}
	for _, id := range live {
		if s.Scribble {
			list, buf = IDs(parties), append([]byte{}, msg...)
			sh := secrets[id]
			s.keep("key share", func() string { b, _ := json.Marshal(sh); return string(b) + Hex(sh.Public.Bytes()) })
		}
		Cur.Take()
		e := Event{E: "C", P: int(id), T0: s.clock()}
		st, out, err := frost.NewSignState(list, secrets[id], public, buf, timeout)
		if err != nil {
			return nil, fmt.Errorf("sign %d of %v: %w", id, parties, err)
		}
		s.live[id] = &Live{ID: id, St: st, SG: out, gk: public.GroupKey, ms: append([]byte{}, msg...)}
		s.Sec = append(s.Sec, Hex(secrets[id].Secret.Bytes()))
		e.RD, e.T1, e.O = Cur.Take(), s.clock(), s.live[id].Observe()
		s.add(e)
		if s.Scribble {
			s.Objs = append(s.Objs, Obj{"party list", fmt.Sprint(parties), fmt.Sprint(list)}, Obj{"message buffer", Hex(msg), Hex(buf)})
			scribbleIDs(list)
			for i := range buf {
				buf[i] ^= 0x5a
			}
		}
	}
	return s, nil
}

func pkBytes(pk *eddsa.PublicKey) ([]byte, error) {
	j, err := json.Marshal(pk)
	if err != nil {
		return nil, err
	}
	var b []byte
	if err := json.Unmarshal(j, &b); err != nil {
		return nil, err
	}
	return b, nil
}

// PKBytes returns the 32-byte encoding of a group key.
func PKBytes(pk *eddsa.PublicKey) []byte {
	b, err := pkBytes(pk)
	if err != nil {
		return nil
	}
	return b
}

func (s *Session) L(p uint16) *Live { return s.live[p] }

// Crashed reports whether a call panicked.
func (s *Session) Crashed() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.crash }

func (s *Session) add(e Event) {
	if e.Out == nil {
		e.Out = []string{}
	}
	if e.Wait == nil {
		e.Wait = []int{}
	}
	if e.O.Err == nil {
		e.O.Err = []int{}
	}
	if e.X == nil {
		e.X = map[string]int{}
	}
	if e.Xs == nil {
		e.Xs = []int{}
	}
	if e.In == nil {
		e.In = []string{}
	}
	if e.Mem == nil {
		e.Mem = []string{}
	}
	if e.RD == nil {
		e.RD = []string{}
	}
	s.mu.Lock()
	s.Ev = append(s.Ev, e)
	s.mu.Unlock()
}

// guard runs f; a panic or a call that does not return is recorded as a crash.
func (s *Session) guard(p uint16, what string, f func()) bool {
	if s.Crashed() {
		return false
	}
	if err := Guard(f); err != "" {
		s.mu.Lock()
		s.crash = true
		s.mu.Unlock()
		s.add(Event{E: "X", P: int(p), Note: what + ": " + err})
		return false
	}
	return true
}

// Hang is how long a single call may take.
var Hang = 30 * time.Second

// hangs counts the calls that did not return; after a few of them a driver stops early.
var hangs int32

// Hung counts a hang.
func Hung() { atomic.AddInt32(&hangs, 1) }

// Enough tells whether so many calls did not return that going on is pointless.
func Enough() bool { return atomic.LoadInt32(&hangs) >= 4 }

// Guard runs f in its own goroutine and describes a panic or hang ("" if there was none).
func Guard(f func()) string {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				ch <- fmt.Sprintf("panic: %v\n%s", r, st)
				return
			}
			ch <- ""
		}()
		f()
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(Hang):
		Hung()
		return "hang: the call did not return"
	}
}

// Handle decodes b and hands it over to p.
func (s *Session) Handle(p uint16, b []byte) (accepted bool) {
	l := s.live[p]
	e := Event{E: "H", P: int(p), B: Hex(b)}
	var m messages.Message
	if !s.guard(p, "decode "+e.B, func() {
		if !s.Scribble {
			e.Dec = m.UnmarshalBinary(b) == nil
			return
		}
		buf := append([]byte{}, b...)
		e.Dec = m.UnmarshalBinary(buf) == nil
		for i := range buf {
			buf[i] = 0xa5
		}
	}) {
		return false
	}
	return s.handle(l, &m, e)
}

// HandleObj hands over a message object whose content was b when it was sent.
func (s *Session) HandleObj(p uint16, b []byte, m *messages.Message) (accepted bool) {
	return s.handle(s.live[p], m, Event{E: "H", P: int(p), B: Hex(b), Dec: true})
}

func (s *Session) handle(l *Live, m *messages.Message, e Event) bool {
	if !s.guard(l.ID, "handle "+e.B, func() {
		e.T0 = s.clock()
		if e.Dec {
			err := l.St.HandleMessage(m)
			e.OK = err == nil
			e.Say = Says(err)
			l.text(err)
		}
		e.O = l.Observe()
		e.T1 = s.clock()
	}) {
		return false
	}
	if e.OK && s.Scribble {
		l.given = append(l.given, m)
	}
	s.add(e)
	return e.OK
}

// Tick is the unit in which the times of new sessions are recorded; Exact tells that the clock is simulated.
var (
	Tick  = time.Microsecond
	Exact bool
)

func (s *Session) clock() int64 { return int64(time.Since(s.start) / s.tick) }

// keep remembers the content of an object, which is compared at the end.
func (s *Session) keep(what string, f func() string) {
	s.Objs = append(s.Objs, Obj{What: what, Was: f(), Now: "?"})
	for len(s.now) < len(s.Objs) {
		s.now = append(s.now, nil)
	}
	s.now[len(s.Objs)-1] = f
}

// text remembers the text of an error.
func (l *Live) text(err error) {
	l.textMu.Lock()
	defer l.textMu.Unlock()
	if err == nil || len(l.texts) > 10 {
		return
	}
	if l.texts == nil {
		l.texts = map[string]bool{}
	}
	l.texts[err.Error()] = true
	l.texts[fmt.Sprintf("%+v %#v", err, err)] = true
}

// Scribble makes new sessions scribble.
var Scribble bool

func scribbleIDs(l party.IDSlice) {
	for i := range l {
		l[i] = party.ID(7000 + i)
	}
}

// scribbleMsg overwrites the content of a message.
func scribbleMsg(m *messages.Message) {
	zero := ref0()
	if m.KeyGen1 != nil {
		m.KeyGen1.Commitments.Reset()
		m.KeyGen1.Proof.S.Set(zero)
		m.KeyGen1.Proof.R.Set(zero)
	}
	if m.Sign1 != nil {
		m.Sign1.Di.Add(&m.Sign1.Di, &m.Sign1.Ei)
		m.Sign1.Ei.Add(&m.Sign1.Di, &m.Sign1.Ei)
	}
	if m.Sign2 != nil {
		m.Sign2.Zi.Add(&m.Sign2.Zi, &m.Sign2.Zi)
	}
	m.From, m.To = 7001, 0
}

func ref0() *ristretto.Scalar { return ristretto.NewScalar() }

// Snapshot records whether the caller's objects have kept their content.
func (s *Session) Snapshot() {
	e := Event{E: "S"}
	if s.guard(0, "snapshot", func() {
		if len(s.lists) > 0 {
			o := Obj{"returned lists", "as they were", "as they were"}
			for _, l := range s.lists {
				for i := range l[1] {
					if l[0][i] != l[1][i] {
						o.Now = "another message in one of them"
					}
				}
			}
			e.Objs = append(e.Objs, o)
		}
		for i, o := range s.Objs {
			if i < len(s.now) && s.now[i] != nil {
				o.Now = s.now[i]()
			}
			e.Objs = append(e.Objs, o)
		}
	}) && len(e.Objs) > 0 {
		s.add(e)
	}
}

// CheckMsg compares a message object returned by a session with what it was.
func (s *Session) CheckMsg(b []byte, m *messages.Message) {
	o := Obj{What: "message " + Hex(b[:5]), Was: Hex(b)}
	s.guard(0, "encode", func() {
		c, err := m.MarshalBinary()
		if o.Now = Hex(c); err != nil {
			o.Now = err.Error()
		}
	})
	s.Objs = append(s.Objs, o)
}

// Memory records what the session object of p still contains.
func (s *Session) Memory(p uint16) {
	l := s.live[p]
	e := Event{E: "M", P: int(p)}
	var out interface{} = l.KG
	if l.SG != nil {
		out = l.SG
	}
	if s.guard(p, "memory", func() { e.Mem, e.OutRef = Walk(l.St, out); e.O = l.Observe() }) {
		s.add(e)
	}
}

// ScribbleOutput overwrites the output of p.
func (s *Session) ScribbleOutput(p uint16) {
	l := s.live[p]
	s.guard(p, "scribble", func() {
		if l.outState() != "full" {
			return
		}
		if l.KG != nil {
			scribbleIDs(l.KG.Public.PartyIDs)
			for _, e := range l.KG.Public.Shares {
				e.Add(e, ristretto.NewGeneratorElement())
			}
			l.KG.SecretKey.Secret.Add(&l.KG.SecretKey.Secret, &l.KG.SecretKey.Secret)
			l.KG.SecretKey.Public.Add(&l.KG.SecretKey.Public, ristretto.NewGeneratorElement())
			return
		}
		l.SG.Signature.R.Add(&l.SG.Signature.R, ristretto.NewGeneratorElement())
		l.SG.Signature.S.Add(&l.SG.Signature.S, &l.SG.Signature.S)
	})
}

// Process calls ProcessAll and returns the encoded messages.
func (s *Session) Process(p uint16) [][]byte { out, _ := s.ProcessObj(p); return out }

// ProcessObj also returns the message objects.
func (s *Session) ProcessObj(p uint16) ([][]byte, []*messages.Message) {
	l := s.live[p]
	e := Event{E: "P", P: int(p)}
	var out [][]byte
	var ms []*messages.Message
	was := false
	var list []*messages.Message // what is returned, and what was in it
	if !s.guard(p, "process", func() {
		was = l.St.IsFinished()
		Cur.Take()
		e.T0 = s.clock()
		list = l.St.ProcessAll()
		e.RD = Cur.Take()
		ms = append(ms, list...)
		for _, m := range ms {
			b, err := m.MarshalBinary()
			if err != nil {
				b = []byte{}
			}
			out = append(out, b)
			e.Out = append(e.Out, Hex(b))
		}
		l.text(l.St.Err())
		e.O = l.Observe()
		e.T1 = s.clock()
	}) {
		return nil, nil
	}
	s.add(e)
	if len(list) > 0 {
		s.lists = append(s.lists, [2][]*messages.Message{list, ms})
	}
	if s.Scribble && (len(out) > 0 || e.O.Done != was) {
		// the messages of the finished round were processed
		ty := map[int]messages.MessageType{1: 1, 2: 2}[l.consumed]
		if s.Proto == "sign" {
			ty += 2
		}
		l.consumed++
		for _, m := range l.given {
			if m.Type == ty && ty != 0 && ty != 2 {
				scribbleMsg(m)
			}
		}
	}
	return out, ms
}

// Drive calls the byte-level party driver.
func (s *Session) Drive(p uint16, in [][]byte) (out [][]byte, ok bool) {
	l := s.live[p]
	e := Event{E: "D", P: int(p), In: []string{}}
	for _, b := range in {
		e.In = append(e.In, Hex(b))
	}
	var err error
	if !s.guard(p, "drive", func() {
		Cur.Take()
		e.T0 = s.clock()
		out, err = helpers.PartyRoutine(in, l.St)
		e.T1 = s.clock()
		e.RD = Cur.Take()
		e.Fail = err != nil
		for _, b := range out {
			e.Out = append(e.Out, Hex(b))
		}
		l.text(err)
		e.O = l.Observe()
	}) {
		return nil, false
	}
	s.add(e)
	return out, err == nil
}

// KeygenOut is a key generation output in wire encoding.
type KeygenOut struct {
	ID       int      `json:"id"`
	Secret   string   `json:"secret"`
	Public   string   `json:"public"`
	GK       string   `json:"gk"`
	T        int      `json:"t"`
	Parties  []int    `json:"parties"`
	ShareIDs []int    `json:"shareids"`
	Shares   []string `json:"shares"`
}

// SignOut is a signature in wire encoding with the verifiers' answers.
type SignOut struct {
	R    string `json:"R"`
	S    string `json:"S"`
	Ed   string `json:"ed"`
	EdPK string `json:"edpk"`
	Lib  bool   `json:"lib"`
	Std  bool   `json:"std"`
}

func KeygenOutOf(o *keygen.Output) KeygenOut {
	x := KeygenOut{ID: int(o.SecretKey.ID), Secret: Hex(o.SecretKey.Secret.Bytes()), Public: Hex(o.SecretKey.Public.Bytes()),
		GK: Hex(PKBytes(o.Public.GroupKey)), T: int(o.Public.Threshold), Parties: []int{}, ShareIDs: []int{}, Shares: []string{}}
	for _, id := range o.Public.PartyIDs {
		x.Parties = append(x.Parties, int(id))
	}
	for id := range o.Public.Shares {
		x.ShareIDs = append(x.ShareIDs, int(id))
	}
	sort.Ints(x.ShareIDs)
	for _, id := range x.ShareIDs {
		x.Shares = append(x.Shares, Hex(o.Public.Shares[party.ID(id)].Bytes()))
	}
	return x
}
func SignOutOf(o *eddsa.Signature, gk *eddsa.PublicKey, msg []byte) SignOut {
	ed := o.ToEd25519()
	return SignOut{R: Hex(o.R.Bytes()), S: Hex(o.S.Bytes()), Ed: Hex(ed), EdPK: Hex(gk.ToEd25519()),
		Lib: gk.Verify(msg, o), Std: ed25519.Verify(gk.ToEd25519(), msg, ed)}
}

// Out is the output of l in wire encoding, nil if there is none.
func (l *Live) Output() interface{} {
	if l.outState() != "full" {
		return nil
	}
	if l.KG != nil {
		return KeygenOutOf(l.KG)
	}
	return SignOutOf(l.SG.Signature, l.gk, l.ms)
}

// Final records the end state of p; a finished session is also waited for.
func (s *Session) Final(p uint16) {
	l := s.live[p]
	e := Event{E: "O", P: int(p)}
	if s.guard(p, "output", func() {
		e.O = l.Observe()
		e.Wait = e.O.Err
		if e.O.Done {
			e.Wait = ErrOf(l.St.WaitForError())
		}
		e.Say = Says(l.St.Err())
		if x := l.Output(); x != nil {
			e.X = x
		}
		for t := range l.texts {
			e.Txt = append(e.Txt, t)
		}
		sort.Strings(e.Txt)
		if l.KG != nil && l.KG.Public != nil {
			j, _ := json.Marshal(l.KG.Public)
			e.Txt = append(e.Txt, string(j), fmt.Sprintf("%v", l.KG.Public))
		}
		e.T1 = s.clock()
	}) {
		s.add(e)
	}
}

// Revisit looks at ended parties once more.
func (s *Session) Revisit() {
	if s.Scribble || s.crash {
		return
	}
	for _, p := range s.Live {
		if l := s.live[uint16(p)]; l != nil && s.ended(l) {
			s.Final(l.ID)
		}
	}
}

// ended tells whether the last look at l saw the end.
func (s *Session) ended(l *Live) bool {
	for i := len(s.Ev) - 1; i >= 0; i-- {
		if e := s.Ev[i]; e.P == int(l.ID) && (e.E == "H" || e.E == "P" || e.E == "D" || e.E == "O") {
			return e.O.Done
		}
	}
	return false
}

// Final0 only looks at the session.
func (s *Session) Final0(p uint16) {
	l := s.live[p]
	e := Event{E: "O", P: int(p)}
	if s.guard(p, "observe", func() { e.T0 = s.clock(); e.O = l.Observe(); e.Wait = e.O.Err; e.T1 = s.clock() }) {
		s.add(e)
	}
}

// Agree records the outputs of all live parties that completed.
func (s *Session) Agree() {
	type px struct {
		P int         `json:"p"`
		X interface{} `json:"x"`
	}
	xs := []px{}
	ok := s.guard(0, "outputs", func() {
		for _, p := range s.Live {
			l := s.live[uint16(p)]
			if o := l.Observe(); o.Done && len(o.Err) == 0 {
				if x := l.Output(); x != nil {
					xs = append(xs, px{p, x})
				}
			}
		}
	})
	if ok {
		s.add(Event{E: "A", Xs: xs})
	}
}

// WaitTimeout waits until p has ended or d has passed, and records a timeout event.
func (s *Session) WaitTimeout(p uint16, d time.Duration) {
	l := s.live[p]
	select {
	case <-l.St.Done():
	case <-time.After(d):
	}
	e := Event{E: "T", P: int(p)}
	if s.guard(p, "timeout", func() { e.T0 = s.clock(); e.T1 = e.T0; e.O = l.Observe(); e.T1 = s.clock() }) {
		s.add(e)
	}
}

// RandIDs are n distinct nonzero identifiers in increasing order, of mixed magnitude.
func RandIDs(r *rand.Rand, n int) []uint16 {
	m := map[uint16]bool{}
	mode := r.Intn(4)
	if n > 12 {
		mode = 1 + 2*r.Intn(2)
	}
	for len(m) < n {
		var id int
		switch mode {
		case 0:
			id = 1 + r.Intn(n+2)
		case 1:
			id = 1 + r.Intn(65535)
		case 2:
			id = []int{1, 2, 3, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 65279, 65280, 65281, 65533, 65534, 65535}[r.Intn(21)]
		default:
			if r.Intn(2) == 0 {
				id = 1 + r.Intn(8)
			} else {
				id = 256*(1+r.Intn(255)) + r.Intn(8)
			}
		}
		m[uint16(id)] = true
	}
	out := make([]uint16, 0, n)
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// WriteSessions writes one JSON line per session.
func WriteSessions(w io.Writer, ss []*Session) error {
	var b bytes.Buffer
	for _, s := range ss {
		s.mu.Lock()
		j, err := json.Marshal(s)
		s.mu.Unlock()
		if err != nil {
			return err
		}
		b.Write(j)
		b.WriteByte('\n')
	}
	_, err := w.Write(b.Bytes())
	return err
}

// AddRaw adds an event as it is.
func (s *Session) AddRaw(e Event) {
	if e.E == "X" {
		s.crash = true
	}
	s.add(e)
}

// Refuse records that the session could not be created.
func (s *Session) Refuse(why string) {
	s.crash = true
	s.add(Event{E: "R", Note: why})
}

// Has reports whether a message of this type from this sender was accepted by p.
func (s *Session) Has(p, from uint16, ty byte) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.Ev {
		if e.P != int(p) {
			continue
		}
		in := []string{}
		if e.E == "H" && e.OK {
			in = []string{e.B}
		}
		for _, x := range in {
			if len(x) < 10 {
				continue
			}
			b, _ := hex.DecodeString(x[:10])
			if b[0] == ty && uint16(b[1])<<8|uint16(b[2]) == from {
				return true
			}
		}
	}
	return false
}
