package main

import (
	"bufio"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/drv"
	"verif/harness/ref"
	"verif/harness/scen"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// records of single calls, judged by Records.tla. The driver only records.

func init() { commands["records"] = recordsCmd }

type recs struct {
	w *bufio.Writer
	n int
	r *rand.Rand
	t []*ristretto.Element // representations of the identity
}

type fields = map[string]interface{}

// slow is how long a call on small inputs may take on a loaded machine.
const slow = 60 * time.Second

// rec records one call; a panic or hang inside becomes the record's crash field.
func (c *recs) rec(kind string, base fields, f func(m fields)) {
	m := fields{}
	for k, v := range base {
		m[k] = v
	}
	t0 := time.Now()
	crash := drv.Guard(func() { f(m) })
	if d := time.Since(t0); crash == "" && d > slow && drv.Hang <= slow {
		crash = fmt.Sprintf("the call took %v", d)
	}
	if crash != "" {
		m = fields{"input": base}
	}
	m["k"], m["crash"] = kind, crash
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	c.w.Write(b)
	c.w.WriteByte('\n')
	c.n++
}

// records <out> <seed> <family> <count> ...   (wirefile takes a file instead of a count)
func recordsCmd(args []string) error {
	f, err := os.Create(args[0])
	if err != nil {
		return err
	}
	defer f.Close()
	c := &recs{w: bufio.NewWriter(f)}
	defer c.w.Flush()
	seed := atoi(args[1])
	for a := 2; a+1 < len(args); a += 2 {
		fam := args[a]
		if fam == "wirefile" {
			c.r = rand.New(rand.NewSource(int64(seed)))
			if err := c.wireFile(args[a+1]); err != nil {
				return err
			}
			continue
		}
		g, ok := recFamilies[fam]
		if !ok {
			return fmt.Errorf("unknown family %s", fam)
		}
		count := atoi(args[a+1])
		for i := 0; i < count; i++ {
			h := sha512.Sum512([]byte(fmt.Sprintf("%s/%d/%d", fam, seed, i)))
			c.r = rand.New(rand.NewSource(int64(h[0]) | int64(h[1])<<8 | int64(h[2])<<16 | int64(h[3])<<24 | int64(h[4])<<32 | int64(h[5])<<40))
			drv.UseStream(fmt.Sprintf("%s/%d/%d", fam, seed, i))
			g(c, i)
		}
	}
	return nil
}

var recFamilies = map[string]func(c *recs, i int){
	"wire": (*recs).wireRandom, "weq": (*recs).wireEq, "wmake": (*recs).wireMake, "poly": (*recs).poly,
	"point": (*recs).point, "op": (*recs).op, "opbig": (*recs).opBig, "peq": (*recs).pointEq,
	"lagrange": (*recs).lagrange, "deal": (*recs).deal, "dealbig": (*recs).dealBig,
	"newkg": (*recs).newKeygen, "newsg": (*recs).newSign, "newpub": (*recs).newPublic, "ids": (*recs).ids, "id": (*recs).id,
	"sharebin": (*recs).shareBin, "sharejson": (*recs).shareJSON, "pubjson": (*recs).pubJSON, "pubbig": (*recs).pubBig, "pubeq": (*recs).pubEq,
	"shareeq": (*recs).shareEq, "keyjson": (*recs).keyJSON, "sigbin": (*recs).sigBin, "sigeq": (*recs).sigEq, "verify": (*recs).verify,
	"fuzz": (*recs).fuzz,
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func hexs(b []byte) string { return hex.EncodeToString(b) }

// words around the borders of the encodings
var edgeWords = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"0200000000000000000000000000000000000000000000000000000000000000",
	"ecd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010",
	"edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010",
	"eed3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010",
	"0000000000000000000000000000000000000000000000000000000000000010",
	"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"efffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"0000000000000000000000000000000000000000000000000000000000000080",
	"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
	"26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
	"4eac077a713c57b4f4397629a4145982c661f48044dd3f96427d40b147d9742f",
	"de6a7b00deadc788eb6b6c8d20c0ae96c2f2019078fa604fee5b87d6e989ad7b",
	"bcab477be20861e01e4a0e295284146a510150d9817763caf1a6f4b422d67042",
	"2a292df7e32cababbd9de088d1d1abec9fc0440f637ed2fba145094dc14bea08",
	"f4a9e534fc0d216c44b218fa0c42d99635a0127ee2e53c712f70609649fdff22",
	"8268436f8c4126196cf64b3c7ddbda90746a378625f9813dd9b8457077256731",
	"2810e5cbc2cc4d4eece54f61c6f69758e289aa7ab440b3cbeaa21995c2f4232b",
}

// scalar: random or near a border
func (c *recs) scalar() *ref.Scalar {
	switch c.r.Intn(8) {
	case 0:
		return ref.Int(uint64(c.r.Intn(5)))
	case 1:
		return ref.Sub(ref.Int(0), ref.Int(uint64(c.r.Intn(5))))
	case 2: // few bits
		return ref.Int(uint64(1) << uint(c.r.Intn(64)))
	case 3: // large powers of two
		x := ref.Int(1 << 62)
		return ref.Mul(x, ref.Mul(x, ref.Mul(x, ref.Int(uint64(1)<<uint(c.r.Intn(63))))))
	}
	return ref.Rand(c.r)
}

// rp is a point of the reference implementation
func (c *recs) rp() *ref.Point {
	switch c.r.Intn(6) {
	case 0:
		return ref.Base(ref.Int(uint64(c.r.Intn(4))))
	}
	return ref.Base(c.scalar())
}

// elem is an element with one of its internal representations, and its encoding.
func (c *recs) elem() (*ristretto.Element, string) {
	p := c.rp()
	return c.variant(p), hexs(ref.Encode(p))
}

func (c *recs) variant(p *ref.Point) *ristretto.Element {
	e := scen.Elem(p)
	if len(c.t) == 0 {
		for i := 0; i < 12; i++ {
			k := ref.Rand(c.r)
			x := new(ristretto.Element).ScalarBaseMult(k)
			c.t = append(c.t, new(ristretto.Element).Subtract(scen.Elem(ref.Base(k)), x))
		}
	}
	switch c.r.Intn(4) {
	case 0:
		return e
	case 1: // through a sum
		k := scen.Elem(ref.Base(ref.Rand(c.r)))
		d := new(ristretto.Element).Add(e, k)
		return d.Subtract(d, k)
	default: // with another torsion component
		return new(ristretto.Element).Add(e, c.t[c.r.Intn(len(c.t))])
	}
}

// ---------------------------------------------------------------- wire

func (c *recs) wireBytes(b []byte) {
	c.rec("wire", fields{"b": hexs(b)}, func(m fields) {
		m["dec"], m["enc"], m["size"], m["app"], m["type"], m["from"], m["to"] = false, "", 0, "", 0, 0, 0
		m["alias"], m["reused"], m["eq"] = "", "", false
		in := append([]byte{}, b...)
		var x messages.Message
		err := x.UnmarshalBinary(in)
		m["dec"] = err == nil
		if err == nil {
			enc, e := x.MarshalBinary()
			if e == nil {
				m["enc"] = hexs(enc)
			}
			m["size"], m["type"], m["from"], m["to"] = x.Size(), int(x.Type), int(x.From), int(x.To)
			prefix := append(make([]byte, 0, 3+c.r.Intn(600)), 0xc0, 0xff, 0xee)
			if app, e := x.BytesAppend(prefix); e == nil {
				m["app"] = hexs(app)
			}
			var y messages.Message
			if y.UnmarshalBinary(b) == nil {
				m["eq"] = x.Equal(&y) && y.Equal(&x) && x.Equal(&x)
			}
			// the decoded message must not depend on the buffer any more
			for i := range in {
				in[i] ^= 0x5a
			}
			if enc, e := x.MarshalBinary(); e == nil {
				m["alias"] = hexs(enc)
			}
			// decoding into a message that was used before
			z := c.used()
			if z.UnmarshalBinary(b) == nil {
				if enc, e := z.MarshalBinary(); e == nil {
					m["reused"] = hexs(enc)
				}
			}
		}
		var h messages.Header
		m["hdr"] = h.UnmarshalBinary(b) == nil
		m["body"] = []bool{
			new(messages.KeyGen1).UnmarshalBinary(b) == nil,
			new(messages.KeyGen2).UnmarshalBinary(b) == nil,
			new(messages.Sign1).UnmarshalBinary(b) == nil,
			new(messages.Sign2).UnmarshalBinary(b) == nil,
		}
	})
}

// used is a message that already holds something.
func (c *recs) used() *messages.Message {
	var m messages.Message
	for i := 0; i < 1+c.r.Intn(2); i++ {
		_ = m.UnmarshalBinary(c.valid())
	}
	return &m
}

// valid is an encoded message made by the reference implementation.
func (c *recs) valid() []byte {
	r := c.r
	from := uint16(1 + r.Intn(65535))
	switch r.Intn(5) {
	case 0, 1:
		f := ref.Poly(r, r.Intn(6))
		F := ref.Commit(f)
		return ref.KeyGen1(from, ref.Proof(from, ref.Encode(F[0]), f[0], ref.Rand(r)), ref.Commitments(F))
	case 2:
		return ref.KeyGen2(from, uint16(1+r.Intn(65535)), c.scalar())
	case 3:
		return ref.Sign1(from, c.rp(), c.rp())
	}
	return ref.Sign2(from, c.scalar())
}

// mutate changes an encoding in one of many ways.
func (c *recs) mutate(b []byte) []byte {
	r := c.r
	b = append([]byte{}, b...)
	switch r.Intn(12) {
	case 0: // bit flip
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	case 1: // truncate
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 2: // extend
		x := make([]byte, 1+r.Intn(70))
		if r.Intn(2) == 0 {
			r.Read(x)
		}
		b = append(b, x...)
	case 3: // a word at a border
		if len(b) >= 37 {
			k := r.Intn((len(b) - 5) / 32)
			o := 5 + 32*k
			if b[0] == 1 && k >= 2 && o+34 <= len(b) {
				o += 2
			}
			copy(b[o:o+32], unhex(edgeWords[r.Intn(len(edgeWords))]))
		}
	case 4: // add q to a scalar or flip the high bit of a word
		if len(b) >= 37 {
			o := 5 + 32*r.Intn((len(b)-5)/32)
			if r.Intn(2) == 0 {
				carry := 0
				q := unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
				for i := 0; i < 32; i++ {
					s := int(b[o+i]) + int(q[i]) + carry
					b[o+i], carry = byte(s), s>>8
				}
			} else {
				b[o+31] ^= 0x80
			}
		}
	case 5: // type
		if len(b) > 0 {
			b[0] = byte(r.Intn(7))
		}
	case 6: // recipient
		if len(b) > 4 {
			b[3], b[4] = byte(r.Intn(3)-1), byte(r.Intn(3)-1)
		}
	case 7: // sender
		if len(b) > 2 {
			b[1], b[2] = byte(r.Intn(2)), byte(r.Intn(2))
		}
	case 8: // declared degree
		if len(b) > 70 && b[0] == 1 {
			b[69], b[70] = byte(r.Intn(3)), byte(r.Intn(8))
		}
	case 9: // a negated element or square root of the negative
		if len(b) >= 37 {
			o := len(b) - 32
			neg := make([]byte, 32)
			carry := 0
			p := unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")
			for i := 0; i < 32; i++ {
				s := int(p[i]) - int(b[o+i]) - carry
				carry = 0
				if s < 0 {
					s, carry = s+256, 1
				}
				neg[i] = byte(s)
			}
			copy(b[o:], neg)
		}
	case 10: // random bytes
		r.Read(b)
	case 11: // drop or double a word
		if len(b) >= 37 {
			o := 5 + 32*r.Intn((len(b)-5)/32)
			if r.Intn(2) == 0 {
				b = append(b[:o], b[o+32:]...)
			} else {
				b = append(b[:o+32], b[o:]...)
			}
		}
	}
	return b
}

func (c *recs) wireRandom(i int) {
	b := c.valid()
	switch i % 4 {
	case 1, 2:
		b = c.mutate(b)
	case 3:
		b = c.mutate(c.mutate(b))
	}
	c.wireBytes(b)
	if i%3 == 0 && len(b) > 5 {
		c.wireBytes(b[5:])
	}
}

// wireFile records every vector of the specification's enumeration ("VEC hex" lines).
func (c *recs) wireFile(path string) error {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.Trim(strings.TrimSpace(l), "\"")
		if !strings.HasPrefix(l, "VEC") {
			continue
		}
		b := unhex(strings.TrimSpace(l[3:]))
		c.wireBytes(b)
		if len(b) >= 5 {
			c.wireBytes(b[5:])
		}
	}
	return nil
}

func (c *recs) wireEq(i int) {
	a := c.valid()
	b := append([]byte{}, a...)
	var x, y messages.Message
	switch c.r.Intn(6) {
	case 0: // same
	case 1:
		b = c.valid()
	default:
		// a valid neighbour
		for k := 0; k < 60; k++ {
			b = c.mutate(a)
			switch c.r.Intn(6) {
			case 0: // replace a word by a valid one
				b = append([]byte{}, a...)
				o := len(b) - 32
				if c.r.Intn(2) == 0 && len(b) >= 69 {
					o -= 32
				}
				if b[0] == 2 || b[0] == 4 {
					copy(b[o:], c.scalar().Bytes())
				} else {
					copy(b[o:], ref.Encode(c.rp()))
				}
			case 1: // one coefficient more
				if a[0] == 1 {
					b = append(append([]byte{}, a...), ref.Encode(c.rp())...)
					d := be2(b[69:]) + 1
					b[69], b[70] = byte(d>>8), byte(d)
				}
			}
			if new(messages.Message).UnmarshalBinary(b) == nil {
				break
			}
		}
	}
	if x.UnmarshalBinary(a) != nil || y.UnmarshalBinary(b) != nil {
		return
	}
	c.rec("weq", fields{"a": hexs(a), "b": hexs(b)}, func(m fields) {
		e1, e2 := x.Equal(&y), y.Equal(&x)
		m["eq"] = e1
		m["sym"] = e2
		m["heq"], m["heqv"] = x.Header.Equal(&y.Header), x.Header.Equal(y.Header)
		// the payloads alone, when they are of one type
		m["peq"], m["psym"] = false, false
		type equaler interface{ Equal(interface{}) bool }
		pay := func(z *messages.Message) equaler {
			switch {
			case z.KeyGen1 != nil:
				return z.KeyGen1
			case z.KeyGen2 != nil:
				return z.KeyGen2
			case z.Sign1 != nil:
				return z.Sign1
			}
			return z.Sign2
		}
		if a[0] == b[0] {
			m["peq"], m["psym"] = pay(&x).Equal(pay(&y)), pay(&y).Equal(pay(&x))
		}
		// things which are no message
		odd := false
		for _, o := range []interface{}{nil, 3, "x", a, struct{}{}, ref.Int(1), &eddsa.Signature{}} {
			odd = odd || x.Equal(o) || x.Header.Equal(o) || pay(&x).Equal(o)
		}
		for _, o := range []interface{}{&messages.KeyGen1{}, &messages.KeyGen2{}, &messages.Sign1{}, &messages.Sign2{}} {
			odd = odd || x.Equal(o) || x.Header.Equal(o)
		}
		for k, o := range []interface{}{&messages.KeyGen1{}, &messages.KeyGen2{}, &messages.Sign1{}, &messages.Sign2{}} {
			if k+1 != int(a[0]) {
				odd = odd || pay(&x).Equal(o)
			}
		}
		odd = odd || pay(&x).Equal(&x) || x.Equal(pay(&x)) || x.Equal(&x.Header)
		m["odd"] = odd
	})
}

func be2(b []byte) int { return int(b[0])<<8 | int(b[1]) }

func (c *recs) wireMake(i int) {
	r := c.r
	ty := 2 + i%3
	from, to := r.Intn(65536), 0
	if r.Intn(12) == 0 {
		from = 0
	}
	if ty == 2 {
		to = r.Intn(65536)
		if r.Intn(6) == 0 {
			to = 0
		}
	}
	xs := []string{}
	var mk func() *messages.Message
	switch ty {
	case 2, 4:
		a, b := c.scalar(), c.scalar()
		xs = append(xs, hexs(a.Bytes()), hexs(b.Bytes()))
		if ty == 2 {
			mk = func() *messages.Message { return messages.NewKeyGen2(party.ID(from), party.ID(to), ref.Add(a, b)) }
		} else {
			mk = func() *messages.Message { return messages.NewSign2(party.ID(from), ref.Add(a, b)) }
		}
	case 3:
		es := []*ristretto.Element{}
		for k := 0; k < 4; k++ {
			e, h := c.elem()
			es, xs = append(es, e), append(xs, h)
		}
		mk = func() *messages.Message {
			return messages.NewSign1(party.ID(from), new(ristretto.Element).Add(es[0], es[1]), new(ristretto.Element).Add(es[2], es[3]))
		}
	}
	c.rec("wmake", fields{"type": ty, "from": from, "to": to, "x": xs}, func(m fields) {
		x := mk()
		b, err := x.MarshalBinary()
		m["ok"], m["enc"], m["size"] = err == nil, hexs(b), x.Size()
		m["eq"] = false
		if err == nil {
			var y messages.Message
			if y.UnmarshalBinary(b) == nil {
				m["eq"] = y.Equal(x) && x.Equal(&y)
			}
		}
	})
}

// poly: a first message whose declared degree and number of coefficients are both large
func (c *recs) poly(i int) {
	r := c.r
	deg := []int{0, 1, 63, 254, 255, 256, 257, 511, 1000, 4095, 32767, 32768, 65534, 65535}[i%14]
	count := deg + 1
	switch r.Intn(4) {
	case 0:
		count += r.Intn(3) - 1
	case 1:
		count = (deg + 1) % 65536
	case 2:
		count = r.Intn(4)
	}
	g := ref.Encode(ref.Base(ref.Int(7)))
	b := append(append([]byte{1, 0, 3, 0, 0}, ref.Int(1).Bytes()...), ref.Int(2).Bytes()...)
	b = append(b, byte(deg>>8), byte(deg))
	for k := 0; k < count; k++ {
		b = append(b, g...)
	}
	c.rec("poly", fields{"deg": deg, "count": count}, func(m fields) {
		var x messages.Message
		m["dec"] = x.UnmarshalBinary(b) == nil
		m["same"] = true
		if m["dec"].(bool) {
			e, err := x.MarshalBinary()
			m["same"] = err == nil && string(e) == string(b) && x.Size() == len(b)
		}
	})
}

// ---------------------------------------------------------------- group

func (c *recs) point(i int) {
	r := c.r
	var b []byte
	switch i % 8 {
	case 0:
		b = ref.Encode(c.rp())
	case 1:
		b = unhex(edgeWords[r.Intn(len(edgeWords))])
	case 2:
		b = make([]byte, 32)
		r.Read(b)
		b[31] &= 0x7f
		b[0] &= 0xfe
	case 3:
		b = ref.Encode(c.rp())
		b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case 4: // negative of a valid encoding
		b = append([]byte{3, 0, 9, 0, 0}, ref.Encode(c.rp())...)
		for k := 0; k < 200; k++ {
			d := c.mutate(b)
			if len(d) == len(b) && string(d[:5]) == string(b[:5]) {
				b = d
				break
			}
		}
		b = b[5:]
	case 5: // wrong length
		b = ref.Encode(c.rp())
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(32)]
		case 1:
			b = append(b, make([]byte, 1+r.Intn(33))...)
		case 2:
			b = b[:31]
		case 3:
			b = append(b, b...)
		}
	case 6: // small integers
		b = make([]byte, 32)
		b[0] = byte(r.Intn(256))
		if r.Intn(2) == 0 { // just below p
			copy(b, unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"))
			b[0] -= byte(r.Intn(0xed))
		}
	case 7: // just above p, or the high bit
		b = unhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")
		b[0] += byte(r.Intn(19))
		if r.Intn(2) == 0 {
			b = ref.Encode(c.rp())
			b[31] |= 0x80
		}
	}
	e, _ := c.elem()
	e2, e0 := *e, *e
	bad := c.badText(b)
	c.rec("point", fields{"b": hexs(b), "bad": bad}, func(m fields) {
		m["before"] = hexs(e.Bytes())
		in := append([]byte{}, b...)
		ret, err := e.SetCanonicalBytes(in)
		m["ok"] = err == nil && ret != nil
		m["half"] = (err == nil) != (ret != nil)
		m["kept"] = string(in) == string(b)
		for i := range in {
			in[i] ^= 0xff
		}
		m["after"] = hexs(e.Bytes())
		m["enc"] = hexs(e.Bytes())
		text := []byte(base64.StdEncoding.EncodeToString(b))
		m["tok"] = e2.UnmarshalText(text) == nil
		m["tafter"] = hexs(e2.Bytes())
		e3 := e0
		m["btok"] = e3.UnmarshalText([]byte(bad)) == nil
		m["btafter"] = hexs(e3.Bytes())
		t, err := e2.MarshalText()
		if err != nil {
			t = []byte("error")
		}
		m["text"], m["str"] = string(t), e2.String()
	})
}

// opBig is a multiplication of long lists.
func (c *recs) opBig(i int) {
	ns := []int{64, 129, 200, 257, 33, 17, 100, 300}
	n := ns[(i/2)%len(ns)]
	if c.r.Intn(2) == 0 {
		n = 5 + c.r.Intn(n)
	}
	if i%16 == 15 {
		n = 1025
	}
	c.opN([]string{"multi", "vmulti"}[i%2], n)
}

func (c *recs) op(i int) {
	ops := []string{"add", "sub", "neg", "set", "mul", "base", "dbl", "multi", "vmulti", "uniform", "identity", "generator", "add", "sub", "mul", "dbl"}
	c.opN(ops[i%len(ops)], c.r.Intn(5))
	if i%16 == 9 { // wrong lengths of uniform bytes
		n := []int{0, 1, 31, 32, 63, 65, 128}[c.r.Intn(7)]
		c.rec("ulen", fields{"n": n}, func(m fields) {
			_, err := new(ristretto.Element).SetUniformBytes(make([]byte, n))
			m["ok"] = err == nil
		})
	}
}

func (c *recs) opN(op string, multi int) {
	r := c.r
	np, ns := 0, 0
	switch op {
	case "add", "sub":
		np = 2
	case "neg", "set":
		np = 1
	case "mul":
		np, ns = 1, 1
	case "base":
		ns = 1
	case "dbl":
		np, ns = 1, 2
	case "multi", "vmulti":
		np, ns = multi, multi
	}
	ps, ph := []*ristretto.Element{}, []string{}
	ss, sh := []*ristretto.Scalar{}, []string{}
	for k := 0; k < np; k++ {
		e, h := c.elem()
		if k > 0 {
			switch r.Intn(6) {
			case 0: // the same element, another representation
				h = ph[0]
				e = c.variant(ref.Decode(unhex(h)))
			case 1: // its negative
				p := ref.PSub(ref.Base(ref.Int(0)), ref.Decode(unhex(ph[0])))
				h = hexs(ref.Encode(p))
				e = c.variant(p)
			case 2: // the very same object
				h, e = ph[0], ps[0]
			}
		}
		ps, ph = append(ps, e), append(ph, h)
	}
	for k := 0; k < ns; k++ {
		s := c.scalar()
		ss, sh = append(ss, s), append(sh, hexs(s.Bytes()))
	}
	u := make([]byte, 64)
	switch r.Intn(5) {
	case 0:
	case 1:
		for k := range u {
			u[k] = 0xff
		}
	case 2:
		copy(u, unhex(edgeWords[r.Intn(len(edgeWords))]))
		copy(u[32:], unhex(edgeWords[r.Intn(len(edgeWords))]))
	default:
		r.Read(u)
	}
	recv := -1 // receiver: a fresh element, or one of the operands
	if np > 0 && r.Intn(2) == 0 {
		recv = r.Intn(np)
	}
	c.rec("op", fields{"op": op, "p": ph, "s": sh, "u": hexs(u), "recv": recv}, func(m fields) {
		e, _ := c.elem()
		if recv >= 0 {
			e = ps[recv]
		}
		var ret *ristretto.Element
		switch op {
		case "add":
			ret = e.Add(ps[0], ps[1])
		case "sub":
			ret = e.Subtract(ps[0], ps[1])
		case "neg":
			ret = e.Negate(ps[0])
		case "set":
			ret = e.Set(ps[0])
		case "mul":
			ret = e.ScalarMult(ss[0], ps[0])
		case "base":
			ret = e.ScalarBaseMult(ss[0])
		case "dbl":
			ret = e.VarTimeDoubleScalarBaseMult(ss[0], ps[0], ss[1])
		case "multi":
			ret = e.MultiScalarMult(ss, ps)
		case "vmulti":
			ret = e.VarTimeMultiScalarMult(ss, ps)
		case "uniform":
			var err error
			if ret, err = e.SetUniformBytes(u); err != nil {
				panic(err)
			}
		case "identity":
			e = ristretto.NewIdentityElement()
			ret = e
		case "generator":
			e = ristretto.NewGeneratorElement()
			ret = e
		}
		m["res"], m["ed"] = hexs(e.Bytes()), hexs(e.BytesEd25519())
		m["ret"] = hexs(ret.Bytes())
		// changing the result must not change anything else
		if recv < 0 {
			e.Add(e, ristretto.NewGeneratorElement())
		}
		kept := []string{}
		for k := range ps {
			if ps[k] == e {
				kept = append(kept, ph[k])
			} else {
				kept = append(kept, hexs(ps[k].Bytes()))
			}
		}
		m["kept"] = kept
		sk := []string{}
		for _, s := range ss {
			sk = append(sk, hexs(s.Bytes()))
		}
		m["skept"] = sk
		m["consts"] = hexs(ristretto.NewGeneratorElement().Bytes()) + hexs(ristretto.NewIdentityElement().Bytes())
	})
}

func (c *recs) pointEq(i int) {
	p := c.rp()
	q := p
	switch c.r.Intn(4) {
	case 0:
		q = c.rp()
	case 1:
		q = ref.PSub(ref.Base(ref.Int(0)), p)
	}
	a, b := c.variant(p), c.variant(q)
	if c.r.Intn(6) == 0 {
		b = a
		q = p
	}
	c.rec("peq", fields{"a": hexs(ref.Encode(p)), "b": hexs(ref.Encode(q))}, func(m fields) {
		m["eq"] = a.Equal(b) == 1
		m["sym"] = b.Equal(a) == 1
		v := a.Equal(b)
		m["bit"] = v == 0 || v == 1
		m["enc"] = string(a.Bytes()) == string(b.Bytes())
		m["key"] = eddsa.NewPublicKeyFromPoint(a).Equal(eddsa.NewPublicKeyFromPoint(b))
	})
}

// ---------------------------------------------------------------- sharing

func shuffle(r *rand.Rand, ids []uint16) []uint16 {
	out := append([]uint16{}, ids...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (c *recs) lagrange(i int) {
	r := c.r
	n := 1 + r.Intn(8)
	if i%25 == 24 {
		n = 30 + r.Intn(60)
	}
	ids := drv.RandIDs(r, n)
	id := ids[r.Intn(n)]
	switch r.Intn(8) {
	case 0:
		id = 0
	case 1:
		id = uint16(r.Intn(65536))
	case 2:
		id ^= 1 << uint(r.Intn(16))
	}
	list := shuffle(r, ids)
	if r.Intn(3) == 0 {
		list = ids
	}
	l := drv.IDs(list)
	c.rec("lagrange", fields{"ids": drv.Ints(list), "id": int(id)}, func(m fields) {
		v, err := party.ID(id).Lagrange(l)
		m["ok"], m["v"] = err == nil, ""
		m["half"] = (err == nil) != (v != nil)
		if v != nil {
			m["v"] = hexs(v.Bytes())
		}
		m["after"] = idInts(l)
	})
}

func idInts(l party.IDSlice) []int {
	out := make([]int, len(l))
	for i, x := range l {
		out[i] = int(x)
	}
	return out
}

func (c *recs) deal(i int) {
	r := c.r
	n := 1 + r.Intn(7)
	t := r.Intn(n)
	if i%5 == 4 {
		t = n - 1
	}
	c.dealt(i, drv.RandIDs(r, n), t)
}

// dealBig deals with thresholds around 2^8.
func (c *recs) dealBig(i int) {
	t := []int{300 + c.r.Intn(300), 255, 64 + c.r.Intn(128), 256, 257}[i%5]
	c.dealt(i, drv.RandIDs(c.r, t+1+c.r.Intn(3)), t)
}

func (c *recs) dealt(i int, ids []uint16, t int) {
	r := c.r
	s := drv.UseStream(fmt.Sprintf("deal/%d/%d", i, r.Int63()))
	c.rec("deal", fields{"ids": drv.Ints(ids), "t": t}, func(m fields) {
		secret, shares := helpers.GenerateSecrets(drv.IDs(ids), party.Size(t))
		pub := helpers.GeneratePublic(party.Size(t), shares)
		all := []byte{}
		for _, x := range s.Reads {
			all = append(all, x...)
		}
		m["rand"] = hexs(all)
		m["secret"] = hexs(secret.Bytes())
		got, sids, sv, sp, pv, oid := []int{}, []int{}, []string{}, []string{}, []string{}, []int{}
		for id := range shares {
			got = append(got, int(id))
		}
		sort.Ints(got)
		for _, id := range got {
			x := shares[party.ID(id)]
			sids = append(sids, int(x.ID))
			sv = append(sv, hexs(x.Secret.Bytes()))
			sp = append(sp, hexs(x.Public.Bytes()))
			if e := pub.Shares[party.ID(id)]; e != nil {
				pv = append(pv, hexs(e.Bytes()))
			} else {
				pv = append(pv, "")
			}
		}
		oid = idInts(pub.PartyIDs)
		m["shares"], m["shareids"], m["gotids"], m["sharepub"], m["pub"] = sv, sids, got, sp, pv
		m["gk"], m["pubt"], m["pubids"] = hexs(drv.PKBytes(pub.GroupKey)), int(pub.Threshold), oid
	})
}

// ---------------------------------------------------------------- constructors

// faultyIDs is a party list that is mostly sorted and sometimes wrong.
func (c *recs) faultyIDs(n int) []uint16 {
	r := c.r
	ids := drv.RandIDs(r, n)
	switch r.Intn(8) {
	case 0:
		if n > 0 {
			ids[0] = 0
		}
	case 1:
		if n > 1 {
			k := r.Intn(n - 1)
			ids[k] = ids[k+1]
		}
	case 2:
		if n > 1 {
			k := r.Intn(n - 1)
			ids[k], ids[k+1] = ids[k+1], ids[k]
		}
	case 3:
		ids = shuffle(r, ids)
	}
	return ids
}

func (c *recs) newKeygen(i int) {
	r := c.r
	n := r.Intn(6)
	if r.Intn(3) != 0 {
		n = 2 + r.Intn(4)
	}
	ids := c.faultyIDs(n)
	self := 0
	if n > 0 {
		self = int(ids[r.Intn(n)])
	}
	if r.Intn(6) == 0 {
		self = r.Intn(65536)
	}
	if r.Intn(10) == 0 {
		self = 0
	}
	t := 1
	if n > 2 {
		t = 1 + r.Intn(n-1)
	}
	switch r.Intn(5) {
	case 0:
		t = []int{0, n, n - 1, n + 1, 65535, 65534, 32768}[r.Intn(7)]
		if t < 0 {
			t = 0
		}
	}
	c.rec("newkg", fields{"ids": drv.Ints(ids), "self": self, "t": t}, func(m fields) {
		st, out, err := frost.NewKeygenState(party.ID(self), drv.IDs(ids), party.Size(t), 0)
		m["ok"], m["some"], m["both"] = err == nil, st != nil || out != nil, st != nil && out != nil
		if err == nil && st != nil {
			st.Err()
		}
	})
}

func (c *recs) newSign(i int) {
	r := c.r
	n := 2 + r.Intn(5)
	kids := drv.RandIDs(r, n)
	t := r.Intn(n)
	if t == 0 && r.Intn(2) == 0 {
		t = 1
	}
	key, err := scen.Deal(r, kids, t)
	if err != nil {
		return
	}
	size := t + 1 + r.Intn(n-t)
	if r.Intn(4) == 0 {
		size = r.Intn(n + 1)
	}
	ids := scen.Subset(r, kids, size)
	switch r.Intn(9) {
	case 0:
		if len(ids) > 0 {
			ids[0] = 0
		}
	case 1:
		if len(ids) > 1 {
			ids[0] = ids[1]
		}
	case 2:
		ids = shuffle(r, ids)
	case 3: // a signer without a share
		ids = append(ids, uint16(1+r.Intn(65535)))
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	case 4: // the last one twice
		if len(ids) > 0 {
			ids = append(ids, ids[len(ids)-1])
		}
	}
	self := kids[r.Intn(n)]
	if len(ids) > 0 && r.Intn(4) != 0 {
		if s := ids[r.Intn(len(ids))]; key.Shares[s] != nil {
			self = s
		}
	}
	c.rec("newsg", fields{"ids": drv.Ints(ids), "self": int(self), "key": drv.Ints(kids), "t": t}, func(m fields) {
		st, out, err := frost.NewSignState(drv.IDs(ids), key.Shares[self], key.Public, []byte("m"), 0)
		m["ok"], m["some"], m["both"] = err == nil, st != nil || out != nil, st != nil && out != nil
	})
}

func (c *recs) newPublic(i int) {
	r := c.r
	n := r.Intn(7)
	ids := drv.RandIDs(r, n)
	if n > 0 && r.Intn(6) == 0 {
		ids[0] = 0
	}
	t := 0
	if n > 0 {
		t = r.Intn(n)
	}
	if r.Intn(4) == 0 {
		t = []int{n, n + 1, 65535, 65534, 1}[r.Intn(5)]
	}
	sh := map[party.ID]*ristretto.Element{}
	hs := []string{}
	for _, id := range ids {
		e, h := c.elem()
		if r.Intn(25) == 0 {
			e, h = nil, ""
		}
		sh[party.ID(id)] = e
		hs = append(hs, h)
	}
	c.rec("newpub", fields{"ids": drv.Ints(ids), "sh": hs, "t": t}, func(m fields) {
		p, err := eddsa.NewPublic(sh, party.Size(t))
		m["ok"] = err == nil
		m["half"] = (err == nil) != (p != nil)
		m["oids"], m["ot"], m["osh"], m["ogk"] = []int{}, 0, []string{}, ""
		if err == nil && p != nil {
			m["oids"], m["ot"] = idInts(p.PartyIDs), int(p.Threshold)
			m["osh"] = sharesOf(p)
			m["ogk"] = hexs(drv.PKBytes(p.GroupKey))
		}
	})
}

func sharesOf(p *eddsa.Public) []string {
	k := []int{}
	for id := range p.Shares {
		k = append(k, int(id))
	}
	sort.Ints(k)
	out := []string{}
	for _, id := range k {
		if e := p.Shares[party.ID(id)]; e != nil {
			out = append(out, hexs(e.Bytes()))
		} else {
			out = append(out, "")
		}
	}
	return out
}

func (c *recs) ids(i int) {
	r := c.r
	mk := func(n int) []uint16 {
		out := []uint16{}
		for k := 0; k < n; k++ {
			if r.Intn(3) == 0 {
				out = append(out, uint16(r.Intn(8)))
			} else {
				out = append(out, uint16(r.Intn(65536)))
			}
		}
		return out
	}
	a := mk(r.Intn(9))
	b := mk(r.Intn(9))
	switch r.Intn(4) {
	case 0:
		b = shuffle(r, a)
	case 1:
		b = append(shuffle(r, a), mk(r.Intn(3))...)
	case 2:
		b = shuffle(r, a)
		if len(b) > 0 {
			b = b[1:]
		}
	}
	ask := append(mk(3), 0, 1, 65535)
	ask = append(ask, a...)
	c.rec("ids", fields{"ids": drv.Ints(a), "other": drv.Ints(b), "ask": drv.Ints(ask)}, func(m fields) {
		in := drv.IDs(a)
		s := party.NewIDSlice(in)
		o := party.NewIDSlice(drv.IDs(b))
		has := []bool{}
		for _, x := range ask {
			has = append(has, s.Contains(party.ID(x)))
		}
		m["has"] = has
		m["sorted"], m["osorted"], m["input"] = idInts(s), idInts(o), idInts(in)
		m["subset"], m["equal"], m["n"] = s.IsSubsetOf(o), s.Equal(o), int(s.N())
		cp := s.Copy()
		m["copy"] = idInts(cp)
		for k := range cp {
			cp[k]++
		}
		for k := range in {
			in[k]++
		}
		m["kept"] = idInts(s)
	})
	n := r.Intn(40)
	if i%17 == 16 {
		n = []int{255, 256, 1000, 65535}[r.Intn(4)]
	}
	c.rec("slice", fields{"n": n}, func(m fields) {
		s := helpers.GenerateSet(party.Size(n))
		ok := len(s) == n
		for k := range s {
			ok = ok && int(s[k]) == k+1
		}
		s = helpers.NewPartySlice(party.Size(n))
		ok = ok && len(s) == n
		for k := range s {
			ok = ok && int(s[k]) == k+1
		}
		m["ok"] = ok
	})
}

func (c *recs) id(i int) {
	r := c.r
	id := r.Intn(65536)
	switch r.Intn(4) {
	case 0:
		id = []int{0, 1, 255, 256, 257, 32767, 32768, 65534, 65535}[r.Intn(9)]
	}
	c.rec("id", fields{"id": id}, func(m fields) {
		x := party.ID(id)
		m["bytes"] = hexs(x.Bytes())
		y, err := party.FromBytes(append(x.Bytes(), make([]byte, r.Intn(3))...))
		m["back"] = -1
		if err == nil {
			m["back"] = int(y)
		}
		m["scalar"] = hexs(x.Scalar().Bytes())
		t, err := x.MarshalText()
		m["text"], m["str"] = string(t), x.String()
		var z party.ID
		m["tback"] = -1
		if err == nil && z.UnmarshalText(t) == nil {
			m["tback"] = int(z)
		}
	})
	texts := []string{"65536", "-1", "65537", "131073", "4294967297", "18446744073709551617", "", "x", "1.5", "1e3", "0x10", " 1", "1 ", "a1"}
	v, s := -1, texts[r.Intn(len(texts))]
	if r.Intn(2) == 0 {
		v = r.Intn(65536)
		s = strconv.Itoa(v)
	}
	c.rec("idtext", fields{"s": s, "val": v}, func(m fields) {
		var z party.ID
		err := z.UnmarshalText([]byte(s))
		m["ok"], m["got"] = err == nil, int(z)
	})
	c.rec("idshort", fields{"n": i % 2}, func(m fields) {
		_, err := party.FromBytes(make([]byte, i%2))
		m["ok"] = err == nil
	})
}

// ---------------------------------------------------------------- stored keys

func (c *recs) scalarBytes() []byte {
	switch c.r.Intn(6) {
	case 0:
		return unhex(edgeWords[c.r.Intn(len(edgeWords))])
	case 1:
		b := make([]byte, 32)
		c.r.Read(b)
		return b
	case 2:
		b := c.scalar().Bytes()
		switch c.r.Intn(3) {
		case 0:
			return b[:c.r.Intn(32)]
		case 1:
			return append(b, make([]byte, 1+c.r.Intn(3))...)
		}
		b[31] |= 0x20 << uint(c.r.Intn(3))
		return b
	}
	return c.scalar().Bytes()
}

func (c *recs) shareBin(i int) {
	id := c.r.Intn(65536)
	b := append([]byte{byte(id >> 8), byte(id)}, c.scalarBytes()...)
	if c.r.Intn(12) == 0 {
		b = b[:c.r.Intn(len(b))]
	}
	c.rec("sharebin", fields{"b": hexs(b)}, func(m fields) {
		s := c.usedShare()
		in := append([]byte{}, b...)
		err := s.UnmarshalBinary(in)
		m["ok"], m["id"], m["secret"], m["public"], m["enc"], m["eq"] = err == nil, 0, "", "", "", false
		for k := range in {
			in[k] ^= 0xff
		}
		if err == nil {
			m["id"], m["secret"], m["public"] = int(s.ID), hexs(s.Secret.Bytes()), hexs(s.Public.Bytes())
			if e, err := s.MarshalBinary(); err == nil {
				m["enc"] = hexs(e)
				var s2 eddsa.SecretShare
				m["eq"] = s2.UnmarshalBinary(e) == nil && s2.Equal(s) && s.Equal(&s2)
			}
		}
	})
}

// usedShare is a share object that may already hold something.
func (c *recs) usedShare() *eddsa.SecretShare {
	if c.r.Intn(2) == 0 {
		return eddsa.NewSecretShare(party.ID(c.r.Intn(65536)), c.scalar())
	}
	return &eddsa.SecretShare{}
}

func (c *recs) shareJSON(i int) {
	r := c.r
	id := int64(r.Intn(65536))
	switch r.Intn(6) {
	case 0:
		id = []int64{-1, 65536, 65537, 131072, -65535, 1 << 32, 1<<32 + 1, 1<<48 + 5, -1 << 40}[r.Intn(9)]
	case 1:
		id = []int64{0, 1, 255, 256, 65535}[r.Intn(5)]
	}
	sb := c.scalarBytes()
	txt := fmt.Sprintf(`{"id":%d,"secret":"%s"}`, id, base64.StdEncoding.EncodeToString(sb))
	switch r.Intn(16) {
	case 0:
		sb = nil
		txt = fmt.Sprintf(`{"id":%d}`, id)
	case 1:
		sb = nil
		txt = fmt.Sprintf(`{"id":%d,"secret":null}`, id)
	case 2:
		txt = fmt.Sprintf(`{ "secret" : "%s", "id" : %d }`, base64.StdEncoding.EncodeToString(sb), id)
	case 3, 4:
		txt = fmt.Sprintf(`{"id":%d,"secret":"%s"}`, id, c.badText(sb))
		sb = nil
	}
	cl := id
	if id < 0 || id > 70000 {
		cl = -1
	}
	c.rec("sharejson", fields{"id": cl, "s": hexs(sb), "text": txt}, func(m fields) {
		s := c.usedShare()
		err := json.Unmarshal([]byte(txt), s)
		m["ok"], m["oid"], m["secret"], m["public"], m["eid"], m["es"], m["eq"] = err == nil, 0, "", "", 0, "", false
		if err == nil {
			m["oid"], m["secret"], m["public"] = int(s.ID), hexs(s.Secret.Bytes()), hexs(s.Public.Bytes())
			e, err := json.Marshal(s)
			if err != nil {
				return
			}
			var raw struct {
				ID     int    `json:"id"`
				Secret []byte `json:"secret"`
			}
			if json.Unmarshal(e, &raw) == nil {
				m["eid"], m["es"] = raw.ID, hexs(raw.Secret)
			}
			var s2 eddsa.SecretShare
			m["eq"] = json.Unmarshal(e, &s2) == nil && s2.Equal(s) && s.Equal(&s2)
		}
	})
}

// badText is a text that is not the base64 form of anything.
func (c *recs) badText(b []byte) string {
	t := base64.StdEncoding.EncodeToString(b)
	switch k := c.r.Intn(8); {
	case k == 0 && strings.HasSuffix(t, "="):
		return strings.TrimRight(t, "=")
	case k == 1:
		return t + "="
	case k == 2 && len(t) > 4:
		return t[1:]
	case k == 3:
		return t + " "
	case k == 4 && len(t) > 4:
		return t[:4] + "=" + t[5:]
	case k == 5 && len(t) > 4:
		i := c.r.Intn(len(t) - 4)
		return t[:i] + []string{"-", "_", "!", " ", "."}[c.r.Intn(5)] + t[i+1:]
	case k == 6:
		return "=" + t
	}
	return t + "A"
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func (c *recs) pubJSON(i int) {
	n := 1 + c.r.Intn(5)
	c.pubJSONOf(n, c.r.Intn(n))
}

// pubBig: numbers of parties and thresholds around and beyond 256
func (c *recs) pubBig(i int) {
	n := []int{255, 256, 257, 258, 300, 400}[c.r.Intn(6)] + 3*(i&1)
	t := n - 1 - c.r.Intn(3)
	if i%3 == 2 {
		t = 250 + c.r.Intn(n-250)
	}
	c.pubJSONOf(n, t)
}

func (c *recs) pubJSONOf(n, t int) {
	r := c.r
	ids := drv.RandIDs(r, n)
	f := ref.Poly(r, t)
	type item struct {
		id   int
		b    []byte
		text string // when not the base64 of b
		null bool
	}
	its := []item{}
	for _, id := range ids {
		its = append(its, item{id: int(id), b: ref.Encode(ref.Base(ref.Eval(f, id)))})
	}
	gk := ref.Encode(ref.Base(f[0]))
	jt := int64(t)
	gkText := true
	gkBad := ""
	kind := r.Intn(15)
	if n > 5 && r.Intn(3) > 0 {
		kind = 13
	}
	switch kind {
	case 14:
		if r.Intn(3) == 0 {
			gkBad = c.badText(gk)
		} else {
			k := r.Intn(n)
			its[k].text = c.badText(its[k].b)
		}
	case 0:
		jt = []int64{-1, int64(n), int64(n) + 1, 65536, 65536 + int64(t), 1 << 32, 1<<32 + int64(t), -65536 + int64(t), 1 << 40, 65535}[r.Intn(10)]
	case 1:
		its[0].id = []int{0, 65536, 65537, -1, 131073}[r.Intn(5)]
		sort.Slice(its, func(a, b int) bool { return its[a].id < its[b].id })
	case 2:
		its[r.Intn(n)].null = true
	case 3:
		its[r.Intn(n)].b = unhex(edgeWords[r.Intn(len(edgeWords))])
	case 4:
		gk = unhex(edgeWords[r.Intn(len(edgeWords))])
	case 5:
		gk = ref.Encode(c.rp())
	case 6:
		gkText = false
	case 7:
		k := r.Intn(n)
		its[k].b = its[k].b[:r.Intn(32)]
	case 8:
		k := r.Intn(n)
		its[k].b = ref.Encode(c.rp())
	case 9: // any threshold below the number of shares belongs to consistent data
		jt = int64(r.Intn(n))
	case 10: // two shares exchanged
		if n > 1 {
			its[0].b, its[1].b = its[1].b, its[0].b
		}
	case 11:
		if r.Intn(2) == 0 {
			its = its[:0]
		} else {
			gk = append(gk, 0)
		}
	}
	parts := []string{}
	jids, jsh := []int{}, []string{}
	for _, x := range its {
		id := x.id
		if x.null {
			parts = append(parts, fmt.Sprintf(`"%d":null`, x.id))
			jsh = append(jsh, "")
		} else {
			if x.text != "" {
				parts = append(parts, fmt.Sprintf(`"%d":"%s"`, x.id, x.text))
				jsh = append(jsh, "")
			} else {
				parts = append(parts, fmt.Sprintf(`"%d":"%s"`, x.id, b64(x.b)))
				jsh = append(jsh, hexs(x.b))
			}
		}
		if id < 0 || id > 70000 {
			id = -1
		}
		jids = append(jids, id)
	}
	// in any order
	r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
	fs := []string{fmt.Sprintf(`"t":%d`, jt), `"shares":{` + strings.Join(parts, ",") + `}`}
	if gkBad != "" {
		fs = append(fs, fmt.Sprintf(`"groupkey":"%s"`, gkBad))
		gk = nil
	} else if gkText {
		fs = append(fs, fmt.Sprintf(`"groupkey":"%s"`, b64(gk)))
	} else {
		gk = nil
		if r.Intn(2) == 0 {
			fs = append(fs, `"groupkey":null`)
		}
	}
	r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
	txt := "{" + strings.Join(fs, ",") + "}"
	ct := jt
	if jt < 0 || jt > 100000 {
		ct = -1
	}
	c.rec("pubjson", fields{"t": ct, "ids": jids, "sh": jsh, "gk": hexs(gk), "text": txt}, func(m fields) {
		var p eddsa.Public
		if r.Intn(2) == 0 { // an object that already holds something
			if k, err := scen.Deal(r, drv.RandIDs(r, 3), 1); err == nil {
				p = *k.Public
			}
		}
		err := json.Unmarshal([]byte(txt), &p)
		m["ok"] = err == nil
		m["oids"], m["oshids"], m["ot"], m["osh"], m["ogk"] = []int{}, []int{}, 0, []string{}, ""
		m["et"], m["eids"], m["esh"], m["egk"], m["eq"] = 0, []int{}, []string{}, "", false
		if err != nil {
			return
		}
		m["oids"], m["ot"], m["osh"], m["ogk"] = idInts(p.PartyIDs), int(p.Threshold), sharesOf(&p), hexs(drv.PKBytes(p.GroupKey))
		k := []int{}
		for id := range p.Shares {
			k = append(k, int(id))
		}
		sort.Ints(k)
		m["oshids"] = k
		e, err := json.Marshal(&p)
		if err != nil {
			return
		}
		var raw struct {
			T      int               `json:"t"`
			GK     []byte            `json:"groupkey"`
			Shares map[string][]byte `json:"shares"`
		}
		if json.Unmarshal(e, &raw) != nil {
			return
		}
		ek := []int{}
		for id := range raw.Shares {
			v, err := strconv.Atoi(id)
			if err != nil {
				return
			}
			ek = append(ek, v)
		}
		sort.Ints(ek)
		es := []string{}
		for _, id := range ek {
			es = append(es, hexs(raw.Shares[strconv.Itoa(id)]))
		}
		m["et"], m["eids"], m["esh"], m["egk"] = raw.T, ek, es, hexs(raw.GK)
		var p2 eddsa.Public
		m["eq"] = json.Unmarshal(e, &p2) == nil && p2.Equal(&p) && p.Equal(&p2)
	})
}

func pubFields(p *eddsa.Public) fields {
	return fields{"t": int(p.Threshold), "ids": idInts(p.PartyIDs), "sh": sharesOf(p), "gk": hexs(drv.PKBytes(p.GroupKey))}
}

func (c *recs) pubEq(i int) {
	r := c.r
	n := 2 + r.Intn(4)
	ids := drv.RandIDs(r, n)
	t := r.Intn(n)
	f := ref.Poly(r, t)
	mk := func(ids []uint16, t int, sh map[uint16]*ref.Point) *eddsa.Public {
		s := map[party.ID]*ristretto.Element{}
		for _, id := range ids {
			s[party.ID(id)] = c.variant(sh[id])
		}
		p, err := eddsa.NewPublic(s, party.Size(t))
		if err != nil {
			return nil
		}
		return p
	}
	sh, sh2 := map[uint16]*ref.Point{}, map[uint16]*ref.Point{}
	for _, id := range ids {
		sh[id] = ref.Base(ref.Eval(f, id))
		sh2[id] = sh[id]
	}
	ids2, t2 := ids, t
	switch r.Intn(6) {
	case 0:
		t2 = r.Intn(n)
	case 1: // one share
		sh2[ids[r.Intn(n)]] = c.rp()
	case 2: // two shares changed such that the group key stays the same
		pm := r.Perm(n)
		a, b := ids[pm[0]], ids[pm[1]]
		d := ref.Rand(r)
		la, lb := ref.Lagrange(a, ids), ref.Lagrange(b, ids)
		sh2[a] = ref.PAdd(sh2[a], ref.Base(ref.Mul(d, ref.Inv(la))))
		sh2[b] = ref.PSub(sh2[b], ref.Base(ref.Mul(d, ref.Inv(lb))))
	case 3: // one share fewer
		if n > t+1 {
			ids2 = ids[:n-1]
		}
	case 4: // another identifier
		ids2 = append([]uint16{}, ids...)
		x := ids2[n-1]
		y := x ^ 1
		ok := y != 0
		for _, z := range ids {
			ok = ok && z != y
		}
		if ok {
			ids2[n-1] = y
			sh2[y] = sh2[x]
			sort.Slice(ids2, func(a, b int) bool { return ids2[a] < ids2[b] })
		}
	}
	p, q := mk(ids, t, sh), mk(ids2, t2, sh2)
	if p == nil || q == nil {
		return
	}
	if r.Intn(4) == 0 { // a record put together by hand, with another group key
		q = &eddsa.Public{PartyIDs: q.PartyIDs, Threshold: q.Threshold, Shares: q.Shares, GroupKey: eddsa.NewPublicKeyFromPoint(c.variant(c.rp()))}
	}
	c.rec("pubeq", fields{"a": pubFields(p), "b": pubFields(q)}, func(m fields) {
		m["eq"], m["sym"] = p.Equal(q), q.Equal(p)
	})
}

func (c *recs) shareEq(i int) {
	r := c.r
	id, s := r.Intn(65536), c.scalar()
	id2, s2 := id, s
	switch r.Intn(4) {
	case 0:
		id2 = id ^ 1<<uint(r.Intn(16))
	case 1:
		s2 = ref.Add(s, ref.Int(uint64(1+r.Intn(3))))
	case 2:
		s2 = ref.Sub(ref.Int(0), s)
	}
	a, b := eddsa.NewSecretShare(party.ID(id), s), eddsa.NewSecretShare(party.ID(id2), s2)
	c.rec("shareeq", fields{"a": fields{"id": id, "s": hexs(s.Bytes())}, "b": fields{"id": id2, "s": hexs(s2.Bytes())}}, func(m fields) {
		m["eq"], m["sym"] = a.Equal(b), b.Equal(a)
	})
}

func (c *recs) keyJSON(i int) {
	r := c.r
	b := ref.Encode(c.rp())
	switch r.Intn(5) {
	case 0:
		b = unhex(edgeWords[r.Intn(len(edgeWords))])
	case 1:
		b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case 2:
		b = b[:r.Intn(32)]
	}
	txt := fmt.Sprintf(`"%s"`, b64(b))
	if r.Intn(5) == 0 {
		txt = fmt.Sprintf(`"%s"`, c.badText(b))
		b = nil
	}
	c.rec("keyjson", fields{"b": hexs(b)}, func(m fields) {
		var k eddsa.PublicKey
		err := json.Unmarshal([]byte(txt), &k)
		m["ok"], m["enc"], m["ed"], m["eq"] = err == nil, "", "", false
		if err == nil {
			e, err := json.Marshal(&k)
			var raw []byte
			if err == nil && json.Unmarshal(e, &raw) == nil {
				m["enc"] = hexs(raw)
			}
			m["ed"] = hexs(k.ToEd25519())
			var k2 eddsa.PublicKey
			m["eq"] = json.Unmarshal(e, &k2) == nil && k2.Equal(&k) && k.Equal(&k2)
		}
	})
}

func (c *recs) sigBin(i int) {
	r := c.r
	b := append(ref.Encode(c.rp()), c.scalarBytes()...)
	switch r.Intn(6) {
	case 0:
		copy(b, unhex(edgeWords[r.Intn(len(edgeWords))]))
	case 1:
		b = b[:r.Intn(len(b))]
	case 2:
		b = append(b, make([]byte, 1+r.Intn(64))...)
	}
	c.rec("sigbin", fields{"b": hexs(b)}, func(m fields) {
		var s eddsa.Signature
		in := append([]byte{}, b...)
		err := s.UnmarshalBinary(in)
		for k := range in {
			in[k] ^= 0xff
		}
		m["ok"], m["enc"], m["size"], m["app"], m["ed"], m["eq"] = err == nil, "", 0, "", "", false
		if err == nil {
			e, _ := s.MarshalBinary()
			a, _ := s.BytesAppend(append(make([]byte, 0, 3+r.Intn(100)), 0xc0, 0xff, 0xee))
			m["enc"], m["size"], m["app"], m["ed"] = hexs(e), s.Size(), hexs(a), hexs(s.ToEd25519())
			var s2 eddsa.Signature
			m["eq"] = s2.UnmarshalBinary(e) == nil && s2.Equal(&s) && s.Equal(&s2)
		}
	})
}

func (c *recs) sigEq(i int) {
	r := c.r
	a := append(ref.Encode(c.rp()), c.scalar().Bytes()...)
	R, S := ref.Decode(a[:32]), ref.NewScalar()
	if _, err := S.SetCanonicalBytes(a[32:]); err != nil {
		panic(err)
	}
	R2, S2 := R, S
	switch r.Intn(7) {
	case 0:
		R2 = ref.PAdd(R, ref.Base(ref.Int(uint64(1+r.Intn(3)))))
	case 1:
		R2 = ref.PSub(ref.Base(ref.Int(0)), R)
	case 2:
		S2 = ref.Add(S, ref.Int(uint64(1)<<uint(r.Intn(60))))
	case 3:
		S2 = ref.Sub(ref.Int(0), S)
	case 4:
		R2, S2 = c.rp(), c.scalar()
	}
	b := append(ref.Encode(R2), S2.Bytes()...)
	x, y := &eddsa.Signature{R: *c.variant(R)}, &eddsa.Signature{R: *c.variant(R2)}
	x.S.Set(S)
	y.S.Set(S2)
	c.rec("sigeq", fields{"a": hexs(a), "b": hexs(b)}, func(m fields) {
		m["eq"], m["sym"], m["self"] = x.Equal(y), y.Equal(x), x.Equal(x)
		odd := false
		for _, o := range []interface{}{nil, 3, "x", a, struct{}{}, S, R, &messages.Sign2{}} {
			odd = odd || x.Equal(o)
		}
		m["odd"] = odd
	})
}

// ---------------------------------------------------------------- verification

func (c *recs) message() []byte {
	r := c.r
	n := []int{0, 1, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 200, 1000, 5000}[r.Intn(16)]
	m := make([]byte, n)
	r.Read(m)
	return m
}

func (c *recs) verify(i int) {
	r := c.r
	msg := c.message()
	x := c.scalar()
	A := ref.Base(x)
	k := c.scalar()
	R := ref.Base(k)
	S := ref.Add(k, ref.Mul(ref.Challenge(R, A, msg), x))
	must := true
	vmsg := msg
	if i%5 == 4 { // made by standard Ed25519
		seed := make([]byte, 32)
		r.Read(seed)
		priv := ed25519.NewKeyFromSeed(seed)
		h := sha512.Sum512(seed)
		h[0] &= 248
		h[31] &= 127
		h[31] |= 64
		xs := ref.Uniform2(h[:32])
		A = ref.Base(xs)
		sig := ed25519.Sign(priv, msg)
		k = ref.Uniform(h[32:], msg)
		R = ref.Base(k)
		S = ref.NewScalar()
		if _, err := S.SetCanonicalBytes(sig[32:]); err != nil {
			panic(err)
		}
		if string(ref.EdBytes(R)) != string(sig[:32]) {
			panic("reference nonce does not fit")
		}
	}
	if r.Intn(2) == 0 {
		must = false
		switch r.Intn(10) {
		case 0:
			vmsg = append(append([]byte{}, msg...), 0)
		case 1:
			if len(msg) > 0 {
				vmsg = append([]byte{}, msg...)
				vmsg[r.Intn(len(msg))] ^= 1 << uint(r.Intn(8))
			}
		case 2:
			S = ref.Add(S, ref.Int(1))
		case 3:
			R = ref.PAdd(R, ref.Base(ref.Int(1)))
		case 4:
			A = ref.PAdd(A, ref.Base(ref.Int(1)))
		case 5:
			S = ref.Sub(ref.Int(0), S)
		case 6: // identity key or nonce
			A = ref.Base(ref.Int(0))
			S = k
		case 7:
			R = ref.Base(ref.Int(0))
			S = ref.Mul(ref.Challenge(R, A, msg), x)
		case 8: // valid for the negated nonce or key
			R = ref.PSub(ref.Base(ref.Int(0)), R)
		case 9:
			A = ref.PSub(ref.Base(ref.Int(0)), A)
		}
	}
	// another signature to compare with
	R2, S2, same := R, S, true
	switch r.Intn(3) {
	case 0:
		R2, same = ref.PAdd(R, ref.Base(ref.Int(1))), false
	case 1:
		S2, same = ref.Add(S, ref.Int(1)), false
	}
	eA, eR, eR2 := c.variant(A), c.variant(R), c.variant(R2)
	c.rec("verify", fields{"A": hexs(ref.Encode(A)), "R": hexs(ref.Encode(R)), "S": hexs(S.Bytes()), "m": hexs(vmsg), "must": must, "same": same}, func(m fields) {
		pk := eddsa.NewPublicKeyFromPoint(eA)
		sig := &eddsa.Signature{R: *eR, S: *S}
		sig2 := &eddsa.Signature{R: *eR2, S: *S2}
		buf := append([]byte{}, vmsg...)
		if len(vmsg) == 0 && r.Intn(2) == 0 {
			buf = nil
		}
		m["lib"] = pk.Verify(buf, sig)
		ea, es := pk.ToEd25519(), sig.ToEd25519()
		m["edA"], m["edS"] = hexs(ea), hexs(es)
		m["std"] = len(ea) == 32 && ed25519.Verify(ea, buf, es)
		m["chal"] = hexs(eddsa.ComputeChallenge(eR, pk, buf).Bytes())
		m["eq"] = sig.Equal(sig2) && sig2.Equal(sig)
		m["kept"] = string(buf) == string(vmsg) && hexs(eA.Bytes()) == hexs(ref.Encode(A)) && hexs(sig.R.Bytes()) == hexs(ref.Encode(R)) &&
			hexs(sig.S.Bytes()) == hexs(S.Bytes()) && pk.Verify(buf, sig) == m["lib"].(bool)
	})
}

// ---------------------------------------------------------------- hostile input

func (c *recs) fuzz(i int) {
	r := c.r
	var b []byte
	switch i % 6 {
	case 0:
		b = make([]byte, r.Intn(200))
		r.Read(b)
	case 1:
		b = c.mutate(c.mutate(c.valid()))
	case 2: // JSON with odd shapes
		atoms := []string{"null", "0", "-1", "65536", "1e400", "1.5", `""`, `"AA=="`, "true", "[]", "{}", "[null]", `{"1":null}`, `{"":""}`, `"` + b64(ref.Encode(c.rp())) + `"`,
			`{"1":"` + b64(ref.Encode(c.rp())) + `"}`, `{"0":"` + b64(ref.Encode(c.rp())) + `"}`, strings.Repeat("[", 2000), `"\ud800"`, "99999999999999999999999999", "2", "1"}
		at := func() string { return atoms[r.Intn(len(atoms))] }
		b = []byte(fmt.Sprintf(`{"t":%s,"groupkey":%s,"shares":%s,"id":%s,"secret":%s}`, at(), at(), at(), at(), at()))
		if r.Intn(6) == 0 {
			b = []byte(at())
		}
	case 3: // damaged real JSON
		if k, err := scen.Deal(r, drv.RandIDs(r, 3), 1); err == nil {
			if r.Intn(2) == 0 {
				b, _ = json.Marshal(k.Public)
			} else {
				b, _ = json.Marshal(k.Shares[k.IDs[0]])
			}
			for x := 0; x < 1+r.Intn(4); x++ {
				switch r.Intn(4) {
				case 0:
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(7))
				case 1:
					b = b[:r.Intn(len(b))+1]
				case 2:
					o := r.Intn(len(b))
					b = append(b[:o], append([]byte([]string{"null", "-", "0", `"`, "}", "{", ","}[r.Intn(7)]), b[o:]...)...)
				case 3:
					s := string(b)
					for _, v := range []string{`"t":1`, `"id":`, `"groupkey":"`} {
						s = strings.Replace(s, v, v+[]string{"0", "9", "-", "null"}[r.Intn(4)], 1)
					}
					b = []byte(s)
				}
			}
		}
	case 4: // enormous declared degree
		b = append(append([]byte{1, 0, 3, 0, 0}, ref.Int(1).Bytes()...), ref.Int(2).Bytes()...)
		b = append(b, 0xff, byte(0xff-r.Intn(2)))
		g := ref.Encode(ref.Base(ref.Int(7)))
		for k := 0; k < r.Intn(5); k++ {
			b = append(b, g...)
		}
	case 5: // all lengths of zeros and ones
		b = make([]byte, r.Intn(140))
		if r.Intn(2) == 0 {
			for k := range b {
				b[k] = 0xff
			}
		}
	}
	c.rec("fuzz", fields{"b": hexs(b)}, func(m fields) {
		t0 := time.Now()
		var x messages.Message
		if x.UnmarshalBinary(b) == nil {
			_, _ = x.MarshalBinary()
			x.Size()
			x.Equal(&messages.Message{Header: x.Header})
			x.Equal(nil)
		}
		_ = new(messages.Header).UnmarshalBinary(b)
		_ = new(messages.KeyGen1).UnmarshalBinary(b)
		_ = new(messages.KeyGen2).UnmarshalBinary(b)
		_ = new(messages.Sign1).UnmarshalBinary(b)
		_ = new(messages.Sign2).UnmarshalBinary(b)
		var s eddsa.SecretShare
		if s.UnmarshalBinary(b) == nil {
			_, _ = s.MarshalBinary()
		}
		if json.Unmarshal(b, &s) == nil {
			_, _ = json.Marshal(&s)
		}
		_ = s.UnmarshalJSON(b)
		var p eddsa.Public
		if json.Unmarshal(b, &p) == nil && p.GroupKey != nil {
			_, _ = json.Marshal(&p)
			p.Equal(&p)
		}
		p = eddsa.Public{}
		if p.UnmarshalJSON(b) == nil {
			_, _ = json.Marshal(&p)
			p.Equal(&p)
		}
		var k eddsa.PublicKey
		_ = json.Unmarshal(b, &k)
		_ = k.UnmarshalJSON(b)
		var g eddsa.Signature
		if g.UnmarshalBinary(b) == nil {
			_, _ = g.MarshalBinary()
		}
		var e ristretto.Element
		_, _ = e.SetCanonicalBytes(b)
		_, _ = e.SetUniformBytes(b)
		_ = e.UnmarshalText(b)
		var id party.ID
		_ = id.UnmarshalText(b)
		_, _ = party.FromBytes(b)
		m["ms"] = int(time.Since(t0) / time.Millisecond)
	})
}
