// Package ref is a second implementation of the FROST-Ed25519 messages. The drivers use it to play
// the parties that are not under test, honest and misbehaving ones. It works on wire bytes only and
// shares nothing with the code under test except the edwards25519 curve library.
// It is never an oracle: the verdicts come from the TLA+ specification.
package ref

import (
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/rand"
	"sync"

	"filippo.io/edwards25519"
	"filippo.io/edwards25519/field"
)

type Scalar = edwards25519.Scalar
type Point = edwards25519.Point

var (
	fieldOne = new(field.Element).One()
	// RFC 9496, section 4.1
	constD        = fe("a3785913ca4deb75abd841414d0a700098e879777940c78c73fe6f2bee6c0352")
	constSqrtM1   = fe("b0a00e4a271beec478e42fad0618432fa7d7fb3d99004d2b0bdfc14f8024832b")
	constInvSqrtA = fe("ea405d80aafdc899be72415a17162f9d40d801fe917bc216a2fcafcf05896c78")
	eightInv      = sc("792fdce229e50661d0da1c7db39dd30700000000000000000000000000000006")
)

func fe(h string) *field.Element {
	b, _ := hex.DecodeString(h)
	e, err := new(field.Element).SetBytes(b)
	if err != nil {
		panic(err)
	}
	return e
}

func sc(h string) *Scalar {
	b, _ := hex.DecodeString(h)
	s, err := edwards25519.NewScalar().SetCanonicalBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

// Encode is the ristretto255 encoding of p.
func Encode(p *Point) []byte {
	X, Y, Z, T := p.ExtendedCoordinates()
	n := func() *field.Element { return new(field.Element) }
	u1 := n().Multiply(n().Add(Z, Y), n().Subtract(Z, Y))
	u2 := n().Multiply(X, Y)
	inv, _ := n().SqrtRatio(fieldOne, n().Multiply(u1, n().Square(u2)))
	den1, den2 := n().Multiply(inv, u1), n().Multiply(inv, u2)
	zinv := n().Multiply(n().Multiply(den1, den2), T)
	rotate := n().Multiply(T, zinv).IsNegative()
	x := n().Select(n().Multiply(Y, constSqrtM1), X, rotate)
	y := n().Select(n().Multiply(X, constSqrtM1), Y, rotate)
	dinv := n().Select(n().Multiply(den1, constInvSqrtA), den2, rotate)
	if n().Multiply(x, zinv).IsNegative() == 1 {
		y.Negate(y)
	}
	s := n().Multiply(dinv, n().Subtract(Z, y))
	return s.Absolute(s).Bytes()
}

// Decode is the ristretto255 decoding; nil if b is not canonical.
func Decode(b []byte) *Point {
	n := func() *field.Element { return new(field.Element) }
	if len(b) != 32 {
		return nil
	}
	s, err := n().SetBytes(b)
	if err != nil || hex.EncodeToString(s.Bytes()) != hex.EncodeToString(b) || s.IsNegative() == 1 {
		return nil
	}
	ss := n().Square(s)
	u1, u2 := n().Subtract(fieldOne, ss), n().Add(fieldOne, ss)
	u2s := n().Square(u2)
	v := n().Subtract(n().Negate(n().Multiply(constD, n().Square(u1))), u2s)
	inv, ok := n().SqrtRatio(fieldOne, n().Multiply(v, u2s))
	dx := n().Multiply(inv, u2)
	dy := n().Multiply(n().Multiply(inv, dx), v)
	x := n().Multiply(n().Add(s, s), dx)
	x.Absolute(x)
	y := n().Multiply(u1, dy)
	t := n().Multiply(x, y)
	if ok == 0 || t.IsNegative() == 1 || y.Equal(n()) == 1 {
		return nil
	}
	p, err := new(Point).SetExtendedCoordinates(x, y, n().One(), t)
	if err != nil {
		return nil
	}
	return p
}

// EdBytes is the Ed25519 encoding of the torsion-free representative of p.
func EdBytes(p *Point) []byte {
	q := new(Point).MultByCofactor(p)
	return q.ScalarMult(eightInv, q).Bytes()
}

func NewScalar() *Scalar { return edwards25519.NewScalar() }
func Int(n uint64) *Scalar {
	b := make([]byte, 32)
	binary.LittleEndian.PutUint64(b, n)
	s, _ := edwards25519.NewScalar().SetCanonicalBytes(b)
	return s
}
func Rand(r *rand.Rand) *Scalar {
	b := make([]byte, 64)
	r.Read(b)
	s, _ := edwards25519.NewScalar().SetUniformBytes(b)
	return s
}
func Uniform(parts ...[]byte) *Scalar {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	s, err := edwards25519.NewScalar().SetUniformBytes(h.Sum(nil))
	if err != nil {
		panic(err)
	}
	return s
}
func Add(a, b *Scalar) *Scalar { return NewScalar().Add(a, b) }
func Sub(a, b *Scalar) *Scalar { return NewScalar().Subtract(a, b) }
func Mul(a, b *Scalar) *Scalar { return NewScalar().Multiply(a, b) }
func Inv(a *Scalar) *Scalar    { return NewScalar().Invert(a) }
func Base(a *Scalar) *Point    { return new(Point).ScalarBaseMult(a) }
func PMul(a *Scalar, p *Point) *Point {
	return new(Point).ScalarMult(a, p)
}
func PAdd(p, q *Point) *Point { return new(Point).Add(p, q) }
func PSub(p, q *Point) *Point { return new(Point).Subtract(p, q) }

func U16(n uint16) []byte { return []byte{byte(n >> 8), byte(n)} }

// Eval evaluates a polynomial (constant first).
func Eval(f []*Scalar, x uint16) *Scalar {
	r := NewScalar()
	for i := len(f) - 1; i >= 0; i-- {
		r.MultiplyAdd(r, Int(uint64(x)), f[i])
	}
	return r
}

// Lagrange is the coefficient of i at 0 over ids.
func Lagrange(i uint16, ids []uint16) *Scalar {
	num, den := Int(1), Int(1)
	for _, k := range ids {
		if k != i {
			num = Mul(num, Int(uint64(k)))
			den = Mul(den, Sub(Int(uint64(k)), Int(uint64(i))))
		}
	}
	return Mul(num, Inv(den))
}

func header(ty byte, from, to uint16) []byte {
	return append(append([]byte{ty}, U16(from)...), U16(to)...)
}

// Proof returns S || R for the secret of the constant commitment c0 (given as bytes).
func Proof(id uint16, c0 []byte, secret, nonce *Scalar) []byte {
	s := Uniform(U16(id), make([]byte, 32), c0, Encode(Base(nonce)))
	r := NewScalar().MultiplyAdd(s, secret, nonce)
	return append(s.Bytes(), r.Bytes()...)
}

// Commitments encodes degree and coefficients of the polynomial in the exponent.
func Commitments(F []*Point) []byte {
	out := U16(uint16(len(F) - 1))
	for _, p := range F {
		out = append(out, Encode(p)...)
	}
	return out
}

func KeyGen1(from uint16, proof, commitments []byte) []byte {
	return append(append(header(1, from, 0), proof...), commitments...)
}
func KeyGen2(from, to uint16, s *Scalar) []byte { return append(header(2, from, to), s.Bytes()...) }
func Sign1(from uint16, D, E *Point) []byte {
	return append(append(header(3, from, 0), Encode(D)...), Encode(E)...)
}
func Sign2(from uint16, z *Scalar) []byte { return append(header(4, from, 0), z.Bytes()...) }

// Poly is a random polynomial of degree t.
func Poly(r *rand.Rand, t int) []*Scalar {
	f := make([]*Scalar, t+1)
	for i := range f {
		f[i] = Rand(r)
	}
	return f
}
func Commit(f []*Scalar) []*Point {
	F := make([]*Point, len(f))
	for i := range f {
		F[i] = Base(f[i])
	}
	return F
}

// Nonce is one signer's pair of commitments.
type Nonce struct{ D, E *Point }

// the last list of commitments, encoded
var memo struct {
	sync.Mutex
	enc map[[2]*Point][]byte
	of  string
	R   *Point
}

func encodeList(ids []uint16, B map[uint16]Nonce) []byte {
	memo.Lock()
	defer memo.Unlock()
	if len(memo.enc) > 2000 {
		memo.enc = nil
	}
	if memo.enc == nil {
		memo.enc = map[[2]*Point][]byte{}
	}
	var out []byte
	for _, j := range ids {
		k := [2]*Point{B[j].D, B[j].E}
		if memo.enc[k] == nil {
			memo.enc[k] = append(Encode(B[j].D), Encode(B[j].E)...)
		}
		out = append(append(out, U16(j)...), memo.enc[k]...)
	}
	return out
}

func Rho(i uint16, msg []byte, ids []uint16, B map[uint16]Nonce) *Scalar {
	return rho(i, sha512.Sum512(msg), encodeList(ids, B))
}
func rho(i uint16, h [64]byte, list []byte) *Scalar {
	return Uniform([]byte("FROST-SHA512"), U16(i), h[:], list)
}
func GroupNonce(msg []byte, ids []uint16, B map[uint16]Nonce) *Point {
	h, list := sha512.Sum512(msg), encodeList(ids, B)
	of := string(h[:]) + string(list)
	memo.Lock()
	defer memo.Unlock()
	if memo.of == of {
		return memo.R
	}
	R := edwards25519.NewIdentityPoint()
	for _, j := range ids {
		R = PAdd(R, PAdd(B[j].D, PMul(rho(j, h, list), B[j].E)))
	}
	memo.of, memo.R = of, R
	return R
}
func Challenge(R, A *Point, msg []byte) *Scalar { return Uniform(EdBytes(R), EdBytes(A), msg) }

// Share is the signature share of signer i.
func Share(i uint16, d, e, sk *Scalar, msg []byte, ids []uint16, B map[uint16]Nonce, A *Point) *Scalar {
	c := Challenge(GroupNonce(msg, ids, B), A, msg)
	z := Mul(Mul(Lagrange(i, ids), sk), c)
	return Add(z, Add(d, Mul(e, Rho(i, msg, ids, B))))
}

// Uniform2 reduces up to 64 little-endian bytes to a scalar.
func Uniform2(b []byte) *Scalar {
	w := make([]byte, 64)
	copy(w, b)
	s, err := NewScalar().SetUniformBytes(w)
	if err != nil {
		panic(err)
	}
	return s
}
