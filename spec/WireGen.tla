------------------------------- MODULE WireGen -------------------------------
(***************************************************************************)
(* Enumeration of the boundary cases of the wire format: every combination  *)
(* of header values with a fitting payload, every class of 32-byte word in  *)
(* every position of every payload, wrong lengths, and declared degrees     *)
(* against actual coefficient counts.  Each vector is printed; the driver   *)
(* gives it to the decoders of the code under test (specification -> code). *)
(***************************************************************************)
EXTENDS Wire, Json

B1 == PBase(SInt(1))
B7 == PBase(SInt(7))
One == SInt(1)
Q1 == SSub(SZero, One)                 \* q - 1
\* little-endian words around the borders
Q    == "edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010"
Qp1  == "eed3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010"
P2_252 == "0000000000000000000000000000000000000000000000000000000000000010"
Ones == "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
P    == "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"  \* p, a second encoding of 0
Pp2  == "efffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"  \* p + 2
Pm1  == "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"  \* p - 1: y = 0
High == "0000000000000000000000000000000000000000000000000000000000000080"  \* bit 255
Words == {SZero, One, Q1, Q, Qp1, P2_252, Ones, P, Pp2, Pm1, High, B1, B7, SInt(2), SInt(3),
          "0200000000000000000000000000000000000000000000000000000000000000",
          "26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371"}

Hdr(t, f, to) == Cat(<<Slice(U16(t), 1, 1), U16(f), U16(to)>>)
GoodBody(t) ==
  CASE t = 1 -> Cat(<<One, Q1, U16(1), B1, B7>>)
    [] t = 2 -> Q1
    [] t = 3 -> Cat(<<B1, B7>>)
    [] t = 4 -> One
    [] OTHER -> One
Fit(t) == IF t = 2 THEN 5 ELSE 0

Headers == {Cat(<<Hdr(t, f, to), GoodBody(t)>>) : t \in 0..6, f \in {0, 1, 255, 256, 65535}, to \in {0, 1, 255, 256, 65535}}
           \cup {Cat(<<Hdr(255, 1, 0), GoodBody(t)>>) : t \in 1..4}
Bodies ==
  {Cat(<<Hdr(1, 3, 0), w, One, U16(1), B1, B7>>) : w \in Words} \cup
  {Cat(<<Hdr(1, 3, 0), One, w, U16(1), B1, B7>>) : w \in Words} \cup
  {Cat(<<Hdr(1, 3, 0), One, Q1, U16(1), w, B7>>) : w \in Words} \cup
  {Cat(<<Hdr(1, 3, 0), One, Q1, U16(1), B1, w>>) : w \in Words} \cup
  {Cat(<<Hdr(1, 3, 0), One, Q1, U16(0), w>>) : w \in Words} \cup
  {Cat(<<Hdr(2, 3, 9), w>>) : w \in Words} \cup
  {Cat(<<Hdr(3, 3, 0), w, B7>>) : w \in Words} \cup
  {Cat(<<Hdr(3, 3, 0), B7, w>>) : w \in Words} \cup
  {Cat(<<Hdr(4, 3, 0), w>>) : w \in Words}
Coeffs(n) == Cat([k \in 1..n |-> IF k % 2 = 0 THEN B1 ELSE B7])
Degrees == {Cat(<<Hdr(1, 3, 0), One, Q1, U16(d), Coeffs(n)>>) : d \in {0, 1, 2, 3, 4, 254, 255, 256, 257, 32767, 32768, 65534, 65535}, n \in 0..5}
Full(t) == Cat(<<Hdr(t, 3, Fit(t)), GoodBody(t)>>)
Lengths ==
  UNION {{Slice(Full(t), 0, n) : n \in 0..Bytes(Full(t))} : t \in 1..4} \cup
  {Cat(<<Full(t), x>>) : t \in 1..4, x \in {"00", "01", "ffff", SZero, B1, Cat(<<B1, "00">>), Cat(<<B1, B7>>)}} \cup
  {Cat(<<Hdr(t, 3, Fit(t)), GoodBody(u)>>) : t \in 1..4, u \in 1..4}

Vectors == Headers \cup Bodies \cup Degrees \cup Lengths

VARIABLE v
Init == v \in Vectors
Next == FALSE /\ UNCHANGED v
Emit == PrintT("VEC " \o v)
\* the encoder and the decoder of the specification fit together
RoundTrip == Valid(v) => Encode(Decode(v)) = v
=============================================================================
