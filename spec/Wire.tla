-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format: which byte strings are messages, and what they mean.    *)
(*   message  = type(1) from(2) to(2) payload                               *)
(*   KeyGen1  = proof S(32) R(32), degree(2), (degree+1) elements           *)
(*   KeyGen2  = share(32)                                                   *)
(*   Sign1    = D(32) E(32)                                                 *)
(*   Sign2    = z(32)                                                       *)
(***************************************************************************)
EXTENDS Crypto, TLC

KeyGen1 == 1
KeyGen2 == 2
Sign1   == 3
Sign2   == 4

TypeOf(b) == Num(Slice(b, 0, 1))
FromOf(b) == Num(Slice(b, 1, 2))
ToOf(b)   == Num(Slice(b, 3, 2))
Body(b)   == From(b, 5)

HeaderOK(b) ==
  /\ Bytes(b) >= 5
  /\ TypeOf(b) \in {KeyGen1, KeyGen2, Sign1, Sign2}
  /\ FromOf(b) # 0
  /\ (ToOf(b) = 0) <=> (TypeOf(b) # KeyGen2)

Word(b, k) == Slice(b, 32 * k, 32)     \* k-th 32-byte word
Coeff(p, k) == Slice(p, 2 + 32 * k, 32) \* k-th coefficient of an encoded polynomial

PolyOK(p) ==
  /\ Bytes(p) >= 2
  /\ LET d == Num(Slice(p, 0, 2)) IN
       /\ Bytes(p) = 2 + 32 * (d + 1)
       /\ \A k \in 0..d : IsPoint(Coeff(p, k))

BodyOK(t, p) ==
  CASE t = KeyGen1 -> /\ Bytes(p) >= 66
                      /\ IsScalar(Word(p, 0)) /\ IsScalar(Word(p, 1))
                      /\ PolyOK(From(p, 64))
    [] t = KeyGen2 -> Bytes(p) = 32 /\ IsScalar(p)
    [] t = Sign1   -> Bytes(p) = 64 /\ IsPoint(Word(p, 0)) /\ IsPoint(Word(p, 1))
    [] t = Sign2   -> Bytes(p) = 32 /\ IsScalar(p)

Valid(b) == HeaderOK(b) /\ BodyOK(TypeOf(b), Body(b))

\* the meaning of a valid message
Decode(b) ==
  LET t == TypeOf(b)
      p == Body(b)
      h == [type |-> t, from |-> FromOf(b), to |-> ToOf(b)]
  IN CASE t = KeyGen1 ->
            LET q == From(p, 64) IN
            h @@ [pS |-> Word(p, 0), pR |-> Word(p, 1),
                  F |-> [k \in 1..(Num(Slice(q, 0, 2)) + 1) |-> Coeff(q, k - 1)]]
       [] t = KeyGen2 -> h @@ [s |-> p]
       [] t = Sign1   -> h @@ [D |-> Word(p, 0), E |-> Word(p, 1)]
       [] t = Sign2   -> h @@ [z |-> p]

Encode(m) ==
  Cat(<<Slice(U16(m.type), 1, 1), U16(m.from), U16(m.to),
        CASE m.type = KeyGen1 -> Cat(<<m.pS, m.pR, U16(Len(m.F) - 1), Cat(m.F)>>)
          [] m.type = KeyGen2 -> m.s
          [] m.type = Sign1   -> Cat(<<m.D, m.E>>)
          [] m.type = Sign2   -> m.z>>)
=============================================================================
