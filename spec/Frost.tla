-------------------------------- MODULE Frost --------------------------------
(***************************************************************************)
(* The equations of FROST key generation and signing over an abstract       *)
(* algebra.  The module is instantiated twice: with the concrete algebra    *)
(* of Crypto.tla, to judge traces of the implementation (Session.tla), and  *)
(* with a small prime field, to check the equations themselves exhaustively *)
(* (ToyKeygen.tla, ToySign.tla).                                            *)
(*                                                                          *)
(* Polynomials (in scalars or in the exponent) are non-empty sequences,     *)
(* constant coefficient first.  A set of signers is a strictly increasing   *)
(* sequence of identifiers; B maps each signer to its nonce commitments     *)
(* [D, E].                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  SAdd(_, _), SSub(_, _), SMul(_, _), SInv(_), SInt(_), SZero,   \* scalars
  PAdd(_, _), PSub(_, _), PMul(_, _), PBase(_), PEval(_, _), PId, \* elements
  HPok(_, _, _),   \* challenge of the proof of knowledge: identifier, constant, nonce point
  HBind(_, _, _),  \* what all signers are bound to: message, signers, B
  HRho(_, _),      \* binding factor: identifier, what all are bound to
  HChal(_, _, _)   \* signature challenge: R, group key, message

Elems(s) == {s[i] : i \in 1..Len(s)}

\* sums and products of q[a], ..., q[b] (by halves: TLC's cost grows with the depth of the recursion)
RECURSIVE SumSIn(_, _, _), SumPIn(_, _, _), SProdIn(_, _, _)
SumSIn(q, a, b) == IF a > b THEN SZero ELSE IF a = b THEN q[a]
                   ELSE LET h == (a + b) \div 2 IN SAdd(SumSIn(q, a, h), SumSIn(q, h + 1, b))
SumPIn(q, a, b) == IF a > b THEN PId ELSE IF a = b THEN q[a]
                   ELSE LET h == (a + b) \div 2 IN PAdd(SumPIn(q, a, h), SumPIn(q, h + 1, b))
SProdIn(q, a, b) == IF a > b THEN SInt(1) ELSE IF a = b THEN q[a]
                    ELSE LET h == (a + b) \div 2 IN SMul(SProdIn(q, a, h), SProdIn(q, h + 1, b))
SumS(q) == SumSIn(q, 1, Len(q))
SumP(q) == SumPIn(q, 1, Len(q))
SProd(q) == SProdIn(q, 1, Len(q))

\* value of the scalar polynomial f at the identifier x
RECURSIVE SEval(_, _)
SEval(f, x) == IF f = <<>> THEN SZero ELSE SAdd(Head(f), SMul(SInt(x), SEval(Tail(f), x)))

Commit(f) == [j \in 1..Len(f) |-> PBase(f[j])]

\* Lagrange coefficient of i at 0 over the set of identifiers s
Without(s, i) == SelectSeq(s, LAMBDA k : k # i)
Lagrange(i, s) ==
  LET o == Without(s, i) IN
  SMul(SProd([k \in 1..Len(o) |-> SInt(o[k])]),
       SInv(SProd([k \in 1..Len(o) |-> SSub(SInt(o[k]), SInt(i))])))

-----------------------------------------------------------------------------
(* key generation *)
DegreeOK(F, t) == Len(F) = t + 1
PokOK(i, C0, pS, pR) == pS = HPok(i, C0, PSub(PBase(pR), PMul(pS, C0)))
ShareOK(F, i, s) == PBase(s) = PEval(F, i)

\* coefficient-wise sum of a sequence of equally long polynomials in the exponent
SumPoly(Fs) == [j \in 1..Len(Fs[1]) |-> SumP([k \in 1..Len(Fs) |-> Fs[k][j]])]

\* everything a party learns from the commitments Fs of all parties
GroupKey(Fs) == SumPoly(Fs)[1]
PublicShare(Fs, i) == PEval(SumPoly(Fs), i)

-----------------------------------------------------------------------------
(* signing *)
NonceOK(D, E) == D # PId /\ E # PId
\* (L: HBind of the session, computed once)
RiOf(i, L, B) == PAdd(B[i].D, PMul(HRho(i, L), B[i].E))
GroupNonceOf(s, L, B) == SumP([k \in 1..Len(s) |-> RiOf(s[k], L, B)])
GroupNonce(m, s, B) == LET L == HBind(m, s, B) IN GroupNonceOf(s, L, B)
\* the equation of a signature share z of signer i with public share Ai under challenge c
SigShareOKOf(i, z, s, L, B, c, Ai) ==
  PBase(z) = PAdd(RiOf(i, L, B), PMul(SMul(c, Lagrange(i, s)), Ai))
SigShareOK(i, z, m, s, B, c, Ai) == SigShareOKOf(i, z, s, HBind(m, s, B), B, c, Ai)
\* the share an honest signer computes
SigShare(i, d, e, sk, m, s, B, c) ==
  SAdd(d, SAdd(SMul(e, HRho(i, HBind(m, s, B))), SMul(SMul(Lagrange(i, s), sk), c)))
SigOK(A, m, R, S) == PBase(S) = PAdd(R, PMul(HChal(R, A, m), A))
=============================================================================
