-------------------------------- MODULE Toy --------------------------------
(* The algebra of Frost.tla over the field of P elements; the group is its additive group with base 1.
   Random oracles are given by the message: every possible answer can be tried. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT P
Z == 0..(P - 1)
SAdd(a, b) == (a + b) % P
SSub(a, b) == (a - b) % P
SMul(a, b) == (a * b) % P
SInv(a) == IF a = 0 THEN 0 ELSE CHOOSE x \in Z : (a * x) % P = 1
SInt(n) == n % P
SZero == 0
PAdd(a, b) == SAdd(a, b)
PSub(a, b) == SSub(a, b)
PMul(k, x) == SMul(k, x)
PBase(k) == k
PId == 0
RECURSIVE PEval(_, _)
PEval(F, x) == IF F = <<>> THEN 0 ELSE SAdd(Head(F), SMul(SInt(x), PEval(Tail(F), x)))
\* challenge of the proof of knowledge: some function that depends on everything
HPok(i, C0, M) == (1 + i + 2 * C0 + 3 * M * M) % P
HBind(m, s, B) == m.rho
HRho(i, L) == L[i]
HChal(R, A, m) == m.c
F == INSTANCE Frost
Polys(n) == [1..n -> Z]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE SAdd(Head(q), SumSeq(Tail(q)))
\* value at 0 of the polynomial through (ids[i], v[i])
Interp(ids, v) == SumSeq([i \in 1..Len(ids) |-> SMul(F!Lagrange(ids[i], ids), v[i])])
RECURSIVE Subs(_, _)
Subs(s, n) == IF n = 0 THEN {<<>>} ELSE IF Len(s) < n THEN {}
              ELSE {<<Head(s)>> \o q : q \in Subs(Tail(s), n - 1)} \cup Subs(Tail(s), n)
=============================================================================
