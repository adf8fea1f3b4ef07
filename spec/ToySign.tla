------------------------------ MODULE ToySign ------------------------------
(***************************************************************************)
(* Signing over a small field: for every dealt polynomial, nonces, answers  *)
(* of the random oracles and submitted shares of a misbehaving signer, the  *)
(* share equation of Frost.tla accepts exactly the right share, and shares  *)
(* that satisfy it add up to a signature (C04, C05, C07).                   *)
(***************************************************************************)
EXTENDS Toy, Randomization
CONSTANTS Ids,    \* the signers
          T,      \* threshold, below their number
          Count   \* number of random choices (0: all)

Two == <<1, 2>>
Three == <<2, 5, 6>>
Four == <<1, 3, 4, 6>>
N == Len(Ids)
S == {Ids[i] : i \in 1..N}
Bad == Ids[N]     \* the signer that may misbehave

VARIABLES f, d, e, m, z, out
vars == <<f, d, e, m, z, out>>

Pick(X) == IF Count = 0 THEN X ELSE RandomSubset(Count, X)
Init ==
  \E x \in Pick([f : Polys(T + 1), d : [S -> Z], e : [S -> Z], rho : [S -> Z], c : Z]) :
    /\ f = x.f /\ d = x.d /\ e = x.e /\ m = [rho |-> x.rho, c |-> x.c]
    /\ z = [i \in S |-> 0] /\ out = [done |-> FALSE]

Sk(i) == F!SEval(f, i)
Pub(i) == PBase(Sk(i))
A == PBase(f[1])
B == [i \in S |-> [D |-> PBase(d[i]), E |-> PBase(e[i])]]
R == F!GroupNonce(m, Ids, B)
Good(i) == F!SigShare(i, d[i], e[i], Sk(i), m, Ids, B, m.c)
Ok(i, x) == F!SigShareOK(i, x, m, Ids, B, m.c, Pub(i))

\* the misbehaving signer submits anything; the honest ones check and add up
Next ==
  /\ ~out.done
  /\ \E x \in Z :
       /\ z' = [i \in S |-> IF i = Bad THEN x ELSE Good(i)]
       /\ out' = IF \A i \in S : Ok(i, z'[i]) /\ F!NonceOK(B[i].D, B[i].E)
                 THEN [done |-> TRUE, sig |-> SumSeq([k \in 1..N |-> z'[Ids[k]]])]
                 ELSE [done |-> TRUE, sig |-> -1]
  /\ UNCHANGED <<f, d, e, m>>
Spec == Init /\ [][Next]_vars

\* C04, C07: an honest share satisfies its equation
Complete == \A i \in S : Ok(i, Good(i))
\* C05: no other share does
Unique == \A i \in S, x \in Z : Ok(i, x) => x = Good(i)
\* C05: an output verifies; C04: it is the same whoever computes it, and it is what the secret key itself would give
Sound == (out.done /\ out.sig >= 0) =>
  /\ F!SigOK(A, m, R, out.sig)
  /\ out.sig = SAdd(SumSeq([k \in 1..N |-> SAdd(d[Ids[k]], SMul(e[Ids[k]], m.rho[Ids[k]]))]), SMul(m.c, f[1]))
\* honest signers with proper nonces complete
Completes == (out.done /\ out.sig < 0) => \/ z[Bad] # Good(Bad) \/ \E i \in S : d[i] = 0 \/ e[i] = 0
\* C06: signing twice with the same nonces under different challenges reveals the share
Reuse == \A i \in S, c2 \in Z : (c2 # m.c) =>
  LET z2 == F!SigShare(i, d[i], e[i], Sk(i), m, Ids, B, c2) IN
  SMul(SSub(Good(i), z2), SInv(SMul(F!Lagrange(i, Ids), SSub(m.c, c2)))) = Sk(i)
=============================================================================
