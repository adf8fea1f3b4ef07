----------------------------- MODULE ToyKeygen -----------------------------
(***************************************************************************)
(* Key generation over a small field: honest parties 1 and 2 and a          *)
(* misbehaving party 3.  Every polynomial of an honest party, adversarial   *)
(* polynomial of any degree and share is tried with good and bad proofs, so *)
(* what the checks of Frost.tla guarantee (C01, C02, C03) is decided for    *)
(* this field completely.                                                   *)
(***************************************************************************)
EXTENDS Toy
CONSTANT T   \* threshold

Ids == <<1, 2, 3>>
Honest == {1, 2}

(* f: honest polynomials; G: the adversary's commitments; sh: its shares for the honest parties; pf: its proof;
   res: what the honest parties do *)
VARIABLES f, G, sh, pf, res
vars == <<f, G, sh, pf, res>>

Init ==
  /\ f \in [Honest -> Polys(T + 1)] /\ f[2] = [i \in 1..(T + 1) |-> (1 + i) % P]
  /\ G \in UNION {Polys(n) : n \in 1..(T + 2)}
  /\ sh \in [Honest -> Z]
  /\ \E k \in {1, 3} : LET c == HPok(3, G[1], PBase(k)) IN
       pf \in {<<c, SAdd(k, SMul(c, G[1]))>>, <<SAdd(c, k), k>>}  \* the adversary may know the logarithm, or make something up
  /\ res = [p \in Honest |-> "-"]

Com(i) == IF i = 3 THEN G ELSE F!Commit(f[i])
Share(i, p) == IF i = 3 THEN sh[p] ELSE F!SEval(f[i], p)
Accepts(p) == F!DegreeOK(G, T) /\ F!PokOK(3, G[1], pf[1], pf[2]) /\ F!ShareOK(G, p, sh[p])
Decide(p) == res[p] = "-" /\ res' = [res EXCEPT ![p] = IF Accepts(p) THEN "key" ELSE "abort"] /\ UNCHANGED <<f, G, sh, pf>>
Next == \E p \in Honest : Decide(p)
Spec == Init /\ [][Next]_vars

Coms == [i \in 1..3 |-> Com(i)]
Secret(p) == SumSeq([i \in 1..3 |-> Share(i, p)])
PublicShare(i) == F!PublicShare(Coms, i)

\* honest contributions always pass
ASSUME \A i \in Honest, p \in Honest, g \in Polys(T + 1), k \in Z :
  LET C == F!Commit(g)
      c == HPok(i, C[1], PBase(k)) IN
  F!DegreeOK(C, T) /\ F!PokOK(i, C[1], c, SAdd(k, SMul(c, g[1]))) /\ F!ShareOK(C, p, F!SEval(g, p))
\* C02: a wrong degree or share is never accepted, whatever else is right
NoInconsistent == \A p \in Honest : res[p] = "key" => Len(G) = T + 1 /\ sh[p] = F!SEval(G, p)
\* C01: a completed party's share belongs to its public share
SharesMatch == \A p \in Honest : res[p] = "key" => PBase(Secret(p)) = PublicShare(p)
\* C01: the public shares of any T+1 parties give the group key, and those of T parties alone do not determine it
OneKey == (\E p \in Honest : res[p] = "key") =>
  \A s \in Subs(Ids, T + 1) : Interp(s, [i \in 1..Len(s) |-> PublicShare(s[i])]) = F!GroupKey(Coms)
\* C01: honest shares of completed parties reconstruct the secret if they are enough
Reconstruct == (T = 1 /\ \A p \in Honest : res[p] = "key") =>
  PBase(Interp(<<1, 2>>, <<Secret(1), Secret(2)>>)) = F!GroupKey(Coms)
\* C03: two answers to different challenges for the same nonce point reveal the discrete logarithm
ASSUME \A C0, c1, c2, z1, z2 \in Z :
  (c1 # c2 /\ PSub(PBase(z1), PMul(c1, C0)) = PSub(PBase(z2), PMul(c2, C0))) =>
     PBase(SMul(SSub(z1, z2), SInv(SSub(c1, c2)))) = C0
\* consistent broadcast: the honest parties disagree about nothing that is broadcast
SamePublic == (res[1] = "key" /\ res[2] = "abort") => sh[2] # F!SEval(G, 2)
=============================================================================
