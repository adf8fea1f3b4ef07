------------------------------- MODULE Records -------------------------------
(***************************************************************************)
(* Validation of recorded calls of the stateless parts: wire format, group, *)
(* keys, verification, secret sharing and constructors.  The input has one  *)
(* record per line; each is judged by itself.  A disagreement is printed    *)
(* as <<"MISMATCH", record, kind>>.                                         *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)

HPok(i, C0, M) == Reduce(Sha512(Cat(<<U16(i), SZero, C0, M>>)))
HBind(m, s, B) == SZero
HRho(i, L) == SZero
HChal(R, A, m) == Reduce(Sha512(Cat(<<EdEncode(R), EdEncode(A), m>>)))
F == INSTANCE Frost

K(cond, kind) == IF cond THEN {kind} ELSE {}

-----------------------------------------------------------------------------
(* wire format (C15, C16) *)

\* a byte string given to the message decoder, and what became of it
WireKinds(r) ==
  LET v == Valid(r.b) IN
  K(r.dec /\ ~v, "decode-accepts") \cup K(~r.dec /\ v, "decode-rejects") \cup
  (IF r.dec /\ v THEN
     LET m == Decode(r.b) IN
     K(r.enc # r.b, "reencode") \cup K(r.size # Bytes(r.b), "size") \cup
     K(r.app # Cat(<<"c0ffee", r.b>>), "append") \cup
     K(r.type # m.type \/ r.from # m.from \/ r.to # m.to, "header") \cup
     K(r.alias # r.b, "alias") \cup K(r.reused # r.b, "reuse") \cup K(~r.eq, "equal-self")
   ELSE {}) \cup
  K(Bytes(r.b) >= 5 /\ r.hdr # HeaderOK(r.b), "header-decode") \cup
  K(Bytes(r.b) < 5 /\ r.hdr, "header-decode") \cup
  K(\E i \in 1..4 : r.body[i] # BodyOK(i, r.b), "body-decode")

\* two valid messages are equal exactly if their encodings are
EqualKinds(r) ==
  K(r.eq # (r.a = r.b) \/ r.sym # r.eq \/ r.odd, "equality") \cup
  K(r.heq # (Slice(r.a, 0, 5) = Slice(r.b, 0, 5)) \/ r.heqv # r.heq, "equality") \cup
  K(r.peq # (Slice(r.a, 0, 1) = Slice(r.b, 0, 1) /\ From(r.a, 5) = From(r.b, 5)) \/ r.psym # r.peq, "equality")

\* a message made by a constructor from computed values (elements are given as sums of two)
MakeKinds(r) ==
  LET m == [type |-> r.type, from |-> r.from, to |-> r.to] @@
           CASE r.type = KeyGen2 -> [s |-> SAdd(r.x[1], r.x[2])]
             [] r.type = Sign1   -> [D |-> PAdd(r.x[1], r.x[2]), E |-> PAdd(r.x[3], r.x[4])]
             [] r.type = Sign2   -> [z |-> SAdd(r.x[1], r.x[2])]
      b == Encode(m)
  IN IF ~HeaderOK(b) THEN K(r.ok, "encodes-invalid")
     ELSE K(~r.ok, "encode-refused") \cup K(r.ok /\ r.enc # b, "encode") \cup K(r.ok /\ r.size # Bytes(b), "size") \cup
          K(r.ok /\ ~(Valid(b) /\ Decode(b) = m), "encode") \cup K(~r.eq, "decode-equal")

\* a polynomial of declared degree with a number of (valid) coefficients
PolyKinds(r) ==
  K(r.dec # (r.count = r.deg + 1), IF r.dec THEN "decode-accepts" ELSE "decode-rejects") \cup
  K(r.dec /\ ~r.same, "reencode")

-----------------------------------------------------------------------------
(* the group (C23) *)
DecodePointKinds(r) ==
  LET v == Bytes(r.b) = 32 /\ IsPoint(r.b) IN
  K(r.ok # v, IF r.ok THEN "point-accepts" ELSE "point-rejects") \cup
  K(r.ok /\ v /\ r.enc # r.b, "point-reencode") \cup
  K(~r.ok /\ r.after # r.before, "point-changed") \cup K(~r.tok /\ r.tafter # r.before, "point-changed") \cup
  K(r.half, "point-result") \cup K(~r.kept, "point-input") \cup K(r.tok /\ v /\ r.tafter # r.b, "point-text") \cup
  K(r.tok # v, "point-text") \cup
  K(r.btok, "point-text") \cup K(~r.btok /\ r.btafter # r.before, "point-changed") \cup
  K(r.ok /\ v /\ (r.text # Base64(r.b) \/ r.str # Base64(r.b)), "point-text")

OpResult(r) ==
  CASE r.op = "add"   -> PAdd(r.p[1], r.p[2])
    [] r.op = "sub"   -> PSub(r.p[1], r.p[2])
    [] r.op = "neg"   -> PSub(PId, r.p[1])
    [] r.op = "set"   -> r.p[1]
    [] r.op = "mul"   -> PMul(r.s[1], r.p[1])
    [] r.op = "base"  -> PBase(r.s[1])
    [] r.op = "dbl"   -> PAdd(PMul(r.s[1], r.p[1]), PBase(r.s[2]))
    [] r.op = "multi" -> F!SumP([i \in 1..Len(r.p) |-> PMul(r.s[i], r.p[i])])
    [] r.op = "vmulti" -> F!SumP([i \in 1..Len(r.p) |-> PMul(r.s[i], r.p[i])])
    [] r.op = "uniform" -> PUniform(r.u)
    [] r.op = "identity" -> PId
    [] r.op = "generator" -> PBase(SInt(1))
OpKinds(r) ==
  K(r.res # OpResult(r), "group-" \o r.op) \cup
  K(r.ed # EdEncode(OpResult(r)), "ed-encoding") \cup
  K(r.ret # OpResult(r), "group-returned") \cup
  K(r.consts # Cat(<<PBase(SInt(1)), PId>>), "constant-changed") \cup
  K(r.kept # r.p \/ r.skept # r.s, "operand-changed")
UniformLenKinds(r) == K(r.ok # (r.n = 64), "uniform-length")
\* equality of two elements, however they were computed
PointEqKinds(r) ==
  K(r.eq # (r.a = r.b) \/ r.sym # r.eq \/ ~r.bit \/ r.key # r.eq, "group-equal") \cup K(r.enc # (r.a = r.b), "group-encoding")

-----------------------------------------------------------------------------
(* secret sharing (C20) *)
LagrangeKinds(r) ==
  LET bad == r.id = 0 \/ ~ \E i \in 1..Len(r.ids) : r.ids[i] = r.id IN
  IF bad THEN K(r.ok, "lagrange-accepts")
  ELSE K(~r.ok, "lagrange-rejects") \cup K(r.ok /\ r.v # F!Lagrange(r.id, r.ids), "lagrange-value") \cup
       K(r.after # r.ids, "lagrange-changed") \cup K(r.half, "lagrange-half")

\* coefficients of the polynomial through the points (x[i], y[i]), constant first
PolyMul(f, c) == \* f * (X - c)
  [i \in 1..(Len(f) + 1) |->
     SSub(IF i > 1 THEN f[i - 1] ELSE SZero, IF i <= Len(f) THEN SMul(f[i], c) ELSE SZero)]
\* divided differences (Newton): the coefficients with respect to the products (X - x[1]) .. (X - x[k])
RECURSIVE Differences(_, _, _)
Differences(x, d, k) ==
  IF Len(d) = 1 THEN <<d[1]>>
  ELSE <<d[1]>> \o
       Differences(x, TLCEval([i \in 1..(Len(d) - 1) |-> SMul(SSub(d[i + 1], d[i]), SInv(SSub(SInt(x[i + k]), SInt(x[i]))))]), k + 1)
RECURSIVE Expand(_, _, _, _)
Expand(x, a, k, f) ==
  IF k = 0 THEN f
  ELSE LET g == TLCEval(PolyMul(f, SInt(x[k]))) IN Expand(x, a, k - 1, TLCEval([g EXCEPT ![1] = SAdd(g[1], a[k])]))
Interpolate(x, y) ==
  LET a == TLCEval(Differences(x, y, 1)) IN Expand(x, a, Len(x) - 1, <<a[Len(x)]>>)

Window(b, k) == Slice(b, 64 * k, 64)
Windows(b) == {Reduce(Window(b, k - 1)) : k \in 1..(Bytes(b) \div 64)}
\* other ways to make a scalar of 32 or 64 fresh bytes that nothing else depends on
Otherwise(b) ==
  {Reduce(Cat(<<Slice(Window(b, k - 1), 32, 32), Slice(Window(b, k - 1), 0, 32)>>)) : k \in 1..(Bytes(b) \div 64)} \cup
  {Reduce(Rev(Window(b, k - 1))) : k \in 1..(Bytes(b) \div 64)} \cup
  {Reduce(Cat(<<Slice(b, 32 * (k - 1), 32), SZero>>)) : k \in 1..(Bytes(b) \div 32)}

DealKinds(r) ==
  LET t1 == r.t + 1
      f == Interpolate(SubSeq(r.ids, 1, t1), SubSeq(r.shares, 1, t1))
      W == Windows(r.rand)
  IN K(r.shareids # r.ids \/ r.gotids # r.ids, "deal-ids") \cup
     K(r.secret # f[1], "deal-secret") \cup
     K(\E i \in (t1 + 1)..Len(r.ids) : F!SEval(f, r.ids[i]) # r.shares[i], "deal-degree") \cup
     K(f[t1] = SZero, "deal-degree") \cup
     K(\E i \in 1..Len(r.ids) : r.sharepub[i] # PBase(r.shares[i]) \/ r.pub[i] # PBase(r.shares[i]), "deal-public") \cup
     K(r.gk # PBase(r.secret), "deal-groupkey") \cup K(r.pubt # r.t, "deal-threshold") \cup K(r.pubids # r.ids, "deal-ids") \cup
     \* every coefficient is a random value of its own
     LET bad == F!Elems(f) \ W IN
     K(bad # {}, "deal-random") \cup K(bad # {} /\ bad \ Otherwise(r.rand) # {}, "deal-loose") \cup
     K(\E i, j \in 1..t1 : i # j /\ f[i] = f[j], "deal-loose")

\* group key computed from public shares in the exponent
InterpolateP(ids, sh) == F!SumP([i \in 1..Len(ids) |-> PMul(F!Lagrange(ids[i], ids), sh[i])])

-----------------------------------------------------------------------------
(* constructors (C21) *)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NewKeygenKinds(r) ==
  LET good == Increasing(r.ids) /\ (\A i \in 1..Len(r.ids) : r.ids[i] # 0) /\
              (\E i \in 1..Len(r.ids) : r.ids[i] = r.self) /\ r.t >= 1 /\ r.t <= Len(r.ids) - 1 IN
  K(r.ok /\ ~good, "new-accepts") \cup K(~r.ok /\ good, "new-rejects") \cup K(~r.ok /\ r.some, "new-partial") \cup K(r.ok /\ ~r.both, "new-partial")
NewSignKinds(r) ==
  LET good == Increasing(r.ids) /\ (\A i \in 1..Len(r.ids) : r.ids[i] # 0) /\
              (\E i \in 1..Len(r.ids) : r.ids[i] = r.self) /\ F!Elems(r.ids) \subseteq F!Elems(r.key) /\ Len(r.ids) >= r.t + 1 IN
  K(r.ok /\ ~good, "new-accepts") \cup K(~r.ok /\ good, "new-rejects") \cup K(~r.ok /\ r.some, "new-partial") \cup K(r.ok /\ ~r.both, "new-partial")
NewPublicKinds(r) ==
  LET good == (\A i \in 1..Len(r.ids) : r.ids[i] # 0 /\ r.sh[i] # "") /\ r.t < Len(r.ids) IN
  K(r.ok /\ ~good, "public-accepts") \cup K(~r.ok /\ good, "public-rejects") \cup K(r.half, "public-half") \cup
  (IF r.ok /\ good THEN
     K(r.oids # r.ids, "public-ids") \cup K(r.ot # r.t, "public-threshold") \cup K(r.osh # r.sh, "public-shares") \cup
     K(r.ogk # InterpolateP(r.ids, r.sh), "public-groupkey")
   ELSE {})
\* identifier lists
RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
IDsKinds(r) ==
  K(~Sorted(r.sorted) \/ Len(r.sorted) # Len(r.ids) \/ \E x \in F!Elems(r.ids) : Count(r.sorted, x) # Count(r.ids, x), "ids-sort") \cup
  K(r.input # r.ids, "ids-input") \cup
  K(\E i \in 1..Len(r.ask) : r.has[i] # (\E k \in 1..Len(r.ids) : r.ids[k] = r.ask[i]), "ids-contains") \cup
  K(r.subset # (F!Elems(r.ids) \subseteq F!Elems(r.other)), "ids-subset") \cup
  K(r.equal # (r.sorted = r.osorted), "ids-equal") \cup
  K(r.n # Len(r.ids), "ids-n") \cup K(r.copy # r.sorted \/ r.kept # r.sorted, "ids-copy")

IDKinds(r) ==
  K(r.bytes # U16(r.id) \/ r.back # r.id, "id-bytes") \cup K(r.scalar # SInt(r.id), "id-scalar") \cup
  K(r.text # Dec(r.id) \/ r.str # Dec(r.id) \/ r.tback # r.id, "id-text")
\* val is the number a text stands for, -1 if it stands for none in range
IDTextKinds(r) == K(r.ok # (r.val >= 0) \/ (r.ok /\ r.got # r.val), "id-text")

-----------------------------------------------------------------------------
(* stored keys (C18) *)
ShareBinKinds(r) ==
  LET good == Bytes(r.b) = 34 /\ IsScalar(From(r.b, 2)) IN
  K(r.ok /\ ~good, "share-accepts") \cup K(~r.ok /\ good, "share-rejects") \cup
  (IF r.ok /\ good THEN
     K(r.id # Num(Slice(r.b, 0, 2)) \/ r.secret # From(r.b, 2) \/ r.public # PBase(From(r.b, 2)), "share-value") \cup
     K(r.enc # r.b, "share-reencode") \cup K(~r.eq, "share-equal") ELSE {})
\* JSON records carry the fields the text was made of; id is clamped to -1 when out of TLC's range
ShareJSONKinds(r) ==
  LET good == r.id >= 0 /\ r.id <= 65535 /\ Bytes(r.s) = 32 /\ IsScalar(r.s) IN
  K(r.ok /\ ~good, "share-accepts") \cup K(~r.ok /\ good, "share-rejects") \cup
  (IF r.ok /\ good THEN
     K(r.oid # r.id \/ r.secret # r.s \/ r.public # PBase(r.s), "share-value") \cup
     K(r.eid # r.id \/ r.es # r.s, "share-reencode") \cup K(~r.eq, "share-equal") ELSE {})
PublicJSONKinds(r) ==
  LET good == /\ r.t >= 0 /\ r.t < Len(r.ids)
              /\ \A i \in 1..Len(r.ids) : r.ids[i] >= 1 /\ r.ids[i] <= 65535 /\ Bytes(r.sh[i]) = 32 /\ IsPoint(r.sh[i])
              /\ Bytes(r.gk) = 32 /\ IsPoint(r.gk)
              /\ InterpolateP(r.ids, r.sh) = r.gk
  IN K(r.ok /\ ~good, "public-accepts") \cup K(~r.ok /\ good, "public-rejects") \cup
     (IF r.ok /\ good THEN
        K(r.oids # r.ids \/ r.oshids # r.ids, "public-ids") \cup K(r.ot # r.t, "public-threshold") \cup K(r.osh # r.sh, "public-shares") \cup
        K(r.ogk # r.gk, "public-groupkey") \cup
        K(r.et # r.t \/ r.eids # r.ids \/ r.esh # r.sh \/ r.egk # r.gk, "public-reencode") \cup K(~r.eq, "public-equal")
      ELSE {})
\* equality of two public records (given by their fields)
PublicEqKinds(r) == K(r.eq # (r.a = r.b) \/ r.sym # r.eq, "public-equality")
SigEqKinds(r) == K(r.eq # (r.a = r.b) \/ r.sym # r.eq \/ ~r.self \/ r.odd, "sig-equality")
ShareEqKinds(r) == K(r.eq # (r.a = r.b) \/ r.sym # r.eq, "share-equality")
KeyJSONKinds(r) ==
  LET good == Bytes(r.b) = 32 /\ IsPoint(r.b) IN
  K(r.ok # good, IF r.ok THEN "key-accepts" ELSE "key-rejects") \cup
  K(r.ok /\ good /\ (r.enc # r.b \/ r.ed # EdEncode(r.b) \/ ~r.eq), "key-reencode")
SigBinKinds(r) ==
  LET good == Bytes(r.b) = 64 /\ IsPoint(Slice(r.b, 0, 32)) /\ IsScalar(From(r.b, 32)) IN
  K(r.ok # good, IF r.ok THEN "sig-accepts" ELSE "sig-rejects") \cup
  K(r.ok /\ good /\ (r.enc # r.b \/ r.size # 64 \/ r.app # Cat(<<"c0ffee", r.b>>)
                      \/ r.ed # Cat(<<EdEncode(Slice(r.b, 0, 32)), From(r.b, 32)>>) \/ ~r.eq), "sig-reencode")

-----------------------------------------------------------------------------
(* verification (C19) *)
VerifyKinds(r) ==
  LET good == F!SigOK(r.A, r.m, r.R, r.S) IN
  K(r.lib /\ ~good, "verify-accepts") \cup K(~r.lib /\ good, "verify-rejects") \cup
  K(r.std # good, "verify-std") \cup
  K(r.edA # EdEncode(r.A) \/ r.edS # Cat(<<EdEncode(r.R), r.S>>), "verify-encoding") \cup
  K(r.chal # HChal(r.R, r.A, r.m), "challenge") \cup
  K(r.must /\ ~good, "verify-generator") \cup
  K(r.eq # r.same, "sig-equality") \cup
  K(~r.kept, "verify-changed")

-----------------------------------------------------------------------------
(* command line (C24); keys and signatures are reloaded by the harness from what was written *)
\* toks are the tokens of 64 hexadecimal digits in what the command printed, in order
KeygenCLIKinds(r) ==
  IF r.valid THEN
    K(~r.file, "cli-nofile") \cup
    (IF r.file THEN
      LET f == Interpolate(SubSeq(r.ids, 1, r.t + 1), SubSeq(r.secrets, 1, r.t + 1))
          printed == F!Elems(r.toks)
      IN
      K(Len(r.ids) # r.n \/ r.pubids # r.ids \/ r.secids # r.ids \/ r.pubt # r.t, "cli-parties") \cup
      K(\E i \in 1..Len(r.ids) : r.shares[i] # PBase(r.secrets[i]), "cli-shares") \cup
      K(\E i \in 1..Len(r.ids) : F!SEval(f, r.ids[i]) # r.secrets[i], "cli-polynomial") \cup
      K(f[r.t + 1] = SZero, "cli-polynomial") \cup
      K(r.gk # PBase(f[1]), "cli-groupkey") \cup
      K(\/ ~({r.gk, EdEncode(r.gk)} \cap printed # {})
        \/ \E i \in 1..Len(r.ids) : r.secrets[i] \notin printed \/ {r.shares[i], EdEncode(r.shares[i])} \cap printed = {}, "cli-printed")
     ELSE {})
  ELSE K(r.file, "cli-file") \cup K(~r.said, "cli-silent") \cup K(r.success, "cli-success")
SignCLIKinds(r) ==
  LET n == Len(r.toks)
      Good(R, S) == IsScalar(S) /\ ((IsPoint(R) /\ F!SigOK(r.gk, r.m, R, S)) \/ (EdDecode(R) # "" /\ F!SigOK(r.gk, r.m, EdDecode(R), S)))
  IN IF r.valid THEN K(~r.success \/ n < 2, "cli-nosign") \cup K(r.success /\ n >= 2 /\ ~Good(r.toks[n - 1], r.toks[n]), "cli-signature")
     ELSE K(~r.said, "cli-silent") \cup K(r.success \/ n # 0, "cli-success")

-----------------------------------------------------------------------------
(* hostile text and bytes: nothing but an orderly answer is asked for (C16) *)
Kinds(r) ==
  IF r.crash # "" THEN {"crash-" \o r.k}
  ELSE CASE r.k = "wire" -> WireKinds(r)
         [] r.k = "weq" -> EqualKinds(r)
         [] r.k = "wmake" -> MakeKinds(r)
         [] r.k = "poly" -> PolyKinds(r)
         [] r.k = "point" -> DecodePointKinds(r)
         [] r.k = "op" -> OpKinds(r)
         [] r.k = "peq" -> PointEqKinds(r)
         [] r.k = "lagrange" -> LagrangeKinds(r)
         [] r.k = "deal" -> DealKinds(r)
         [] r.k = "newkg" -> NewKeygenKinds(r)
         [] r.k = "newsg" -> NewSignKinds(r)
         [] r.k = "newpub" -> NewPublicKinds(r)
         [] r.k = "ids" -> IDsKinds(r)
         [] r.k = "id" -> IDKinds(r)
         [] r.k = "sharebin" -> ShareBinKinds(r)
         [] r.k = "sharejson" -> ShareJSONKinds(r)
         [] r.k = "pubjson" -> PublicJSONKinds(r)
         [] r.k = "pubeq" -> PublicEqKinds(r)
         [] r.k = "shareeq" -> ShareEqKinds(r)
         [] r.k = "keyjson" -> KeyJSONKinds(r)
         [] r.k = "sigeq" -> SigEqKinds(r)
         [] r.k = "sigbin" -> SigBinKinds(r)
         [] r.k = "verify" -> VerifyKinds(r)
         [] r.k = "clikeygen" -> KeygenCLIKinds(r)
         [] r.k = "clisign" -> SignCLIKinds(r)
         [] r.k = "ulen" -> UniformLenKinds(r)
         [] r.k = "slice" -> K(~r.ok, "ids-range")
         [] r.k = "idtext" -> IDTextKinds(r)
         [] r.k = "idshort" -> K(r.ok, "id-bytes")
         [] r.k = "fuzz" -> K(r.ms > 20000, "slow")

VARIABLES i, judged
vars == <<i, judged>>
Init == i \in 1..Len(Recs) /\ judged = FALSE
Step ==
  /\ ~judged
  /\ judged' = TRUE
  /\ \A x \in Kinds(Recs[i]) : PrintT(<<"MISMATCH", i, x>>)
  /\ UNCHANGED i
Spec == Init /\ [][Step]_vars
=============================================================================
