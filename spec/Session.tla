------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Trace validation of protocol sessions (code -> specification).           *)
(*                                                                          *)
(* The input is a file with one session per line: parameters, the parties   *)
(* driven as real sessions ("live"), and the sequence of calls made on them *)
(* with the bytes handed over, the bytes returned and what could be         *)
(* observed afterwards.  For every call the specification computes what     *)
(* the implementation had to do, from Engine (acceptance, rounds, end),     *)
(* Wire (bytes) and Frost over the concrete algebra (contents).  Each       *)
(* disagreement is reported as <<"MISMATCH", session, step, kind>>.         *)
(*                                                                          *)
(* Sessions are independent: there is one initial state per session, one    *)
(* behaviour each, and one state per event, so the number of distinct       *)
(* states shows that every event was consumed.                              *)
(***************************************************************************)
EXTENDS Engine, Wire, Json, IOUtils


Traces == ndJsonDeserialize(IOEnv.TRACE)

HPok(i, C0, M) ==
  Reduce(Sha512(Cat(<<U16(i), SZero, C0, M>>)))
HBind(m, s, B) ==
  Cat(<<Sha512(m), Cat([k \in 1..Len(s) |-> LET b == B[s[k]] IN Cat(<<U16(s[k]), b.D, b.E>>)])>>)
HRho(i, L) == Reduce(Sha512(Cat(<<HexOfText("FROST-SHA512"), U16(i), L>>)))
HChal(R, A, m) == Reduce(Sha512(Cat(<<EdEncode(R), EdEncode(A), m>>)))

F == INSTANCE Frost

Types(proto) == IF proto = "keygen" THEN <<KeyGen1, KeyGen2>> ELSE <<Sign1, Sign2>>

(* sid: the session; k: the next event; eng: the engine of every live party; own: what it has sent;
   div: a disagreement makes the rest of the trace meaningless; rdv: everything read from the random
   source for a party; last: when its timeout was last restarted, as an interval; mid: a byte-level
   drive has handed over its inputs (1) or refused one (2) *)
VARIABLES sid, k, eng, own, div, rdv, last, mid
vars == <<sid, k, eng, own, div, rdv, last, mid>>

Tr(s) == Traces[s]
\* position of p among the parties of the session
Pos(tr, p) == CHOOSE i \in 1..Len(tr.parties) : tr.parties[i] = p

-----------------------------------------------------------------------------
(* keygen: the contribution of every party as seen by p *)
PolyOf(p, j) == IF j = p THEN own[p][1].F ELSE eng[p].box[<<1, j>>].F
AllPolys(tr, p) == [i \in 1..Len(tr.parties) |-> PolyOf(p, tr.parties[i])]

(* signing: commitments of all signers as seen by p, and what follows from them *)
Nonces(tr, p) ==
  [j \in F!Elems(tr.parties) |->
     LET m == IF j = p THEN own[p][1] ELSE eng[p].box[<<1, j>>] IN [D |-> m.D, E |-> m.E]]
PubShare(tr, j) == tr.pub[Pos(tr, j)]
GroupR(tr, p) == F!GroupNonce(tr.msg, tr.parties, Nonces(tr, p))
Challenge(tr, p) == HChal(GroupR(tr, p), tr.gk, tr.msg)
ZOf(p, j) == IF j = p THEN own[p][2].z ELSE eng[p].box[<<2, j>>].z
SumZ(tr, p) == F!SumS([i \in 1..Len(tr.parties) |-> ZOf(p, tr.parties[i])])

-----------------------------------------------------------------------------
(* the secrets of a party.  Every scalar it chooses is a 64-byte chunk of what it read, reduced. *)
Chunks(rd) == {Slice(rd, 64 * i, 64) : i \in 0..((Bytes(rd) \div 64) - 1)}
Chosen(rd) == {Reduce(c) : c \in Chunks(rd)}
Points(S) == {PBase(x) : x \in S}
\* other ways to make a scalar of 32 or 64 fresh bytes that nothing else depends on
Otherwise(rd) ==
  {Reduce(Cat(<<Slice(c, 32, 32), Slice(c, 0, 32)>>)) : c \in Chunks(rd)} \cup {Reduce(Rev(c)) : c \in Chunks(rd)} \cup
  {Reduce(Cat(<<Slice(rd, 32 * i, 32), SZero>>)) : i \in 0..((Bytes(rd) \div 32) - 1)}
ProofNonce(m) == PSub(PBase(m.pR), PMul(m.pS, m.F[1]))

KeyOf(tr, p) == tr.sec[CHOOSE i \in 1..Len(tr.live) : tr.live[i] = p]
\* the coefficients of p's polynomial
Coeffs(p) ==
  LET S == Chosen(rdv[p])
      of(P) == IF \E x \in S : PBase(x) = P THEN CHOOSE x \in S : PBase(x) = P
               ELSE CHOOSE x \in Otherwise(rdv[p]) : PBase(x) = P
  IN [j \in 1..Len(own[p][1].F) |-> of(own[p][1].F[j])]
\* its share of its own polynomial, with the shares of any of the others added
Accumulated(p) ==
  LET got == {j \in Others(eng[p]) : <<2, j>> \in DOMAIN eng[p].box}
      RECURSIVE Add(_, _)
      Add(S, x) == IF S = {} THEN {x} ELSE LET j == CHOOSE y \in S : TRUE
                   IN Add(S \ {j}, x) \cup Add(S \ {j}, SAdd(x, eng[p].box[<<2, j>>].s))
      base == F!SEval(Coeffs(p), p)
  IN IF Cardinality(got) <= 5 THEN Add(got, base)
     ELSE {base, SAdd(base, F!SumS([i \in 1..Cardinality(got) |-> LET q == SelectSeq(Tr(sid).parties, LAMBDA y : y \in got) IN eng[p].box[<<2, q[i]>>].s]))}
KeySecrets(tr, p) ==
  IF tr.proto = "keygen" THEN (IF own[p] = <<>> THEN {} ELSE Accumulated(p))
  ELSE {KeyOf(tr, p), SMul(F!Lagrange(p, tr.parties), KeyOf(tr, p))}

\* rd: everything read so far; m: the message
RandKinds(rd, m) ==
  LET pts == Points(Chosen(rd))
      new == CASE m.type = KeyGen1 -> F!Elems(m.F) [] m.type = Sign1 -> {m.D, m.E} [] OTHER -> {}
      bad == new \ pts  \* not the reduction of 64 bytes
      worse == IF bad = {} THEN {} ELSE bad \ Points(Otherwise(rd))
  IN CASE m.type = KeyGen1 ->
         LET rep == \E j \in 1..Len(m.F) : \E i \in 1..(j-1) : m.F[i] = m.F[j] IN
         (IF bad # {} \/ rep THEN {"rand-coeff"} ELSE {}) \cup (IF worse # {} \/ rep THEN {"loose-coeff"} ELSE {}) \cup
         (IF ProofNonce(m) \notin pts \/ ProofNonce(m) \in F!Elems(m.F) THEN {"rand-proof"} ELSE {})
    [] m.type = Sign1 ->
         (IF bad # {} \/ m.D = m.E THEN {"rand-nonce"} ELSE {}) \cup (IF worse # {} \/ m.D = m.E THEN {"loose-nonce"} ELSE {})
    [] OTHER -> {}

\* a secret among the bytes that were sent
LeakKinds(tr, p, rd, out) ==
  LET S == Chosen(rd) \cup (IF tr.proto = "sign" THEN KeySecrets(tr, p) ELSE {})
  IN IF \E i \in 1..Len(out) : \E x \in S : Contains(out[i], x) \/ Contains(out[i], Rev(x)) THEN {"leak-message"} ELSE {}
\* a secret in the text of an error or of public data
TextKinds(tr, p, txt) ==
  LET S == Chosen(rdv[p]) \cup KeySecrets(tr, p)
  IN IF \E i \in 1..Len(txt) : \E x \in S : TextLeaks(txt[i], x) THEN {"leak-text"} ELSE {}

\* what the memory of the session object must not contain
MemKinds(tr, ev) ==
  LET p == ev.p
      gone == IF ~tr.rand THEN {} ELSE IF eng[p].done THEN Chosen(rdv[p]) \cup KeySecrets(tr, p)
              ELSE IF tr.proto = "keygen" /\ eng[p].rnd >= 2 THEN F!Elems(Coeffs(p)) ELSE {}
      \* nor in another form: negated, or the random bytes they are made of
      raw == {x \in IF tr.rand THEN Chunks(rdv[p]) ELSE {} : Reduce(x) \in gone}
      all == gone \cup {SSub(SZero, x) : x \in gone} \cup raw
  IN (IF \E i \in 1..Len(ev.mem) : \E x \in all : Contains(ev.mem[i], x) \/ Contains(ev.mem[i], Rev(x))
      THEN {IF eng[p].done THEN "mem-secret" ELSE "mem-poly"} ELSE {}) \cup
     (IF eng[p].done /\ ev.outref THEN {"mem-output"} ELSE {})

-----------------------------------------------------------------------------
\* what is wrong with message m, which p consumes in its current round; "" if nothing
\* (B, L, c: nonces, their binding and the challenge, used for signature shares only)
Fault(tr, p, m, B, L, c) ==
  CASE m.type = KeyGen1 ->
         IF ~F!DegreeOK(m.F, tr.t) THEN "degree"
         ELSE IF ~F!PokOK(m.from, m.F[1], m.pS, m.pR) THEN "proof" ELSE ""
    [] m.type = KeyGen2 ->
         IF ~F!ShareOK(PolyOf(p, m.from), p, m.s) THEN "share" ELSE ""
    [] m.type = Sign1 ->
         IF ~F!NonceOK(m.D, m.E) THEN "nonce" ELSE ""
    [] m.type = Sign2 ->
         IF ~F!SigShareOKOf(m.from, m.z, tr.parties, L, B, c, PubShare(tr, m.from))
         THEN "sigshare" ELSE ""

\* the signature p would output does not verify although all shares of others are fine
\* (its own key share does not belong to the public data)
FinalBad(tr, p) ==
  /\ tr.proto = "sign" /\ eng[p].rnd = 2
  /\ ~F!SigOK(tr.gk, tr.msg, GroupR(tr, p), SumZ(tr, p))

-----------------------------------------------------------------------------
(* expected emission of p when it advances out of round r; out is a sequence of byte strings.
   Returns the set of kinds of disagreement. *)
HeaderKinds(m, p, ty, to) ==
  (IF m.type # ty THEN {"emit-type"} ELSE {}) \cup
  (IF m.from # p THEN {"emit-from"} ELSE {}) \cup
  (IF m.to # to THEN {"emit-to"} ELSE {})

CountKinds(out, n) == IF Len(out) # n THEN {"emit-count"} ELSE {}

EmitKinds(tr, p, r, out) ==
  LET valid == \A i \in 1..Len(out) : Valid(out[i]) IN
  IF ~valid THEN {"emit-invalid"} ELSE
  LET ms == [i \in 1..Len(out) |-> Decode(out[i])] IN
  IF Rounds(eng[p]) = r THEN CountKinds(out, 0)
  ELSE IF tr.proto = "keygen" /\ r = 1 THEN
    LET to == [i \in 1..Len(ms) |-> ms[i].to] IN
    CountKinds(out, Len(tr.parties) - 1) \cup
    UNION {HeaderKinds(ms[i], p, KeyGen2, ms[i].to) : i \in 1..Len(ms)} \cup
    (IF F!Elems(to) # Others(eng[p]) THEN {"emit-to"} ELSE {}) \cup
    UNION {IF ms[i].type = KeyGen2 /\ ms[i].to \in Others(eng[p]) /\ ~F!ShareOK(own[p][1].F, ms[i].to, ms[i].s)
           THEN {"emit-share"} ELSE {} : i \in 1..Len(ms)}
  ELSE
    CountKinds(out, 1) \cup
    UNION {HeaderKinds(ms[i], p, eng[p].types[r + 1], 0) : i \in 1..Len(ms)} \cup
    (IF Len(ms) # 1 \/ ms[1].type # eng[p].types[r + 1] THEN {"emit-type"}
     ELSE LET m == ms[1] IN
       CASE m.type = KeyGen1 ->
              (IF ~F!DegreeOK(m.F, tr.t) THEN {"emit-degree"} ELSE {}) \cup
              (IF ~F!PokOK(p, m.F[1], m.pS, m.pR) THEN {"emit-proof"} ELSE {}) \cup
              (IF \E c \in F!Elems(m.F) : c = PId THEN {"emit-identity"} ELSE {})
         [] m.type = Sign1 ->
              (IF ~F!NonceOK(m.D, m.E) THEN {"emit-identity"} ELSE {}) \cup
              (IF m.D = m.E THEN {"emit-same-nonce"} ELSE {})
         [] m.type = Sign2 ->
              IF tr.keyok /\ ~F!SigShareOK(p, m.z, tr.msg, tr.parties, Nonces(tr, p), Challenge(tr, p), PubShare(tr, p))
              THEN {"emit-sigshare"} ELSE {}
         [] OTHER -> {})

-----------------------------------------------------------------------------
(* observations: [done, chan, err (<<>> or <<pid, round>> or <<-1>> for another error), out ("none", "part", "full")] *)
\* the observation must agree with itself: one end, either way
ConsistentKinds(o) ==
  (IF o.done # o.chan THEN {"obs-chan"} ELSE {}) \cup
  (IF ~o.done /\ (o.err # <<>> \/ o.out # "none") THEN {"obs-early"} ELSE {}) \cup
  (IF o.done /\ o.err # <<>> /\ o.out # "none" THEN {"obs-both"} ELSE {}) \cup
  (IF o.done /\ o.err = <<>> /\ o.out # "full" THEN {"obs-neither"} ELSE {})

\* nothing may have changed
SameKinds(st, o) ==
  (IF o.done # st.done THEN {"changed-done"} ELSE {}) \cup
  (IF o.err # st.err THEN {"changed-err"} ELSE {})

(* what the texts of errors say: party, culprit and round numbers that are labelled as such *)
Said(ev) == "say" \in DOMAIN ev
SayRejectKinds(st, ev, m) ==
  IF ~Said(ev) THEN {}
  ELSE IF (\E i \in 1..Len(ev.say.culprit) : ev.say.culprit[i] # m.from) \/ (\E i \in 1..Len(ev.say.round) : ev.say.round[i] # st.rnd)
  THEN {"say-reject"} ELSE {}
SayBlameKinds(st, ev) ==
  IF ~Said(ev) \/ Len(st.err) # 2 THEN {}
  ELSE LET who == F!Elems(ev.say.party) \cup F!Elems(ev.say.culprit) IN
    IF (who # {} /\ st.err[1] # 0 /\ st.err[1] \notin who)
       \/ (\E i \in 1..Len(ev.say.culprit) : ev.say.culprit[i] # st.err[1])
       \/ (\E i \in 1..Len(ev.say.round) : ev.say.round[i] # st.err[2])
    THEN {"say-blame"} ELSE {}

-----------------------------------------------------------------------------
(* events *)
HandleKinds(tr, ev) ==
  IF ~Valid(ev.b) THEN (IF ev.dec THEN {"decode-accepts"} ELSE {}) \cup ConsistentKinds(ev.o) \cup SameKinds(eng[ev.p], ev.o)
  ELSE IF ~ev.dec THEN {"decode-rejects"}
  ELSE LET c == Classify(eng[ev.p], Decode(ev.b)) IN
    (IF Rejected(c) /\ ev.ok THEN {"accepts-" \o c} ELSE {}) \cup
    (IF ~Rejected(c) /\ ~ev.ok
       THEN {IF c = "accepted" /\ RoundOf(eng[ev.p], TypeOf(ev.b)) > eng[ev.p].rnd THEN "rejects-early" ELSE "rejects-" \o c}
       ELSE {}) \cup
    (IF Rejected(c) /\ ~ev.ok THEN SayRejectKinds(eng[ev.p], ev, Decode(ev.b)) ELSE {}) \cup
    ConsistentKinds(ev.o) \cup SameKinds(eng[ev.p], ev.o)

HandleNext(tr, ev) ==
  IF Valid(ev.b) /\ ev.dec THEN [eng EXCEPT ![ev.p] = Handle(@, Decode(ev.b))] ELSE eng

\* the faulty messages with what is wrong with them
Faults(tr, p) ==
  LET B == Nonces(tr, p)
      L == HBind(tr.msg, tr.parties, B)
      c == HChal(F!GroupNonceOf(tr.parties, L, B), tr.gk, tr.msg)
  IN {<<m.from, Fault(tr, p, m, B, L, c)>> : m \in Inputs(eng[p])}

\* the result of a processing call: kinds, next engine state, whether the trace can be followed further
Process(tr, ev) ==
  LET p == ev.p
      st == eng[p]
      o == ev.o
      base == ConsistentKinds(o)
  IN IF ~Ready(st) THEN
       [kinds |-> base \cup SameKinds(st, o) \cup
          (IF ev.out # <<>> THEN {IF st.done THEN "emit-after-end" ELSE "emit-unready"} ELSE {}),
        st |-> st, out |-> FALSE]
     ELSE LET faults == {x \in Faults(tr, p) : x[2] # ""}
              faulty == {x[1] : x \in faults} IN
     IF faulty # {} THEN
       [kinds |-> base \cup
          (IF o.err = <<>> THEN {"accepts-fault-" \o x[2] : x \in faults}
           ELSE IF Len(o.err) # 2 THEN {"blame-form"}
           ELSE (IF o.err[1] = 0 THEN {"blame-nobody"} ELSE IF o.err[1] \notin faulty THEN {"blame-party"} ELSE {}) \cup
                (IF o.err[2] # st.rnd THEN {"blame-round"} ELSE {})) \cup
          (IF ev.out # <<>> THEN {"emit-on-abort"} ELSE {}),
        st |-> Abort(st, IF Len(o.err) = 2 THEN o.err[1] ELSE 0), out |-> FALSE]
     ELSE IF FinalBad(tr, p) THEN
       [kinds |-> base \cup
          (IF o.err = <<>> THEN {"accepts-fault-signature"}
           ELSE IF o.err # <<0, st.rnd>> THEN {"blame-party"} ELSE {}) \cup
          (IF ev.out # <<>> THEN {"emit-on-abort"} ELSE {}),
        st |-> Abort(st, 0), out |-> FALSE]
     ELSE
       [kinds |-> base \cup
          (IF o.err # <<>> THEN {"aborts-clean"}
           ELSE (IF o.done # Last(st) THEN {IF o.done THEN "ends-early" ELSE "no-end"} ELSE {}) \cup
                EmitKinds(tr, p, st.rnd, ev.out) \cup
                (IF tr.rand /\ \A i \in 1..Len(ev.out) : Valid(ev.out[i])
                 THEN UNION {RandKinds(Cat(<<rdv[p]>> \o ev.rd), Decode(ev.out[i])) : i \in 1..Len(ev.out)} \cup
                      LeakKinds(tr, p, Cat(<<rdv[p]>> \o ev.rd), ev.out)
                 ELSE {})),
        st |-> Advance(st), out |-> TRUE]

\* after these the rest of the trace has no meaning
Fatal == {"decode-accepts", "decode-rejects", "accepts-ended", "accepts-foreign", "accepts-type", "accepts-duplicate",
          "rejects-early", "rejects-accepted", "changed-done", "changed-err", "emit-unready", "emit-invalid", "emit-count", "emit-type",
          "accepts-fault-degree", "accepts-fault-proof", "accepts-fault-share", "accepts-fault-nonce", "accepts-fault-sigshare",
          "accepts-fault-signature", "blame-form", "aborts-clean", "ends-early", "no-end", "loose-coeff", "loose-nonce",
          "drive-error", "drive-no-error", "timeout-early", "timeout-late"}

(* final outputs; o.err = <<>> and o.done *)
KeygenOutKinds(tr, p, x) ==
  LET Fs == AllPolys(tr, p)
      S == F!SumPoly(Fs)
  IN (IF x.id # p THEN {"out-id"} ELSE {}) \cup
     (IF PBase(x.secret) # PEval(S, p) THEN {"out-secret"} ELSE {}) \cup
     (IF x.public # PEval(S, p) THEN {"out-public"} ELSE {}) \cup
     (IF x.gk # S[1] THEN {"out-groupkey"} ELSE {}) \cup
     (IF x.t # tr.t THEN {"out-threshold"} ELSE {}) \cup
     (IF x.parties # tr.parties THEN {"out-parties"} ELSE {}) \cup
     (IF x.shareids # tr.parties THEN {"out-shares"}
      ELSE IF \E i \in 1..Len(tr.parties) : x.shares[i] # PEval(S, tr.parties[i]) THEN {"out-shares"} ELSE {})

SignOutKinds(tr, p, x) ==
  (IF x.R # GroupR(tr, p) THEN {"out-R"} ELSE {}) \cup
  (IF x.S # SumZ(tr, p) THEN {"out-S"} ELSE {}) \cup
  (IF ~F!SigOK(tr.gk, tr.msg, x.R, x.S) THEN {"out-invalid"} ELSE {}) \cup
  (IF x.ed # Cat(<<EdEncode(x.R), x.S>>) \/ x.edpk # EdEncode(tr.gk) THEN {"out-encoding"} ELSE {}) \cup
  (IF ~x.lib THEN {"out-lib-verify"} ELSE {}) \cup
  (IF ~x.std THEN {"out-std-verify"} ELSE {})

OutKinds(tr, ev) ==
  LET st == eng[ev.p] IN
  (IF ev.wait # ev.o.err THEN {"obs-wait"} ELSE {}) \cup
  (IF tr.rand /\ "txt" \in DOMAIN ev THEN TextKinds(tr, ev.p, ev.txt) ELSE {}) \cup
  SayBlameKinds(st, ev) \cup ConsistentKinds(ev.o) \cup SameKinds(st, ev.o) \cup
  (IF st.done /\ st.err = <<>> /\ ev.o.out = "full"
   THEN (IF tr.proto = "keygen" THEN KeygenOutKinds(tr, ev.p, ev.x) ELSE SignOutKinds(tr, ev.p, ev.x)) ELSE {})

(* agreement of all outputs of the session, and (tr.expect) completion of an honest run *)
RECURSIVE Choose(_, _)
Choose(s, n) == \* subsequences of length n of s
  IF n = 0 THEN {<<>>} ELSE IF Len(s) < n THEN {}
  ELSE {<<Head(s)>> \o q : q \in Choose(Tail(s), n - 1)} \cup Choose(Tail(s), n)
FirstFew(S, n) == IF Cardinality(S) <= n THEN S ELSE
  LET RECURSIVE Pick(_, _)
      Pick(X, c) == IF c = 0 THEN {} ELSE LET e == CHOOSE y \in X : TRUE IN {e} \cup Pick(X \ {e}, c - 1)
  IN Pick(S, n)

AgreeKinds(tr, ev) ==
  LET xs == [i \in 1..Len(ev.xs) |-> ev.xs[i].x]
      n == Len(xs)
      ids == [i \in 1..n |-> ev.xs[i].p]
  IN (IF tr.expect /\ n # Len(tr.live) /\ \A p \in DOMAIN eng : eng[p].err = <<>> THEN {"incomplete"} ELSE {}) \cup
     (IF tr.proto = "keygen" THEN
        (IF \E i \in 1..n : \E f \in {"gk", "t", "parties", "shares", "shareids"} : xs[i][f] # xs[1][f] THEN {"disagree"} ELSE {}) \cup
        (IF tr.keyok /\ n > tr.t THEN
           IF \E s \in FirstFew(Choose([i \in 1..n |-> i], tr.t + 1), 6) :
                LET sub == [i \in 1..Len(s) |-> ids[s[i]]]
                    sec == F!SumS([i \in 1..Len(s) |-> SMul(F!Lagrange(ids[s[i]], sub), xs[s[i]].secret)])
                IN PBase(sec) # xs[1].gk
           THEN {"no-reconstruct"} ELSE {}
         ELSE {})
      ELSE IF \E i \in 1..n : xs[i].R # xs[1].R \/ xs[i].S # xs[1].S THEN {"disagree"} ELSE {})

-----------------------------------------------------------------------------
Report(kinds) == \A x \in kinds : PrintT(<<"MISMATCH", Tr(sid).id, k, Tr(sid).ev[k].e, x>>)

(* the byte-level driver: all inputs are handed over, the first refused one ends the call *)
RECURSIVE DriveIn(_, _, _)
DriveIn(st, in, i) ==
  IF i > Len(in) THEN [st |-> st, bad |-> FALSE]
  ELSE IF ~Valid(in[i]) \/ Rejected(Classify(st, Decode(in[i]))) THEN [st |-> st, bad |-> TRUE]
  ELSE DriveIn(Handle(st, Decode(in[i])), in, i + 1)

DriveBadKinds(ev) ==
  (IF ~ev.fail THEN {"drive-no-error"} ELSE {}) \cup
  (IF ev.out # <<>> THEN {"drive-out"} ELSE {}) \cup
  ConsistentKinds(ev.o) \cup SameKinds(eng[ev.p], ev.o)
DriveKinds(ev, st) == \* st: the engine afterwards
  (IF ev.fail # (st.err # <<>>) THEN {IF ev.fail THEN "drive-error" ELSE "drive-no-error"} ELSE {}) \cup
  (IF ev.fail /\ ev.out # <<>> THEN {"drive-out"} ELSE {})

-----------------------------------------------------------------------------
(* time, in microseconds, or in ticks of a simulated clock, on which calls take no time *)
Slack(tr) == IF tr.exact THEN 0 ELSE 8000000
Timed(tr) == tr.timeout > 0
\* the session was seen to have timed out
TimedOut(tr, ev) ==
  /\ Timed(tr) /\ ev.e \in {"H", "P", "D", "O", "M"} /\ ~eng[ev.p].done
  /\ ev.o.done /\ ev.o.err \in {<<0, eng[ev.p].rnd>>} \cup (IF ev.out # <<>> THEN {<<0, eng[ev.p].rnd + 1>>} ELSE {})
\* (ev.t1 is later than the observation; a message accepted by the same call was accepted before the timeout)
Took(ev) == ev.e = "H" /\ ev.ok /\ Valid(ev.b) /\ Classify(eng[ev.p], Decode(ev.b)) = "accepted"
EarlyKinds(tr, ev) == IF ev.t1 < (IF Took(ev) THEN ev.t0 ELSE last[ev.p][1]) + tr.timeout THEN {"timeout-early"} ELSE {}
LateKinds(tr, ev) ==
  IF Timed(tr) /\ ~eng[ev.p].done /\ ev.t0 > last[ev.p][2] + tr.timeout + Slack(tr) THEN {"timeout-late"} ELSE {}
Restart(ev, st) == \* the timeout is restarted by what the event made the engine accept
  IF DOMAIN st.box # DOMAIN eng[ev.p].box THEN [last EXCEPT ![ev.p] = <<ev.t0, ev.t1>>] ELSE last

-----------------------------------------------------------------------------
Init ==
  /\ sid \in 1..Len(Traces)
  /\ k = 1
  /\ div = FALSE
  /\ mid = 0
  /\ eng = [p \in F!Elems(Tr(sid).live) |-> NewSession(p, F!Elems(Tr(sid).parties), Types(Tr(sid).proto))]
  /\ own = [p \in F!Elems(Tr(sid).live) |-> <<>>]
  /\ rdv = [p \in F!Elems(Tr(sid).live) |-> ""]
  /\ last = [p \in F!Elems(Tr(sid).live) |-> <<0, 0>>]

Read(ev) == IF Tr(sid).rand THEN [rdv EXCEPT ![ev.p] = Cat(<<@>> \o ev.rd)] ELSE rdv
Keep(ev, r) == \* remember what was sent
  IF r.out /\ ~(r.kinds \cap Fatal # {}) /\ Len(ev.out) > 0 THEN [own EXCEPT ![ev.p] = Append(@, Decode(ev.out[1]))] ELSE own

Create(tr, ev) ==
  /\ Report(ConsistentKinds(ev.o) \cup SameKinds(eng[ev.p], ev.o))
  /\ rdv' = Read(ev) /\ last' = [last EXCEPT ![ev.p] = <<ev.t0, ev.t1>>]
  /\ UNCHANGED <<eng, own, div, mid>>

HandleStep(tr, ev) ==
  LET kinds == HandleKinds(tr, ev) \cup LateKinds(tr, ev)
      next == HandleNext(tr, ev) IN
  /\ Report(kinds)
  /\ eng' = next
  /\ div' = (kinds \cap Fatal # {})
  /\ last' = Restart(ev, next[ev.p])
  /\ UNCHANGED <<own, rdv, mid>>

ProcessStep(tr, ev) ==
  LET r == Process(tr, ev)
      kinds == r.kinds \cup LateKinds(tr, ev) IN
  /\ Report(kinds)
  /\ eng' = [eng EXCEPT ![ev.p] = r.st]
  /\ div' = (kinds \cap Fatal # {})
  /\ own' = Keep(ev, r)
  /\ rdv' = Read(ev)
  /\ UNCHANGED <<last, mid>>

\* first half of a drive
DriveHandOver(tr, ev) ==
  LET d == DriveIn(eng[ev.p], ev.in, 1) IN
  /\ Report(LateKinds(tr, ev))
  /\ eng' = [eng EXCEPT ![ev.p] = d.st]
  /\ last' = Restart(ev, d.st)
  /\ mid' = IF d.bad THEN 2 ELSE 1
  /\ UNCHANGED <<own, rdv, div>>

\* second half
DriveProcess(tr, ev) ==
  /\ mid' = 0
  /\ rdv' = Read(ev)
  /\ UNCHANGED last
  /\ IF mid = 2
     THEN LET kinds == DriveBadKinds(ev) IN
          /\ Report(kinds) /\ div' = (kinds \cap Fatal # {}) /\ UNCHANGED <<eng, own>>
     ELSE LET r == Process(tr, ev)
              kinds == r.kinds \cup DriveKinds(ev, r.st) IN
          /\ Report(kinds)
          /\ eng' = [eng EXCEPT ![ev.p] = r.st]
          /\ div' = (kinds \cap Fatal # {})
          /\ own' = Keep(ev, r)

WaitedStep(tr, ev) == \* a timeout was waited for and must have happened
  LET st == Timeout(eng[ev.p])
      kinds == ConsistentKinds(ev.o) \cup
        (IF ev.o.done # st.done THEN {"no-timeout"}
         ELSE IF eng[ev.p].done THEN SameKinds(st, ev.o)
         ELSE IF ev.o.err # st.err THEN {"timeout-blame"} ELSE EarlyKinds(tr, ev))
  IN /\ Report(kinds)
     /\ eng' = [eng EXCEPT ![ev.p] = st]
     /\ div' = (kinds \cap {"no-timeout", "changed-done", "changed-err"} # {})
     /\ UNCHANGED <<own, rdv, last, mid>>

Step ==
  LET tr == Tr(sid)
      ev == tr.ev[k]
      half == ev.e = "D" /\ mid = 0
  IN
  /\ k <= Len(tr.ev)
  /\ k' = IF half THEN k ELSE k + 1
  /\ UNCHANGED sid
  /\ IF div THEN /\ UNCHANGED <<eng, own, div, rdv, last>>
                 /\ mid' = IF half THEN 1 ELSE 0
     ELSE IF mid = 0 /\ TimedOut(tr, ev) THEN
       /\ Report(EarlyKinds(tr, ev))
       /\ eng' = [eng EXCEPT ![ev.p] = Timeout(@)]
       /\ div' = (EarlyKinds(tr, ev) # {} \/ half)
       /\ mid' = IF half THEN 1 ELSE 0
       /\ UNCHANGED <<own, rdv, last>>
     ELSE IF ev.e = "C" THEN Create(tr, ev)
     ELSE IF ev.e = "H" THEN HandleStep(tr, ev)
     ELSE IF ev.e = "P" THEN ProcessStep(tr, ev)
     ELSE IF half THEN DriveHandOver(tr, ev)
     ELSE IF ev.e = "D" THEN DriveProcess(tr, ev)
     ELSE IF ev.e = "T" THEN WaitedStep(tr, ev)
     ELSE
       /\ UNCHANGED <<eng, own, rdv, last, mid>>
       /\ IF ev.e = "O" THEN Report(OutKinds(tr, ev) \cup LateKinds(tr, ev)) /\ UNCHANGED div
          ELSE IF ev.e = "A" THEN Report(AgreeKinds(tr, ev)) /\ UNCHANGED div
          ELSE IF ev.e = "M" THEN Report(MemKinds(tr, ev)) /\ UNCHANGED div
          ELSE IF ev.e = "S" THEN
            /\ Report(IF \E i \in 1..Len(ev.objs) : ev.objs[i].was # ev.objs[i].now THEN {"object-changed"} ELSE {})
            /\ UNCHANGED div
          ELSE \* "X": the driver saw a panic or a hang; "R": creation was refused
            /\ Report({IF ev.e = "R" THEN "refused" ELSE "crash"})
            /\ div' = TRUE

Spec == Init /\ [][Step]_vars
=============================================================================
