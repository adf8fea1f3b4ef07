------------------------------ MODULE TraceLin ------------------------------
(***************************************************************************)
(* Linearizability of concurrent histories of one session.                  *)
(*                                                                          *)
(* The input has one history per line: the calls made on a session by many  *)
(* goroutines, each with the logical times of its call and return.  The     *)
(* specification takes the calls in some order that respects real time (a   *)
(* call may come next if no other outstanding call returned before it was   *)
(* made) and lets the engine of Engine.tla perform each one atomically with *)
(* the result that was observed.  A timeout may end a session with timeout  *)
(* H.t > 0 (microseconds) between any two calls, but only if all remaining  *)
(* calls returned at least that long after the creation or the call that    *)
(* accepted the last message (C12: never early).  A history is explained    *)
(* when all calls were taken; its number is then printed.                   *)
(*                                                                          *)
(* Histories with seq = TRUE come from one goroutine and are long (groups   *)
(* of hundreds of parties): their calls are taken in the order given.       *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)

(* base: the earliest time at which the timeout may have been started last *)
VARIABLES hid, lin, st, base
vars == <<hid, lin, st, base>>

Ops == H[hid].ops
Rest == (1..Len(Ops)) \ lin
Next1 == IF H[hid].seq THEN (IF Cardinality(lin) = Len(Ops) THEN {} ELSE {Cardinality(lin) + 1}) ELSE Rest
Elems(s) == {s[i] : i \in 1..Len(s)}

\* no outstanding call returned before i was made
Minimal(i) == H[hid].seq \/ \A j \in Rest \ {i} : Ops[j].ret > Ops[i].inv

Msg(o) == [type |-> o.type, from |-> o.from, to |-> o.to, v |-> o.v]
Emitted(r) == [i \in 1..(r + 1) |-> 1000 * (r + 1) + i - 1]
Bad(s) == {m.from : m \in {x \in Inputs(s) : x.v = "x"}}

\* the engine states after call o with the observed result
After(o) ==
  CASE o.k = "H" -> IF o.ok = ~Rejected(Classify(st, Msg(o))) THEN {Handle(st, Msg(o))} ELSE {}
    [] o.k = "P" ->
         IF ~Ready(st) THEN (IF o.out = <<>> THEN {st} ELSE {})
         ELSE IF Bad(st) # {} THEN (IF o.out = <<>> THEN {Abort(st, p) : p \in Bad(st)} ELSE {})
         ELSE IF st.rnd = H[hid].genfail THEN (IF o.out = <<>> THEN {Abort(st, 0)} ELSE {})
         ELSE IF o.out = Emitted(st.rnd) THEN {Advance(st)} ELSE {}
    [] o.k = "F" -> IF o.ok = st.done THEN {st} ELSE {}
    [] o.k = "D" -> IF o.ok = st.done THEN {st} ELSE {}
    [] o.k = "E" -> IF o.err = st.err THEN {st} ELSE {}
    [] o.k = "W" -> IF st.done /\ o.err = st.err THEN {st} ELSE {}

Init ==
  /\ hid \in 1..Len(H)
  /\ lin = {}
  /\ base = H[hid].t0
  /\ st = NewSession(H[hid].self, Elems(H[hid].parties), H[hid].types)

Take ==
  \E i \in Next1 : Minimal(i) /\ \E s \in After(Ops[i]) :
    /\ st' = s
    /\ base' = IF Ops[i].k = "H" /\ Classify(st, Msg(Ops[i])) = "accepted" THEN Ops[i].t0 ELSE base
    /\ lin' = lin \cup {i}
    /\ UNCHANGED hid
    /\ (lin' = 1..Len(Ops)) => PrintT(<<"EXPLAINED", H[hid].id>>)

Expire ==
  /\ H[hid].t > 0 /\ ~st.done
  /\ \A i \in Rest : Ops[i].t1 >= base + H[hid].t
  /\ st' = Timeout(st)
  /\ UNCHANGED <<hid, lin, base>>

Next == Take \/ Expire
=============================================================================
