----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* One session used from several goroutines, with its lock and its timer.   *)
(*                                                                          *)
(* Calls wait for the lock, hold it for as long as they like and take       *)
(* effect (an operator of Engine.tla) when they let go of it.  The timer is *)
(* a countdown; when it has run out a callback starts to wait for the lock  *)
(* like a call.  A callback that obtains the lock ends the session only if  *)
(* the deadline, which every accepted message moves, has really passed.     *)
(*                                                                          *)
(* TLC checks that this refines the atomic engine (C13), that a timeout     *)
(* never comes early however long the lock is held (C12), that a stalled    *)
(* session ends (C12), and that the end is final (C11).  With Check = FALSE *)
(* (callbacks trust that the timer fired) NeverEarly fails: LifecycleBad    *)
(* is expected to be refuted and shows that the invariant can fail.         *)
(***************************************************************************)
EXTENDS Engine

CONSTANTS T,      \* timeout in ticks; 0: none
          Check,  \* callbacks look at the deadline
          NP      \* number of processing calls

Self == 2
Types == <<3, 4>>
Msg(ty, v) == [type |-> ty, from |-> 1, to |-> 0, v |-> v]
Calls == {<<"H", Msg(3, "a")>>, <<"H", Msg(4, "a")>>, <<"H", Msg(4, "x")>>} \cup {<<"P", i>> : i \in 1..NP}

(* left: ticks until the timer fires, -1 if it is not running; togo: ticks until the deadline;
   since: ticks since the last accepted message; late: did the session end by a timeout, and when *)
VARIABLES st, pc, holder, left, togo, since, cbs, late
vars == <<st, pc, holder, left, togo, since, cbs, late>>

Init ==
  /\ st = NewSession(Self, {1, 2}, Types)
  /\ pc = [c \in Calls |-> "idle"]
  /\ holder = <<>>
  /\ left = IF T > 0 THEN T ELSE -1
  /\ togo = T
  /\ since = 0
  /\ cbs = 0
  /\ late = -1

Start(c) == pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "wait"] /\ UNCHANGED <<st, holder, left, togo, since, cbs, late>>
Acquire(c) == pc[c] = "wait" /\ holder = <<>> /\ holder' = c /\ pc' = [pc EXCEPT ![c] = "held"] /\ UNCHANGED <<st, left, togo, since, cbs, late>>

Bad == {m.from : m \in {x \in Inputs(st) : x.v = "x"}}
Processed == IF ~Ready(st) THEN {st} ELSE IF Bad # {} THEN {Abort(st, p) : p \in Bad} ELSE {Advance(st)}

Restarts(c) == c[1] = "H" /\ Classify(st, c[2]) = "accepted" /\ T > 0
Release(c) ==
  /\ holder = c /\ pc[c] = "held"
  /\ st' \in IF c[1] = "H" THEN {Handle(st, c[2])} ELSE Processed
  /\ pc' = [pc EXCEPT ![c] = "done"]
  /\ holder' = <<>>
  /\ IF Restarts(c) THEN left' = T /\ togo' = T /\ since' = 0
     ELSE UNCHANGED <<togo, since>> /\ left' = IF st'.done THEN -1 ELSE left   \* the end stops the timer
  /\ UNCHANGED <<cbs, late>>

\* the timer fires as soon as it has run out
Fire == left = 0 /\ left' = -1 /\ cbs' = cbs + 1 /\ UNCHANGED <<st, pc, holder, togo, since, late>>
CbAcquire == cbs > 0 /\ holder = <<>> /\ holder' = <<"callback">> /\ UNCHANGED <<st, pc, left, togo, since, cbs, late>>
CbRelease ==
  /\ holder = <<"callback">> /\ holder' = <<>> /\ cbs' = cbs - 1
  /\ IF ~st.done /\ (Check => togo = 0)
     THEN st' = Timeout(st) /\ late' = since /\ left' = -1
     ELSE UNCHANGED <<st, late, left>>
  /\ UNCHANGED <<pc, togo, since>>

Tick ==
  /\ left # 0
  /\ since < T + 1
  /\ since' = since + 1
  /\ left' = IF left > 0 THEN left - 1 ELSE left
  /\ togo' = IF togo > 0 THEN togo - 1 ELSE 0
  /\ UNCHANGED <<st, pc, holder, cbs, late>>

Next == Fire \/ CbAcquire \/ CbRelease \/ Tick \/ \E c \in Calls : Start(c) \/ Acquire(c) \/ Release(c)
Fair == WF_vars(Fire) /\ SF_vars(CbAcquire) /\ WF_vars(CbRelease) /\ WF_vars(Tick) /\ \A c \in Calls : SF_vars(Acquire(c)) /\ WF_vars(Release(c))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* C12: a timeout comes no earlier than T after the last accepted message
NeverEarly == late # -1 => late >= T
\* C12: no timeout without a duration
Zero == T = 0 => late = -1 /\ cbs = 0
\* C11: ended by a timeout means blaming nobody, in the current round
Blame == late # -1 => st.done /\ st.err = <<0, st.rnd>>
\* at most one callback waits for each time the timer was started
Callbacks == cbs <= 1 + Cardinality({c \in Calls : pc[c] = "done"})
\* C13: every step of the session is one atomic step of the engine
Atomic == [][\/ st' = st
             \/ \E c \in Calls : c[1] = "H" /\ st' = Handle(st, c[2])
             \/ st' \in Processed
             \/ st' = Timeout(st)]_st
\* C11
Final == [][st.done => st' = st]_vars
\* C12: with a timeout every session ends, whatever is called or not called
Ends == (T > 0) => <>(st.done)
=============================================================================
