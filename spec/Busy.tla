-------------------------------- MODULE Busy --------------------------------
(***************************************************************************)
(* Schedules for a session whose processing is held up at one point (the    *)
(* gate) while other calls are made and the timeout passes.  The driver     *)
(* command "busy" performs them on real sessions of the toy protocol, each  *)
(* call in its own goroutine; what happened is judged by TraceLin.tla.      *)
(*                                                                          *)
(*   P  a processing call            1, 2  the message of round 1, 2        *)
(*   d  a repetition of message 1    O     the finished, error and done     *)
(*   T  the timeout passes                 queries                          *)
(*   G  the gate opens                                                      *)
(*                                                                          *)
(* The session starts in round pre (the driver brings it there).            *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

Len1 == CHOOSE n \in 1..20 : ToString(n) = IOEnv.BUSYLEN
Gates == {<<"generate", 0>>, <<"generate", 1>>, <<"generate", 2>>, <<"process", 1>>, <<"process", 2>>, <<"next", 0>>, <<"next", 2>>, <<"reset", 0>>}
Types == <<3, 4>>
Msg(k, v) == [type |-> Types[k], from |-> 1, to |-> 0, v |-> v]

(* gate: where; plan: is message 2 faulty; held: "no", "yes" (a call or the timeout is in the gate), "open";
   queue: what waits behind it; pend: the timeout waits behind it *)
VARIABLES gate, pre, plan, st, held, by, queue, hist
vars == <<gate, pre, plan, st, held, by, queue, hist>>

\* (message 1 was part of the way to round 2)
Init ==
  /\ gate \in Gates
  /\ plan \in {"a", "x"}
  /\ pre \in 0..2 /\ (gate[1] # "reset" => pre = gate[2])
  /\ st = LET s == NewSession(2, {1, 2}, Types)
          IN IF pre = 0 THEN s ELSE IF pre = 1 THEN Advance(s) ELSE Advance(Accept(Advance(s), Msg(1, "a")))
  /\ held = "no" /\ by = "-" /\ queue = <<>> /\ hist = <<>>

Count(a) == Cardinality({i \in 1..Len(hist) : hist[i] = a})
Bad == {m.from : m \in {x \in Inputs(st) : x.v = "x"}}
Proc(s) == IF ~Ready(s) THEN s
           ELSE IF \E m \in Inputs(s) : m.v = "x" THEN Abort(s, 1) ELSE Advance(s)
Do(s, a) == CASE a = "P" -> Proc(s)
              [] a = "1" -> Handle(s, Msg(1, "a"))
              [] a = "d" -> Handle(s, Msg(1, "b"))
              [] a = "2" -> Handle(s, Msg(2, plan))
              [] a = "T" -> Timeout(s)
              [] OTHER -> s
\* does performing a on s reach the gate?
Hits(s, a) ==
  /\ held = "no"
  /\ IF gate[1] = "reset" THEN ~s.done /\ Do(s, a).done
     ELSE /\ a = "P" /\ Ready(s) /\ s.rnd = gate[2]
          /\ (gate[1] = "process" \/ ~\E m \in Inputs(s) : m.v = "x")
RECURSIVE Drain(_, _)
Drain(s, q) == IF q = <<>> THEN s ELSE Drain(Do(s, Head(q)), Tail(q))

Limit(a) == CASE a = "P" -> 4 [] a = "O" -> 2 [] a = "T" -> 2 [] OTHER -> 1
Act(a) ==
  /\ Len(hist) < Len1 /\ Count(a) < Limit(a)
  /\ a = "1" => pre < 2
  /\ a = "d" => Count("1") = 1
  /\ a = "O" => Len(hist) > 0 /\ hist[Len(hist)] # "O"
  /\ a = "T" => ~st.done
  /\ st.done => a \in {"O", "P"}
  /\ hist' = Append(hist, a)
  /\ UNCHANGED <<gate, pre, plan>>
  /\ IF a = "G" THEN
       /\ held = "yes" /\ held' = "open"
       /\ st' = Drain(Do(st, by), queue) /\ queue' = <<>> /\ by' = "-"
     ELSE IF held = "yes" THEN queue' = Append(queue, a) /\ UNCHANGED <<st, held, by>>
     ELSE IF Hits(st, a) THEN held' = "yes" /\ by' = a /\ UNCHANGED <<st, queue>>
     ELSE st' = Do(st, a) /\ UNCHANGED <<held, by, queue>>

Next == \E a \in {"P", "1", "2", "d", "O", "T", "G"} : Act(a)

\* a schedule is of use if something happened while the gate was shut
Useful == held' = "open" /\ Len(hist') = Len1 /\ \E i \in 1..Len(hist') : hist'[i] = "T"
Emit == Useful => PrintT("BUSY " \o ToJson([gate |-> gate, pre |-> pre, v |-> plan, acts |-> hist']))
TypeOK == st.err # <<>> => st.done
=============================================================================
