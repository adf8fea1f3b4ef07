-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* A whole run: the engines (Engine.tla) of several honest parties joined   *)
(* by an asynchronous network, with misbehaving parties and timeouts.       *)
(*                                                                          *)
(* The network keeps every message for ever and hands it to its recipients  *)
(* in any order; a party has sent its message for round r once it is in     *)
(* round r.  Misbehaving parties follow a plan fixed at the start: for each *)
(* of their messages it is good ("a"), faulty ("x"), or never sent ("-").   *)
(* A broadcast is the same for everybody (consistent broadcast), directed   *)
(* messages (type 2) may differ.  The adversary otherwise schedules         *)
(* everything.                                                              *)
(*                                                                          *)
(* TLC checks the network-level guarantees of C01, C02, C04, C05, C09, C10, *)
(* C11, C12 and C14 here, and enumerates schedules (hist) that the driver   *)
(* command "net" performs with real sessions.                               *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

Conf ==
  LET C(h, b, ty, vars, timed, sched, idle) ==
        [honest |-> h, byz |-> b, types |-> ty, vars |-> vars, timed |-> timed, sched |-> sched, idle |-> idle]
      KG == <<1, 2>>
      SG == <<3, 4>>
  IN CASE IOEnv.CONF = "h2kg"    -> C({1, 2}, {}, KG, {"a"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h2kgt"   -> C({1, 2}, {}, KG, {"a"}, TRUE, FALSE, 0)
       [] IOEnv.CONF = "h3kg"    -> C({1, 2, 3}, {}, KG, {"a"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h3sg"    -> C({1, 2, 3}, {}, SG, {"a"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h2b1kg"  -> C({1, 3}, {2}, KG, {"a", "x"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h2b1sg"  -> C({1, 3}, {2}, SG, {"a", "x"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h2b1kgt" -> C({1, 3}, {2}, KG, {"a", "x", "-"}, TRUE, FALSE, 0)
       [] IOEnv.CONF = "h2b1sgt" -> C({1, 3}, {2}, SG, {"a", "x", "-"}, TRUE, FALSE, 0)
       [] IOEnv.CONF = "h1b2kg"  -> C({2}, {1, 3}, KG, {"a", "x", "-"}, TRUE, FALSE, 0)
       [] IOEnv.CONF = "h2b2kg"  -> C({2, 3}, {1, 4}, KG, {"a", "x"}, FALSE, FALSE, 0)
       [] IOEnv.CONF = "h2b2sg"  -> C({2, 3}, {1, 4}, SG, {"a", "x"}, FALSE, FALSE, 0)
       \* schedules for the driver
       [] IOEnv.CONF = "s2kg"    -> C({1, 2}, {}, KG, {"a"}, FALSE, TRUE, 0)
       [] IOEnv.CONF = "s2sg"    -> C({1, 2}, {}, SG, {"a"}, FALSE, TRUE, 0)
       [] IOEnv.CONF = "s2kgi"   -> C({1, 2}, {}, KG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s2sgi"   -> C({1, 2}, {}, SG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s1b1kg"  -> C({1}, {2}, KG, {"a", "x"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s1b1sg"  -> C({2}, {1}, SG, {"a", "x"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s1b2kg"  -> C({2}, {1, 3}, KG, {"a", "x"}, FALSE, TRUE, 0)
       [] IOEnv.CONF = "s1b2sg"  -> C({3}, {1, 2}, SG, {"a", "x"}, FALSE, TRUE, 0)
       [] IOEnv.CONF = "s3kg"    -> C({1, 2, 3}, {}, KG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s3sg"    -> C({1, 2, 3}, {}, SG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s4kg"    -> C({1, 2, 3, 4}, {}, KG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s4sg"    -> C({1, 2, 3, 4}, {}, SG, {"a"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s2b1kg"  -> C({1, 3}, {2}, KG, {"a", "x"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s2b1sg"  -> C({1, 3}, {2}, SG, {"a", "x"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s3b1kg"  -> C({1, 2, 4}, {3}, KG, {"a", "x"}, FALSE, TRUE, 1)
       [] IOEnv.CONF = "s2b2sg"  -> C({1, 3}, {2, 4}, SG, {"a", "x"}, FALSE, TRUE, 1)

Honest == Conf.honest
Byz == Conf.byz
Parties == Honest \cup Byz
NR == Len(Conf.types)
Directed(r) == Conf.types[r] = 2

(* eng: the engines of the honest parties; plan: the variant of every message of the others, per
   sender, round and recipient; hist: the schedule so far; idle: idle processing calls left *)
VARIABLES eng, plan, hist, idle
vars == <<eng, plan, hist, idle>>

\* is the message of q for round r on the network, for p
Sent(q, r, p) ==
  IF q \in Honest THEN eng[q].rnd >= r
  ELSE /\ plan[q][r][p] # "-"
       \* a signature share depends on the commitments of everybody
       /\ (Conf.types[r] = 4 => \A h \in Honest : eng[h].rnd >= 1)
V(q, r, p) == IF q \in Honest THEN "a" ELSE plan[q][r][p]
Msg(q, r, p) == [type |-> Conf.types[r], from |-> q, to |-> IF Directed(r) THEN p ELSE 0, v |-> V(q, r, p)]

Init ==
  /\ eng = [p \in Honest |-> NewSession(p, Parties, Conf.types)]
  /\ plan \in [Byz -> [1..NR -> [Honest -> Conf.vars]]]
  /\ \A b \in Byz, r \in 1..NR : ~Directed(r) => \A p, q \in Honest : plan[b][r][p] = plan[b][r][q]
  /\ hist = <<>>
  /\ idle = Conf.idle

Note(a) == hist' = IF Conf.sched THEN Append(hist, a) ELSE hist

Deliver(p, r, q) ==
  /\ q # p /\ ~eng[p].done /\ r >= eng[p].rnd
  /\ <<r, q>> \notin DOMAIN eng[p].box
  /\ Sent(q, r, p)
  /\ eng' = [eng EXCEPT ![p] = Handle(@, Msg(q, r, p))]
  /\ Note(<<"H", p, q, r>>) /\ UNCHANGED <<plan, idle>>

Bad(p) == {m.from : m \in {x \in Inputs(eng[p]) : x.v = "x"}}
Process(p) ==
  /\ Ready(eng[p])
  /\ IF Bad(p) # {} THEN \E c \in Bad(p) : eng' = [eng EXCEPT ![p] = Abort(@, c)]
     ELSE eng' = [eng EXCEPT ![p] = Advance(@)]
  /\ Note(<<"P", p>>) /\ UNCHANGED <<plan, idle>>

Idle(p) ==
  /\ idle > 0 /\ ~Ready(eng[p]) /\ idle' = idle - 1
  /\ Note(<<"P", p>>) /\ UNCHANGED <<eng, plan>>

Expire(p) == Conf.timed /\ ~eng[p].done /\ eng' = [eng EXCEPT ![p] = Timeout(@)] /\ UNCHANGED <<plan, hist, idle>>

Move(p) == Process(p) \/ \E q \in Parties, r \in 1..NR : Deliver(p, r, q)
Next == \E p \in Honest : Move(p) \/ Idle(p) \/ Expire(p)
\* the network delivers everything eventually, processing is called again and again, timers fire
Spec == Init /\ [][Next]_vars /\ \A p \in Honest : WF_vars(Move(p)) /\ WF_vars(Expire(p))

-----------------------------------------------------------------------------
Success(p) == eng[p].done /\ eng[p].err = <<>>
Failed(p) == eng[p].done /\ eng[p].err # <<>>

TypeOK == \A p \in Honest :
  /\ eng[p].rnd \in 0..NR
  /\ DOMAIN eng[p].box \subseteq (1..NR) \X (Parties \ {p})
  /\ eng[p].err # <<>> => eng[p].done

\* C10: nobody is more than a round ahead of an honest party
Lockstep == \A p, q \in Honest : eng[p].rnd <= eng[q].rnd + 1
\* C10: whoever left a round had everything for it
Complete2 == \A p \in Honest : \A r \in 1..NR : (eng[p].rnd > r \/ Success(p)) =>
               \A q \in Parties \ {p} : <<r, q>> \in DOMAIN eng[p].box
\* C02, C05: nobody completes or goes on with a faulty contribution
NoBad == \A p \in Honest : \A x \in DOMAIN eng[p].box : (eng[p].rnd > x[1] \/ Success(p)) => eng[p].box[x].v = "a"
\* C14: an honest party is never blamed, and a blamed one did send something faulty to this party in this round
BlameOK == \A p \in Honest : Failed(p) => LET c == eng[p].err[1] IN
             /\ c \notin Honest
             /\ eng[p].err[2] = eng[p].rnd
             /\ (c # 0 => plan[c][eng[p].err[2]][p] = "x")
\* only timeouts blame nobody
Blameless == \A p \in Honest : (Failed(p) /\ eng[p].err[1] = 0) => Conf.timed
\* C01, C04: parties that complete have the same broadcasts
Agreement == \A p, q \in Honest : (Success(p) /\ Success(q)) =>
               \A r \in 1..NR : ~Directed(r) => \A s \in Byz : eng[p].box[<<r, s>>] = eng[q].box[<<r, s>>]
\* when nothing can move any more, everybody has ended, and how depends on the plan alone (C01, C04, C09):
\* the first round in which somebody sent p something faulty is where p fails
BadFor(p, r) == \E b \in Byz : plan[b][r][p] = "x"
Doomed(p) == \E r \in 1..NR : BadFor(p, r)
Quiet == \A p \in Honest : ~ENABLED Move(p)
Stuck(p) == \E b \in Byz, r \in 1..NR : plan[b][r][p] = "-"
Outcome == (Quiet /\ ~Conf.timed) => \A p \in Honest :
  /\ eng[p].done
  /\ Failed(p) <=> Doomed(p)
  /\ Failed(p) => LET r == eng[p].err[2] IN BadFor(p, r) /\ \A k \in 1..(r-1) : ~BadFor(p, k)
\* C01, C04: if everybody is honest, everybody completes
HonestComplete == (Quiet /\ Byz = {} /\ ~Conf.timed) => \A p \in Honest : Success(p)
\* C09, C12: every run ends
Ends == <>(\A p \in Honest : eng[p].done)
\* C11
Final == [][\A p \in Honest : eng[p].done => eng'[p] = eng[p]]_vars

-----------------------------------------------------------------------------
\* prints each maximal schedule
Over == \A p \in Honest : eng[p].done
Emit == Over' /\ ~Over => PrintT("SCHED " \o ToJson([types |-> Conf.types, honest |-> [p \in Parties |-> p \in Honest],
  plan |-> [p \in Parties |-> IF p \in Byz THEN [r \in 1..NR |-> [q \in Parties |-> IF q \in Honest THEN plan[p][r][q] ELSE "a"]] ELSE <<>>],
  acts |-> hist', n |-> Cardinality(Parties)]))
=============================================================================
