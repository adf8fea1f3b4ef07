---------------------------- MODULE EngineGraph ----------------------------
(***************************************************************************)
(* The complete state graph of one party's round engine (Engine.tla) for a  *)
(* small configuration, with arbitrary hand-overs and processing calls.     *)
(* TLC checks the invariants below and writes every transition as a line of *)
(* JSON; the driver command "graph" replays the graph against real          *)
(* sessions (specification -> code).                                        *)
(*                                                                          *)
(* Message payloads are abstracted to variants: "a" and "b" are different   *)
(* valid payloads, "x" one that the round refuses.                          *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

\* message types on the wire: 1 KeyGen1, 2 KeyGen2 (directed), 3 Sign1, 4 Sign2; 0 is no type
Conf ==
  LET C(self, ps, ty, foreign, vars, gen) ==
        [self |-> self, parties |-> ps, types |-> ty, foreign |-> foreign, vars |-> vars, genfail |-> gen]
  IN CASE IOEnv.CONF = "keygen"  -> C(2, <<1, 2, 3>>, <<1, 2>>, {0, 3}, {"a", "b", "x"}, -1)
       [] IOEnv.CONF = "sign"    -> C(1, <<1, 256, 300>>, <<3, 4>>, {2}, {"a", "b", "x"}, -1)
       [] IOEnv.CONF = "two"     -> C(9, <<7, 9>>, <<2, 4>>, {0, 1, 3}, {"a", "b", "x"}, -1)
       [] IOEnv.CONF = "three"   -> C(65535, <<1, 65535>>, <<4, 2, 1>>, {3}, {"a", "x"}, -1)
       [] IOEnv.CONF = "four"    -> C(3, <<1, 2, 3, 4>>, <<4>>, {1}, {"a", "b", "x"}, -1)
       [] IOEnv.CONF = "fourtwo" -> C(4, <<1, 2, 3, 4>>, <<3, 4>>, {1}, {"a", "x"}, -1)
       [] IOEnv.CONF = "alone"   -> C(5, <<5>>, <<3, 4>>, {1}, {"a"}, -1)
       [] IOEnv.CONF = "gen0"    -> C(2, <<1, 2>>, <<1, 2>>, {3}, {"a", "x"}, 0)
       [] IOEnv.CONF = "gen1"    -> C(2, <<1, 2>>, <<1, 2>>, {3}, {"a", "x"}, 1)
       [] IOEnv.CONF = "gen2"    -> C(1, <<1, 2, 7>>, <<3, 4>>, {2}, {"a", "x"}, 2)

Parties == {Conf.parties[i] : i \in 1..Len(Conf.parties)}
Outsider == 77
Directed(ty) == ty = 2

VARIABLES st, lab
vars == <<st, lab>>
View == st

\* all messages anybody could hand over
Msg(ty, from, to, v) == [type |-> ty, from |-> from, to |-> to, v |-> v]
Kinds == {Conf.types[i] : i \in 1..Len(Conf.types)} \cup Conf.foreign
Tos(ty) == IF Directed(ty) THEN {Conf.self, CHOOSE p \in (Parties \cup {Outsider}) \ {Conf.self} : TRUE} ELSE {0}
Alphabet ==
  UNION {{Msg(ty, f, to, v) : f \in Parties \cup {Outsider}, to \in Tos(ty),
            v \in IF ty \in Conf.foreign THEN {"a"} ELSE Conf.vars} : ty \in Kinds}
Useful == {m \in Alphabet : (m.from \in {Conf.self, Outsider} => m.v = "a")}

Init ==
  /\ st = NewSession(Conf.self, Parties, Conf.types)
  /\ lab = [a |-> "init"]
  /\ PrintT("CONF " \o ToJson([self |-> Conf.self, parties |-> Conf.parties, types |-> Conf.types, genfail |-> Conf.genfail]))

Hand(m) ==
  /\ lab' = [a |-> "H", m |-> m, class |-> Classify(st, m)]
  /\ st' = Handle(st, m)

Consumed == {[from |-> m.from, v |-> m.v] : m \in Inputs(st)}
Bad == {m.from : m \in {x \in Inputs(st) : x.v = "x"}}
Proc ==
  IF ~Ready(st) THEN lab' = [a |-> "P", res |-> "idle"] /\ UNCHANGED st
  ELSE IF Bad # {} THEN
    \E c \in Bad : lab' = [a |-> "P", res |-> "abort", in |-> Consumed, who |-> c] /\ st' = Abort(st, c)
  ELSE IF Conf.genfail = st.rnd THEN
    lab' = [a |-> "P", res |-> "genfail", in |-> Consumed, who |-> 0] /\ st' = Abort(st, 0)
  ELSE
    lab' = [a |-> "P", res |-> "advance", in |-> Consumed, rnd |-> st.rnd] /\ st' = Advance(st)

Next == Proc \/ \E m \in Useful : Hand(m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Slots == [i \in 1..(Len(Conf.types) * Len(Conf.parties)) |->
            <<1 + ((i - 1) \div Len(Conf.parties)), Conf.parties[1 + ((i - 1) % Len(Conf.parties))]>>]
Key(s) == ToString(<<s.rnd, s.done, s.err, [i \in 1..Len(Slots) |-> IF Slots[i] \in DOMAIN s.box THEN s.box[Slots[i]].v ELSE "-"]>>)
Emit == PrintT("EDGE " \o ToJson([s |-> Key(st), l |-> lab', t |-> Key(st'), done |-> st'.done, err |-> st'.err, rnd |-> st'.rnd]))

(* properties of the engine *)
TypeOK ==
  /\ st.rnd \in 0..Rounds(st)
  /\ DOMAIN st.box \subseteq (1..Rounds(st)) \X Others(st)
  /\ st.err # <<>> => st.done
  /\ \A x \in DOMAIN st.box : st.box[x].from = x[2] /\ st.types[x[1]] = st.box[x].type
\* C10: past rounds were complete
PastComplete == \A r \in 1..(st.rnd - 1) : \A p \in Others(st) : <<r, p>> \in DOMAIN st.box
\* C11: the end is final
Final == [][st.done => st' = st]_vars
\* C08: an accepted message is never replaced
Keep == [][\A x \in DOMAIN st.box : x \in DOMAIN st'.box /\ st'.box[x] = st.box[x]]_vars
\* C10: rounds advance by one and only by processing when complete
OneRound == [][st'.rnd # st.rnd => st'.rnd = st.rnd + 1 /\ Complete(st) /\ lab'.a = "P"]_vars
\* C14: only a sender of a bad payload of the current round is blamed
Blame == [][(~st.done /\ st'.done /\ st'.err # <<>>) =>
             (st'.err[2] = st.rnd /\ (st'.err[1] # 0 => st.box[<<st.rnd, st'.err[1]>>].v = "x"))]_vars
\* C09: whatever was accepted in the current round or later is still to be used
NotLost == [][(lab'.a = "P" /\ lab'.res # "idle") => \A m \in Inputs(st) : [from |-> m.from, v |-> m.v] \in lab'.in]_vars
=============================================================================
