------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* One party's round engine, as operators on its state.  The engine knows   *)
(* nothing of the payloads: it decides which messages are accepted, when    *)
(* the session may advance, and how it ends.                                *)
(*                                                                          *)
(* State of a session:                                                      *)
(*   self, parties (set), types (sequence: message type awaited in round 1, *)
(*   2, ...; round 0 awaits nothing), rnd, box (accepted messages, a        *)
(*   function of <<round, sender>>), done, err (<<>> or <<culprit, round>>) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewSession(self, parties, types) ==
  [self |-> self, parties |-> parties, types |-> types, rnd |-> 0,
   box |-> [x \in {} |-> {}], done |-> FALSE, err |-> <<>>]

Others(st) == st.parties \ {st.self}
Rounds(st) == Len(st.types)

\* the round that consumes messages of type ty, or 0
RoundOf(st, ty) ==
  LET R == {r \in 1..Len(st.types) : st.types[r] = ty}
  IN IF R = {} THEN 0 ELSE CHOOSE r \in R : TRUE

\* What HandleMessage does with message m (a record with type, from, to)
Classify(st, m) ==
  IF st.done THEN "ended"
  ELSE IF m.from = st.self THEN "ignored"
  ELSE IF m.to # 0 /\ m.to # st.self THEN "ignored"
  ELSE IF m.from \notin st.parties THEN "foreign"
  ELSE IF RoundOf(st, m.type) = 0 \/ RoundOf(st, m.type) < st.rnd THEN "type"
  ELSE IF <<RoundOf(st, m.type), m.from>> \in DOMAIN st.box THEN "duplicate"
  ELSE "accepted"

Rejected(class) == class \in {"ended", "foreign", "type", "duplicate"}

Accept(st, m) == [st EXCEPT !.box = (<<RoundOf(st, m.type), m.from>> :> m) @@ @]
Handle(st, m) == IF Classify(st, m) = "accepted" THEN Accept(st, m) ELSE st

\* all messages of the current round are here
Complete(st) == st.rnd = 0 \/ \A p \in Others(st) : <<st.rnd, p>> \in DOMAIN st.box
Ready(st) == ~st.done /\ Complete(st)

\* messages consumed by the current round
Inputs(st) == IF st.rnd = 0 THEN {} ELSE {st.box[<<st.rnd, p>>] : p \in Others(st)}

Last(st) == st.rnd = Rounds(st)
Advance(st) == IF Last(st) THEN [st EXCEPT !.done = TRUE] ELSE [st EXCEPT !.rnd = @ + 1]
Abort(st, culprit) == [st EXCEPT !.done = TRUE, !.err = <<culprit, st.rnd>>]
Timeout(st) == IF st.done THEN st ELSE Abort(st, 0)
=============================================================================
