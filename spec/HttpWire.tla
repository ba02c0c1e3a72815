------------------------------- MODULE HttpWire -------------------------------
(* Every text of a query up to a length, as symbols; reading what was written  *)
(* gives what was meant (Laws), and the texts are replayed into the library.   *)
EXTENDS HttpRules, TLC, Json

CONSTANTS MaxLen, Show

Symbols == {[k |-> "sep", c |-> "&"], [k |-> "eq", c |-> "="], [k |-> "plus", c |-> "+"], [k |-> "chr", c |-> "a"], [k |-> "chr", c |-> "b"],
            [k |-> "esc", c |-> "&"], [k |-> "esc", c |-> "="], [k |-> "esc", c |-> "+"]}
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E x \in Symbols : w' = w \o <<x>>
Spec == Init /\ [][Next]_w

Laws ==
  /\ Fields(Write(Fields(w))) = Fields(w)                     \* writing and reading again
  /\ AllFields(Write(AllFields(w))) = AllFields(w)
  /\ \A i \in 0..Len(w) : Data(Fields(SubSeq(w, 1, i) \o Sep \o SubSeq(w, i + 1, Len(w)))) = Merged(Fields(SubSeq(w, 1, i)), Fields(SubSeq(w, i + 1, Len(w))))
  /\ \A has \in BOOLEAN : AllFields(AddTo([base |-> "", has |-> has, q |-> w], AllFields(w)).q) = (IF has THEN AllFields(w) ELSE <<>>) \o AllFields(w)
Report == ~Show \/ w = <<>> \/ PrintT("WIRE " \o ToJson([w |-> w]))
=============================================================================
