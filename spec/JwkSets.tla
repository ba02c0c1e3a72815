-------------------------------- MODULE JwkSets -------------------------------
(* Lists of keys to build key sets of, with the verdict JwkRules gives; the   *)
(* harness makes the keys.  The design: a set is built by checking each key   *)
(* against those before it; Bug names a flaw.                                 *)
EXTENDS JwkRules, TLC, Json

CONSTANTS MaxKeys, Ids, Kinds, Bug

VARIABLES ids, kinds
vars == <<ids, kinds>>

Init == ids = <<>> /\ kinds = <<>>
Next == Len(ids) < MaxKeys /\ \E i \in Ids, k \in Kinds : ids' = Append(ids, i) /\ kinds' = Append(kinds, k)
Spec == Init /\ [][Next]_vars
(* Large sets, drawn at random: one id may be repeated, as the very last.     *)
Grow == /\ Len(ids) < MaxKeys
        /\ \E i \in {RandomElement(IF Len(ids) = MaxKeys - 1 THEN Ids ELSE Ids \ Range(ids))}, k \in {RandomElement(Kinds)} :
              ids' = Append(ids, i) /\ kinds' = Append(kinds, k)
GrowSpec == Init /\ [][Grow]_vars

Forms == [i \in DOMAIN ids |-> Form("obj", "RSA", "m" \o ToString(i), TRUE, IF ids[i] = "" THEN {} ELSE {<<"kid", ids[i]>>})]
(* The design.                                                                *)
Accepts ==
  /\ Len(ids) > 0
  /\ (Bug = "noid" \/ \A i \in DOMAIN ids : ids[i] # "")
  /\ CASE Bug = "adjacent" -> \A i \in 1..(Len(ids) - 1) : ids[i] # ids[i + 1]
       [] OTHER -> Cardinality(Range(ids)) = Len(ids)
Finds(kid) == CASE Bug = "last" -> Len(ids)
                [] OTHER -> IF \E i \in DOMAIN ids : ids[i] = kid THEN CHOOSE i \in DOMAIN ids : ids[i] = kid /\ \A j \in 1..(i - 1) : ids[j] # kid ELSE 0
Sound == /\ Accepts <=> Buildable(Forms)
         /\ Buildable(Forms) => \A kid \in Ids \ {""} : Finds(kid) = Lookup(Forms, kid)
Report == PrintT("SET " \o ToJson([ids |-> ids, kinds |-> kinds, ok |-> Buildable(Forms)]))
GrowReport == Len(ids) = MaxKeys => Report
=============================================================================
