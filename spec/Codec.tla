--------------------------------- MODULE Codec ---------------------------------
(* Every octet string over Octets up to MaxLen, as octets, number and text     *)
(* (code points): decoding gives back what was encoded (Laws).  The strings    *)
(* are replayed into the library.  Bug names a mutation of the encoder, which  *)
(* the laws or the monitor reject.                                             *)
EXTENDS CodecRules, TLC, Json, FiniteSets

CONSTANTS MaxLen, Octets, Show, Bug

VARIABLES w, st
M == INSTANCE CodecMonitor WITH st <- st
Init == w = <<>> /\ st = M!World
Next == Len(w) < MaxLen /\ \E x \in Octets : w' = w \o <<x>> /\ UNCHANGED st
Spec == Init /\ [][Next]_<<w, st>>

IEnc(b) ==
  CASE Bug = "" -> Enc(b)
    [] Bug = "padded" -> Enc(b) \o (CASE Len(b) % 3 = 1 -> <<61, 61>> [] Len(b) % 3 = 2 -> <<61>> [] OTHER -> <<>>)
    [] Bug = "standard" -> [i \in DOMAIN Enc(b) |-> IF Enc(b)[i] = 45 THEN 43 ELSE IF Enc(b)[i] = 95 THEN 47 ELSE Enc(b)[i]]
    [] Bug = "strip" -> Enc(Strip(b))
    [] Bug = "short" -> IF Len(b) = 0 THEN <<>> ELSE Enc(SubSeq(b, 1, Len(b) - 1))
    [] Bug = "nozero" -> Enc(b)
INum(d) == IF Bug = "nozero" /\ d = <<>> THEN <<>> ELSE IF d = <<>> THEN IEnc(<<0>>) ELSE IEnc(d)

(* Code points out of octets, all over the planes.                             *)
Points(b) == [i \in DOMAIN b |-> CASE b[i] < 128 -> b[i] [] b[i] < 160 -> b[i] * 13 [] b[i] < 224 -> b[i] * 240 [] OTHER -> 65536 + b[i] * 3000]

Laws ==
  /\ Dec(Enc(w)) = w
  /\ IsText(Enc(w))
  /\ DecNum(EncNum(Strip(w), 0)) = Strip(w)
  /\ \A s \in Len(w)..Len(w) + 2 : s > 0 => DecNum(EncNum(Strip(w), s)) = Strip(w) /\ Len(Dec(EncNum(Strip(w), s))) = s
  /\ Len(Utf8(Points(w))) \in Len(w)..4 * Len(w)
Sound == /\ M!Step([op |-> "enc", b |-> w, t |-> IEnc(w), err |-> ""]).v = {}
         /\ M!Step([op |-> "num", d |-> Strip(w), size |-> 0, t |-> INum(Strip(w)), err |-> ""]).v = {}
         /\ M!Step([op |-> "dec", t |-> Enc(w), b |-> w, err |-> ""]).v = {}
         /\ M!Step([op |-> "bytes", t |-> Points(w), b |-> Utf8(Points(w)), err |-> ""]).v = {}
Report == ~Show \/ PrintT("PLAN " \o ToJson([b |-> w]))
=============================================================================
