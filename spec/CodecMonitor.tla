----------------------------- MODULE CodecMonitor -----------------------------
(* What is to hold of the encodings (property C28).  Every event is one call:  *)
(*   enc, dec     base64url of octets and back                                 *)
(*   num, unnum   base64url of a number (with a size, 0 for none) and back     *)
(*   bytes, text  UTF-8 of text and back                                       *)
(*   json         a document written and read; same: it is what it was, and    *)
(*                what another reader makes of it                              *)
(*   unjson       a document written elsewhere is read                         *)
(*   new, put     a dictionary without null values is made of entries [k, v],  *)
(*                and given another one; v = "" stands for null; got is its    *)
(*                content and src that of what it was made of, afterwards      *)
(*   secret       a random token of a size                                     *)
EXTENDS CodecRules, FiniteSets, TLC

VARIABLE st
World == [dicts |-> <<>>, secrets |-> {}]

If(c, t) == IF c THEN {} ELSE {<<"C28", t>>}
Fine(e) == If(e.err = "", e.op \o " raised")

Entries(es) == {[k |-> es[i].k, v |-> es[i].v] : i \in {j \in DOMAIN es : es[j].v # "" /\ \A m \in DOMAIN es : m > j => es[m].k # es[j].k}}
AsSet(es) == {es[i] : i \in DOMAIN es}

(* A stretch of 16 characters of a random token occurs nowhere else.           *)
Stretches(t) == {SubSeq(t, i, i + 15) : i \in 1..(Len(t) - 15)}

Alphabet(c) == Value(c) < 64

Step(e) ==
  CASE e.op = "enc" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.t = Enc(e.b), "base64url of octets")]
    [] e.op = "dec" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.b = Dec(e.t), "octets of base64url")]
    [] e.op = "num" -> IF e.size # 0 /\ e.size < Len(e.d) THEN [w |-> st, v |-> If(e.err # "", "a number too large for its size is refused")]
                       ELSE [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.t = EncNum(e.d, e.size), "base64url of a number")]
    [] e.op = "unnum" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.d = DecNum(e.t), "number of base64url")]
    [] e.op = "bytes" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.b = Utf8(e.t), "octets of text")]
    [] e.op = "text" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.b = Utf8(e.t), "text of octets")]
    [] e.op = "json" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.same, "a document comes back as it was")]
    [] e.op = "unjson" -> [w |-> st, v |-> Fine(e) \cup If(e.err # "" \/ e.same, "a document is read as it was written")]
    [] e.op = "new" -> [w |-> [st EXCEPT !.dicts = @ \o <<Entries(e.es)>>],
                        v |-> Fine(e) \cup If(e.err # "" \/ AsSet(e.got) = Entries(e.es), "a full dictionary has the entries that are not null")
                                      \cup If(e.err # "" \/ e.src, "making a dictionary leaves its source alone")]
    [] e.op = "put" -> LET old == st.dicts[e.n]
                           new == IF e.v = "" THEN old ELSE {x \in old : x.k # e.k} \cup {[k |-> e.k, v |-> e.v]}
                       IN [w |-> [st EXCEPT !.dicts[e.n] = new],
                           v |-> Fine(e) \cup If(e.err # "" \/ AsSet(e.got) = new, "a null value is not put into a dictionary, any other is")
                                         \cup If(e.err # "" \/ e.src, "putting leaves other dictionaries alone")]
    [] e.op = "secret" -> [w |-> [st EXCEPT !.secrets = @ \cup Stretches(e.t)],
                           v |-> Fine(e) \cup If(e.err # "" \/ (Len(e.t) = e.size /\ \A i \in DOMAIN e.t : Alphabet(e.t[i])), "a token has its size, of letters, digits, - and _")
                                         \cup If(e.err # "" \/ Len(e.t) < 16 \/ (/\ Stretches(e.t) \cap st.secrets = {}
                                                                                       /\ Cardinality(Stretches(e.t)) = Len(e.t) - 15), "tokens do not repeat")]
    [] OTHER -> [w |-> st, v |-> {<<"harness", "unknown event">>}]
=============================================================================
