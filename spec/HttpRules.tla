------------------------------- MODULE HttpRules -------------------------------
(* The text of HTTP messages as sequences of symbols: how parameters are       *)
(* written into a query or a form, how they are read back, how parameters are  *)
(* added to a URL, and what an Authorization header says.                      *)
(*                                                                             *)
(* A symbol of the wire is [k, c]: k is its kind ("sep" for "&", "eq" for "=", *)
(* "plus" for "+", "chr" for a character standing for itself, "esc" for a      *)
(* percent-encoded one) and c the character it stands for.  Names and values   *)
(* are sequences of characters.                                                *)
EXTENDS Naturals, Sequences, FiniteSets

First(w, k) == LET S == {i \in DOMAIN w : w[i].k = k} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE Split(_, _)
Split(w, k) == LET i == First(w, k) IN
  IF i = 0 THEN <<w>> ELSE <<SubSeq(w, 1, i - 1)>> \o Split(SubSeq(w, i + 1, Len(w)), k)

Decode(w) == [i \in DOMAIN w |-> IF w[i].k = "plus" THEN " " ELSE w[i].c]

(* One field: a name and a value, split at the first "=".                      *)
Field(w) == LET i == First(w, "eq") IN
  IF i = 0 THEN [n |-> Decode(w), v |-> <<>>]
  ELSE [n |-> Decode(SubSeq(w, 1, i - 1)), v |-> Decode(SubSeq(w, i + 1, Len(w)))]

NonBlank(fs) == SelectSeq(fs, LAMBDA f : f.v # <<>>)
AllFields(w) == IF w = <<>> THEN <<>> ELSE LET p == Split(w, "sep") IN SelectSeq([i \in DOMAIN p |-> Field(p[i])], LAMBDA f : f # [n |-> <<>>, v |-> <<>>])
Fields(w) == LET p == Split(w, "sep") IN NonBlank([i \in DOMAIN p |-> Field(p[i])])

(* The value of a name is its last one; the form goes before the query.        *)
Names(fs) == {fs[i].n : i \in DOMAIN fs}
Last(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].n = n /\ \A j \in DOMAIN fs : fs[j].n = n => j <= i].v
Data(fs) == {[n |-> n, v |-> Last(fs, n)] : n \in Names(fs)}
Merged(q, f) == Data(NonBlank(q) \o NonBlank(f))

(* Writing.                                                                    *)
Plain == {"a", "b", "c", "0", "-", ".", "_", "~"}
Enc(c) == IF c = " " THEN [k |-> "plus", c |-> "+"] ELSE IF c \in Plain THEN [k |-> "chr", c |-> c] ELSE [k |-> "esc", c |-> c]
EncText(t) == [i \in DOMAIN t |-> Enc(t[i])]
EncField(f) == EncText(f.n) \o <<[k |-> "eq", c |-> "="]>> \o EncText(f.v)
Sep == <<[k |-> "sep", c |-> "&"]>>
RECURSIVE Write(_)
Write(fs) == IF fs = <<>> THEN <<>> ELSE IF Len(fs) = 1 THEN EncField(fs[1]) ELSE EncField(fs[1]) \o Sep \o Write(Tail(fs))

(* A URL: what goes before the query, and the query ("none" or its text).      *)
AddTo(u, fs) == [base |-> u.base, has |-> TRUE,
                 q |-> IF u.has THEN u.q \o Sep \o Write(fs) ELSE Write(fs)]

(* What an Authorization header gives: credentials, or nothing.                *)
(* text is the decoded text of a Basic payload as characters.                  *)
Colon(t) == LET S == {i \in DOMAIN t : t[i] = ":"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
NoCreds == [ok |-> FALSE, id |-> <<>>, secret |-> <<>>]
Creds(t) == LET i == Colon(t) IN IF i = 0 THEN NoCreds ELSE [ok |-> TRUE, id |-> SubSeq(t, 1, i - 1), secret |-> SubSeq(t, i + 1, Len(t))]
=============================================================================
