--------------------------------- MODULE Http ---------------------------------
(* The design of the HTTP layer.  A client writes fields into a query and a    *)
(* form, correctly; the library reads them (I.. operators, as it is built),    *)
(* endpoints take names out of the data of their request, requests are looked  *)
(* at again, the library adds parameters to URLs and reads credentials.        *)
(* HttpMonitor judges every event; Bug names a mutation of the design.         *)
EXTENDS HttpRules, TLC, Json

CONSTANTS MaxReq, MaxFields, MaxOps, Chars, TwoNames, Bug, Hist

VARIABLES st, reqs, bad, ops, hist
vars == <<st, reqs, bad, ops, hist>>
M == INSTANCE HttpMonitor WITH st <- st

Texts == {<<>>} \cup {<<c>> : c \in Chars}
NameSet == IF TwoNames THEN {<<"a">>, <<"&">>} ELSE {<<"a">>, <<"b">>}
FieldSet == [n: NameSet, v: Texts]
SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}

(* The client may leave "=" in a value as it is.                              *)
Loose(fs) == LET w == Write(fs) IN
  [i \in DOMAIN w |-> IF w[i].k = "esc" /\ w[i].c = "=" /\ \E j \in 1..(i - 1) : w[j].k = "eq" /\ \A m \in j..(i - 1) : w[m].k # "sep"
                      THEN [k |-> "eq", c |-> "="] ELSE w[i]]

(* ---- the library ---- *)
IDecode(w) == [i \in DOMAIN w |-> IF w[i].k = "plus" /\ Bug # "plusraw" THEN " " ELSE w[i].c]
LastEq(w) == LET S == {i \in DOMAIN w : w[i].k = "eq"} IN CHOOSE i \in S : \A j \in S : j <= i
IField(w) == LET i == IF Bug = "splitlast" /\ First(w, "eq") # 0 THEN LastEq(w) ELSE First(w, "eq") IN
  IF i = 0 THEN [n |-> IDecode(w), v |-> <<>>]
  ELSE [n |-> IDecode(SubSeq(w, 1, i - 1)), v |-> IDecode(SubSeq(w, i + 1, Len(w)))]
IFields(w) == LET p == Split(w, "sep") IN NonBlank([i \in DOMAIN p |-> IField(p[i])])
FirstOf(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].n = n /\ \A j \in DOMAIN fs : fs[j].n = n => i <= j].v
IData(fs) == {[n |-> n, v |-> IF Bug = "first" THEN FirstOf(fs, n) ELSE Last(fs, n)] : n \in Names(fs)}
IMerged(q, f) == IF Bug = "queryfirst" THEN IData(f \o q) ELSE {x \in IData(q) : x.n \notin Names(f)} \cup IData(f)
IEnc(c) == IF Bug # "noescape" THEN Enc(c)
           ELSE CASE c = "&" -> [k |-> "sep", c |-> c] [] c = "=" -> [k |-> "eq", c |-> c] [] c = "+" -> [k |-> "plus", c |-> c] [] OTHER -> Enc(c)
IWrite(fs) ==
  LET W[i \in 0..Len(fs)] ==
        IF i = 0 THEN <<>>
        ELSE LET t == [j \in DOMAIN fs[i].n |-> IEnc(fs[i].n[j])] \o <<[k |-> "eq", c |-> "="]>> \o [j \in DOMAIN fs[i].v |-> IEnc(fs[i].v[j])]
             IN IF i = 1 THEN t ELSE W[i - 1] \o Sep \o t
  IN W[Len(fs)]
IAddTo(u, fs) == [base |-> u.base, has |-> TRUE,
                  q |-> IF u.has THEN (IF Bug = "badsep" THEN u.q \o <<[k |-> "chr", c |-> "?"]>> \o IWrite(fs) ELSE u.q \o Sep \o IWrite(fs)) ELSE IWrite(fs)]
LastColon(t) == LET S == {i \in DOMAIN t : t[i] = ":"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
ICreds(t) == LET i == IF Bug = "lastcolon" THEN LastColon(t) ELSE Colon(t) IN
  IF i = 0 THEN NoCreds ELSE [ok |-> TRUE, id |-> SubSeq(t, 1, i - 1), secret |-> SubSeq(t, i + 1, Len(t))]

(* ---- events ---- *)
AsSeq(S) == LET n == Cardinality(S) IN IF n = 0 THEN <<>> ELSE CHOOSE f \in [1..n -> S] : {f[i] : i \in 1..n} = S
Seen(r) == [data |-> AsSeq(r.data), query |-> AsSeq(IData(r.q)), form |-> AsSeq(IData(r.f)), headers |-> <<>>,
            obs |-> [data |-> "", frag |-> "", query |-> "", form |-> "", path |-> "/", url |-> "u", method |-> "POST", user |-> "u"]]
Made(q, f, r) ==
  [op |-> "request", err |-> "", data |-> Seen(r).data, query |-> Seen(r).query, form |-> Seen(r).form, frag |-> <<>>, headers |-> <<>>, obs |-> Seen(r).obs,
   sent |-> [q |-> [wire |-> TRUE, w |-> Loose(q)], f |-> [wire |-> FALSE, f |-> f], g |-> [wire |-> FALSE, f |-> <<>>], path |-> "/", url |-> "u", method |-> "POST", user |-> "u", headers |-> <<>>]]
Again(i, r) == [op |-> "reread", r |-> i, data |-> Seen(r).data, query |-> Seen(r).query, form |-> Seen(r).form, frag |-> <<>>, headers |-> <<>>, obs |-> Seen(r).obs]

Init == st = M!World /\ reqs = <<>> /\ bad = {} /\ ops = 0 /\ hist = <<>>
Judged(e) == LET r == M!Step(e) IN st' = r.w /\ bad' = bad \cup r.v
Note(x) == hist' = IF Hist THEN hist \o <<x>> ELSE hist

Receive(q, f) ==
  /\ Len(reqs) < MaxReq
  /\ LET iq == IFields(Loose(q))
         if == IFields(Write(f))
         r == [q |-> iq, f |-> if, data |-> IMerged(iq, if), from |-> <<q, f>>]
         same == {i \in DOMAIN reqs : reqs[i].from = <<q, f>>}
         x == IF Bug = "shared" /\ same # {} THEN [r EXCEPT !.data = reqs[CHOOSE i \in same : TRUE].data] ELSE r
     IN /\ reqs' = reqs \o <<x>>
        /\ Judged(Made(q, f, x))
  /\ Note([op |-> "request", q |-> q, f |-> f])
  /\ ops' = ops + 1
Take(i, n) ==
  /\ n \in {x.n : x \in reqs[i].data}
  /\ reqs' = [j \in DOMAIN reqs |-> IF j = i \/ (Bug = "shared" /\ reqs[j].from = reqs[i].from)
                                    THEN [reqs[j] EXCEPT !.data = {x \in @ : x.n # n}] ELSE reqs[j]]
  /\ Judged([op |-> "take", r |-> i, n |-> n])
  /\ Note([op |-> "take", r |-> i, n |-> n])
  /\ ops' = ops + 1
Reread(i) ==
  /\ Judged(Again(i, reqs[i]))
  /\ Note([op |-> "reread", r |-> i])
  /\ ops' = ops + 1
  /\ UNCHANGED reqs
AddParams(has, q, fs) ==
  /\ LET o == IAddTo([base |-> "u", has |-> has, q |-> IF has THEN Write(q) ELSE <<>>], fs)
         e == [op |-> "add", err |-> "", base |-> "u", obase |-> o.base, q |-> IF has THEN q ELSE <<>>, new |-> fs, oq |-> AllFields(o.q), frag |-> "", ofrag |-> ""]
     IN Judged(e)
  /\ ops' = ops + 1
  /\ UNCHANGED <<reqs, hist>>
Authorize(t) ==
  /\ LET c == ICreds(t) IN Judged([op |-> "basic", form |-> "std", text |-> t, err |-> "", got |-> c])
  /\ ops' = ops + 1
  /\ UNCHANGED <<reqs, hist>>

Fs == SeqsUpTo(FieldSet, MaxFields)
Next == ops < MaxOps /\
  \/ \E q \in Fs, f \in Fs : Receive(q, f)
  \/ \E i \in DOMAIN reqs : Reread(i) \/ \E n \in NameSet : Take(i, n)
  \/ \E has \in BOOLEAN, q \in Fs, fs \in Fs : AddParams(has, q, fs)
  \/ \E t \in SeqsUpTo({"a", ":", "b"}, 4) : Authorize(t)
Spec == Init /\ [][Next]_vars
Sound == bad = {}
View == <<st, reqs, bad, ops>>

(* Every request shows the sum of what was sent, whatever happens to others.   *)
Independent == \A i \in DOMAIN reqs : ops > 0 => {x.n : x \in reqs[i].data} \cup st.reqs[i].taken = Names(st.reqs[i].q) \cup Names(st.reqs[i].f)

(* Histories for replay.                                                       *)
Pick(S) == RandomElement(S)
SimNext == ops < MaxOps /\
  \E c \in {Pick(1..4)} :
    IF reqs = <<>> \/ (c = 1 /\ Len(reqs) < MaxReq)
    THEN \E again \in {reqs # <<>> /\ Pick(1..2) = 1} :
           IF again THEN \E i \in {Pick(DOMAIN reqs)} : Receive(reqs[i].from[1], reqs[i].from[2])
           ELSE \E q \in {[i \in 1..Pick(0..MaxFields) |-> Pick(FieldSet)]}, f \in {[i \in 1..Pick(0..MaxFields) |-> Pick(FieldSet)]} : Receive(q, f)
    ELSE \E i \in {Pick(DOMAIN reqs)} :
           IF c = 2 /\ reqs[i].data # {} THEN \E x \in {Pick(reqs[i].data)} : Take(i, x.n) ELSE Reread(i)
SimSpec == Init /\ [][SimNext]_vars
Report == ~Hist \/ ops < MaxOps \/ PrintT("PLAN " \o ToJson([h |-> hist]))
=============================================================================
