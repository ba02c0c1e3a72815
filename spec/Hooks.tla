--------------------------------- MODULE Hooks ---------------------------------
(* The design of hooks: every grant of every provider has its own registry of  *)
(* hook instances, made with the provider's adapter; requests run step by      *)
(* step and interleave; hooks return marks, nothing, or raise an OAuth error.  *)
(* Bug names a mutation of the design; HooksMonitor judges every event.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxProv, MaxAdd, MaxReq, MaxConc, Bug, Hist, Flows, Classes, HookNames,
          Grants,      \* which sets of grants providers have
          Phases       \* whether everything is set up before the first request

VARIABLES st, provs, reg, fl, nreq, cur, mark, bad, hist
vars == <<st, provs, reg, fl, nreq, cur, mark, bad, hist>>
M == INSTANCE HooksMonitor WITH st <- st

GrantSets == {CASE x = "c" -> <<"code">> [] x = "cs" -> <<"code", "sub">> [] x = "sr" -> <<"sub", "refresh">> [] x = "cr" -> <<"code", "refresh">> : x \in Grants}
Hooks == [a |-> {"authorization_request", "token_response"}, b |-> {"authorization_response", "token_request", "token_response"}, x |-> {"token_request"}]
Raises(h, cp) == h = "x"
AsSeq(S) == CHOOSE f \in [1..Cardinality(S) -> S] : {f[i] : i \in DOMAIN f} = S

(* The registry: for each grant of each provider a sequence of [h, owner].     *)
Init == st = M!World /\ provs = <<>> /\ reg = <<>> /\ fl = <<>> /\ nreq = 0 /\ cur = "" /\ mark = 0 /\ bad = {} /\ hist = <<>>

Judged(e) == LET r == M!Step(e) IN st' = r.w /\ bad' = bad \cup r.v
Note(x) == hist' = IF Hist THEN hist \o <<x>> ELSE hist

SetOf(x) == {x[i] : i \in DOMAIN x}
Create(gs) ==
  /\ Len(provs) < MaxProv /\ (Phases => nreq = 0)
  /\ provs' = provs \o <<gs>>
  /\ reg' = reg \o <<[g \in SetOf(gs) |->
        LET prev == {i \in DOMAIN provs : g \in SetOf(provs[i])} IN
        IF Bug \in {"shared", "byclass"} /\ prev # {} THEN reg[CHOOSE i \in prev : TRUE][g] ELSE <<>>]>>
  /\ Judged([op |-> "provider", p |-> ToString(Len(provs) + 1), grants |-> gs])
  /\ Note([op |-> "provider", grants |-> gs])
  /\ UNCHANGED <<fl, nreq, cur, mark>>

ICovers(cls, g) == IF Bug = "exact" THEN cls = g \/ cls = "base" ELSE M!Covers(cls, g)
Entry(h, p) == [h |-> h, owner |-> IF Bug = "owner" THEN "1" ELSE p]
Add(p, cls, h) ==
  /\ Len(st.regs) < MaxAdd /\ (Phases => nreq = 0)
  /\ LET hit == {g \in SetOf(provs[p]) : ICovers(cls, g)} IN
     reg' = [i \in DOMAIN reg |-> [g \in DOMAIN reg[i] |->
        IF \/ i = p /\ g \in hit
           \/ Bug = "shared" /\ hit # {}
           \/ Bug = "byclass" /\ g \in hit
        THEN (IF Bug = "dedupe" /\ \E k \in DOMAIN reg[i][g] : reg[i][g][k].h = h THEN reg[i][g] ELSE reg[i][g] \o <<Entry(h, ToString(p))>>)
        ELSE reg[i][g]]]
  /\ Judged([op |-> "add", p |-> ToString(p), cls |-> cls, h |-> h, cps |-> AsSeq(Hooks[h]), err |-> ""])
  /\ Note([op |-> "add", p |-> p, cls |-> cls, h |-> h])
  /\ UNCHANGED <<provs, fl, nreq, cur, mark>>

(* A request in flight: what it still has to do, in order, and its marks.      *)
Cps(flow) == IF flow = "authorize" THEN <<"authorization_request", "authorization_response">> ELSE <<"token_request", "token_response">>
Start(p, g, flow) ==
  /\ nreq < MaxReq /\ Cardinality({i \in DOMAIN fl : ~fl[i].done}) < MaxConc
  /\ g \in SetOf(provs[p])
  /\ flow = "authorize" => g \in {"code", "sub"}
  /\ nreq' = nreq + 1
  /\ fl' = fl \o <<[p |-> p, g |-> g, flow |-> flow, cp |-> 1, k |-> 0, d1 |-> {}, d2 |-> {}, err |-> "", done |-> FALSE]>>
  /\ cur' = <<p, g>>
  /\ Judged([op |-> "start", p |-> ToString(p), g |-> g, flow |-> flow, valid |-> TRUE])
  /\ Note([op |-> "request", p |-> p, g |-> g, flow |-> flow, par |-> \E i \in DOMAIN fl : ~fl[i].done])
  /\ UNCHANGED <<provs, reg, mark>>

Mine(q) == IF ~M!Hooked(q.g) THEN <<>> ELSE IF Bug = "current" THEN reg[cur[1]][cur[2]] ELSE reg[q.p][q.g]
(* The next hook of the checkpoint, or the step to the next checkpoint.        *)
Todo(q) == SelectSeq(Mine(q), LAMBDA x : Cps(q.flow)[q.cp] \in Hooks[x.h])
Step(i) ==
  /\ ~fl[i].done /\ fl[i].cp <= 2 /\ fl[i].err = ""
  /\ LET q == fl[i]
         todo == Todo(q)
     IN IF q.k < Len(todo) /\ ~(Bug = "firstonly" /\ q.k = 1)
        THEN LET x == todo[q.k + 1]
                 cp == Cps(q.flow)[q.cp]
                 err == IF Raises(x.h, cp) THEN "e" ELSE ""
                 m == ToString(i) \o "." \o ToString(q.cp) \o "." \o ToString(q.k)
                 e == [op |-> "run", r |-> i, h |-> x.h, cp |-> cp, p |-> x.owner, cfg |-> x.owner, ret |-> IF err = "" THEN <<m>> ELSE <<>>, err |-> err, args |-> TRUE,
                       data |-> IF q.cp = 2 /\ q.d1 # {} THEN AsSeq(q.d1) ELSE <<>>]
             IN /\ mark' = mark
                /\ fl' = [fl EXCEPT ![i].k = @ + 1,
                                    ![i].err = IF Bug = "swallow" THEN "" ELSE err,
                                    ![i].d1 = IF q.cp = 1 /\ err = "" THEN (IF Bug = "overwrite" THEN {m} ELSE @ \cup {m}) ELSE @,
                                    ![i].d2 = IF q.cp = 2 /\ err = "" THEN (IF Bug = "overwrite" THEN {m} ELSE @ \cup {m}) ELSE @]
                /\ Judged(e)
        ELSE /\ fl' = [fl EXCEPT ![i].cp = @ + 1, ![i].k = 0]
             /\ mark' = mark
             /\ IF q.cp = 1 /\ q.flow = "authorize" THEN Judged([op |-> "saved", r |-> i, marks |-> IF q.d1 = {} THEN <<>> ELSE AsSeq(q.d1)]) ELSE UNCHANGED <<st, bad>>
  /\ UNCHANGED <<provs, reg, nreq, cur, hist>>
Finish(i) ==
  /\ ~fl[i].done /\ (fl[i].cp > 2 \/ fl[i].err # "")
  /\ fl' = [fl EXCEPT ![i].done = TRUE]
  /\ Judged([op |-> "end", r |-> i, ok |-> fl[i].err = "", err |-> fl[i].err, idt |-> "?", marks |-> IF fl[i].d2 = {} THEN <<>> ELSE AsSeq(fl[i].d2)])
  /\ UNCHANGED <<provs, reg, nreq, cur, mark, hist>>

Next == \/ \E gs \in GrantSets : Create(gs)
        \/ \E p \in DOMAIN provs, cls \in Classes, h \in HookNames : Add(p, cls, h)
        \/ \E p \in DOMAIN provs, g \in {"code", "sub", "refresh"}, flow \in Flows : Start(p, g, flow)
        \/ \E i \in DOMAIN fl : Step(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars
Sound == bad = {}
View == <<st, provs, reg, fl, nreq, cur, bad>>
(* Every request that was begun can be ended.                                  *)
Ends == \A i \in DOMAIN fl : fl[i].done \/ ENABLED Step(i) \/ ENABLED Finish(i)

(* Histories for replay: the harness names its own hooks.                      *)
Pick(S) == RandomElement(S)
SimHooks == {"a", "b", "c", "x", "y", "i", "oidc"}
SimNext ==
  /\ nreq < MaxReq
  /\ \E c \in {Pick(1..7)} :
     IF provs = <<>> \/ (c = 1 /\ Len(provs) < MaxProv)
     THEN \E gs \in {Pick({<<"code">>, <<"code", "sub">>, <<"sub", "code">>, <<"sub", "refresh", "cc">>, <<"refresh", "code", "cc">>, <<"cc", "refresh", "sub", "code">>})} :
            /\ provs' = provs \o <<gs>>
            /\ Note([op |-> "provider", grants |-> gs])
            /\ UNCHANGED <<nreq, mark>>
     ELSE \E p \in {Pick(DOMAIN provs)} :
       IF c <= 4 /\ mark < MaxAdd
       THEN \E cls \in {Pick({"base", "code", "code", "code", "sub", "refresh", "cc"})}, hk \in {Pick(SimHooks)} :
              /\ Note([op |-> "add", p |-> p, cls |-> cls, h |-> hk])
              /\ mark' = mark + 1
              /\ UNCHANGED <<nreq, provs>>
       ELSE \E g \in {Pick(SetOf(provs[p]))}, flow \in {Pick(Flows)}, par \in {Pick(BOOLEAN)} :
              /\ Note([op |-> "request", p |-> p, g |-> g, flow |-> IF g \in {"code", "sub"} THEN flow ELSE "token", par |-> par])
              /\ nreq' = nreq + 1
              /\ UNCHANGED <<mark, provs>>
  /\ UNCHANGED <<st, reg, fl, cur, bad>>
SimSpec == Init /\ [][SimNext]_vars
Report == ~Hist \/ nreq < MaxReq \/ PrintT("PLAN " \o ToJson([h |-> hist]))
=============================================================================
