-------------------------------- MODULE Dispatch --------------------------------
(* The design of dispatch: a provider finds the grant of a request among its   *)
(* own grants by the type asked for, authenticates the client in a way the     *)
(* grant accepts, checks that the client is registered for the type and calls  *)
(* the grant; what this returns or raises is the answer.  Requests interleave. *)
(* Bug names a mutation of the design; DispatchMonitor judges every event.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxProv, MaxReq, MaxConc, Bug, Hist,
          Flows, Hows, Types,
          GrantLists,  \* names of the sequences of grants
          Clients      \* names of the registrations of client A

VARIABLES st, ca, provs, fl, cur, bad, hist
vars == <<st, ca, provs, fl, cur, bad, hist>>
M == INSTANCE DispatchMonitor WITH st <- st

G(n, gt, rt, ms) == [n |-> n, gt |-> gt, rt |-> rt, methods |-> ms]
GrantList(x) ==
  CASE x = "one" -> <<G("g1", "t1", "", <<>>)>>
    [] x = "secret" -> <<G("g1", "t1", "r1", <<"client_secret_basic", "client_secret_post">>)>>
    [] x = "public" -> <<G("g1", "t1", "r1", <<"none">>)>>
    [] x = "custom" -> <<G("g1", "t1", "", <<"custom">>)>>
    [] x = "pair" -> <<G("g1", "t1", "r1", <<"client_secret_basic">>), G("g2", "t2", "r2", <<"none", "custom">>)>>
    [] x = "riap" -> <<G("g2", "t2", "r2", <<>>), G("g1", "t1", "r1", <<"client_secret_post">>)>>
    [] x = "near" -> <<G("g3", "t1'", "r1'", <<>>), G("g1", "t1", "r1", <<"client_secret_basic", "custom">>)>>
    [] x = "split" -> <<G("g4", "", "r1", <<>>), G("g5", "t1", "", <<>>), G("g2", "t2", "r2", <<"client_secret_post">>)>>
    [] x = "many" -> <<G("g2", "t2", "r2", <<"none">>), G("g3", "t1'", "r1'", <<"client_secret_basic">>), G("g1", "t1", "", <<"custom", "client_secret_post">>), G("g4", "", "r1", <<>>)>>
    [] x = "none" -> <<>>
(* Client A; B is another one, with every grant.                               *)
Reg(x) == CASE x = "all" -> [g |-> <<"t1", "t2", "t1'">>, r |-> <<"r1", "r2", "r1'">>]
            [] x = "t1" -> [g |-> <<"t1">>, r |-> <<"r2">>]
            [] x = "t2" -> [g |-> <<"t2">>, r |-> <<"r1">>]
            [] x = "near" -> [g |-> <<"t1'">>, r |-> <<"r1'">>]
            [] x = "none" -> [g |-> <<>>, r |-> <<>>]
ClientA(m, x) == [id |-> "A", secret |-> IF m = "none" THEN "" ELSE "sa", hassecret |-> m # "none", method |-> m,
                  grants |-> Reg(x).g, rtypes |-> Reg(x).r, redirs |-> <<"ua">>]
ClientB == [id |-> "B", secret |-> "sb", hassecret |-> TRUE, method |-> "client_secret_basic", grants |-> <<"t1", "t2", "t1'">>, rtypes |-> <<"r1", "r2", "r1'">>, redirs |-> <<"ub">>]
Methods == {"client_secret_basic", "client_secret_post", "none", "custom"}

Cred(how) ==
  CASE how \in Methods -> [how |-> how, id |-> "A", secret |-> IF how = "none" THEN "" ELSE "sa"]
    [] how = "wrongb" -> [how |-> "client_secret_basic", id |-> "A", secret |-> "sx"]
    [] how = "wrongp" -> [how |-> "client_secret_post", id |-> "A", secret |-> "sx"]
    [] how = "wrongc" -> [how |-> "custom", id |-> "A", secret |-> "sx"]
    [] how = "unknown" -> [how |-> "client_secret_basic", id |-> "Z", secret |-> "sa"]
    [] how = "B" -> [how |-> "client_secret_basic", id |-> "B", secret |-> "sb"]
    [] how = "nothing" -> [how |-> "nothing", id |-> "", secret |-> ""]

Init == /\ \E m \in Methods, x \in Clients : ca = <<m, x>>
        /\ st = [M!World EXCEPT !.clients = <<ClientA(ca[1], ca[2]), ClientB>>]
        /\ provs = <<>> /\ fl = <<>> /\ cur = "" /\ bad = {} /\ hist = <<>>

Judged(e) == LET r == M!Step(e) IN st' = r.w /\ bad' = bad \cup r.v
Note(x) == hist' = IF Hist THEN hist \o <<x>> ELSE hist

Create(x) ==
  /\ Len(provs) < MaxProv /\ fl = <<>>
  /\ provs' = provs \o <<GrantList(x)>>
  /\ Judged([op |-> "provider", grants |-> GrantList(x), err |-> ""])
  /\ Note([op |-> "provider", list |-> x, grants |-> GrantList(x)])
  /\ UNCHANGED <<ca, fl, cur>>

Browser(flow) == flow \in {"authorize", "consent"}
Start(p, flow, type, how) ==
  /\ Len(fl) < MaxReq /\ Cardinality({i \in DOMAIN fl : fl[i].at # "done"}) < MaxConc
  /\ LET t == IF flow \in {"revoke", "auth"} \/ type = "" THEN "" ELSE (IF Browser(flow) THEN "r" ELSE "t") \o type
         c == Cred(how)
         \* for authorization the ways of authentication stand for other defects
         id == IF Browser(flow) THEN (CASE how = "unknown" -> "Z" [] how = "B" -> "B" [] how = "nothing" -> "" [] OTHER -> "A") ELSE ""
         redir == IF ~Browser(flow) THEN "" ELSE (CASE how = "B" -> "ub" [] how = "wrongb" -> "ux" [] how = "wrongp" -> "ub" [] OTHER -> "ua")
         user == IF ~Browser(flow) \/ how = "wrongc" THEN "" ELSE "u"
         ms == IF flow # "auth" THEN <<>> ELSE (CASE type = "1" -> <<"client_secret_basic", "custom">> [] type = "2" -> <<"none">> [] OTHER -> <<>>)
         e == [op |-> "start", r |-> Len(fl) + 1, p |-> p, flow |-> flow, type |-> t, cred |-> IF Browser(flow) THEN Cred("nothing") ELSE c,
               methods |-> ms, id |-> id, redir |-> redir, user |-> user, params |-> "p" \o ToString(Len(fl) + 1)]
     IN /\ fl' = fl \o <<[e |-> e, at |-> "check", n |-> "", err |-> "", done |-> {}]>>
        /\ Judged(e)
        /\ Note([op |-> "request", p |-> p, flow |-> flow, type |-> type, how |-> how, par |-> \E i \in DOMAIN fl : fl[i].at # "done"])
  /\ UNCHANGED <<ca, provs, cur>>

(* What the provider makes of a request: an error, or the grant to call.       *)
Same(a, b) == a = b \/ (Bug = "prefix" /\ a \in {b, b \o "'"})
Find(q) ==
  LET gs == provs[IF Bug = "shared" THEN 1 ELSE q.p]
      hit(i) == (Bug = "first" /\ gs[i].gt # "") \/ (IF q.flow = "token" THEN Same(gs[i].gt, q.type) ELSE Same(gs[i].rt, q.type))
      idx == {i \in DOMAIN gs : hit(i)}
  IN IF idx = {} THEN [n |-> ""] ELSE gs[CHOOSE i \in idx : \A j \in idx : i <= j]
Authenticates(cred, ms) == M!Authentic(cred, IF Bug = "anymethod" THEN <<>> ELSE ms)
Registered(q, id) == Bug = "noregister" \/ \E c \in M!Known(id) : q.type \in M!Range(IF q.flow = "token" THEN c.grants ELSE c.rtypes)
Refusal(q) ==
  LET g == Find(q) IN
  CASE q.flow = "token" ->
         (IF q.type = "" THEN "invalid_request" ELSE IF g.n = "" THEN "unsupported_grant_type"
          ELSE IF ~Authenticates(q.cred, g.methods) THEN "invalid_client" ELSE IF ~Registered(q, q.cred.id) THEN "unauthorized_client" ELSE "")
    [] Browser(q.flow) ->
         (IF q.type = "" \/ q.id = "" \/ q.redir = "" THEN "invalid_request"
          ELSE IF ~\E c \in M!Known(q.id) : q.redir \in M!Range(c.redirs) THEN "invalid_request"
          ELSE IF q.flow = "authorize" /\ q.user = "" /\ Bug # "nologin" THEN "access_denied" ELSE IF g.n = "" THEN "unsupported_response_type"
          ELSE IF ~Registered(q, q.id) THEN "unauthorized_client" ELSE "")
    [] q.flow = "revoke" -> IF Authenticates(q.cred, <<>>) THEN "" ELSE "invalid_client"
    [] q.flow = "auth" -> IF Authenticates(q.cred, q.methods) THEN "" ELSE "invalid_client"

Check(i) ==
  /\ fl[i].at = "check"
  /\ LET q == fl[i].e
         err == Refusal(q)
     IN /\ fl' = [fl EXCEPT ![i].at = IF err # "" \/ q.flow \in {"consent", "auth"} THEN "answer" ELSE "call", ![i].err = err,
                            ![i].n = IF q.flow = "revoke" THEN "revoke" ELSE IF q.flow = "auth" \/ err # "" THEN "" ELSE Find(q).n]
        /\ cur' = i
  /\ UNCHANGED <<st, ca, provs, bad, hist>>
Call(i, raises) ==
  /\ fl[i].at = "call"
  /\ LET q == fl[IF Bug = "current" THEN cur ELSE i].e
         own == fl[i].e
     IN Judged([op |-> "run", r |-> i, n |-> fl[i].n, what |-> own.flow, p |-> own.p, cfg |-> own.p, id |-> M!Who(q), user |-> own.user, params |-> own.params,
                ret |-> "x" \o ToString(i), err |-> IF raises THEN "e" ELSE ""])
  /\ fl' = [fl EXCEPT ![i].at = IF Bug = "twice" /\ fl[i].done = {} THEN "call" ELSE "answer", ![i].done = {1},
                      ![i].err = IF raises /\ Bug # "swallow" THEN "e" ELSE ""]
  /\ UNCHANGED <<ca, provs, cur, hist>>
Answer(i) ==
  /\ fl[i].at = "answer"
  /\ fl' = [fl EXCEPT ![i].at = "done"]
  /\ Judged([op |-> "end", r |-> i, kind |-> IF fl[i].err = "" THEN "ok" ELSE "refused", err |-> fl[i].err,
             ret |-> IF fl[i].done = {} THEN "" ELSE "x" \o ToString(i), client |-> IF fl[i].err = "" THEN M!Who(fl[i].e) ELSE ""])
  /\ UNCHANGED <<ca, provs, cur, hist>>

Next == \/ \E x \in GrantLists : Create(x)
        \/ provs # <<>> /\ \E p \in DOMAIN provs, f \in Flows, t \in Types, h \in Hows : Start(p, f, t, h)
        \/ \E i \in DOMAIN fl : Check(i) \/ Answer(i) \/ \E raises \in BOOLEAN : Call(i, raises)
Spec == Init /\ [][Next]_vars
Sound == bad = {}
View == <<st, ca, provs, fl, cur, bad>>
Ends == \A i \in DOMAIN fl : fl[i].at = "done" \/ ENABLED Check(i) \/ ENABLED Answer(i) \/ ENABLED Call(i, FALSE)

(* Single requests, all of them: one provider, one request, not played.        *)
CaseNext == \/ \E x \in GrantLists : Create(x)
            \/ provs # <<>> /\ \E f \in Flows, t \in Types, h \in Hows : Start(1, f, t, h)
CaseSpec == Init /\ [][CaseNext]_vars
ReportCase == Len(fl) < 1 \/ PrintT("PLAN " \o ToJson([a |-> ca, h |-> hist, d |-> Cardinality(M!Defects(fl[1].e))]))

(* Histories for replay, most of whose requests reach a grant.                 *)
Pick(S) == RandomElement(S)
SimNext ==
  /\ Len(fl) < MaxReq
  /\ \E c \in {Pick(1..8)} :
     IF provs = <<>> \/ (c = 1 /\ Len(provs) < MaxProv)
     THEN \E x \in {Pick(IF provs = <<>> THEN GrantLists \ {"none"} ELSE GrantLists)} :
            provs' = provs \o <<GrantList(x)>> /\ Note([op |-> "provider", list |-> x, grants |-> GrantList(x)]) /\ UNCHANGED fl
     ELSE \E p \in {Pick(DOMAIN provs)}, f \in {Pick(Flows)}, f2 \in {Pick(1..3)}, t \in {Pick(Types)}, t2 \in {Pick({"1", "2", ""})}, h \in {Pick(Hows)}, own \in {Pick(1..3)}, par \in {Pick(BOOLEAN)} :
            /\ Note([op |-> "request", p |-> p, flow |-> IF f2 = 1 THEN f ELSE IF f2 = 2 THEN "token" ELSE "authorize", type |-> IF t2 = "" THEN t ELSE t2,
                     how |-> IF own < 3 THEN ca[1] ELSE h, par |-> par])
            /\ fl' = fl \o <<0>>
            /\ UNCHANGED provs
  /\ UNCHANGED <<st, ca, cur, bad>>
SimSpec == Init /\ [][SimNext]_vars
Report == Len(fl) < MaxReq \/ PrintT("PLAN " \o ToJson([a |-> ca, h |-> hist]))
=============================================================================
