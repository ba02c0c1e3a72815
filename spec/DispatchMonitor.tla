---------------------------- MODULE DispatchMonitor ----------------------------
(* What is to hold of providers with grants and ways of authentication of the  *)
(* application's own (property C27).  Events:                                  *)
(*   world     the clients: id, secret (hassecret), method, grants, rtypes,    *)
(*             redirs                                                          *)
(*   provider  a provider with a sequence of grants [n, gt, rt, methods]; no   *)
(*             methods means any                                               *)
(*   start     request r begins: flow (token, authorize, consent, revoke,      *)
(*             auth), type it asks for, cred it shows [how, id, secret], redir,*)
(*             user and id (of the client) of authorization requests, params   *)
(*   run       a grant (or for revoke the adapter) is called: for whom, with   *)
(*             what, whose adapter and configuration it has; later it returns  *)
(*             ret or raises err                                               *)
(*   end       what the caller got                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE st
World == [clients |-> <<>>, provs |-> <<>>, reqs |-> <<>>]

If(c, t) == IF c THEN {} ELSE {<<"C27", t>>}
Range(x) == {x[i] : i \in DOMAIN x}

Known(id) == {c \in Range(st.clients) : c.id = id}
(* The credentials shown are those of a client registered for this way, and    *)
(* the way is among those that are accepted.                                   *)
Authentic(cred, methods) ==
  /\ cred.how \in {"client_secret_basic", "client_secret_post", "none", "custom"}
  /\ (methods = <<>> \/ cred.how \in Range(methods))
  /\ \E c \in Known(cred.id) : c.method = cred.how /\ (IF cred.how = "none" THEN ~c.hassecret ELSE c.hassecret /\ c.secret = cred.secret)

GrantsOf(p) == Range(st.provs[p])
ForToken(q) == {g \in GrantsOf(q.p) : g.gt = q.type /\ g.gt # ""}
ForAuthorize(q) == {g \in GrantsOf(q.p) : g.rt = q.type /\ g.rt # ""}

(* Everything that is wrong with a request, as error codes.                    *)
TokenDefects(q) ==
     (IF q.type = "" THEN {"invalid_request"} ELSE {})
  \cup (IF q.type # "" /\ ForToken(q) = {} THEN {"unsupported_grant_type"} ELSE {})
  \cup (IF ForToken(q) # {} /\ ~\E g \in ForToken(q) : Authentic(q.cred, g.methods) THEN {"invalid_client"} ELSE {})
  \cup (IF ForToken(q) = {} /\ ~Authentic(q.cred, <<>>) THEN {"invalid_client"} ELSE {})
  \cup (IF q.type # "" /\ \A c \in Known(q.cred.id) : q.type \notin Range(c.grants) THEN {"unauthorized_client"} ELSE {})
AuthorizeDefects(q, consent) ==
     (IF q.type = "" \/ q.id = "" \/ q.redir = "" THEN {"invalid_request"} ELSE {})
  \cup (IF ~\E c \in Known(q.id) : q.redir \in Range(c.redirs) THEN {"invalid_request"} ELSE {})
  \cup (IF ~consent /\ q.user = "" THEN {"access_denied"} ELSE {})
  \cup (IF q.type # "" /\ ForAuthorize(q) = {} THEN {"unsupported_response_type"} ELSE {})
  \cup (IF q.type # "" /\ \A c \in Known(q.id) : q.type \notin Range(c.rtypes) THEN {"unauthorized_client"} ELSE {})
Defects(q) ==
  CASE q.flow = "token" -> TokenDefects(q)
    [] q.flow = "authorize" -> AuthorizeDefects(q, FALSE)
    [] q.flow = "consent" -> AuthorizeDefects(q, TRUE)
    [] q.flow = "revoke" -> IF Authentic(q.cred, <<>>) THEN {} ELSE {"invalid_client"}
    [] q.flow = "auth" -> IF Authentic(q.cred, q.methods) THEN {} ELSE {"invalid_client"}
Who(q) == IF q.flow \in {"authorize", "consent"} THEN q.id ELSE q.cred.id

Start(e) == [w |-> [st EXCEPT !.reqs = @ \o <<[q |-> e, runs |-> <<>>]>>], v |-> {}]

Run(e) ==
  IF e.r \notin DOMAIN st.reqs THEN [w |-> st, v |-> If(FALSE, "grants run within requests only")]
  ELSE LET q == st.reqs[e.r].q
           mine == CASE q.flow = "token" -> {g.n : g \in ForToken(q)} [] q.flow = "authorize" -> {g.n : g \in ForAuthorize(q)}
                     [] q.flow = "revoke" -> {"revoke"} [] OTHER -> {}
           granted == {g \in GrantsOf(q.p) : g.n = e.n}
       IN
  [w |-> [st EXCEPT !.reqs[e.r].runs = @ \o <<[n |-> e.n, ret |-> e.ret, err |-> e.err]>>],
   v |-> If(e.n \in mine /\ e.what = q.flow, "only a grant of this provider registered for the type that was asked for runs")
      \cup If(st.reqs[e.r].runs = <<>>, "one grant runs, once")
      \cup If(Defects(q) = {}, "no grant runs for a request that is to be refused")
      \cup If(q.flow # "token" \/ \E g \in granted : Authentic(q.cred, g.methods), "a grant runs only for clients authenticated in a way it accepts")
      \cup If(e.p = q.p /\ e.cfg = q.p, "a grant has the adapter and configuration of its provider")
      \cup If(e.id = Who(q) /\ e.user = q.user, "a grant is given the client and user of the request")
      \cup If(e.params = q.params, "a grant is given the parameters of the request")]

End(e) ==
  LET q == st.reqs[e.r].q
      runs == st.reqs[e.r].runs
      d == Defects(q)
      err == IF runs = <<>> THEN "" ELSE runs[1].err
  IN
  [w |-> st,
   v |-> If(e.kind # "raised", "every request is answered")
      \cup If(d = {} \/ (e.kind = "refused" /\ e.err \in d), "what is to be refused is refused, with a reason that applies")
      \cup If(d # {} \/ q.flow \in {"consent", "auth"} \/ runs # <<>>, "a request without defect reaches its grant")
      \cup If(d # {} \/ q.flow \notin {"consent", "auth"} \/ e.kind = "ok", "a request without defect is answered")
      \cup If(q.flow # "auth" \/ e.kind # "ok" \/ e.client = q.cred.id, "authentication finds the very client")
      \cup If(q.flow # "consent" \/ e.kind # "ok" \/ e.client = q.id, "the consent query shows the very client")
      \cup If(runs = <<>> \/ err # "" \/ (e.kind = "ok" /\ e.ret = runs[1].ret), "what a grant returns is the answer")
      \cup If(err = "" \/ (e.kind = "refused" /\ e.err = err /\ e.ret = runs[1].ret), "an OAuth error raised by a grant is the answer")]

Step(e) == CASE e.op = "world" -> [w |-> [st EXCEPT !.clients = e.clients], v |-> {}]
             [] e.op = "provider" -> [w |-> [st EXCEPT !.provs = @ \o <<e.grants>>], v |-> If(e.err = "", "a provider can be made of any grants")]
             [] e.op = "start" -> Start(e)
             [] e.op = "run" -> Run(e)
             [] e.op = "end" -> End(e)
             [] OTHER -> [w |-> st, v |-> {<<"harness", "unknown event">>}]
=============================================================================
