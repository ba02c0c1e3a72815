----------------------------- MODULE HooksMonitor -----------------------------
(* What is to hold of hooks (property C14).  Events:                           *)
(*   provider  a provider with some grants is created                          *)
(*   add       a hook is added to a class of grants of a provider              *)
(*   start     a request begins on a provider and grant (flow: authorize or    *)
(*             token)                                                          *)
(*   run       a hook runs at a checkpoint: p and cfg say whose adapter and    *)
(*             configuration it was given, ret the marks it returns, err the   *)
(*             OAuth error it raises, data the marks in the data it was given  *)
(*   saved     the data of the request is handed to the adapter                *)
(*   end       the request is answered, marks are those of the answer          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE st

World == [regs |-> <<>>, reqs |-> <<>>]

If(c, t) == IF c THEN {} ELSE {<<"C14", t>>}
Range(x) == {x[i] : i \in DOMAIN x}

(* Classes of grants: "sub" is a kind of "code", and all are grants.           *)
Covers(cls, g) == cls = "base" \/ cls = g \/ (cls = "code" /\ g = "sub")
Checkpoints(flow) == IF flow = "authorize" THEN {"authorization_request", "authorization_response"} ELSE {"token_request", "token_response"}
(* Grants that have checkpoints to reach.                                      *)
Hooked(g) == g \in {"code", "sub"}

Times(regs, p, g, h, cp) == Cardinality({i \in DOMAIN regs : regs[i].p = p /\ Covers(regs[i].cls, g) /\ regs[i].h = h /\ cp \in Range(regs[i].cps)})
Ran(q, h, cp) == Cardinality({i \in DOMAIN q.runs : q.runs[i].h = h /\ q.runs[i].cp = cp})
Marks(q, cp) == UNION {Range(q.runs[i].ret) : i \in {j \in DOMAIN q.runs : q.runs[j].cp = cp /\ q.runs[j].err = ""}}
Errors(q) == {q.runs[i].err : i \in DOMAIN q.runs} \ {""}

Add(e) == [w |-> [st EXCEPT !.regs = @ \o <<[p |-> e.p, cls |-> e.cls, h |-> e.h, cps |-> e.cps]>>],
           v |-> If(e.err = "", "a hook can be added to any grant")]
Start(e) == [w |-> [st EXCEPT !.reqs = @ \o <<[p |-> e.p, g |-> e.g, flow |-> e.flow, valid |-> e.valid, n |-> Len(st.regs), runs |-> <<>>, saved |-> FALSE]>>], v |-> {}]

Run(e) ==
  IF e.r \notin DOMAIN st.reqs THEN [w |-> st, v |-> If(FALSE, "hooks run within requests only")]
  ELSE LET q == st.reqs[e.r] IN
  [w |-> [st EXCEPT !.reqs[e.r].runs = @ \o <<[h |-> e.h, cp |-> e.cp, ret |-> e.ret, err |-> e.err]>>],
   v |-> If(\E i \in DOMAIN st.regs : st.regs[i].p = q.p /\ st.regs[i].h = e.h, "a hook runs only for a provider it was added to")
      \cup If(Times(st.regs, q.p, q.g, e.h, e.cp) > 0, "a hook runs only for a grant it was added to, at a checkpoint it defines")
      \cup If(e.p = q.p /\ e.cfg = q.p, "a hook has the adapter and configuration of the provider")
      \cup If(e.cp \in Checkpoints(q.flow), "a hook runs at the checkpoints of the request")
      \cup If(Ran(q, e.h, e.cp) < Times(st.regs, q.p, q.g, e.h, e.cp) \/ Times(st.regs, q.p, q.g, e.h, e.cp) = 0, "a hook runs once per registration")
      \cup If(e.args, "a hook is given the data of the request")
      \cup If(e.cp # "token_response" \/ Marks(q, "token_request") = Range(e.data), "what hooks return for the token request is merged into its data")
      \cup If(e.cp # "authorization_response" \/ Marks(q, "authorization_request") = Range(e.data), "what hooks return for the authorization request is merged into its data")]

Saved(e) ==
  LET q == st.reqs[e.r] IN
  [w |-> [st EXCEPT !.reqs[e.r].saved = TRUE],
   v |-> If(Range(e.marks) = Marks(q, "authorization_request"), "what hooks return for the authorization request is saved")
      \cup If(Errors(q) = {}, "a request refused by a hook has no effect")]

End(e) ==
  LET q == st.reqs[e.r]
      first == SubSeq(st.regs, 1, q.n)
  IN
  [w |-> st,
   v |-> If(Errors(q) = {} \/ (~e.ok /\ e.err \in Errors(q)), "an OAuth error of a hook refuses the request")
      \cup If(~q.valid \/ Errors(q) # {} \/ e.ok, "a request is not refused unless a hook does")
      \cup If(~e.ok \/ ~Hooked(q.g) \/ \A i \in DOMAIN first : \A cp \in Range(first[i].cps) \cap Checkpoints(q.flow) :
                 (first[i].p = q.p /\ Covers(first[i].cls, q.g)) => Ran(q, first[i].h, cp) >= Times(first, q.p, q.g, first[i].h, cp),
              "every hook runs once per registration at every checkpoint reached")
      \cup If(~e.ok \/ Range(e.marks) = Marks(q, IF q.flow = "authorize" THEN "authorization_response" ELSE "token_response"),
              "what hooks return is merged into the response")
      \cup If(~e.ok \/ e.idt = "?" \/ (e.idt = "yes") = (\E i \in DOMAIN st.regs : st.regs[i].p = q.p /\ Covers(st.regs[i].cls, q.g) /\ st.regs[i].h = "oidc"),
              "ID tokens are issued exactly where OpenID Connect was added")]

Step(e) == CASE e.op = "provider" -> [w |-> st, v |-> {}]
             [] e.op = "add" -> Add(e)
             [] e.op = "start" -> Start(e)
             [] e.op = "run" -> Run(e)
             [] e.op = "saved" -> Saved(e)
             [] e.op = "end" -> End(e)
             [] OTHER -> [w |-> st, v |-> {<<"harness", "unknown event">>}]
=============================================================================
