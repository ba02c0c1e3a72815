------------------------------ MODULE HttpMonitor ------------------------------
(* What is to hold of every HTTP exchange (property C25).  Events:             *)
(*   request   a request object was made: q and f are the fields or the wire   *)
(*             text sent in the query and the form, obs what the object shows  *)
(*   take      its user removes a name from the merged data                    *)
(*   reread    the object is looked at again                                   *)
(*   basic, bearer   credentials are extracted from headers                    *)
(*   add       parameters are added to a URL                                   *)
(*   redirect  a response that redirects to a URL is made                      *)
(*   response  a response object is made, and translated for the framework     *)
EXTENDS HttpRules, TLC

VARIABLE st

World == [reqs |-> <<>>]         \* what each request was sent, by number

If(c, t) == IF c THEN {} ELSE {<<"C25", t>>}
Range(x) == {x[i] : i \in DOMAIN x}

(* What was sent, as fields.                                                   *)
Sent(x) == IF x.wire THEN Fields(x.w) ELSE NonBlank(x.f)

(* A name taken from the merged data is gone from that request only.           *)
Shows(e, r) ==
  If(e.obs.data = "?" \/ Range(e.data) = {x \in Merged(r.q, r.f) : x.n \notin r.taken}, "the merged parameters are those sent, form over query, the last of each name")
  \cup If(e.obs.query = "?" \/ Range(e.query) = Data(r.q), "the query parameters are those sent")
  \cup If(e.obs.form = "?" \/ Range(e.form) = Data(r.f), "the form parameters are those sent")
  \cup If(e.obs.frag = "?" \/ Range(e.frag) = Data(r.g), "the fragment parameters are those of the URL, and only there")
  \cup If(e.obs.frag # "?" /\ e.obs.data # "?" /\ e.obs.query # "?" /\ e.obs.form # "?", "parameters are texts")
  \cup If(e.obs.path = r.path, "the path is the one sent")
  \cup If(e.obs.url = r.url, "the URL is the one sent")
  \cup If(e.obs.method = r.method, "the method is the one sent")
  \cup If(e.obs.user = r.user, "the user is the one given")
  \cup If(\A h \in Range(r.headers) : \E g \in Range(e.headers) : g = h, "headers are those sent")
  \cup If(\A g \in Range(e.headers) : (\E h \in Range(r.headers) : h.n = g.n) \/ g.n \in {"content-length"}, "no other headers")

Request(e) ==
  IF e.err # "" THEN [w |-> [st EXCEPT !.reqs = @ \o <<[none |-> TRUE]>>], v |-> If(FALSE, "a request can be made of any parameters and headers")]
  ELSE LET r == [none |-> FALSE, q |-> Sent(e.sent.q), f |-> Sent(e.sent.f), g |-> Sent(e.sent.g), path |-> e.sent.path, url |-> e.sent.url, method |-> e.sent.method,
                 user |-> e.sent.user, headers |-> e.sent.headers, taken |-> {}]
       IN [w |-> [st EXCEPT !.reqs = @ \o <<r>>], v |-> Shows(e, r)]
Take(e) == [w |-> [st EXCEPT !.reqs[e.r].taken = @ \cup {e.n}], v |-> {}]
Reread(e) == [w |-> st, v |-> IF st.reqs[e.r].none THEN {} ELSE Shows(e, st.reqs[e.r])]

(* Credentials.  form: "std" the header is written as the standards say;       *)
(* "none" there is nothing to extract; "any" it may be refused; "open" only    *)
(* that nothing is raised matters.                                             *)
Full(e) == IF e.op = "basic" THEN Creds(e.text) ELSE [ok |-> TRUE, id |-> e.text, secret |-> <<>>]
Auth(e) ==
  [w |-> st, v |->
    IF e.err # "" THEN If(FALSE, "extracting credentials never raises")
    ELSE CASE e.form = "std" -> If(e.got = Full(e), "the credentials are those sent")
           [] e.form = "none" -> If(e.got = NoCreds, "there are no credentials where none were sent")
           [] e.form = "any" -> If(e.got \in {NoCreds, Full(e)}, "the credentials are those sent or none")
           [] OTHER -> {}]

(* Adding parameters: the parts of the URL before the query stay, and so does  *)
(* every parameter, old and new, blank ones included.                          *)
Keys(fs) == {[n |-> fs[i].n, v |-> fs[i].v, c |-> Cardinality({j \in DOMAIN fs : fs[j] = fs[i]})] : i \in DOMAIN fs}
Add(e) ==
  [w |-> st, v |->
    IF e.err # "" THEN If(FALSE, "parameters can be added to any URL")
    ELSE If(e.base = e.obase, "the URL is preserved")
      \cup If(Keys(e.oq) = Keys(e.q \o e.new), "every parameter is preserved")
      \cup If(e.frag = e.ofrag, "the fragment is preserved")]

Response(e) ==
  [w |-> st, v |->
    IF e.err # "" THEN If(FALSE, "a response can be made of any status, headers and body")
    ELSE If(e.ostatus = e.status, "the status is the one given")
      \cup If(e.obody = e.body, "the body is the one given")
      \cup If(\A h \in Range(e.headers) : h \in Range(e.oheaders), "the headers are those given")
      \cup If(\A h \in Range(e.oheaders) : h.n \in {"content-length", "content-type"} \/ \E g \in Range(e.headers) : g.n = h.n, "no other headers are added")
      \cup If(e.type = "" \/ \E h \in Range(e.oheaders) : h = [n |-> "content-type", v |-> e.type], "the content type is the one given")]

Step(e) == CASE e.op = "request" -> Request(e)
             [] e.op = "take" -> Take(e)
             [] e.op = "reread" -> Reread(e)
             [] e.op \in {"basic", "bearer"} -> Auth(e)
             [] e.op \in {"add", "redirect"} -> Add(e)
             [] e.op = "response" -> Response(e)
             [] OTHER -> [w |-> st, v |-> {<<"harness", "unknown event">>}]
=============================================================================
