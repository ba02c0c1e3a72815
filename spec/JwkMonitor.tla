------------------------------ MODULE JwkMonitor ------------------------------
(* Judges conversions of keys and operations on key sets.  State: the forms   *)
(* made so far by name, the key sets by name, the materials generated.        *)
EXTENDS JwkRules, TLC
VARIABLE st

World == [forms |-> [x \in {} |-> Fail], sets |-> [x \in {} |-> <<>>], made |-> {}]
Has(n) == n \in DOMAIN st.forms
HasSet(n) == n \in DOMAIN st.sets
Put(n, x) == [st EXCEPT !.forms = (n :> x) @@ @]
PutSet(n, xs) == [st EXCEPT !.sets = (n :> xs) @@ @]
MetaOf(q) == {q[i] : i \in DOMAIN q}

(* What an independent reader finds in a dict or text: o.kty, o.pub, o.priv   *)
(* ("none", "ok", "bad"), o.meta (pairs), o.clean (no private value occurs).  *)
Found(x, o, what) ==
  (IF o.kty # x.kty \/ o.pub # x.pub THEN {<<"C21", what \o ": public material">>} ELSE {}) \cup
  (IF x.kty # "oct" /\ x.priv /\ o.priv # "ok" THEN {<<"C21", what \o ": private material">>} ELSE {}) \cup
  (IF x.kty # "oct" /\ ~x.priv /\ (o.priv # "none" \/ ~o.clean) THEN {<<"C21", what \o ": reveals private material">>} ELSE {}) \cup
  (IF MetaOf(o.meta) # x.meta THEN {<<"C21", what \o ": metadata">>} ELSE {})

(* e: op, src, out, ok, obs.                                                  *)
Convert(e, want, what) ==
  IF want = Fail
  THEN [w |-> st, v |-> IF e.ok THEN {<<"C21", what \o " succeeded">>} ELSE {}]
  ELSE IF ~e.ok THEN [w |-> st, v |-> {<<"C21", what \o " failed: " \o e.err>>}]
  ELSE [w |-> Put(e.out, want), v |-> IF want.f = "obj" THEN {} ELSE Found(want, e.obs, what)]

(* A form known to be right: made by the harness.                             *)
Given(e) == [w |-> Put(e.out, Form(e.f, e.obs.kty, e.obs.pub, e.obs.priv = "ok", MetaOf(e.obs.meta))), v |-> {}]

(* Generated keys are fresh, complete and of the requested size (e.size and   *)
(* e.got: what was asked for and what it is; e.stale: part of the secret      *)
(* occurs twice, in it or in another generated key).                          *)
Generate(e) ==
  IF ~e.ok THEN [w |-> st, v |-> IF e.must THEN {<<"C21", "generating failed: " \o e.err>>} ELSE {}]
  ELSE [w |-> [Put(e.out, Form("obj", e.kty, e.obs.pub, TRUE, MetaOf(e.meta))) EXCEPT !.made = @ \cup {e.obs.pub}],
        v |-> (IF e.obs.pub \in st.made THEN {<<"C21", "generated the same key again">>} ELSE {}) \cup
              (IF e.got # e.size \/ e.obs.kty # e.kty THEN {<<"C21", "size or curve of the generated key">>} ELSE {}) \cup
              (IF e.stale THEN {<<"C21", "generated key repeats known material">>} ELSE {}) \cup
              (IF e.obs.priv # "ok" /\ e.kty # "oct" THEN {<<"C21", "generated key is not private">>} ELSE {})]

(* A key object seen from all sides: its dumps and exports (each with ok),    *)
(* whether it signs, whether an independent verifier accepts that.            *)
Probe(e) ==
  LET x == st.forms[e.src]
      side(o, want, what) ==
        IF want = Fail THEN (IF o.ok THEN {<<"C21", what \o " of a public key succeeded">>} ELSE {})
        ELSE IF ~o.ok THEN {<<"C21", what \o " failed: " \o o.err>>} ELSE Found(want, o, what)
      able == x.priv \/ x.kty = "oct"
  IN [w |-> st,
      v |-> side(e.pd, Dump(x, TRUE), "public dump") \cup side(e.sd, Dump(x, FALSE), "private dump") \cup
            side(e.pe, Export(x, TRUE), "public export") \cup side(e.se, Export(x, FALSE), "private export") \cup
            (IF e.signs # able /\ (e.fit \/ e.signs) THEN {<<"C21", IF able THEN "private key does not sign" ELSE "public key signs">>} ELSE {}) \cup
            (IF e.signs /\ able /\ ~e.good THEN {<<"C21", "signature of the key">>} ELSE {})]

(* Two key objects: one signs, the other verifies.                            *)
Cross(e) ==
  LET a == st.forms[e.src]
      b == st.forms[e.other]
      same == a.kty = b.kty /\ a.pub = b.pub
  IN [w |-> st,
      v |-> IF ~a.priv \/ ~e.fit THEN {}
            ELSE IF same /\ ~e.ok THEN {<<"C21", "converted key does not verify: " \o e.err>>}
            ELSE IF ~same /\ e.ok THEN {<<"C21", "another key verifies">>}
            ELSE {}]

(* Key sets.                                                                  *)
SetForms(e) == [i \in DOMAIN e.keys |-> st.forms[e.keys[i]]]
Build(e) ==
  LET xs == SetForms(e)
      want == e.list /\ Buildable(xs)
  IN IF want
     THEN [w |-> IF e.ok THEN PutSet(e.out, xs) ELSE st, v |-> IF e.ok THEN {} ELSE {<<"C22", "key set refused: " \o e.err>>}]
     ELSE [w |-> st, v |-> IF e.ok THEN {<<"C22", IF ~e.list \/ xs = <<>> THEN "built from no list of keys" ELSE
                                                  IF \E i \in DOMAIN xs : Kid(xs[i]) = "" THEN "built with a key without id" ELSE "built with repeated ids">>} ELSE {}]
(* e.found: "none", "key" (with e.obs, its public dump) or "error".           *)
Find(e) ==
  LET xs == st.sets[e.set]
      i == Lookup(xs, e.kid)
  IN [w |-> st,
      v |-> IF i = 0 THEN (IF e.found # "none" THEN {<<"C22", "found a key for an unknown id">>} ELSE {})
            ELSE IF e.found # "key" THEN {<<"C22", "key not found">>}
            ELSE IF e.obs.pub # xs[i].pub \/ MetaOf(e.obs.meta) # xs[i].meta THEN {<<"C22", "found another key">>} ELSE {}]
(* The members of a dumped set: e.obs, a sequence.                            *)
DumpSet(e) ==
  LET xs == st.sets[e.set]
      ys == [i \in DOMAIN xs |-> Dump(xs[i], e.public)]
  IN IF \E i \in DOMAIN ys : ys[i] = Fail
     THEN [w |-> st, v |-> IF e.ok THEN {<<"C22", "private dump of a set with public keys">>} ELSE {}]
     ELSE IF ~e.ok THEN [w |-> st, v |-> {<<"C22", "dump failed: " \o e.err>>}]
     ELSE IF Len(e.obs) # Len(ys) THEN [w |-> st, v |-> {<<"C22", "number of dumped keys">>}]
     ELSE [w |-> PutSet(e.out, ys),
           v |-> IF [i \in DOMAIN ys |-> Kid([meta |-> MetaOf(e.obs[i].meta)])] # Kids(xs) THEN {<<"C22", "ids or their order">>}
                 ELSE UNION {{<<"C22", f[2]>> : f \in Found(ys[i], e.obs[i], "dumped key")} : i \in DOMAIN ys}]
(* Loading a dump (a known set of dicts; e.fine: nothing else about it is     *)
(* wrong) gives the keys in order: e.obs their public dumps, e.privs their    *)
(* private abilities.                                                         *)
LoadSet(e) ==
  LET xs == st.sets[e.set]
      want == e.fine /\ Buildable(xs)
  IN IF ~want THEN [w |-> st, v |-> IF e.ok THEN {<<"C22", "loaded a malformed set">>} ELSE {}]
     ELSE IF ~e.ok THEN [w |-> st, v |-> {<<"C22", "loading failed: " \o e.err>>}]
     ELSE [w |-> PutSet(e.out, [i \in DOMAIN xs |-> [xs[i] EXCEPT !.f = "obj"]]),
           v |-> IF Len(e.obs) # Len(xs) \/ [i \in DOMAIN xs |-> Kid([meta |-> MetaOf(e.obs[i].meta)])] # Kids(xs)
                 THEN {<<"C22", "ids or their order">>}
                 ELSE UNION {(IF e.obs[i].pub # xs[i].pub THEN {<<"C22", "loaded key: material">>} ELSE {}) \cup
                             (IF MetaOf(e.obs[i].meta) # xs[i].meta THEN {<<"C22", "loaded key: metadata">>} ELSE {}) \cup
                             (IF xs[i].kty # "oct" /\ e.privs[i] # xs[i].priv THEN {<<"C22", "loaded key: private or public">>} ELSE {}) : i \in DOMAIN xs}]
(* Sets of given dicts (made by the harness).                                 *)
GivenSet(e) == [w |-> PutSet(e.out, SetForms(e)), v |-> {}]

Known(e) == /\ ("src" \in DOMAIN e => Has(e.src)) /\ ("other" \in DOMAIN e => Has(e.other)) /\ ("set" \in DOMAIN e => HasSet(e.set))
            /\ ("keys" \in DOMAIN e => \A i \in DOMAIN e.keys : Has(e.keys[i]))
Step(e) ==
  IF ~Known(e) THEN [w |-> st, v |-> {}]       \* follows from an earlier failure
  ELSE CASE e.op = "given" -> Given(e)
    [] e.op = "generate" -> Generate(e)
    [] e.op = "dump" -> Convert(e, Dump(st.forms[e.src], e.public), IF e.public THEN "public dump" ELSE "private dump")
    [] e.op = "export" -> Convert(e, Export(st.forms[e.src], e.public), IF e.public THEN "public export" ELSE "private export")
    [] e.op = "load" -> Convert(e, Load(st.forms[e.src], e.kty), "loading")
    [] e.op = "parse" -> Convert(e, Parse(st.forms[e.src], e.kty, e.public, MetaOf(e.meta), e.goodpw), "parsing")
    [] e.op = "probe" -> Probe(e)
    [] e.op = "cross" -> Cross(e)
    [] e.op = "build" -> Build(e)
    [] e.op = "find" -> Find(e)
    [] e.op = "dumpset" -> DumpSet(e)
    [] e.op = "loadset" -> LoadSet(e)
    [] e.op = "givenset" -> GivenSet(e)
=============================================================================
