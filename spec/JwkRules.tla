------------------------------- MODULE JwkRules -------------------------------
(* Conversions of keys.  A form is a key object ("obj"), a JWK ("dict") or    *)
(* exported text ("text"): [f, kty, pub (identity of the material), priv,     *)
(* meta (set of name-value pairs)].                                           *)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Asym(kty) == kty \in {"RSA", "EC"}
Form(f, kty, pub, priv, meta) == [f |-> f, kty |-> kty, pub |-> pub, priv |-> priv, meta |-> meta]
Fail == [f |-> "fail"]

(* What an operation on form x must give: a form, or Fail if it must fail.    *)
(* pub: the public form is asked for.  For a symmetric key both are the same. *)
Keeps(x, pub) == x.kty = "oct" \/ (x.priv /\ ~pub)
Dump(x, pub) == IF ~pub /\ ~x.priv THEN Fail ELSE Form("dict", x.kty, x.pub, Keeps(x, pub), x.meta)
Export(x, pub) == IF ~pub /\ ~x.priv THEN Fail ELSE Form("text", x.kty, x.pub, Keeps(x, pub), {})
Load(x, kty) == IF kty # x.kty THEN Fail ELSE Form("obj", x.kty, x.pub, x.priv, x.meta)
Parse(x, kty, pub, meta, goodpw) ==
  IF kty # x.kty \/ ~goodpw \/ (~pub /\ ~x.priv) THEN Fail ELSE Form("obj", x.kty, x.pub, Keeps(x, pub), meta)

(* Key sets: a sequence of forms.  kid of a form: "" if it has none.          *)
Kid(x) == IF \E m \in x.meta : m[1] = "kid" THEN (CHOOSE m \in x.meta : m[1] = "kid")[2] ELSE ""
Kids(xs) == [i \in DOMAIN xs |-> Kid(xs[i])]
Unique(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Buildable(xs) == Len(xs) > 0 /\ (\A i \in DOMAIN xs : Kid(xs[i]) # "") /\ Unique(Kids(xs))
Lookup(xs, kid) == IF \E i \in DOMAIN xs : Kid(xs[i]) = kid THEN CHOOSE i \in DOMAIN xs : Kid(xs[i]) = kid ELSE 0
=============================================================================
