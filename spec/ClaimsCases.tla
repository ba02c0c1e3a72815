----------------------------- MODULE ClaimsCases ------------------------------
(* Inputs of the validation of claims as products of dimensions.              *)
EXTENDS ClaimsRules, CaseSpace, TLC, Json

CONSTANTS Family, MaxDev, Active, Free

Api == D("api", <<"claims", "idtoken", "decode", "decodeoff", "encode">>)
Zone == D("tz", <<"UTC", "EST5EDT", "IST-5:30", "LINT-14", "BIT12">>)
Frac == D("frac", <<"0", "1", "999">>)
(* Values of time claims: seconds from now, or other values.                  *)
TimeV == <<"absent", "p1", "zero0", "m1", "p3600", "m3600", "pfar", "mfar", "epoch", "neg", "huge", "true", "false", "float", "floatpast", "str", "blank", "list", "obj",
           "null">>
JsonV == <<"absent", "str", "blank", "int", "zero", "false", "true", "float", "list", "liststr", "emptylist", "listmixed", "listnull", "obj", "emptyobj", "null">>
OptV == <<"none", "ess-there", "ess-absent", "ess-false", "ess-zero", "ess-blank", "ess-emptylist", "val-eq", "val-ne", "val-absent", "val-eqfalse", "val-nefalse", "val-eqzero", "val-nezero",
          "val-eqblank", "val-neblank", "val-prefix", "val-case", "val-listeq", "val-listne", "val-inlist", "val-null", "vals-in", "vals-out", "vals-absent", "vals-share", "vals-disjoint",
          "vals-emptyclaim", "vals-listmember", "vals-falsein", "vals-falseout", "vals-prefix", "vals-one", "vals-null", "essval-eq", "essval-ne", "essval-absent", "essvals-share",
          "essvals-out", "valvals-eqout", "valvals-eqin", "valvals-nein", "noness-absent", "val-numtext", "val-textnum", "val-wrapped", "val-listtext", "val-objeq", "val-objne", "vals-numtext",
          "vals-textnum", "vals-listcase", "vals-numin", "vals-objin", "vals-inner", "val-trim", "vals-trim", "val-numeq", "val-nearnum">>

DimsOf ==
  CASE Family = "time" -> << Api, Zone, Frac, D("exp", TimeV), D("nbf", TimeV), D("iat", TimeV), D("auth_time", TimeV), D("opts", <<"none", "empty", "ess">>) >>
    [] Family = "types" -> << Api, D("iss", JsonV), D("sub", JsonV), D("jti", JsonV), D("aud", JsonV), D("nonce", JsonV),
                              D("want", <<"absent", "same", "other", "case", "longer">>), D("exp", <<"absent", "p1", "m1">>) >>
    [] OTHER -> << Api, D("o1", OptV), D("o2", OptV), D("o3", OptV), D("names", <<"plain", "registered", "odd">>), D("exp", <<"absent", "p1", "m1">>),
                   D("order", <<"given", "reversed", "rotated">>) >>
Dims == DimsOf

V(t, v, items, strs, d) == [t |-> t, v |-> v, items |-> items, strs |-> strs, d |-> d]
Time(x) ==
  CASE x = "absent" -> Absent
    [] x = "p1" -> V("int", "i1", <<>>, TRUE, 1) [] x = "zero0" -> V("int", "i0", <<>>, TRUE, 0) [] x = "m1" -> V("int", "i2", <<>>, TRUE, -1)
    [] x = "p3600" -> V("int", "i3", <<>>, TRUE, 3600) [] x = "m3600" -> V("int", "i4", <<>>, TRUE, -3600)
    [] x \in {"pfar", "huge"} -> V("int", x, <<>>, TRUE, 9999) [] x \in {"mfar", "epoch", "neg"} -> V("int", x, <<>>, TRUE, -9999)
    [] x \in {"true", "false"} -> V("bool", x, <<>>, TRUE, 0) [] x \in {"float", "floatpast"} -> V("float", x, <<>>, TRUE, 0)
    [] x \in {"str", "blank"} -> V("str", x, <<>>, TRUE, 0)
    [] x = "list" -> V("list", x, <<"i1">>, FALSE, 0) [] x = "obj" -> V("obj", x, <<>>, TRUE, 0) [] OTHER -> V("null", "null", <<>>, TRUE, 0)
JVal(x) ==
  CASE x = "absent" -> Absent
    [] x \in {"str", "blank"} -> V("str", x, <<>>, TRUE, 0) [] x \in {"int", "zero"} -> V("int", x, <<>>, TRUE, 0)
    [] x \in {"true", "false"} -> V("bool", x, <<>>, TRUE, 0) [] x = "float" -> V("float", x, <<>>, TRUE, 0)
    [] x \in {"list", "listmixed", "listnull"} -> V("list", x, <<>>, FALSE, 0) [] x \in {"liststr", "emptylist"} -> V("list", x, <<>>, TRUE, 0)
    [] x \in {"obj", "emptyobj"} -> V("obj", x, <<>>, TRUE, 0) [] OTHER -> V("null", "null", <<>>, TRUE, 0)

IsId(c) == c["api"] = "idtoken"
Slot(c, n) == [n |-> n, x |-> c[n]]
Broken == {"ess-absent", "val-ne", "val-absent", "val-nefalse", "val-nezero", "val-neblank", "val-prefix", "val-case", "val-listne", "val-inlist", "val-null",
           "vals-out", "vals-absent", "vals-disjoint", "vals-emptyclaim", "vals-falseout", "vals-prefix", "vals-null", "essval-ne", "essval-absent", "essvals-out",
           "valvals-eqout", "valvals-nein", "val-numtext", "val-textnum", "val-wrapped", "val-listtext", "val-objne", "vals-numtext", "vals-textnum", "vals-listcase",
           "vals-inner", "val-trim", "vals-trim", "val-nearnum"}
NoOptions(c) == c["api"] \in {"encode", "decodeoff"}

DefectsOfCase(c) ==
  CASE Family = "time" ->
         TimeDefects([exp |-> Time(c["exp"]), nbf |-> Time(c["nbf"]), iat |-> Time(c["iat"]), auth_time |-> Time(c["auth_time"])], IsId(c))
    [] Family = "types" ->
         LET cl == [iss |-> JVal(c["iss"]), sub |-> JVal(c["sub"]), jti |-> JVal(c["jti"]), aud |-> JVal(c["aud"]), nonce |-> JVal(c["nonce"]),
                    exp |-> Time(c["exp"])]
             nonce == CASE c["want"] = "absent" -> Absent [] c["want"] = "same" -> V("str", "str", <<>>, TRUE, 0)
                        [] OTHER -> V("str", "another", <<>>, TRUE, 0)
         IN TimeDefects(cl, IsId(c)) \cup TypeDefects(cl, IsId(c), nonce)
    [] OTHER ->
         TimeDefects([exp |-> Time(c["exp"])], IsId(c)) \cup
         (IF NoOptions(c) THEN {} ELSE {n \in {"o1", "o2", "o3"} : c[n] \in Broken})

Applies(c) ==
  /\ Family = "types" => (c["want"] # "absent" => IsId(c))
  /\ Family = "time" => (c["auth_time"] # "absent" => c["api"] \in {"idtoken", "claims"})
  /\ Family = "time" => (c["opts"] # "none" => c["api"] # "encode")

ASSUME DefectsOfCase(Start(Dims)) = {}
Init == SpaceInit(Dims)
Next == SpaceNext(Dims, MaxDev, Active, Free)
Spec == Init /\ [][Next]_cvars
Dev(c) == LET s == Start(Dims) IN [n \in {n \in DOMAIN c : c[n] # s[n]} |-> c[n]]
Report == Applies(case) => PrintT("CASE " \o ToJson([f |-> Family, d |-> Dev(case), x |-> DefectsOfCase(case)]))
ASSUME PrintT("DIMS " \o ToJson(Start(Dims)))
=============================================================================
