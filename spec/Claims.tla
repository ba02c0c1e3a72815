-------------------------------- MODULE Claims --------------------------------
(* The design of validating claims: tokens are issued with times relative to  *)
(* the clock, the clock moves, tokens are presented on hosts in different     *)
(* zones with different options.  Accept(..) is the validator as the library  *)
(* is built (checks one after the other); ClaimsMonitor judges every answer.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTok, MaxNow, MaxOps, Bug, Hist

M == INSTANCE ClaimsMonitor

(* Abstract claims: times (absolute, or -99: absent), one claim "c" and one   *)
(* claim "g" (a list).                                                        *)
None == -99
Times == {None, -1, 0, 1, 2}
CVals == {"absent", "x", "y", "0"}      \* "0": a false value
GVals == {"absent", "x", "xy"}
Toks == [exp: Times, nbf: {None, 0, 2}, iat: {None, 0, 1}, c: CVals, g: GVals]

Val(x, now) == IF x = None THEN M!Absent ELSE [t |-> "int", v |-> ToString(x), items |-> <<>>, strs |-> TRUE, d |-> x - now]
StrVal(x) == IF x = "absent" THEN M!Absent ELSE [t |-> IF x = "0" THEN "int" ELSE "str", v |-> x, items |-> <<>>, strs |-> TRUE, d |-> 0]
ListVal(x) == IF x = "absent" THEN M!Absent
              ELSE [t |-> "list", v |-> "[" \o x \o "]", items |-> IF x = "x" THEN <<"x">> ELSE <<"x", "y">>, strs |-> TRUE, d |-> 0]
ClaimsOf(k, now) == [exp |-> Val(k.exp, now), nbf |-> Val(k.nbf, now), iat |-> Val(k.iat, now), c |-> StrVal(k.c), g |-> ListVal(k.g)]

Opt(s, c, ess, hasv, v, hasvs, vs) == [s |-> s, c |-> c, ess |-> ess, hasv |-> hasv, v |-> v, hasvs |-> hasvs, vs |-> vs]
OptSets == {<<>>,
            <<Opt("o1", "c", TRUE, FALSE, "", FALSE, <<>>)>>,
            <<Opt("o1", "c", FALSE, TRUE, "x", FALSE, <<>>)>>,
            <<Opt("o1", "c", FALSE, TRUE, "0", FALSE, <<>>)>>,
            <<Opt("o1", "g", FALSE, FALSE, "", TRUE, <<"y", "z">>), Opt("o2", "c", TRUE, TRUE, "x", FALSE, <<>>)>>,
            <<Opt("o1", "c", TRUE, FALSE, "", TRUE, <<"x", "0">>), Opt("o2", "g", TRUE, FALSE, "", TRUE, <<"x">>)>>}

VARIABLES now, toks, ops, hist
vars == <<now, toks, ops, hist>>

(* The validator.                                                             *)
RECURSIVE Options(_, _, _)
Options(cl, opts, i) ==
  IF i > Len(opts) THEN ""
  ELSE LET o == opts[i]
           x == M!Get(cl, o.c)
       IN CASE o.ess /\ x.t = "absent" -> "InvalidJWTClaim"
            [] o.hasv /\ (Bug # "falsyvalue" \/ o.v # "0") /\ x.v # o.v -> "InvalidJWTClaim"
            [] o.hasvs /\ x.t = "list" /\ M!Range(x.items) \cap M!Range(o.vs) # {} -> IF Bug = "optskip" THEN "" ELSE Options(cl, opts, i + 1)
            [] o.hasvs /\ x.v \notin M!Range(o.vs) -> "InvalidJWTClaim"
            [] OTHER -> Options(cl, opts, i + 1)
Accept(k, at, zone, opts) ==
  LET t == IF Bug = "local" THEN at + zone ELSE at IN
  CASE k.exp # None /\ (Bug # "falsytime" \/ k.exp # 0) /\ (IF Bug = "inclusive" THEN t > k.exp ELSE t >= k.exp) -> "ExpiredToken"
    [] k.iat # None /\ (IF Bug = "strictiat" THEN t <= k.iat ELSE t < k.iat) -> "InvalidJWTClaim"
    [] k.nbf # None /\ Bug # "nonbf" /\ t < k.nbf -> "NotYetValidToken"
    [] OTHER -> Options(ClaimsOf(k, at), opts, 1)

Ev(k, zone, opts) ==
  LET err == Accept(k, now, zone, opts) IN
  [api |-> "decode", claims |-> ClaimsOf(k, now), opts |-> opts, nonce |-> M!Absent, gray |-> <<>>, ok |-> err = "", err |-> err, jose |-> TRUE,
   same |-> TRUE, without |-> Accept([k EXCEPT !.exp = None, !.nbf = None, !.iat = None], now, zone, opts) = "", exp |-> <<>>, chk |-> FALSE]

Init == now = 0 /\ toks = {} /\ ops = 0 /\ hist = <<>>
Issue(k) == Cardinality(toks) < MaxTok /\ toks' = toks \cup {k} /\ UNCHANGED <<now, ops, hist>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<toks, ops, hist>>
Next == (\E k \in Toks : Issue(k)) \/ Tick
Spec == Init /\ [][Next]_vars

Sound == \A k \in toks, zone \in {-1, 0, 1}, o \in OptSets : M!Judge(Ev(k, zone, o)) = {}
(* A token that expired stays expired; the acceptance of a token without      *)
(* options is an interval of time.                                            *)
StaysExpired == [][\A k \in toks : Accept(k, now, 0, <<>>) = "ExpiredToken" => Accept(k, now', 0, <<>>) = "ExpiredToken"]_vars
ZoneFree == \A k \in toks, o \in OptSets : Accept(k, now, 1, o) = Accept(k, now, 0, o) /\ Accept(k, now, -1, o) = Accept(k, now, 0, o)

(* Histories for replay.                                                      *)
Pick(S) == RandomElement(S)
Note(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
SimNext ==
  /\ ops < MaxOps
  /\ ops' = ops + 1
  /\ \E c \in {Pick(1..6)} :
     IF c = 1 \/ toks = {}
     THEN \E k \in {[exp |-> Pick({None, 0, 1, 2, 3, 5} ), nbf |-> Pick({None, None, 0, 1, 2}), iat |-> Pick({None, None, 0, 1}), c |-> Pick(CVals), g |-> Pick(GVals)]} :
            /\ toks' = toks \cup {Append(<<k>>, Cardinality(toks))}
            /\ now' = now
            /\ Note([op |-> "issue", k |-> k])
     ELSE IF c = 2
     THEN /\ now' = now + 1
          /\ toks' = toks
          /\ Note([op |-> "tick"])
     ELSE \E i \in {Pick(1..Cardinality(toks))}, z \in {Pick({"UTC", "EST5", "IST-5:30", "Pacific/Kiritimati", "Europe/Berlin"})}, o \in {Pick(OptSets)} :
            /\ UNCHANGED <<toks, now>>
            /\ Note([op |-> "present", i |-> i, z |-> z, o |-> o])
SimSpec == Init /\ [][SimNext]_vars
Report == ops < MaxOps \/ ~Hist \/ PrintT("PLAN " \o ToJson([h |-> hist]))
=============================================================================
