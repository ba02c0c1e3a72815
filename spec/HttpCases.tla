------------------------------- MODULE HttpCases -------------------------------
(* The kinds of messages: which headers, URLs, parameters, bodies and ways of  *)
(* delivery are combined.  Concrete texts are chosen by the driver; what is    *)
(* expected of them is said by HttpMonitor alone.                              *)
EXTENDS CaseSpace, TLC, Json

CONSTANTS Area, MaxDev

AuthDims == <<D("op", <<"basic", "bearer">>),
              D("via", <<"dict", "request", "starlette">>),
              D("key", <<"Authorization", "authorization", "AUTHORIZATION", "aUTHORIZATION">>),
              D("scheme", <<"Title", "lower", "upper", "mixed", "cross", "other", "longer", "absent">>),
              D("sep", <<"one", "many", "tab", "none">>),
              D("payload", <<"plain", "colon", "colons", "nosecret", "noid", "onlycolon", "nocolon", "unicode", "space", "spaces", "slash", "long", "badb64", "badpad", "notutf8", "empty", "odd">>)>>
AddDims == <<D("op", <<"add", "redirect">>),
             D("base", <<"plain", "path", "port", "user", "escaped", "bare", "scheme", "ipv6", "root", "dir", "upper", "dslash">>),
             D("old", <<"none", "one", "blank", "escaped", "bareq", "dup", "amp", "nested", "bracket">>),
             D("new", <<"one", "none", "reserved", "unicode", "space", "plus", "percent", "blank", "int", "zero", "false", "many", "url", "null", "sameasold", "newline", "nul">>),
             D("name", <<"plain", "reserved", "unicode">>)>>
ResponseDims == <<D("cls", <<"plain", "json", "redirect">>),
                  D("via", <<"object", "starlette">>),
                  D("status", <<"200", "400", "401", "302", "500", "default">>),
                  D("headers", <<"none", "one", "several", "type", "typelower", "empty", "null">>),
                  D("body", <<"text", "none", "empty", "bytes", "unicode", "object", "nested", "list", "zero", "big">>)>>
RequestDims == <<D("via", <<"direct", "starlette">>),
                 D("method", <<"POST", "GET", "post", "get">>),
                 D("path", <<"plain", "root", "deep", "escaped", "none">>),
                 D("user", <<"some", "none", "falsy">>),
                 D("headers", <<"one", "none", "several", "upper", "empty", "auth", "form">>),
                 D("body", <<"form", "none", "empty", "nothing">>),
                 D("query", <<"fields", "none", "bare">>),
                 D("frag", <<"none", "fields", "same", "reserved">>),
                 D("q", <<"plain", "reserved", "unicode", "dup", "blank", "noname", "many", "long", "same", "spaces", "control", "hex", "semi", "names">>),
                 D("f", <<"plain", "reserved", "unicode", "dup", "blank", "noname", "many", "long", "same", "spaces", "control", "hex", "semi", "names">>)>>
Dims == CASE Area = "auth" -> AuthDims [] Area = "add" -> AddDims [] Area = "response" -> ResponseDims [] Area = "request" -> RequestDims
All == {Dims[i].n : i \in DOMAIN Dims}

Init == SpaceInit(Dims)
Next == SpaceNext(Dims, MaxDev, All, {"op", "via", "cls"} \cap All)
Spec == Init /\ [][Next]_cvars
Report == PrintT("CASE " \o ToJson(case))
=============================================================================
