------------------------------ MODULE MCDigest ------------------------------
(* All credentials that differ from honest ones in at most Dev respects, for every
   algorithm and quality of protection, at ages around the lifetime of the nonce. *)
EXTENDS Digest, Json, TLCExt
CONSTANTS Dev, Emit, Ages
VARIABLES s, ph, inp
vars == <<s, ph, inp>>
MView == <<s, ph>>
Honest(alg, qop) == [user |-> "u", realm |-> "r", nonce |-> "n", uri |-> "l", resp |-> "y", alg |-> alg, qop |-> qop,
                     nc |-> IF qop = "none" THEN "" ELSE "1", cnonce |-> IF qop = "none" /\ alg \notin Sess THEN "" ELSE "c"]
G(f) == f @@ [meth |-> "m", body |-> "b", pw |-> "p"]
Cred(f, g) == [parses |-> TRUE, f |-> f, g |-> g, meth |-> "m", body |-> "b", pw |-> "p", rtam |-> "no", id |-> "a", tam |-> "no"]
\* single deviations
Devs == {<<"miss", x>> : x \in Need \cup {"nc", "cnonce", "alg"}}
     \cup {<<"other", x>> : x \in {"user", "realm", "uri", "nonce", "alg", "qop", "nc", "cnonce"}}     \* header says something else than was used
     \cup {<<"here", x>> : x \in {"meth", "body", "pw"}}
     \cup {<<"rtam", x>> : x \in {"flip", "short", "long", "empty", "upper"}}
     \cup {<<"tam", x>> : x \in {"flip", "flipmac", "short", "long", "junk", "pad", "empty", "foreign", "swap", "text", "case"}}
     \cup {<<"unk", x>> : x \in {"alg", "qop", "algempty", "algcase"}}
     \cup {<<"bad", x>> : x \in {"nospace", "noeq", "basic", "empty", "scheme", "comma"}}
OtherAlg(a) == IF Kind(a) = "SHA-256" THEN "MD5" ELSE "SHA-256"
OtherQop(q) == IF q = "auth" THEN "auth-int" ELSE "auth"
\* deviations apply in a fixed order; those of one field exclude each other
App(c, d) ==
  CASE d[1] = "miss" -> IF d[2] = "alg" THEN [c EXCEPT !.f.alg = "none"] ELSE [c EXCEPT !.f[d[2]] = ""]
    [] d[1] = "other" -> IF d[2] = "alg" THEN [c EXCEPT !.f.alg = OtherAlg(@)]
                         ELSE IF d[2] = "qop" THEN [c EXCEPT !.f.qop = OtherQop(@), !.f.nc = "1", !.f.cnonce = "c"]
                         ELSE IF d[2] = "nonce" THEN [c EXCEPT !.g.nonce = "n2"]
                         ELSE IF c.f[d[2]] = "" THEN c ELSE [c EXCEPT !.f[d[2]] = @ \o "2"]
    [] d[1] = "here" -> [c EXCEPT ![d[2]] = @ \o "2"]
    [] d[1] = "rtam" -> [c EXCEPT !.rtam = d[2]]
    [] d[1] = "tam" -> [c EXCEPT !.tam = d[2]]
    [] d[1] = "unk" -> IF d[2] = "alg" THEN [c EXCEPT !.f.alg = "SHA-1"] ELSE IF d[2] = "algempty" THEN [c EXCEPT !.f.alg = "empty"]
                       ELSE IF d[2] = "algcase" THEN [c EXCEPT !.f.alg = "Sha-256"] ELSE [c EXCEPT !.f.qop = "auth-conf", !.f.nc = "1", !.f.cnonce = "c"]
    [] d[1] = "bad" -> [c EXCEPT !.parses = FALSE, !.bad = d[2]]
Key(d) == IF d[1] \in {"miss", "other", "here"} THEN d[2] ELSE IF d[1] = "unk" THEN (IF d[2] = "qop" THEN "qop" ELSE "alg") ELSE d[1]
Sets(n) == {D \in SUBSET Devs : Cardinality(D) <= n}
Pairs == {{}} \cup {{d} : d \in Devs} \cup (IF Dev < 2 THEN {} ELSE {{d, e} : d, e \in Devs})
RECURSIVE AppAll(_, _)
AppAll(c, D) == IF D = {} THEN c ELSE LET d == CHOOSE x \in D : TRUE IN AppAll(App(c, d), D \ {d})
Base(alg, qop) == LET f == Honest(alg, qop) IN Cred(f, G(f)) @@ [bad |-> ""]
Init == /\ s = Init0 /\ ph = "start" /\ inp = [in |-> "none"]
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(MView))))
AlgSets == {{a} : a \in Algs} \cup {Algs}
DoIssue == ph = "start" /\ ph' = "issued" /\ \E A \in AlgSets : s' = Issue(s, "a", A, 0) /\ inp' = [in |-> "issue", id |-> "a", algs |-> A]
DoAge == ph = "issued" /\ ph' = "aged" /\ \E d \in Ages : s' = [s EXCEPT !.t = d] /\ inp' = [in |-> "age", dt |-> d]
DoVerify == /\ ph = "aged" /\ ph' = (IF Emit THEN "aged" ELSE "done") /\ s' = s
            /\ \E alg \in Algs, q \in Qops, D \in Pairs :
                 /\ Kind(alg) \in s.iss["a"].algs
                 /\ (s.t # 0 \/ Cardinality(s.iss["a"].algs) > 1) => D = {}
                 /\ \A d, e \in D : d # e => Key(d) # Key(e)
                 /\ LET c == AppAll(Base(alg, q), D) IN inp' = [in |-> "verify", c |-> c, acc |-> Accept(s, c, s.t)]
DoOther == /\ ph = "aged" /\ ph' = (IF Emit THEN "aged" ELSE "done") /\ s' = s        \* honest answer with an algorithm the nonce was not issued for
           /\ \E alg \in Algs, q \in Qops : Kind(alg) \notin s.iss["a"].algs
                /\ LET c == Base(alg, q) IN inp' = [in |-> "verify", c |-> c, acc |-> Accept(s, c, s.t)]
Next == DoIssue \/ DoAge \/ DoVerify \/ DoOther
Spec == Init /\ [][Next]_vars
Did == inp.in = "verify"
\* the guarantees, stated one by one over what the peer sent and knew
Sound == Did /\ inp.acc =>
  LET c == inp.c IN
  /\ s.t - s.iss["a"].t <= VT /\ c.tam = "no" /\ c.rtam = "no" /\ Kind(c.f.alg) \in s.iss["a"].algs /\ c.f.alg \in Algs
  /\ c.pw = c.g.pw /\ c.meth = c.g.meth /\ c.f.uri = c.g.uri /\ c.f.realm = c.g.realm /\ c.f.user = c.g.user /\ c.f.nonce = c.g.nonce
  /\ (c.f.qop = "auth-int" => c.body = c.g.body)
Honests == Did /\ ~inp.acc => s.t > VT \/ Kind(inp.c.f.alg) \notin s.iss["a"].algs \/ ~(inp.c = Base(inp.c.f.alg, inp.c.f.qop))
EmitEdge == Emit => PrintT("EDGE " \o ToJson([a |-> TLCFP(MView), b |-> TLCFP(MView'), e |-> inp']))
=============================================================================
