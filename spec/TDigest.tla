------------------------------ MODULE TDigest ------------------------------
EXTENDS Digest, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
Range(q) == {q[i] : i \in 1..Len(q)}
Ok(e) ==
  CASE e.in = "issue" -> e.err = ""
    [] e.in = "validate" -> e.err = "" /\ e.res = Good(s, e.id, e.tam, Range(e.algs), e.t)
    [] e.in = "verify" -> e.err = "" /\ e.res = Accept(s, e.c, e.t)
    [] e.in = "support" -> e.err = "" /\ [ok |-> e.res, qop |-> e.qop] = Support(e.alg, e.qops)
    [] OTHER -> TRUE
Step(e) == IF e.in = "issue" THEN Issue(s, e.id, Range(e.algs), e.t) ELSE s
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l] IN
     IF Ok(e) THEN s' = Step(e) /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> (IF e.in = "support" THEN [accept |-> Support(e.alg, e.qops).ok] ELSE IF e.in = "verify" THEN [accept |-> Accept(s, e.c, e.t)] ELSE IF e.in = "issue" THEN [accept |-> TRUE] ELSE [accept |-> Good(s, e.id, e.tam, Range(e.algs), e.t)]), got |-> e]))
          /\ FALSE
Spec == Init /\ [][Next]_vars
===========================================================================
