------------------------------- MODULE TProxy -------------------------------
EXTENDS Proxy, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
\* o.good: but for the Via added (removed) and Max-Forwards what goes out is what came in, and it goes to the destination (to who asked)
Same(q, o) == Len(q) = Len(o) /\ \A i \in 1..Len(q) : \E j \in 1..Len(o) : q[i].k = o[j].k /\ q[i].rid = o[j].rid /\ q[i].n = o[j].n /\ q[i].code = o[j].code /\ q[i].good
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i].rid # q[j].rid \/ q[i].k # q[j].k
Late(e) == \E r \in DOMAIN s.tx : s.tx[r].st = "open" /\ s.tx[r].dl + Tol < e.t
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == TLCEval(Step(s, e))
     IN IF ~Late(e) /\ Same(e.out, x.out) /\ Distinct(e.out) /\ e.exc = ""
        THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
        ELSE PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [out |-> x.out, late |-> Late(e)], got |-> [out |-> e.out, exc |-> e.exc]])) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
