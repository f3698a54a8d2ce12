------------------------------- MODULE TCodec -------------------------------
EXTENDS Codec, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
\* e.out: the marks found on each part written; e.same: but for them each part means what it meant when it was received
Same(q, o) == Len(q) = Len(o) /\ \A i \in 1..Len(q) : {q[i][j] : j \in 1..Len(q[i])} = o[i]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].parts)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == TLCEval(Step(s, e))
     IN IF Same(e.out, x.out) /\ e.same /\ e.exc = ""
        THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
        ELSE PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [out |-> x.out, same |-> TRUE], got |-> [out |-> e.out, same |-> e.same, exc |-> e.exc]])) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
