----------------------------- MODULE TRegAgent ------------------------------
EXTENDS RegAgent, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
\* silence ends when the failure is reported (or the last resort: long after)
Ev(e) == IF e.in # "tick" THEN e ELSE [to |-> s.st = "wait" /\ e.t >= s.dl - Tol] @@ e
Same(q, o) == Len(q) = Len(o) /\ \A i \in 1..Len(q) : q[i].cs = o[i].cs /\ q[i].w = o[i].w /\ q[i].p = o[i].p
\* q[i].good: one Call-ID and From tag throughout, a fresh branch, the asked interval, at the right address, nothing stale in it
Good(q) == \A i \in 1..Len(q) : q[i].good
Close(a, b) == a - Tol <= b /\ b <= a + Tol
CbOk(q, o) == Len(q) = Len(o) /\ \A i \in 1..Len(q) : q[i].ok = o[i].ok /\ q[i].txt = o[i].txt /\ q[i].arg /\ (o[i].ok => Close(q[i].at, o[i].at))
Late(e) == s.st = "idle" /\ ~s.dead /\ s.at # Off /\ s.at + Tol < e.t
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].cfg)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == TLCEval(Step(s, Ev(e)))
     IN IF ~Late(e) /\ Same(e.snd, x.snd) /\ Good(e.snd) /\ CbOk(e.cb, x.cb) /\ e.exc = ""
        THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
        ELSE PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [snd |-> x.snd, cb |-> x.cb, late |-> Late(e), st |-> s.st, at |-> s.at], got |-> [snd |-> e.snd, cb |-> e.cb, exc |-> e.exc]])) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
