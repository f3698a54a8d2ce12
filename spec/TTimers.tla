------------------------------ MODULE TTimers ------------------------------
(* Trace validation for Timers: events mk, cancel, fire, begin, end, brk with the time `at`. *)
EXTENDS Timers, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
Ok(e) ==
  CASE e.in = "fire"  -> CanFire(s, e.id, e.at) /\ e.args
    [] e.in = "end"   -> CanEnd(s)
    [] e.in = "quiet" -> e.timers = Cardinality(Act(s))
    [] OTHER -> TRUE
Step(e) ==
  CASE e.in = "mk"     -> Made(s, e.id, e.due, e.hi, e.per, e.n, e.pr)
    [] e.in = "cancel" -> Cancelled(s, e.id)
    [] e.in = "fire"   -> Fired(s, e.id)
    [] e.in = "begin"  -> PassBegin(s, e.at)
    [] e.in = "end"    -> PassEnd(s)
    [] e.in = "brk"    -> [s EXCEPT !.brk = TRUE]
    [] OTHER -> s
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l] IN
     IF Ok(e) THEN /\ s' = Step(e) /\ l' = l + 1 /\ tr' = tr
                   /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [armed |-> [i \in Act(s) |-> s.t[i]]], got |-> e]))
          /\ FALSE
Spec == Init /\ [][Next]_vars
===========================================================================
