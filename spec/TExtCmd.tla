------------------------------ MODULE TExtCmd ------------------------------
(* Trace validation for ExtCmd.  The internal steps of worker w may only happen in a
   slice in which it ran. *)
EXTENDS ExtCmd, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s, cur      \* cur: worker of the last slice
vars == <<tr, l, s, cur>>
Range(q) == {q[i] : i \in 1..Len(q)}
Ok(e) ==
  CASE e.in = "spawn"  -> e.ok /\ s.w[e.w].st = "new"
    [] e.in = "write"  -> CanWrite(s, e.w, e.id, e.lines) /\ e.clean
    [] e.in = "result" -> CanResult(s, e.id, e.lines, Range(e.w)) /\ e.p2 = "p2"
    [] e.in = "exit"   -> CanExit(s, e.w) /\ e.exc = ""
    [] e.in = "quiet"  -> Quiet(s, e.alive)
    [] OTHER -> TRUE
Step(e) ==
  CASE e.in = "spawn"  -> [s EXCEPT !.w[e.w].st = "idle"]
    [] e.in = "submit" -> Submit(s, e.id, e.lines, e.ans)
    [] e.in = "write"  -> Write(s, e.w)
    [] e.in = "result" -> Result(s, e.id)
    [] e.in = "shutdown" -> [s EXCEPT !.down = TRUE]
    [] e.in = "exit"   -> Exit(s, e.w)
    [] OTHER -> s
\* internal steps, taken right after the slice event of the worker
Hidden == cur >= 0 /\ UNCHANGED <<tr, l, cur>> /\ CanTake(s, cur) /\ s' = Take(s, cur)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].workers) /\ cur = -1
Visible ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l] IN
     IF Ok(e) THEN /\ (IF e.in = "cancel" THEN s' \in Cancel(s, e.id) ELSE s' = Step(e)) /\ l' = l + 1 /\ tr' = tr /\ cur' = IF e.in = "slice" THEN e.w ELSE -1
                   /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> s, got |-> e]))
          /\ FALSE
Next == Visible \/ Hidden
Spec == Init /\ [][Next]_vars
===========================================================================
