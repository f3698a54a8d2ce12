----------------------------- MODULE MCRegAgent -----------------------------
(* The registration agent closed with an environment: every sequence of answers of a
   registrar (and a proxy before it), silence, and being stopped. *)
EXTENDS RegAgent, Json, TLCExt
CONSTANTS MaxSteps, Emit
VARIABLES s, n, inp, h
vars == <<s, n, inp, h>>
C(own, exp) == [own |-> own, exp |-> exp, id |-> IF own THEN "me" ELSE "oth"]
R0 == [code |-> 200, cs |-> 0, sl |-> "", hexp |-> Off, ch |-> 0, cts |-> <<>>]
Answers == {[R0 EXCEPT !.code = 100], [R0 EXCEPT !.cts = <<C(TRUE, 30)>>], [R0 EXCEPT !.cts = <<C(FALSE, 300), C(TRUE, 7)>>], [R0 EXCEPT !.hexp = 50],
            [R0 EXCEPT !.cts = <<C(FALSE, 20)>>], R0, [R0 EXCEPT !.code = 401, !.ch = h.ch + 1], [R0 EXCEPT !.code = 407, !.ch = h.ch + 1], [R0 EXCEPT !.code = 401], [R0 EXCEPT !.code = 503]}
Inputs ==
  IF s.st = "new" THEN {[in |-> "start", t |-> 0]}
  ELSE (IF s.st # "wait" THEN {} ELSE {[in |-> "resp", t |-> s.t + 1, r |-> [a EXCEPT !.cs = s.cs]] : a \in Answers}
                                      \cup {[in |-> "tick", t |-> s.dl, to |-> TRUE]})
       \cup (IF s.cs > 0 /\ ~h.stale THEN {[in |-> "resp", t |-> s.t + 1, r |-> [R0 EXCEPT !.cs = s.cs - 1]]} ELSE {})
       \cup (IF s.st = "idle" /\ s.at # Off THEN {[in |-> "tick", t |-> s.at - 1, to |-> FALSE], [in |-> "tick", t |-> s.at, to |-> FALSE]} ELSE {})
       \cup (IF s.dead THEN {} ELSE {[in |-> "stop", t |-> s.t]})
H0 == [ch |-> 0, stale |-> FALSE, row |-> 0, fin |-> 0, rep |-> 0, due |-> Off, sent |-> 0, early |-> FALSE, after |-> FALSE]
Hist(e, x) ==
  LET fin == e.in = "resp" /\ e.r.cs = s.cs /\ s.st = "wait" /\ e.r.code >= 200
      silent == e.in = "tick" /\ s.st = "wait" /\ e.to
      answered == fin /\ e.r.ch # 0 /\ x.snd # <<>>
  IN [h EXCEPT !.ch = IF e.in = "resp" /\ e.r.ch # 0 THEN @ + 1 ELSE @, !.stale = @ \/ (e.in = "resp" /\ e.r.cs # s.cs),
               !.row = IF answered THEN @ + 1 ELSE IF fin \/ silent THEN 0 ELSE @,
               !.fin = @ + (IF (fin \/ silent) /\ ~answered /\ ~s.dead THEN 1 ELSE 0), !.rep = @ + Len(x.cb), !.sent = @ + Len(x.snd),
               !.due = IF fin /\ ~answered /\ e.r.code < 300 THEN x.at ELSE IF fin \/ silent THEN e.t + 60 * Sec ELSE @,
               !.early = @ \/ (e.in = "tick" /\ x.snd # <<>> /\ e.t < h.due), !.after = @ \/ (s.dead /\ (x.snd # <<>> \/ x.cb # <<>>))]
Cfgs == {[creds |-> c, exp |-> 180, stop |-> st] : c \in BOOLEAN, st \in {"", "ok", "fail"}}
Init == /\ \E c \in Cfgs : s = Init0(c)
        /\ n = 0 /\ inp = [in |-> "cfg", cfg |-> s.cfg] /\ h = H0
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<"start">>))))
EView == IF n = 0 THEN <<"start">> ELSE <<[s EXCEPT !.snd = <<>>, !.cb = <<>>, !.t = 0, !.at = IF @ = Off THEN Off ELSE @ - s.t, !.dl = IF s.st = "wait" THEN @ - s.t ELSE 0], h.stale, IF Emit THEN 0 ELSE n>>
MView == <<[s EXCEPT !.t = 0, !.at = IF @ = Off THEN Off ELSE @ - s.t, !.dl = IF s.st = "wait" THEN @ - s.t ELSE 0], [h EXCEPT !.due = IF @ = Off THEN Off ELSE @ - s.t], n>>
Next == IF Emit /\ n = 0 THEN n' = 1 /\ inp' = [in |-> "cfg", cfg |-> s.cfg] /\ UNCHANGED <<s, h>>
        ELSE /\ n < MaxSteps
             /\ \E e \in Inputs : LET x == TLCEval(Step(s, e)) IN s' = x /\ inp' = e /\ n' = n + 1 /\ h' = TLCEval(Hist(e, x))
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'), e |-> inp']))
\* ---- guarantees
C04 == /\ h.row <= 3 /\ (s.cfg.creds \/ h.row = 0)
       /\ h.rep = h.fin                      \* every final outcome reported, once
       /\ ~h.early /\ ~h.after
       /\ s.cs = h.sent - 1
       /\ ~s.dead /\ s.st # "new" => (s.st = "wait") # (s.at # Off)      \* waiting for an answer, or for the next time: never neither
=============================================================================
