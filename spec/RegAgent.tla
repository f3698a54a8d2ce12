------------------------------ MODULE RegAgent ------------------------------
(* The registration agent (sippy/SipRegistrationAgent.py): one REGISTER at a time, renewed
   when the granted interval is over, tried again a minute after a failure, with answers
   to the registrar's authentication challenges.  Times in units of 1/Sec s. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sec, Tol
Off == -1
RECURSIVE FirstIx(_, _)
FirstIx(P(_), q) == IF q = <<>> THEN 0 ELSE IF P(Head(q)) THEN 1 ELSE LET i == FirstIx(P, Tail(q)) IN IF i = 0 THEN 0 ELSE i + 1
\* cfg: creds - a user name and a password are known; exp - the interval asked for; stop - "ok"/"fail": the callback of that kind stops the agent
Init0(cfg) == [cfg |-> cfg, t |-> 0, st |-> "new", at |-> Off, cs |-> Off, tries |-> 0, w |-> 0, p |-> 0, dead |-> FALSE, dl |-> Off, snd |-> <<>>, cb |-> <<>>]
Clear(s) == [s EXCEPT !.snd = <<>>, !.cb = <<>>]
\* a REGISTER goes out; w, p: the challenge of the registrar (of a proxy) it answers, 0: none
Send(s) == IF s.dead THEN s
           ELSE [s EXCEPT !.st = "wait", !.at = Off, !.cs = @ + 1, !.dl = s.t + 32 * Sec, !.snd = Append(@, [cs |-> s.cs + 1, w |-> s.w, p |-> s.p])]
Report(s, ok, at, txt) == [s EXCEPT !.cb = Append(@, [ok |-> ok, at |-> at, txt |-> txt]), !.dead = @ \/ (s.cfg.stop = IF ok THEN "ok" ELSE "fail")]
\* the interval the registrar grants: that of our own binding among those it lists, or of the answer
Own(c) == c.own
Granted(s, r) ==
  LET i == FirstIx(Own, r.cts)
      c == IF i > 0 THEN r.cts[i] ELSE IF r.cts # <<>> THEN r.cts[1] ELSE [own |-> FALSE, exp |-> Off, id |-> ""]
  IN [exp |-> IF c.exp # Off THEN c.exp ELSE IF r.hexp # Off THEN r.hexp ELSE s.cfg.exp, id |-> IF r.cts = <<>> THEN "" ELSE c.id]
Success(s, r) == LET g == Granted(s, r) at == s.t + g.exp * Sec IN
  Report([s EXCEPT !.st = "idle", !.at = at, !.tries = 0], TRUE, at, g.id)
Fail(s, txt) == Report([s EXCEPT !.st = "idle", !.at = s.t + 60 * Sec, !.tries = 0], FALSE, Off, txt)
Challenge(s, r) == Send([s EXCEPT !.tries = @ + 1, !.w = IF r.code = 401 THEN r.ch ELSE @, !.p = IF r.code = 407 THEN r.ch ELSE @])
\* r.ch: the challenge in the answer (0: none it can answer)
Answer(s, r) ==
  IF s.dead THEN [s EXCEPT !.st = IF r.code >= 200 THEN "idle" ELSE @]
  ELSE IF r.code < 200 THEN [s EXCEPT !.dl = s.t + 32 * Sec]
  ELSE IF r.code < 300 THEN Success(s, r)
  ELSE IF r.code \in {401, 407} /\ r.ch # 0 /\ s.cfg.creds /\ s.tries < 3 THEN Challenge(s, r)
  ELSE Fail(s, r.sl)
\* e.to: the registrar has been silent for too long (decided below, by the transaction)
Tick(s, e) ==
  IF s.st = "wait" THEN (IF e.to THEN (IF s.dead THEN [s EXCEPT !.st = "idle"] ELSE Fail(s, "408 Request Timeout")) ELSE s)
  ELSE IF s.st = "idle" /\ s.at # Off /\ s.at <= s.t + Tol THEN Send([s EXCEPT !.at = Off]) ELSE s
Step(s0, e) ==
  LET s == [Clear(s0) EXCEPT !.t = e.t] IN
  CASE e.in = "start" -> Send(s)
    [] e.in = "resp" -> IF s.st = "wait" /\ e.r.cs = s.cs THEN Answer(s, e.r) ELSE s
    [] e.in = "tick" -> Tick(s, e)
    [] e.in = "stop" -> [s EXCEPT !.dead = TRUE]
    [] OTHER -> s
=============================================================================
