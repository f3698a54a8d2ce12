------------------------------- MODULE Proxy --------------------------------
(* The stateful proxy (sippy/StatefulProxy.py) on the transaction layer: requests are forwarded
   to one destination and its responses relayed to who asked.  Times in units of 1/Sec s. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sec, Tol
EF == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* tx[rid]: st "open" (forwarded, not finally answered) or "done"; last: the last response relayed; t0: forwarded; tl: finally answered
Init0 == [t |-> 0, tx |-> EF, out |-> <<>>]
Fwd(s, rid, mf) == [s EXCEPT !.out = Append(@, [k |-> "fwd", rid |-> rid, n |-> mf, code |-> 0])]
Rel(s, rid, n, code) == [s EXCEPT !.out = Append(@, [k |-> "rel", rid |-> rid, n |-> n, code |-> code]), !.tx[rid].last = <<n, code>>]
\* responses made by the proxy itself have number 0
Request(s, e) ==
  LET s1 == [s EXCEPT !.tx = Upd(@, e.rid, [st |-> "open", last |-> <<>>, dl |-> s.t + 32 * Sec, end |-> -1])] IN
  IF e.mf # -1 /\ e.mf <= 1 THEN Rel([s1 EXCEPT !.tx[e.rid].st = "done", !.tx[e.rid].end = s.t], e.rid, 0, 483)
  ELSE Fwd(s1, e.rid, IF e.mf = -1 THEN 70 ELSE e.mf - 1)
\* a retransmitted request is answered with the last response, if there is one (and is not passed on)
Again(s, e) ==
  LET x == s.tx[e.rid] IN
  IF x.last = <<>> THEN s ELSE [s EXCEPT !.out = Append(@, [k |-> "rel", rid |-> e.rid, n |-> x.last[1], code |-> x.last[2]])]
Response(s, e) ==
  LET x == s.tx[e.rid] IN
  IF x.st # "open" THEN s
  ELSE LET s1 == Rel(s, e.rid, e.n, e.code) IN
       IF e.code >= 200 THEN [s1 EXCEPT !.tx[e.rid].st = "done", !.tx[e.rid].end = s.t]
       ELSE [s1 EXCEPT !.tx[e.rid].dl = s.t + 32 * Sec]
Due(s) == {r \in DOMAIN s.tx : s.tx[r].st = "open" /\ s.tx[r].dl <= s.t + Tol}
RECURSIVE Silent(_, _)
Silent(s, R) == IF R = {} THEN s ELSE LET r == CHOOSE r \in R : \A q \in R : s.tx[r].dl < s.tx[q].dl \/ (s.tx[r].dl = s.tx[q].dl /\ r <= q) IN
                Silent(Rel([s EXCEPT !.tx[r].st = "done", !.tx[r].end = s.t], r, 0, 408), R \ {r})
Step(s0, e) ==
  LET s == [s0 EXCEPT !.t = e.t, !.out = <<>>] IN
  CASE e.in = "req" -> Request(s, e)
    [] e.in = "again" -> Again(s, e)
    [] e.in = "resp" -> Response(s, e)
    [] e.in = "tick" -> Silent(s, Due(s))
    \* whoever claims more of a body than there is is told so, each time, and that is all
    [] e.in = "short" -> [s EXCEPT !.out = <<[k |-> "rel", rid |-> e.rid, n |-> 0, code |-> 400]>>]
    \* what is no message, answers nothing, or says it is somebody else's: nothing at all happens
    [] OTHER -> s
=============================================================================
