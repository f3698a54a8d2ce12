------------------------------ MODULE MCProxy -------------------------------
(* The stateful proxy closed with an environment: clients that repeat themselves, a destination
   that answers in any order, more than once or never, and datagrams that make no sense. *)
EXTENDS Proxy, Json, TLCExt
CONSTANTS MaxReq, MaxResp, MaxSteps, Emit
VARIABLES s, n, inp, h
vars == <<s, n, inp, h>>
Rids == DOMAIN s.tx
Cnt(r) == h[r].resp
Open == {r \in Rids : s.tx[r].st = "open"}
First == CHOOSE r \in Open : \A q \in Open : s.tx[r].dl < s.tx[q].dl \/ (s.tx[r].dl = s.tx[q].dl /\ r <= q)
\* nothing is due yet
Early == \A r \in Open : s.tx[r].dl > s.t + 1
Inputs ==
  (IF ~Early THEN {} ELSE
   (IF Cardinality(DOMAIN h) < MaxReq THEN {[in |-> "req", t |-> s.t + 1, rid |-> Cardinality(DOMAIN h) + 1, mf |-> m] : m \in {-1, 0, 1, 2, 70}}
                                   \cup {[in |-> "short", t |-> s.t + 1, rid |-> Cardinality(DOMAIN h) + 1]} ELSE {})
  \cup {[in |-> "again", t |-> s.t + 1, rid |-> r] : r \in Rids}
  \cup {[in |-> "short", t |-> s.t + 1, rid |-> r] : r \in {r \in Rids : h[r].fwd > 0}}
  \cup {[in |-> "resp", t |-> s.t + 1, rid |-> r, n |-> Cnt(r) + 1, code |-> c] : r \in {r \in Rids : h[r].fwd > 0 /\ h[r].resp < MaxResp}, c \in {100, 183, 200, 404}}
  \cup {[in |-> "dup", t |-> s.t + 1, rid |-> r] : r \in {r \in Rids : h[r].resp > 0}} \cup {[in |-> "bad", t |-> s.t + 1]})
  \cup (IF Open = {} THEN {} ELSE {[in |-> "tick", t |-> s.tx[First].dl - 1], [in |-> "tick", t |-> s.tx[First].dl]})
\* what was seen of each request: how often it was passed on, the finals its client got (but for repeats on request), when it was last heard of
H0 == [fwd |-> 0, fin |-> 0, own |-> 0, resp |-> 0, heard |-> 0, bad |-> FALSE, mf |-> 0]
Num(q, k, r, P(_)) == Cardinality({i \in 1..Len(q) : q[i].k = k /\ q[i].rid = r /\ P(q[i])})
Hist(e, x) ==
  LET h1 == IF e.in = "req" THEN Upd(h, e.rid, [H0 EXCEPT !.heard = e.t, !.mf = e.mf]) ELSE IF e.in = "short" /\ e.rid \notin DOMAIN h THEN Upd(h, e.rid, [H0 EXCEPT !.bad = TRUE]) ELSE h
      any(o) == TRUE
      fin(o) == o.code >= 200
      own(o) == o.code = 408
      self(o) == o.n = 0 /\ o.code # 483 /\ o.code # 408
  IN [r \in DOMAIN h1 |-> [h1[r] EXCEPT !.fwd = @ + Num(x.out, "fwd", r, any), !.fin = IF e.in \in {"again", "short"} THEN @ ELSE @ + Num(x.out, "rel", r, fin),
                                        !.own = IF e.in \in {"again", "short"} THEN @ ELSE @ + Num(x.out, "rel", r, own),
                                        !.resp = IF e.in = "resp" /\ e.rid = r THEN @ + 1 ELSE @,
                                        !.heard = IF e.in = "resp" /\ e.rid = r THEN e.t ELSE @,
                                        !.bad = @ \/ (e.in # "short" /\ Num(x.out, "rel", r, self) > 0)]]
Init == /\ s = Init0 /\ n = 0 /\ inp = [in |-> "cfg"] /\ h = EF
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<"start">>))))
Tx == [r \in Rids |-> [s.tx[r] EXCEPT !.dl = @ - s.t, !.end = 0]]
EView == IF n = 0 THEN <<"start">> ELSE <<[r \in Rids |-> [Tx[r] EXCEPT !.dl = 0]], DOMAIN h, [r \in DOMAIN h |-> h[r].resp]>>
MView == <<Tx, [r \in DOMAIN h |-> [h[r] EXCEPT !.heard = s.t - @]], s.out, n>>
Next == /\ n < MaxSteps
        /\ \E e \in Inputs : LET x == TLCEval(Step(s, e)) IN s' = x /\ inp' = e /\ n' = n + 1 /\ h' = TLCEval(Hist(e, x))
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'), e |-> inp']))
\* ---- guarantees
\* passed on once if it may go on, one final at most, and one of the proxy's own only after silence
C05 == \A r \in Rids : /\ h[r].fwd = (IF h[r].mf \in {0, 1} THEN 0 ELSE 1)
                       /\ h[r].fin <= 1 /\ (s.tx[r].st = "done") = (h[r].fin = 1)
                       /\ (\A i \in 1..Len(s.out) : s.out[i].k = "rel" /\ s.out[i].rid = r /\ s.out[i].code = 408 /\ inp.in = "tick" => s.t - h[r].heard >= 32 * Sec)
                       /\ (s.tx[r].st = "open" => s.t - h[r].heard < 32 * Sec)
\* whatever makes no sense changes nothing; a request short of its body is refused and goes nowhere
S07 == /\ inp.in = "bad" => s.out = <<>>
       /\ inp.in = "short" => Len(s.out) = 1 /\ s.out[1].code = 400
       /\ \A r \in DOMAIN h : r \notin Rids => h[r].fwd = 0 /\ h[r].fin = 0
Quiet == [][inp'.in \in {"bad", "short"} => s'.tx = s.tx]_vars
=============================================================================
