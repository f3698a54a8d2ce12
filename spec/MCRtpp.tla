------------------------------- MODULE MCRtpp -------------------------------
(* The proxy client closed with an environment: users asking, a network that loses,
   delays, repeats and reorders answers, a proxy that accepts or refuses, time. *)
EXTENDS Rtpp, Json, TLCExt
CONSTANTS MaxSteps, MaxCmds, Emit, Kinds
VARIABLES s, n, inp, h
vars == <<s, n, inp, h>>
Bnd(x, k) == Bind(x, [i \in 1..Len(x.out) |-> k + i])
Start(nvc) == Bnd(Step(Init0, [in |-> "start", t |-> 0, nvc |-> nvc]), 0)
RECURSIVE Answers(_, _, _)
Answers(x, i, last) == IF i > last THEN x
  ELSE LET r == Step(x, [in |-> "reply", t |-> x.t + 1, ck |-> i, txt |-> IF i = 1 THEN Good ELSE "1"]) IN Answers(Bnd(r, last), i + 1, IF Len(r.out) > 1 THEN last + Len(r.out) ELSE last)
\* the proxy has just come online: the first health check is out (cookie 8)
Up == Answers(Start(FALSE), 1, 1)
Last(x) == LET S == DOMAIN x.pend IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Deadlines == {s.pend[k].nx : k \in DOMAIN s.pend} \cup {w.lo : w \in {s.hb, s.vc} \ {NoWin}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
X0 == NoNext
CmdTxt(k, i) == k \o ToString(i)
Users(c) == {[in |-> "cmd", t |-> s.t, id |-> c + 1, c |-> CmdTxt(k, c + 1), kind |-> k, nr |-> -1, x |-> X0, quiet |-> q] : k \in Kinds, q \in {FALSE, c % 2 = 1}}
            \cup {[in |-> "cmd", t |-> s.t, id |-> c + 1, c |-> CmdTxt("o", c + 1), kind |-> "o", nr |-> 2, quiet |-> FALSE, x |-> [id |-> c + 2, c |-> CmdTxt("o", c + 2), kind |-> "o", nr |-> -1]]}
\* the answers that matter to what was asked; all capability queries are alike: the earliest is answered first
First(k) == \A j \in DOMAIN s.pend : j < k => s.pend[j].k # "F"
Reps == UNION {LET p == s.pend[k] IN {[in |-> "reply", t |-> s.t + 1, ck |-> k, txt |-> x, c |-> p.c] :
                                      x \in IF p.k = "V" THEN {Good, "20040108"} ELSE IF p.k = "F" THEN (IF First(k) THEN {"1"} ELSE {}) ELSE IF p.k = "I" THEN {"active sessions: 1"} ELSE {"0", "E5"}} : k \in DOMAIN s.pend}
Ticks == IF Deadlines = {} THEN {} ELSE LET t == Min(Deadlines) IN
         {[in |-> "tick", t |-> t, hb |-> s.hb.lo = t, vc |-> s.vc.lo = t]}
Stale == IF h.gone = {} THEN {} ELSE {[in |-> "reply", t |-> s.t + 1, ck |-> k, txt |-> "0", c |-> ""] : k \in {Min(h.gone)}}
Inputs == (IF s.shut \/ h.cmds >= MaxCmds THEN {} ELSE Users(h.cmds))
          \cup (IF s.shut THEN {} ELSE (IF \E t \in Deadlines : t <= s.t + 1 THEN {} ELSE Reps \cup Stale) \cup {[in |-> "shutdown", t |-> s.t]})
          \cup Ticks
H0 == [cmds |-> 0, quiet |-> {}, res |-> EF, gone |-> {}, lastI |-> -9999, fastI |-> FALSE, ver |-> FALSE, sends |-> EF, next |-> 0, nx |-> EF]
Bump(f, k) == Upd(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)
Hist(e, x, y) ==
  LET hv == IF e.in = "reply" /\ e.ck \in DOMAIN s.pend /\ s.pend[e.ck].k = "V" THEN e.txt = Good ELSE IF s.on /\ ~x.on THEN FALSE ELSE h.ver
      I == \E p \in Rng(x.out) : p.k = "I"
  IN [h EXCEPT !.cmds = @ + (IF e.in = "cmd" THEN (IF e.x.id # 0 THEN 2 ELSE 1) ELSE 0),
               !.quiet = @ \cup (IF e.in = "cmd" THEN (IF e.quiet THEN {e.id} ELSE {}) ELSE {}),
               !.res = Fold(LAMBDA f, d : Bump(f, d.id), @, x.done),
               !.gone = @ \cup (DOMAIN s.pend \ DOMAIN y.pend), !.ver = hv,
               !.lastI = IF I THEN e.t ELSE @, !.fastI = @ \/ (I /\ s.on /\ e.t - h.lastI < (9 * Sec) \div 10),
               !.sends = Fold(Bump, @, [i \in 1..Len(x.out) |-> x.out[i].c]), !.next = @ + Len(x.out)]
C0 == [in |-> "cfg", up |-> FALSE, nvc |-> FALSE]
Init == /\ \E c \in {C0, [C0 EXCEPT !.up = TRUE], [C0 EXCEPT !.nvc = TRUE]} :
              s = (IF c.up THEN Up ELSE Start(c.nvc)) /\ inp = c /\ h = [H0 EXCEPT !.ver = c.up \/ c.nvc, !.next = IF c.up THEN 8 ELSE IF c.nvc THEN 0 ELSE 1]
        /\ n = 0
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<"start">>))))
EView == IF n = 0 THEN <<"start">> ELSE <<[s EXCEPT !.out = <<>>, !.re = {}, !.done = <<>>, !.t = 0], n>>
Next == IF Emit /\ n = 0 THEN n' = 1 /\ inp' = [in |-> "cfg", up |-> inp.up, nvc |-> inp.nvc] /\ UNCHANGED <<s, h>>
        ELSE /\ n < MaxSteps
             /\ \E e \in Inputs :
                  LET x == TLCEval(Step(s, e))
                      y == TLCEval(Bnd(x, h.next)) IN
                  /\ s' = y /\ inp' = e /\ n' = n + 1 /\ h' = TLCEval(Hist(e, x, y))
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'), e |-> inp']))
\* ---- guarantees
UserIds == {s.pend[k].id : k \in {k \in DOMAIN s.pend : s.pend[k].k = "u"}}
Nested == {s.pend[k].x.id : k \in DOMAIN s.pend} \ {0}
R02 == /\ \A i \in DOMAIN h.res : h.res[i] = 1 /\ i \notin UserIds
       /\ \A i \in 1..h.cmds : i \in DOMAIN h.res \/ i \in UserIds \/ i \in Nested \/ i \in h.quiet \/ s.shut
       /\ \A k \in DOMAIN s.pend : s.pend[k].left >= 0 /\ s.pend[k].nx > s.t - Tol
       /\ s.failed => ~s.on \/ s.shut \/ \E p \in Rng(s.out) : p.k = "I"     \* the last unanswered capability query ends the query, and brings the proxy online
\* there is always exactly one thing that will decide what the proxy is next
Deciders == Cardinality({k \in DOMAIN s.pend : s.pend[k].k = "V"}) + (IF s.capn > 0 THEN 1 ELSE 0) + (IF s.vc # NoWin THEN 1 ELSE 0)
            + (IF s.on /\ (s.hb # NoWin \/ \E k \in DOMAIN s.pend : s.pend[k].k = "I") THEN 1 ELSE 0)
R04 == /\ s.on => h.ver \/ s.shut
       /\ ~s.shut => (Deciders = 1 \/ (s.nvc /\ Deciders = 0))
       /\ Cardinality({k \in DOMAIN s.pend : s.pend[k].k = "I"}) + (IF s.hb # NoWin THEN 1 ELSE 0) <= 1
       /\ Cardinality({k \in DOMAIN s.pend : s.pend[k].k = "F"}) = s.capn
       /\ ~h.fastI
=============================================================================
