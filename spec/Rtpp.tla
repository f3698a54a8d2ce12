-------------------------------- MODULE Rtpp --------------------------------
(* The client of one RTP proxy over UDP (sippy/Rtp_proxy/client.py, Client/udp.py):
   commands with cookies, retransmission with doubling intervals, one result each; and
   the state of the proxy as its answers to version and health checks show it.
   Times are in units of 1/Sec s.  Step(s, e) gives the state after one input; the
   commands it makes the client send are in s.out (descriptors), Bind gives them cookies. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sec, Tol
EF == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Fold(_, _, _)
Fold(F(_, _), z, q) == IF q = <<>> THEN z ELSE Fold(F, F(z, Head(q)), Tail(q))
Off == -1
NoWin == [lo |-> Off, hi |-> Off]
RECURSIVE NTries(_, _)
NTries(first, rest) == IF rest - first < 0 THEN 0 ELSE 1 + NTries(2 * first, rest - first)
Exp(k) == CASE k = "I" -> 10 * Sec [] k = "G" -> Sec [] OTHER -> 3 * Sec
Caps == <<"VF 20071218", "VF 20080403", "VF 20081224", "VF 20090810", "VF 20150617", "VF 20250523">>
Good == "20040107"
Init0 == [t |-> 0, d |-> Sec \div 4, on |-> FALSE, caps |-> FALSE, capn |-> 0, pend |-> EF, hb |-> NoWin, vc |-> NoWin, shut |-> FALSE, nvc |-> FALSE,
          out |-> <<>>, re |-> {}, done |-> <<>>, failed |-> FALSE]
Clear(s) == [s EXCEPT !.out = <<>>, !.re = {}, !.done = <<>>, !.failed = FALSE]
\* nvc: created without a version check - taken to be online, and not checked until something fails
\* quiet: the user gave no handler
\* k: who wants the answer - "u" a user (request id), "V" version check, "F" capability, "I" health check; x: what the user asks next, in the handler
NoNext == [id |-> 0, c |-> "", kind |-> "", nr |-> -1]
Cmd(s, k, id, c, kind, nr, x) ==
  LET n == IF nr >= 0 THEN nr ELSE NTries(4 * s.d, Exp(kind)) IN
  [s EXCEPT !.out = Append(@, [k |-> k, id |-> id, c |-> c, nx |-> s.t + 4 * s.d, iv |-> 4 * s.d, left |-> n - 1, retr |-> 0, st |-> s.t, x |-> x])]
Own(s, k, c) == Cmd(s, k, 0, c, IF k = "I" THEN "I" ELSE "V", -1, NoNext)
Win(s, sec) == [lo |-> s.t + (sec * Sec * 9) \div 10, hi |-> s.t + (sec * Sec * 11) \div 10]
GoOnline(s) ==
  IF s.shut \/ s.on THEN s
  ELSE IF ~s.caps THEN Fold(LAMBDA z, c : Own(z, "F", c), [s EXCEPT !.capn = Len(Caps)], Caps)
  ELSE Own([s EXCEPT !.on = TRUE], "I", "Ib")
GoOffline(s) == IF s.shut \/ ~s.on THEN s ELSE [s EXCEPT !.on = FALSE, !.nvc = FALSE, !.vc = Win(s, 60)]
\* the answer r = [ok, txt] to command p
Handle(s, p, r) ==
  CASE p.k = "u" -> LET s1 == IF p.id = 0 THEN s ELSE [s EXCEPT !.done = Append(@, [id |-> p.id, ok |-> r.ok, txt |-> r.txt])] IN
                    IF p.x.id = 0 \/ s.shut THEN s1 ELSE Cmd(s1, "u", p.x.id, p.x.c, p.x.kind, p.x.nr, NoNext)
    [] p.k = "V" -> IF s.shut THEN s ELSE IF r.ok /\ r.txt = Good THEN GoOnline(s) ELSE IF s.on THEN GoOffline(s) ELSE [s EXCEPT !.vc = Win(s, 60)]
    [] p.k = "F" -> LET s1 == [s EXCEPT !.capn = @ - 1] IN IF s1.capn = 0 THEN GoOnline([s1 EXCEPT !.caps = TRUE]) ELSE s1
    [] OTHER     -> IF s.shut \/ ~s.on THEN s ELSE IF ~r.ok THEN GoOffline(s) ELSE [s EXCEPT !.hb = Win(s, 1)]
None == [ok |-> FALSE, txt |-> ""]
Retr(s, ck) ==
  LET p == s.pend[ck] IN
  IF p.left <= 0 \/ s.shut THEN Handle(GoOffline([s EXCEPT !.pend = Drop(@, {ck}), !.failed = TRUE]), p, None)
  ELSE [s EXCEPT !.pend[ck] = [p EXCEPT !.retr = @ + 1, !.iv = 2 * @, !.nx = s.t + 2 * p.iv, !.left = @ - 1], !.re = @ \cup {ck}]
DueCk(s) == {ck \in DOMAIN s.pend : s.pend[ck].nx <= s.t + Tol}
RECURSIVE RetrAll(_, _)
RetrAll(s, K) == IF K = {} THEN s ELSE LET ck == CHOOSE x \in K : \A y \in K : x <= y IN RetrAll(Retr(s, ck), K \ {ck})
InWin(s, w) == w.lo # Off /\ w.lo - Tol <= s.t
Overdue(s) == \/ \E ck \in DOMAIN s.pend : s.pend[ck].nx + Tol < s.t
              \/ (s.hb.lo # Off /\ s.hb.hi + Tol < s.t) \/ (s.vc.lo # Off /\ s.vc.hi + Tol < s.t)
\* time passes to e.t; hb, vc: the health (version) check timer runs out now
Tick(s, e) ==
  LET s1 == [s EXCEPT !.t = e.t]
      s2 == RetrAll(s1, DueCk(s1))
      s3 == IF e.hb /\ InWin(s2, s.hb) THEN LET z == [s2 EXCEPT !.hb = NoWin] IN IF z.shut THEN z ELSE Own(z, "I", "Ib") ELSE s2
  IN IF e.vc /\ InWin(s3, s.vc) THEN LET z == [s3 EXCEPT !.vc = NoWin] IN IF z.shut THEN z ELSE Own(z, "V", "V") ELSE s3
Reply(s, e) ==
  IF e.ck \notin DOMAIN s.pend THEN s
  ELSE LET p == s.pend[e.ck] IN Handle([s EXCEPT !.pend = Drop(@, {e.ck})], p, [ok |-> TRUE, txt |-> e.txt])
Step(s0, e) ==
  LET s == [Clear(s0) EXCEPT !.t = e.t] IN
  CASE e.in = "start" -> IF e.nvc THEN [s EXCEPT !.on = TRUE, !.caps = TRUE, !.nvc = TRUE] ELSE Own(s, "V", "V")
    [] e.in = "cmd" -> Cmd(s, "u", IF e.quiet THEN 0 ELSE e.id, e.c, e.kind, e.nr, e.x)
    [] e.in = "reply" -> Reply(s, e)
    [] e.in = "tick" -> Tick(s, e)
    [] e.in = "shutdown" -> [s EXCEPT !.shut = TRUE]
    [] OTHER -> s
\* the cookies given to the commands of s.out, in order
Bind(s, cks) == [s EXCEPT !.pend = [ck \in DOMAIN @ \cup Rng(cks) |-> IF ck \in DOMAIN @ THEN @[ck] ELSE s.out[CHOOSE i \in 1..Len(cks) : cks[i] = ck]]]
\* how the reply delay estimate may move: between the old value and the new sample, and only if the command was sent once
Between(x, a, b) == (a - 2 <= x /\ x <= b + 2) \/ (b - 2 <= x /\ x <= a + 2)
DelayOk(s, e, d1) ==
  IF e.in = "reply" /\ e.ck \in DOMAIN s.pend /\ s.pend[e.ck].retr = 0 THEN Between(d1, s.d, e.t - s.pend[e.ck].st)
  ELSE d1 \in s.d - 1..s.d + 1
=============================================================================
