------------------------------- MODULE SipTM -------------------------------
(* SIP transaction layer (sippy/SipTransactionManager.py): client and server
   transactions, retransmission cache, dialog consumers.  Time is counted in
   ticks of half a second; all timers hold the number of ticks left, 0 = off.

   The layer is deterministic, so it is specified as an operator
   Step(s, e) = [s |-> next state, out |-> sequence of outputs] for an input e.
   MCSipTM closes it with an environment, TSipTM checks recorded traces. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS T1,      \* first retransmission (1 tick = 0.5 s)
          TB,      \* transaction timeout (64 = 32 s)
          TC,      \* linger after timeout (64)
          TD,      \* wait for ACK (64)
          TROT     \* rotation period of the retransmission cache (64)

EmptyF == <<>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init0(pr) == [ c |-> EmptyF,        \* client transactions by id
               v |-> EmptyF,        \* server transactions by id
               l1 |-> EmptyF,       \* retransmission cache: datagram -> answer
               l2 |-> EmptyF,
               cons |-> EmptyF,     \* dialog handlers: call -> name
               rot |-> TROT,
               pr |-> pr ]          \* provisional retransmission, ticks; 0 = off

(***************************************************************************)
(* Outputs                                                                  *)
(***************************************************************************)
SndReq(id, m, dst, rep) == [k |-> "req", id |-> id, m |-> m, dst |-> dst, rep |-> rep]
SndAck(a, rep) == [k |-> "ack", id |-> a.id, ruri |-> a.ruri, dst |-> a.dst, rts |-> a.rts,
                   tag |-> a.tag, br |-> a.br, rep |-> rep]
SndRsp(r, rep) == [k |-> "rsp", id |-> r.id, code |-> r.code, n |-> r.n, dst |-> r.dst, rep |-> rep]
CB(id, code) == [k |-> "cb", id |-> id, code |-> code]
DLV(id, m, to) == [k |-> "dlv", id |-> id, m |-> m, to |-> to]
CCB(id, viareq) == [k |-> "ccb", id |-> id, viareq |-> viareq]
ACB(id) == [k |-> "acb", id |-> id]
NCB(id) == [k |-> "ncb", id |-> id]
REF(id) == [k |-> "refused", id |-> id]

(* cache entries *)
Drop == [k |-> "drop"]
Again(o) == [k |-> "again", o |-> o]
Cached(s, sum) == sum \in DOMAIN s.l1 \/ sum \in DOMAIN s.l2
Hit(s, sum) == IF sum \in DOMAIN s.l1 THEN s.l1[sum] ELSE s.l2[sum]
Remember(s, sum, x) == [s EXCEPT !.l1 = Upd(s.l1, sum, x)]
\* (answers that the layer makes up itself look the same every time)
Auto(o) == o.k = "rsp" /\ o.n = 0 /\ o.code \in {200, 481, 482}
HitOut(x) == IF x.k = "drop" THEN <<>> ELSE <<[x.o EXCEPT !.rep = ~Auto(x.o)]>>

R(s, out) == [s |-> s, out |-> out]

(***************************************************************************)
(* Client transactions                                                      *)
(***************************************************************************)
CTx(e) == [st |-> "try", inv |-> e.inv, m |-> e.m, exp |-> e.exp, uack |-> e.uack, hascb |-> e.hascb,
           dst |-> e.dst, ruri |-> e.ruri, tout |-> T1, a |-> T1, b |-> TB, c |-> 0, cp |-> FALSE,
           ack |-> [none |-> TRUE], asum |-> 0]

CxlId(id) == id \o "!c"
CancelTx(t) == [CTx([inv |-> FALSE, m |-> "CANCEL", exp |-> TB, uack |-> FALSE, hascb |-> FALSE,
                     dst |-> t.dst, ruri |-> t.ruri]) EXCEPT !.st = "try"]
StartCancel(s, id) ==
  LET t == s.c[id] IN
  IF CxlId(id) \in DOMAIN s.c THEN R(s, <<REF(id)>>)
  ELSE R([s EXCEPT !.c = Upd(s.c, CxlId(id), CancelTx(t))],
         <<SndReq(CxlId(id), "CANCEL", t.dst, FALSE)>>)

DoNew(s, e) ==
  IF e.id \in DOMAIN s.c THEN R(s, <<REF(e.id)>>)
  ELSE R([s EXCEPT !.c = Upd(s.c, e.id, CTx(e))], <<SndReq(e.id, e.m, e.dst, FALSE)>>)

DoCancelTx(s, e) ==
  IF e.id \notin DOMAIN s.c THEN R(s, <<>>)      \* (the application holds no finished transaction)
  ELSE LET t == s.c[e.id] IN
    IF t.st # "ring" THEN R([s EXCEPT !.c[e.id].cp = TRUE], <<>>)
    ELSE StartCancel(s, e.id)

\* The ACK to a final response e of an INVITE client transaction t
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
AckOf(t, e) ==
  LET rr == Rev(e.rts)
      uris(q) == [i \in 1..Len(q) |-> q[i].uri]
      ok == e.code >= 200 /\ e.code < 300
      strict == Len(rr) > 0 /\ ~rr[1].lr
      target == IF ~ok THEN "" ELSE IF strict THEN rr[1].uri ELSE e.curi
      rset == IF ~ok THEN <<>>
              ELSE IF strict THEN uris(Tail(rr)) \o (IF e.curi # "" THEN <<e.curi>> ELSE <<>>)
              ELSE uris(rr)
      dst == IF ~ok THEN t.dst ELSE IF Len(rr) > 0 THEN rr[1].dst
             ELSE IF e.curi # "" THEN e.con ELSE t.dst
  IN [id |-> e.id, ruri |-> IF target = "" THEN t.ruri ELSE target, dst |-> dst, rts |-> rset,
      tag |-> e.tag, br |-> IF ok THEN "new" ELSE "same"]

DoResp(s, e) ==
  IF Cached(s, e.sum) THEN R(s, HitOut(Hit(s, e.sum)))
  ELSE IF e.id \notin DOMAIN s.c THEN R(Remember(s, e.sum, Drop), <<>>)
  ELSE LET t == s.c[e.id] IN
    IF t.st \notin {"try", "ring"} THEN R(s, <<>>)
    ELSE IF e.code < 200 THEN
      LET t1 == [t EXCEPT !.st = "ring", !.a = 0, !.b = t.exp, !.cp = FALSE]
          s1 == Remember([s EXCEPT !.c[e.id] = t1], e.sum, Drop)
          cn == IF t.st = "try" /\ t.cp THEN StartCancel(s1, e.id) ELSE R(s1, <<>>)
      IN R(cn.s, cn.out \o (IF t.hascb THEN <<CB(e.id, e.code)>> ELSE <<>>))
    ELSE
      LET cb == IF t.hascb THEN <<CB(e.id, e.code)>> ELSE <<>>
          ak == AckOf(t, e)
      IN IF ~t.inv THEN R(Remember([s EXCEPT !.c = Del(s.c, e.id)], e.sum, Drop), cb)
         ELSE IF t.uack /\ e.code < 300 THEN
           R(Remember([s EXCEPT !.c[e.id] = [t EXCEPT !.st = "uack", !.a = 0, !.b = 0, !.ack = ak, !.asum = e.sum]],
                      e.sum, Drop), cb)
         ELSE R(Remember([s EXCEPT !.c = Del(s.c, e.id)], e.sum, Again(SndAck(ak, TRUE))),
                <<SndAck(ak, FALSE)>> \o cb)

DoSendAck(s, e) ==
  IF e.id \notin DOMAIN s.c \/ s.c[e.id].st # "uack" THEN R(s, <<>>)
  ELSE LET t == s.c[e.id] IN
    R(Remember([s EXCEPT !.c = Del(s.c, e.id)], t.asum, Again(SndAck(t.ack, TRUE))),
      <<SndAck(t.ack, FALSE)>>)

\* timers of one client transaction that has just been decremented: d = the record before
CFire(id, d, t) ==
  LET fa == d.a > 0 /\ t.a = 0
      fb == d.b > 0 /\ t.b = 0
      fc == d.c > 0 /\ t.c = 0
  IN IF fc THEN [rm |-> TRUE, t |-> t, out |-> <<>>]
     ELSE IF fb THEN [rm |-> FALSE, t |-> [t EXCEPT !.st = "term", !.a = 0, !.c = TC],
                      out |-> IF t.hascb THEN <<CB(id, 408)>> ELSE <<>>]
     ELSE IF fa THEN [rm |-> FALSE, t |-> [t EXCEPT !.tout = 2 * t.tout, !.a = 2 * t.tout],
                      out |-> <<SndReq(id, t.m, t.dst, TRUE)>>]
     ELSE [rm |-> FALSE, t |-> t, out |-> <<>>]

(***************************************************************************)
(* Server transactions                                                      *)
(***************************************************************************)
VTx(s, e) == [st |-> "try", inv |-> e.m = "INVITE", m |-> e.m, sum |-> e.sum, dst |-> e.dst,
              data |-> [k |-> "none"], post |-> FALSE, tout |-> 0, a |-> 0, d |-> 0,
              e |-> IF e.m = "INVITE" THEN e.exp ELSE 0, f |-> 0,
              hcc |-> FALSE, hnc |-> FALSE, hac |-> FALSE]

\* send response r (code, n) on server transaction id
Send(s, id, code, n, wack) ==
  LET t == s.v[id]
      o == SndRsp([id |-> id, code |-> code, n |-> n, dst |-> t.dst], FALSE)
      s1 == Remember(s, t.sum, Again(o))
      t1 == [t EXCEPT !.data = o]
  IN IF code < 200
     THEN R([s1 EXCEPT !.v[id] = [t1 EXCEPT !.st = "ring",
                                  !.f = IF s.pr > 0 /\ code > 100 THEN s.pr ELSE t.f]], <<o>>)
     ELSE IF t.inv
     THEN R([s1 EXCEPT !.v[id] = [t1 EXCEPT !.st = "done", !.post = TRUE, !.e = 0, !.f = 0, !.d = TD,
                                  !.tout = T1, !.a = T1, !.hac = wack]], <<o>>)
     ELSE R([s1 EXCEPT !.v = Del(s.v, id)], <<o>>)

\* the transaction is cancelled (by CANCEL or by expiry)
Cancelled(s, id, viareq) ==
  LET t == s.v[id]
      r == IF t.inv THEN Send(s, id, 487, 0, FALSE) ELSE R(s, <<>>)
  IN R(r.s, r.out \o (IF t.hcc THEN <<CCB(id, viareq)>> ELSE <<>>))

DoReq(s, e) ==
  IF Cached(s, e.sum) THEN R(s, HitOut(Hit(s, e.sum)))
  ELSE IF e.loop # "" /\ e.loop \in DOMAIN s.c THEN
    LET o == SndRsp([id |-> e.id, code |-> 482, n |-> 0, dst |-> e.dst], FALSE)
    IN R(Remember(s, e.sum, Again(o)), <<o>>)
  ELSE IF e.id \in DOMAIN s.v /\ ~s.v[e.id].post THEN
    LET t == s.v[e.id] IN
    IF t.data.k = "none" THEN R(s, <<>>)
    ELSE R(Remember(s, e.sum, Again(t.data)), <<[t.data EXCEPT !.rep = TRUE]>>)
  ELSE
    LET s1 == [s EXCEPT !.v = Upd(s.v, e.id, VTx(s, e))]
        d == <<DLV(e.id, e.m, IF e.cid \in DOMAIN s.cons THEN s.cons[e.cid] ELSE "gen")>>
    IN CASE e.mode = "none" ->
              IF e.m = "INVITE" THEN R(s1, d) ELSE R([s1 EXCEPT !.v = Del(s1.v, e.id)], d)
         [] e.mode = "cbs" -> R([s1 EXCEPT !.v[e.id].hcc = e.hcc, !.v[e.id].hnc = e.hnc], d)
         [] e.mode = "resp" ->
              LET s2 == [s1 EXCEPT !.v[e.id].hcc = e.hcc, !.v[e.id].hnc = e.hnc]
                  r == Send(s2, e.id, e.code, e.n, FALSE)
              IN R(r.s, d \o r.out)

DoRsp(s, e) ==
  IF e.id \notin DOMAIN s.v \/ s.v[e.id].post THEN R(s, <<REF(e.id)>>)
  ELSE Send(s, e.id, e.code, e.n, e.wack)

DoAck(s, e) ==
  IF Cached(s, e.sum) THEN R(s, HitOut(Hit(s, e.sum)))
  ELSE LET s1 == Remember(s, e.sum, Drop) IN
    IF e.match /\ e.id \in DOMAIN s.v /\ s.v[e.id].post
    THEN R([s1 EXCEPT !.v = Del(s.v, e.id)], IF s.v[e.id].hac THEN <<ACB(e.id)>> ELSE <<>>)
    ELSE R(s1, <<>>)

DoCxl(s, e) ==
  IF Cached(s, e.sum) THEN R(s, HitOut(Hit(s, e.sum)))
  ELSE IF e.match /\ e.id \in DOMAIN s.v /\ ~s.v[e.id].post THEN
    LET o == SndRsp([id |-> CxlId(e.id), code |-> 200, n |-> 0, dst |-> e.dst], FALSE)
        r == Cancelled(Remember(s, e.sum, Again(o)), e.id, TRUE)
    IN R(r.s, <<o>> \o r.out)
  ELSE
    LET o == SndRsp([id |-> CxlId(e.id), code |-> 481, n |-> 0, dst |-> e.dst], FALSE)
    IN R(Remember(s, e.sum, Again(o)), <<o>>)

\* timers of a server transaction: returns a result for the whole state
VFire(s, id, d) ==
  LET t == s.v[id]
      fa == d.a > 0 /\ t.a = 0
      fd == d.d > 0 /\ t.d = 0
      fe == d.e > 0 /\ t.e = 0
      ff == d.f > 0 /\ t.f = 0
  IN IF fd THEN R([s EXCEPT !.v = Del(s.v, id)], IF t.hnc THEN <<NCB(id)>> ELSE <<>>)
     ELSE IF fa THEN R([s EXCEPT !.v[id].tout = 2 * t.tout, !.v[id].a = 2 * t.tout],
                       <<[t.data EXCEPT !.rep = TRUE]>>)
     ELSE IF fe THEN Cancelled([s EXCEPT !.v[id].f = 0], id, FALSE)
     ELSE IF ff THEN R([s EXCEPT !.v[id].f = s.pr], <<[t.data EXCEPT !.rep = TRUE]>>)
     ELSE R(s, <<>>)

(***************************************************************************)
(* Time                                                                     *)
(***************************************************************************)
Pos(S) == {x \in S : x > 0}
CTimers(s) == UNION {Pos({s.c[i].a, s.c[i].b, s.c[i].c}) : i \in DOMAIN s.c}
VTimers(s) == UNION {Pos({s.v[i].a, s.v[i].d, s.v[i].e, s.v[i].f}) : i \in DOMAIN s.v}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NextTimer(s) == Min(CTimers(s) \cup VTimers(s) \cup {s.rot})
Dec(x, n) == IF x > 0 THEN x - n ELSE 0
DecAll(s, n) ==
  [s EXCEPT !.rot = s.rot - n,
   !.c = [i \in DOMAIN s.c |-> [s.c[i] EXCEPT !.a = Dec(@, n), !.b = Dec(@, n), !.c = Dec(@, n)]],
   !.v = [i \in DOMAIN s.v |-> [s.v[i] EXCEPT !.a = Dec(@, n), !.d = Dec(@, n), !.e = Dec(@, n), !.f = Dec(@, n)]]]
Rotate(s) == IF s.rot > 0 THEN s ELSE [s EXCEPT !.rot = TROT, !.l2 = s.l1, !.l1 = EmptyF]
At(outs, n) == [i \in 1..Len(outs) |-> [at |-> n, o |-> outs[i]]]

RECURSIVE FireC(_, _, _, _), FireV(_, _, _, _)
FireC(before, s, ids, out) ==
  IF ids = {} THEN R(s, out)
  ELSE LET id == CHOOSE x \in ids : TRUE
           f == CFire(id, before.c[id], s.c[id])
       IN FireC(before, [s EXCEPT !.c = IF f.rm THEN Del(s.c, id) ELSE Upd(s.c, id, f.t)],
                ids \ {id}, out \o f.out)
FireV(before, s, ids, out) ==
  IF ids = {} THEN R(s, out)
  ELSE LET id == CHOOSE x \in ids : TRUE
           r == VFire(s, id, before.v[id])
       IN FireV(before, r.s, ids \ {id}, out \o r.out)

RECURSIVE Adv(_, _, _, _)
\* let n ticks pass; outputs carry the tick at which they happen
Adv(s, n, t0, out) ==
  IF n = 0 THEN R(s, out)
  ELSE LET m == NextTimer(s) IN
    IF m > n THEN R(DecAll(s, n), out)
    ELSE LET s1 == Rotate(DecAll(s, m))
             f1 == FireC(s, s1, DOMAIN s.c, <<>>)
             f2 == FireV(s, f1.s, DOMAIN s.v, <<>>)
         IN Adv(f2.s, n - m, t0 + m, out \o At(f1.out \o f2.out, t0 + m))

(***************************************************************************)
(* One input                                                                *)
(***************************************************************************)
Z(r) == [s |-> r.s, out |-> At(r.out, 0)]
Step(s, e) ==
  CASE e.in = "new"     -> Z(DoNew(s, e))
    [] e.in = "resp"    -> Z(DoResp(s, e))
    [] e.in = "cancel"  -> Z(DoCancelTx(s, e))
    [] e.in = "sendack" -> Z(DoSendAck(s, e))
    [] e.in = "req"     -> Z(DoReq(s, e))
    [] e.in = "rsp"     -> Z(DoRsp(s, e))
    [] e.in = "ack"     -> Z(DoAck(s, e))
    [] e.in = "cxl"     -> Z(DoCxl(s, e))
    [] e.in = "reg"     -> R([s EXCEPT !.cons = Upd(s.cons, e.cid, e.name)], <<>>)
    [] e.in = "unreg"   -> R([s EXCEPT !.cons = Del(s.cons, e.cid)], <<>>)
    [] e.in = "noise"   -> R(s, <<>>)
    [] e.in = "adv"     -> Adv(s, e.n, 0, <<>>)
    [] e.in \in {"quiet", "late"} -> R(s, <<>>)

\* number of things the layer remembers
Size(s) == Cardinality(DOMAIN s.c) + Cardinality(DOMAIN s.v) + Cardinality(DOMAIN s.cons)
CacheSize(s) == Cardinality(DOMAIN s.l1) + Cardinality(DOMAIN s.l2)
=============================================================================
