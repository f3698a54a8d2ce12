------------------------------ MODULE TBridge ------------------------------
EXTENDS Bridge, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Count(a, x) = Count(b, x)
Map(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
GotW(e, i, x) == LET z == SelectSeq(e.w, LAMBDA o : o.call = i /\ o.leg = x) IN IF z = <<>> THEN <<>> ELSE z[1].w
P(p) == Props \cap {p} # {}
\* messages of each leg, as far as each property speaks of them
InvO(o) == o.k = "q" /\ o.m = "INVITE" /\ o.tt = ""
FinalR(o) == o.k = "r" /\ o.m = "INVITE" /\ o.code >= 200
ByeO(o) == o.k = "q" /\ o.m \in {"BYE", "CANCEL"}
KmO(o) == [k |-> o.k, m |-> o.m]
KmcO(o) == [k |-> o.k, m |-> o.m, code |-> o.code]
Views(q, x, in) == [
  B01 |-> Map(q, LAMBDA o : IF InvO(o) THEN KmO(o) ELSE o),
  B02 |-> Map(SelectSeq(q, LAMBDA o : ByeO(o) \/ FinalR(o)), LAMBDA o : IF FinalR(o) THEN KmcO(o) ELSE KmO(o)),
  B03 |-> Map(SelectSeq(q, LAMBDA o : (x # "a" /\ InvO(o)) \/ (x = "a" /\ FinalR(o))), LAMBDA o : IF FinalR(o) THEN KmcO(o) ELSE o),
  B04 |-> Map(SelectSeq(q, LAMBDA o : (x # "a" /\ InvO(o)) \/ (x = "a" /\ FinalR(o))), LAMBDA o : IF FinalR(o) THEN o ELSE KmO(o)),
  B06 |-> IF in = "adv" THEN Map(SelectSeq(q, LAMBDA o : ByeO(o)), KmO) ELSE <<>>,
  B07 |-> Map(SelectSeq(q, LAMBDA o : ByeO(o) \/ (x # "a" /\ InvO(o)) \/ (x = "a" /\ FinalR(o))), LAMBDA o : IF FinalR(o) THEN KmcO(o) ELSE KmO(o))]
SameView(a, b, x, in) == LET va == Views(a, x, in) vb == Views(b, x, in) IN \A p \in Props \cap DOMAIN va : SameBag(va[p], vb[p])
WOk(e, n) ==
  /\ e.odd = "" \/ Props \subseteq {"B05"}
  /\ \A i \in DOMAIN n.calls : LET c == n.calls[i] IN \A x \in DOMAIN c.legs : SameView(GotW(e, i, x), c.legs[x].w, x, e.in)
  /\ \A j \in 1..Len(e.w) : LET o == e.w[j] IN
       IF o.call = 0 THEN n.stray # <<>> /\ o.w[1].code = n.stray[1].code
       ELSE o.call \in DOMAIN n.calls /\ (o.leg \in DOMAIN n.calls[o.call].legs \/ SameView(o.w, <<>>, o.leg, e.in))
  /\ P("B04") /\ n.stray # <<>> => \E j \in 1..Len(e.w) : e.w[j].call = 0
\* RADIUS
Near(a, b, lo, hi) == a >= b - lo /\ a <= b + hi
SameRec(g, w, cfg) ==
  LET p == cfg.precise IN
  IF w.k = "Auth" THEN g.usr = w.usr /\ g.cli = w.cli /\ g.cld = w.cld /\ g.cred = w.cred /\ g.ip = w.ip
  ELSE /\ g.usr = w.usr /\ g.cli = w.cli /\ g.cld = w.cld /\ g.host = w.host /\ g.sid
       /\ IF p THEN Near(g.setup, w.setup, 3, 3) ELSE Near(g.setup, w.setup, 1003, 3)
       /\ IF p THEN Near(g.conn, w.conn, 3, 3) ELSE Near(g.conn, w.conn, 2003, 1003)
       /\ w.k = "Start" \/ (/\ IF p THEN Near(g.disc, w.disc, 3, 3) ELSE Near(g.disc, w.disc, 2003, 1003)
                            /\ Near(g.dur * 1000, w.durms, 503, 503) /\ g.cause = w.cause)
       /\ w.k = "Stop" => g.rel = w.rel
Sel(q, k, o) == SelectSeq(q, LAMBDA z : z.k = k /\ (k = "Auth" \/ z.org = o))
OutOk(e, n, K) ==
  \A i \in DOMAIN n.calls : \A k \in K : \A o \in {"answer", "originate"} :
    LET g == Sel(SelectSeq(e.out, LAMBDA z : z.call = i), k, o) w == Sel(n.calls[i].out, k, o) IN
    Len(g) = Len(w) /\ \A j \in 1..Len(g) : SameRec(g[j], w[j], n.cfg)
LstOk(e, n) == SameBag([j \in 1..Len(e.lst) |-> [call |-> e.lst[j].call, st |-> e.lst[j].st]], ListedSeq(n))
LeftOk(e, n) == e.in = "left" => e.calls = Len(ListedSeq(n)) /\ (e.calls = 0 => e.tc = 0 /\ e.ts = 0 /\ e.rc = 0 /\ e.timers <= 0)
OutK == (IF P("B04") \/ P("B07") THEN {"Auth"} ELSE {}) \cup (IF P("B05") THEN {"Start", "Stop", "Alive"} ELSE {})
Ok(e, n) ==
  /\ e.exc = ""
  /\ WOk(e, n)
  /\ P("B02") \/ P("B07") => LstOk(e, n)
  /\ P("B02") => LeftOk(e, n)
  /\ P("B07") => Halt(s, e, n)
  /\ OutOk(e, n, OutK)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Sys0(Traces[tr].cfg, Traces[tr].n)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == BStep(s, e) IN
     IF Ok(e, x) /\ e.t = x.t THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l,
                want |-> [w |-> [i \in DOMAIN x.calls |-> [k \in DOMAIN x.calls[i].legs |-> x.calls[i].legs[k].w]], out |-> [i \in DOMAIN x.calls |-> x.calls[i].out], lst |-> ListedSeq(x), t |-> x.t,
                          why |-> <<Halt(s, e, x), WOk(e, x), LstOk(e, x), LeftOk(e, x), OutOk(e, x, OutK)>>],
                got |-> [w |-> e.w, out |-> e.out, lst |-> e.lst, exc |-> e.exc, odd |-> e.odd, t |-> e.t]]))
          /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
