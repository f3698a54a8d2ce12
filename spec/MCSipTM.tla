------------------------------ MODULE MCSipTM ------------------------------
(* Exhaustive model of the transaction layer: one client or one server
   transaction (plus its CANCEL) under every order of inputs and time.  Time
   moves from timer to timer, so inputs arrive right after any timer.
   `h` is a history variable for the properties.  *)
EXTENDS SipTM, Json, TLCExt
CONSTANTS Mode,       \* "client" or "server"
          Emit        \* print the transition graph
VARIABLES s, h
vars == <<s, h>>

(* ---- environments ---- *)
NewEv(m, uack) == [in |-> "new", id |-> "c1", m |-> m, inv |-> m = "INVITE", exp |-> IF m = "INVITE" THEN 14 ELSE TB,
             uack |-> uack, hascb |-> TRUE, dst |-> "D", ruri |-> "U"]
RespEv(id, code, sum) == [in |-> "resp", id |-> id, code |-> code, sum |-> sum, tag |-> "t1", con |-> "C", curi |-> "CU", rts |-> <<>>]
ClientInputs ==
   (IF h.started THEN {} ELSE {NewEv("INVITE", FALSE), NewEv("INVITE", TRUE), NewEv("OPTIONS", FALSE)})
   \cup (IF h.started THEN {RespEv("c1", 100, 1), RespEv("c1", 180, 2), RespEv("c1", 200, 3), RespEv("c1", 486, 4)} ELSE {})
   \cup (IF h.started /\ "c1" \in DOMAIN s.c /\ s.c["c1"].inv /\ ~h.cancelled THEN {[in |-> "cancel", id |-> "c1"]} ELSE {})
   \cup (IF h.cxls > 0 THEN {RespEv("c1!c", 200, 5)} ELSE {})
   \cup (IF "c1" \in DOMAIN s.c /\ s.c["c1"].st = "uack" THEN {[in |-> "sendack", id |-> "c1"]} ELSE {})
ReqEv(m, mode, code, var) == [in |-> "req", id |-> "s1", m |-> m, sum |-> IF var = 0 THEN 11 ELSE 12, cid |-> "S", loop |-> "",
             exp |-> 14, mode |-> mode, code |-> code, n |-> 9, dst |-> "P", hcc |-> TRUE, hnc |-> TRUE]
RspEv(code, n) == [in |-> "rsp", id |-> "s1", code |-> code, n |-> n, wack |-> TRUE]
AckEv(match) == [in |-> "ack", id |-> "s1", sum |-> IF match THEN 13 ELSE 14, match |-> match]
CxlEv(match) == [in |-> "cxl", id |-> "s1", sum |-> IF match THEN 15 ELSE 16, match |-> match, dst |-> "P"]
ServerInputs ==
   (IF h.started THEN {} ELSE {ReqEv("INVITE", "cbs", 0, 0), ReqEv("INVITE", "resp", 100, 0), ReqEv("INVITE", "none", 0, 0),
                               ReqEv("BYE", "cbs", 0, 0), ReqEv("BYE", "resp", 200, 0), ReqEv("INVITE", "resp", 486, 0)})
   \cup (IF h.started /\ h.dlv = 1 /\ "s1" \in DOMAIN s.v
           THEN (IF ~s.v["s1"].post THEN {ReqEv(h.m, "cbs", 0, 0), ReqEv(h.m, "cbs", 0, 1)} ELSE {})
                \cup {RspEv(180, 1), RspEv(200, 2), RspEv(486, 3)} ELSE {})
   \cup (IF h.started /\ Cached(s, 11) THEN {ReqEv(h.m, "cbs", 0, 0)} ELSE {})
   \cup (IF h.started THEN {CxlEv(TRUE), CxlEv(FALSE), AckEv(FALSE)} ELSE {})
   \cup (IF h.started /\ h.fin > 0 /\ h.m = "INVITE" THEN {AckEv(TRUE)} ELSE {})
Inputs == IF Mode = "client" THEN ClientInputs ELSE ServerInputs

(* ---- history ---- *)
H0 == [started |-> FALSE, cancelled |-> FALSE, m |-> "", fin |-> 0, prov |-> FALSE, bad |-> FALSE, cxls |-> 0, acks |-> 0,
       dlv |-> 0, ccb |-> 0, end |-> 0, f487 |-> 0, rspfin |-> 0]
Bump(x) == IF x < 2 THEN x + 1 ELSE 2
HOut(hh, o) ==
  CASE o.k = "cb" -> IF o.code < 200 THEN [hh EXCEPT !.prov = TRUE, !.bad = hh.bad \/ hh.fin > 0]
                     ELSE [hh EXCEPT !.fin = Bump(hh.fin), !.bad = hh.bad \/ hh.fin > 0]
    [] o.k = "req" -> IF o.m = "CANCEL" /\ ~o.rep
                      THEN [hh EXCEPT !.cxls = Bump(hh.cxls), !.bad = hh.bad \/ hh.fin > 0 \/ (~hh.prov /\ ~hh.prov0)]
                      ELSE [hh EXCEPT !.bad = hh.bad \/ (o.id = "c1" /\ o.rep /\ (hh.prov \/ hh.fin > 0))]
    [] o.k = "ack" -> IF o.rep THEN hh ELSE [hh EXCEPT !.acks = Bump(hh.acks)]
    [] o.k = "dlv" -> [hh EXCEPT !.dlv = Bump(hh.dlv)]
    [] o.k = "ccb" -> [hh EXCEPT !.ccb = Bump(hh.ccb)]
    [] o.k \in {"acb", "ncb"} -> [hh EXCEPT !.end = Bump(hh.end)]
    [] o.k = "rsp" -> IF o.id = "s1" /\ o.code >= 200 /\ ~o.rep
                      THEN [hh EXCEPT !.fin = Bump(hh.fin), !.f487 = IF o.code = 487 THEN Bump(hh.f487) ELSE hh.f487]
                      ELSE hh
    [] OTHER -> hh
RECURSIVE HAll(_, _, _)
HAll(hh, outs, i) == IF i > Len(outs) THEN hh ELSE HAll(HOut(hh, outs[i].o), outs, i + 1)
HIn(hh, e) == LET p0 == e.in = "resp" /\ e.id = "c1" /\ e.code < 200
                  h1 == [x \in DOMAIN hh \cup {"prov0"} |-> IF x = "prov0" THEN p0 ELSE hh[x]]
              IN CASE e.in \in {"new", "req"} -> [h1 EXCEPT !.started = TRUE, !.m = e.m]
                   [] e.in = "cancel" -> [h1 EXCEPT !.cancelled = TRUE]
                   [] OTHER -> h1
Strip(hh) == [x \in DOMAIN H0 |-> hh[x]]

Do(e) == LET r == Step(s, e) IN s' = r.s /\ h' = Strip(HAll(HIn(h, e), r.out, 1))
Time == Do([in |-> "adv", n |-> NextTimer(s)])
Env == \E e \in Inputs : Do(e)
Init == s = Init0(0) /\ h = H0 /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<s, h>>))))
Next == Time \/ Env
AckIt == "c1" \in DOMAIN s.c /\ s.c["c1"].st = "uack" /\ Do([in |-> "sendack", id |-> "c1"])
Spec == Init /\ [][Next]_vars /\ WF_vars(Time) /\ WF_vars(AckIt)

(* ---- properties ---- *)
S01 == Mode = "client" => h.fin <= 1 /\ (h.fin = 1 => "c1" \notin DOMAIN s.c \/ s.c["c1"].st \in {"term", "uack"})
S01Live == (Mode = "client" /\ h.started) ~> (h.fin = 1)
S02 == Mode = "client" => ~h.bad /\ h.cxls <= 1 /\ h.acks <= 1
S03 == Mode = "server" => h.dlv <= 1
S04 == Mode = "server" => h.fin <= 1 /\ h.end <= 1
S05 == Mode = "server" => (h.m = "INVITE" => h.ccb <= 1) /\ h.f487 <= 1 /\ (h.f487 = 1 => h.fin = 1)
S06 == <>[](h.started => (\A i \in DOMAIN s.c : i = "zz") /\ (h.m = "BYE" \/ DOMAIN s.v = {}))

EmitEdge == Emit => PrintT("EDGE " \o ToJson(
   [a |-> TLCFP(<<s, h>>), b |-> TLCFP(<<s', h'>>),
    k |-> TLCFP(<<[s EXCEPT !.rot = 0, !.l1 = DOMAIN s.l1 \cup DOMAIN s.l2, !.l2 = 0], h>>),
    e |-> CHOOSE e \in Inputs \cup {[in |-> "adv", n |-> NextTimer(s)]} :
            LET r == Step(s, e) IN s' = r.s /\ h' = Strip(HAll(HIn(h, e), r.out, 1))]))
=============================================================================
