------------------------------- MODULE MCLeg -------------------------------
(* Exhaustive behaviours of one call leg: every order of controller events,
   peer messages and timers, up to MaxSteps inputs.  After every input 7 ms
   pass, so that distinct inputs never share an instant. *)
EXTENDS Leg, Json, TLCExt
CONSTANTS Role, CfgIds, MaxSteps, Emit
VARIABLES s, h
vars == <<s, h>>

C0 == [exp |-> 0, nop |-> 0, nor |-> 0, cred |-> 0, ka |-> 0, op |-> FALSE, auth |-> FALSE, pa |-> FALSE, nh |-> "nh", num |-> "callee|caller|A Caller|", hl |-> FALSE, hr |-> FALSE]
Cfgs == [plain |-> C0,
         late  |-> C0,
         limit |-> [C0 EXCEPT !.exp = 20011, !.nop = 5017, !.nor = 3023, !.cred = 15031],
         limit2 |-> [C0 EXCEPT !.exp = 20011, !.nor = 3023],
         limit3 |-> [C0 EXCEPT !.exp = 20011, !.cred = 15031],
         limit4 |-> [C0 EXCEPT !.nor = 3023, !.nop = 5017],
         auth  |-> [C0 EXCEPT !.auth = TRUE, !.op = TRUE],
         pa    |-> [C0 EXCEPT !.auth = TRUE, !.pa = TRUE, !.exp = 20011],
         hooks |-> [C0 EXCEPT !.hl = TRUE, !.hr = TRUE],
         hlate |-> [C0 EXCEPT !.hl = TRUE, !.hr = TRUE],
         hlim  |-> [C0 EXCEPT !.hl = TRUE, !.hr = TRUE, !.exp = 20011, !.nor = 3023, !.cred = 15031],
         ka    |-> [C0 EXCEPT !.ka = 10053, !.auth = TRUE]]
H0 == [k |-> "", n |-> 0, pcs |-> 99, upd |-> 0, conn |-> 0, fin |-> 0, dead |-> 0, ring |-> 0, bad |-> "",
       lst |-> "", uw |-> FALSE, cw |-> FALSE, tw |-> "", lcs |-> -1, ackd |-> {}, ansd |-> {}, ok2 |-> FALSE, gone |-> FALSE, nresp |-> 0, t0 |-> 0, tc |-> 0, crs |-> 0, adj |-> FALSE]
Late == h.k \in {"late", "hlate"}
Hk == h.k \in {"hooks", "hlate", "hlim"}       \* media hooks are in use

(* ---- inputs ---- *)
CtlE(n, code, sdp, rs, rd, mf) == [in |-> "ctl", n |-> n, code |-> code, sdp |-> sdp, rs |-> rs, rd |-> rd, mf |-> mf]
RespE(m, cs, code, sdp, chal, rd) ==
  [in |-> "resp", m |-> m, cs |-> cs, code |-> code, sdp |-> sdp, tag |-> "p1", con |-> IF code >= 200 /\ code < 300 THEN "c1" ELSE "",
   rr |-> IF code = 202 THEN <<[u |-> "r1", lr |-> TRUE], [u |-> "r2", lr |-> TRUE]>> ELSE <<>>,
   chal |-> chal, rd |-> rd, rds |-> IF rd = "" THEN <<>> ELSE <<rd>>, rs |-> "", ph |-> ""]
ReqE(m, cs, sdp, match, rs, rd, first) ==
  [in |-> "req", m |-> m, cs |-> cs, sdp |-> sdp, match |-> match, rs |-> rs, rd |-> rd, mf |-> 70, exp |-> 0, con |-> "c1",
   rr |-> IF first THEN <<[u |-> "r1", lr |-> TRUE]>> ELSE <<>>, first |-> first]
Early == s.st \in {"Trying", "Ringing"}
CtlIn ==
  IF s.st = "None" THEN (IF s.role = "uac" THEN {CtlE("try", 0, IF Late THEN "" ELSE "a0", "", "", 10), CtlE("disconnect", 0, "", "", "", -1)} ELSE {})
  ELSE IF Early /\ s.role = "uac" THEN {CtlE("disconnect", 0, "", "y1", "", -1)}
  ELSE IF Early THEN {CtlE("ring", 180, "a5", "", "", -1), CtlE("fail", 486, "", "y1", "", -1), CtlE("redirect", 302, "", "", "x3", -1),
                      CtlE("disconnect", 0, "", "", "", -1)}
                     \cup {CtlE(IF Late THEN "preconnect" ELSE "connect", 200, "a1", "", "", -1)}
  ELSE IF s.st \in Connd THEN
       {CtlE("disconnect", 0, "", "y1", "", -1), CtlE("disconnect", 0, "", "", "x4", -1), CtlE("info", 0, "a9", "", "", -1)}
       \cup (IF s.st = "Connected" /\ s.pend < 0 /\ h.conn > 0 /\ h.upd < 2
             THEN {CtlE("update", 0, "a2", "", "", 5), CtlE("update", 0, "a3", "", "", 0), CtlE("update", 0, s.lsdp, "", "", 5)} ELSE {})
       \cup (IF s.st = "Connected" /\ s.pend >= 0 THEN {CtlE("connect", 200, "a4", "", "", -1)} ELSE {})
       \cup (IF s.st = "UpdS" THEN {CtlE("connect", 200, "a6", "", "", -1), CtlE("fail", 486, "", "", "", -1), CtlE("redirect", 302, "", "", "x3", -1),
                                    CtlE("ring", 180, "", "", "", -1)} ELSE {})
  ELSE IF s.st # "Dead" THEN {CtlE("disconnect", 0, "", "", "", -1)} ELSE {}
RespIn ==
  UNION {LET t == s.iv[c] IN
    IF t.st = "done" THEN {}
    ELSE IF t.own = "ka" THEN {RespE("INVITE", c, 100, "", "", ""), RespE("INVITE", c, 200, "b0", "", ""), RespE("INVITE", c, 481, "", "", ""), RespE("INVITE", c, 401, "", "ok", "")}
    ELSE IF Early THEN {RespE("INVITE", c, 100, "", "", ""), RespE("INVITE", c, 183, "b3", "", ""), RespE("INVITE", c, 200, "b1", "", ""), RespE("INVITE", c, 202, "", "", ""),
                        RespE("INVITE", c, 302, "", "", "x1"), RespE("INVITE", c, 486, "", "", ""), RespE("INVITE", c, 401, "", "ok", "")}
    ELSE IF s.st = "UpdC" THEN {RespE("INVITE", c, 180, "", "", ""), RespE("INVITE", c, 200, "b4", "", ""), RespE("INVITE", c, 486, "", "", ""), RespE("INVITE", c, 481, "", "", ""),
                                RespE("INVITE", c, 407, "", "ok", "")}
    ELSE {RespE("INVITE", c, 180, "", "", ""), RespE("INVITE", c, 200, "b1", "", ""), RespE("INVITE", c, 487, "", "", ""), RespE("INVITE", c, 401, "", "ok", "")}
    : c \in DOMAIN s.iv}
  \cup {RespE("REFER", c, x, "", "", "") : c \in DOMAIN s.refer, x \in {100, 202}}
NReq == h.pcs - 99 - (IF s.role = "uas" THEN 1 ELSE 0)
ReqIn ==
  IF s.st = "None" THEN (IF s.role = "uas" THEN {ReqE("INVITE", 100, IF Late THEN "" ELSE "b0", "ok", "", "", TRUE)} ELSE {})
  ELSE IF NReq >= 3 THEN {}
  ELSE LET n == h.pcs + 1 IN
    {ReqE("BYE", n, "", "ok", "y1", "", FALSE), ReqE("BYE", n, "", "ttag", "", "", FALSE)}
    \cup (IF s.st \in Connd /\ s.pend < 0 /\ h.conn > 0
          THEN {ReqE("INVITE", n, "b2", "ok", "", "", FALSE), ReqE("INVITE", n, s.rsdp, "ok", "", "", FALSE), ReqE("INVITE", n, "", "ok", "", "", FALSE),
                ReqE("REFER", n, "", "ok", "", "x5", FALSE), ReqE("REFER", n, "", "ok", "", "", FALSE), ReqE("UPDATE", n, "", "ok", "", "", FALSE)} ELSE {})
    \cup (IF s.st \in Connd THEN {ReqE("INFO", n, "b9", "ok", "", "", FALSE), ReqE("OPTIONS", n, "", "ok", "", "", FALSE)} ELSE {})
    \cup (IF s.rcs > 0 /\ s.st \in Connd /\ ~Late /\ s.rcs - 5 \notin DOMAIN s.sv THEN {ReqE("INVITE", s.rcs - 5, "b7", "ok", "", "", FALSE)} ELSE {})
MiscIn ==
  {[in |-> "ack", cs |-> c, sdp |-> IF Late THEN "b8" ELSE ""] : c \in {x \in DOMAIN s.sv : s.sv[x].st = "fin"}}
  \cup {[in |-> "cancel", cs |-> c, rs |-> "y2"] : c \in {x \in DOMAIN s.sv : s.sv[x].st \in {"proc", "fin"}}}
  \cup {[in |-> "repeat", m |-> x[1], cs |-> x[2]] : x \in DOMAIN s.unans}
  \cup (IF s.st \in Connd /\ h.crs = 0 THEN {[in |-> "credit", key |-> 1, dv |-> 9041], [in |-> "credit", key |-> 0, dv |-> 0]} ELSE {})
  \cup (IF s.st \notin Ended \cup {"None"} THEN {[in |-> "hangup"]} ELSE {})
  \cup (IF Due(s) # {} THEN {[in |-> "adv", dt |-> Min({d[1] : d \in Due(s)}) - s.t + 1]} ELSE {})
Odd ==        \* bodies that are not session descriptions, or need no update
  IF ~Hk THEN {}
  ELSE (IF s.st = "Connected" /\ s.pend < 0 /\ h.conn > 0 /\ h.upd < 2 THEN {CtlE("update", 0, "g1", "", "", 5), CtlE("update", 0, "a7!", "", "", 5)} ELSE {})
       \cup (IF s.st \in Connd /\ s.pend < 0 /\ h.conn > 0 /\ NReq < 3 THEN {ReqE("INVITE", h.pcs + 1, "g2", "ok", "", "", FALSE)} ELSE {})
       \cup (IF s.st = "UpdS" THEN {CtlE("ring", 183, "a8", "", "", -1)} ELSE {})
\* what a controller does while media are being worked on
CtlOk(e) ==
  \/ e.in # "ctl" \/ s.df = <<>> \/ e.n \in {"disconnect", "info"}
  \/ e.n = "fail" /\ Early /\ s.role = "uas"
  \/ e.n # "update" /\ Early /\ s.role = "uas" /\ \A i \in DOMAIN s.df : s.df[i].side = "l" /\ s.df[i].e.n = "ring"
  \/ e.n = "update" /\ \A i \in DOMAIN s.df : s.df[i].side = "r" /\ s.df[i].k = "upd"
AnyIn == CtlIn \cup RespIn \cup ReqIn \cup MiscIn \cup Odd
Inputs ==
  IF ~Hk THEN AnyIn
  ELSE LET q == {e \in AnyIn : CtlOk(e)} IN
       q \cup {[hk |-> <<m>>] @@ e : m \in {"late", "err"}, e \in {x \in q : x.in \in {"ctl", "resp", "req", "ack"} /\ Step(s, x).ho # <<>>}}
         \cup (IF s.df # <<>> THEN {[in |-> "hook", code |-> c] : c \in {0, 488, 502}} ELSE {})
Real(e) == IF e.in = "credit" THEN [in |-> "credit", key |-> e.key, v |-> IF e.dv = 0 THEN 0 ELSE s.t + e.dv] ELSE e

(* ---- history ---- *)
Sel(q, f(_)) == SelectSeq(q, f)
Num(q, f(_)) == Len(SelectSeq(q, f))
HW(hh, o) ==
  IF o.k = "q" THEN
    IF o.m = "ACK" THEN [hh EXCEPT !.ackd = @ \cup {o.cs}, !.bad = IF o.cs \in hh.ackd THEN "two ACKs" ELSE @]
    ELSE IF o.m = "CANCEL" THEN [hh EXCEPT !.gone = TRUE]
    ELSE [hh EXCEPT !.bad = IF o.cs # hh.lcs + 1 THEN "CSeq" ELSE @, !.lcs = o.cs, !.gone = @ \/ o.m = "BYE"]
  ELSE IF o.code < 200 THEN [hh EXCEPT !.bad = IF <<o.m, o.cs>> \in hh.ansd THEN "provisional after final" ELSE @]
  ELSE [hh EXCEPT !.bad = IF o.m # "CANCEL" /\ <<o.m, o.cs>> \in hh.ansd THEN "two answers" ELSE @, !.ansd = @ \cup {<<o.m, o.cs>>},
                  !.gone = @ \/ (o.m = "INVITE" /\ o.cs = 100 /\ o.code >= 300 /\ s.role = "uas") \/ (o.m = "BYE" /\ o.code < 300)]
RECURSIVE HAll(_, _, _)
HAll(hh, q, i) == IF i > Len(q) THEN hh ELSE HAll(HW(hh, q[i]), q, i + 1)
HCb(hh, q) ==
  LET c == Num(q, LAMBDA x : x.n = "conn") f == Num(q, LAMBDA x : x.n \in {"disc", "fail"})
      d == Num(q, LAMBDA x : x.n = "dead") r == Num(q, LAMBDA x : x.n = "ring")
  IN [hh EXCEPT !.conn = @ + c, !.fin = @ + f, !.dead = @ + d,
        !.bad = IF c > 0 /\ hh.fin > 0 THEN "connected after the end" ELSE IF r > 0 /\ hh.conn + hh.fin > 0 THEN "ringing late"
                ELSE IF (c + f + r > 0 \/ Len(q) > 1) /\ hh.dead > 0 THEN "callback after dead"
                ELSE IF d > 0 /\ hh.fin + f = 0 THEN "dead before the end" ELSE @]
Fixed(b, x) == Opaque(b) \/ EndsWith(b, "!") \/ EndsWith(b, x) \/ EndsWith(b, x \o "~h")
HMed(hh, x) ==
  LET e == {i \in DOMAIN x.ev : x.ev[i].n \in {"connect", "preconnect", "fail", "redirect", "disconnect"}}
      o == {i \in DOMAIN x.w : x.w[i].m # "INFO" /\ ~(x.w[i].k = "q" /\ x.w[i].m \in {"BYE", "CANCEL"})}
  IN [hh EXCEPT !.bad = IF x.cfg.hl /\ \E i \in o : x.w[i].sdp # "" /\ ~Fixed(x.w[i].sdp, "l") THEN "body sent as it was"
                        ELSE IF x.cfg.hr /\ \E i \in DOMAIN x.ev : x.ev[i].n # "info" /\ x.ev[i].sdp # "" /\ ~Fixed(x.ev[i].sdp, "r") THEN "body reported as it was" ELSE @,
                !.uw = x.st = "UpdS" /\ (@ \/ hh.lst # "UpdS") /\ ~\E i \in DOMAIN x.ev : x.ev[i].n = "update",
                !.lst = x.st, !.cw = (@ \/ x.st = "UpdC") /\ e = {},
                !.tw = IF \E i \in DOMAIN x.ev : x.ev[i].n = "try" THEN "try" ELSE IF e # {} THEN "told" ELSE @]
Hist(hh, x) == HMed(HCb(HAll(hh, x.w, 1), x.cb), x)
Start == /\ h.k = ""
         /\ \E c \in CfgIds : s' = TLCEval(Init0(Role, Cfgs[c])) /\ h' = [H0 EXCEPT !.k = c]
TimedOut(x, t) == \E c \in DOMAIN x.iv : x.iv[c].own = "ua" /\ x.iv[c].st # "done" /\ x.iv[c].dl <= t
Do(e) ==
  LET x == Step(s, Real(e))
      y == IF e.in = "adv" THEN Clear(x) ELSE Step(x, [in |-> "adv", dt |-> 7])
      h1 == Hist(Hist(h, x), y)
      h2 == [h1 EXCEPT !.n = @ + 1,
               !.pcs = IF e.in = "req" /\ e.cs > @ THEN e.cs ELSE @,
               !.upd = IF e.in = "ctl" /\ e.n = "update" THEN @ + 1 ELSE @,
               !.crs = IF e.in = "credit" THEN @ + 1 ELSE @,
               !.adj = @ \/ e.in = "credit",
               !.nresp = IF e.in = "resp" /\ @ = 0 THEN 1 ELSE @,
               !.ok2 = @ \/ (e.in = "resp" /\ e.m = "INVITE" /\ e.code >= 200 /\ e.code < 300)
                         \/ (e.in = "ctl" /\ s.role = "uas" /\ e.n \in {"connect", "preconnect"}),
               !.gone = @ \/ (e.in = "adv" /\ TimedOut(s, s.t + e.dt)) \/ (e.in = "resp" /\ e.m = "INVITE" /\ ~h.ok2 /\ e.code >= 300),
               !.t0 = IF s.st = "None" THEN y.t ELSE @,
               !.tc = IF h.conn = 0 /\ h1.conn > 0 THEN y.t ELSE @]
  IN s' = TLCEval(Clear(y)) /\ h' = TLCEval(h2)
MView == <<[s EXCEPT !.t = 0, !.tm = [x \in Tms |-> IF s.tm[x] = Off THEN Off ELSE s.tm[x] - s.t],
            !.expm = s.expm - s.t, !.nopm = s.nopm - s.t,
            !.iv = [c \in DOMAIN s.iv |-> [s.iv[c] EXCEPT !.dl = IF @ = Off THEN Off ELSE @ - s.t]],
            !.sv = [c \in DOMAIN s.sv |-> [s.sv[c] EXCEPT !.el = IF @ = Off THEN Off ELSE @ - s.t, !.nl = IF @ = Off THEN Off ELSE @ - s.t]],
            !.ct = [c \in DOMAIN s.ct |-> IF s.ct[c] = 0 THEN 0 ELSE s.ct[c] - s.t],
            !.cn = 0, !.le = 0,
            !.df = [i \in DOMAIN s.df |-> IF s.df[i].side = "l" THEN [s.df[i] EXCEPT !.i = 0, !.e.t0 = @ - s.t] ELSE [s.df[i] EXCEPT !.i = IF s.le > @ THEN 0 ELSE 1]],
            !.refer = [c \in DOMAIN s.refer |-> s.refer[c] - s.t]], [h EXCEPT !.n = 0, !.t0 = 0, !.tc = 0]>>
EView == <<MView[1], h.k, h.pcs, h.upd, h.conn, h.crs>>
Init == s = Init0(Role, C0) /\ h = H0 /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(EView))))
Next == Start \/ (h.k # "" /\ h.n < MaxSteps /\ \E e \in Inputs : Do(e))
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Fine == h.bad = ""
Final1 == Step(s, [in |-> "adv", dt |-> 2000000])         \* nothing more happens but time
HF == Hist(h, Final1)
U01 == /\ h.conn <= 1 /\ h.fin <= 1 /\ h.dead <= 1 /\ Fine
       /\ h.fin = 1 => HF.dead = 1 /\ HF.fin = 1 /\ HF.conn = h.conn
       /\ (s.st \in Ended) <=> h.fin = 1
\* the peer of an ended leg has been told, unless it never answered our INVITE at all
U02 == h.fin = 1 => HF.gone \/ (\E c \in DOMAIN s.iv : s.iv[c].st = "call" /\ s.iv[c].cp) \/ h.lcs < 0
U03 == Fine
U04 == /\ s.st \in Connd /\ s.cfg.cred > 0 /\ h.conn > 0 /\ ~h.adj => s.t <= h.tc + s.cfg.cred + 1
       /\ s.st = "Trying" /\ s.nop > 0 => s.t <= h.t0 + s.cfg.nop + 1
       /\ Early /\ s.role = "uac" /\ s.cfg.exp > 0 => s.t <= h.t0 + s.cfg.exp + 1
\* once the media are taken care of both parties know, whatever came of it; what passes has been seen by the hooks
U05 == /\ Fine
       /\ s.df = <<>> => /\ s.st = "UpdS" => ~h.uw
                         /\ s.st = "Connected" => ~h.cw
                         /\ s.st = "Connected" /\ s.role = "uac" => h.tw = "told"
                         /\ s.st # "None" /\ s.role = "uas" /\ h.fin = 0 => h.tw # ""
                         /\ s.st # "Idle"
EmitEdge == Emit => PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'),
   e |-> IF h.k = "" THEN [in |-> "cfg", role |-> Role, cfg |-> s'.cfg]
         ELSE CHOOSE e \in Inputs : LET x == Step(s, Real(e)) IN s' = Clear(IF e.in = "adv" THEN x ELSE Step(x, [in |-> "adv", dt |-> 7]))]))
=============================================================================
