-------------------------------- MODULE Leg --------------------------------
(* One call leg (sippy/UA.py, Ua*State*.py) on top of the transaction layer,
   between a call controller and a SIP peer.  The leg is deterministic, so it is
   specified as an operator Step(s, e) on its state s (including the transactions
   it uses) and one input e: a controller event, a message of the peer, or the
   passing of time.  Outputs of a step accumulate in s.w (messages on the wire),
   s.ev (events for the controller) and s.cb (callbacks).  Times are in ms. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TB == 32000       \* transaction timeout, wait for ACK, and time from ended to dead
TE == 300000      \* default Expires; longest wait for the end of a cancelled INVITE
KD == 600000      \* grace when the peer does not support keep alives
Off == 0

EF == <<>>
Upd(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Tms == {"exp", "nop", "nor", "cred", "te", "gd", "ka", "kd"}

NoTm == TLCEval([x \in Tms |-> Off])
Init0(role, cfg) ==
  [role |-> role, cfg |-> cfg, st |-> "None", t |-> 0, tm |-> NoTm, expm |-> 0, nopm |-> 0, nop |-> 0,
   lcs |-> 0, rcs |-> -1, lsdp |-> "", rsdp |-> "", held |-> FALSE, last |-> 100, late |-> FALSE, pend |-> -1,
   iv |-> EF,            \* INVITEs we sent, by relative number: st call|proc|done, dl deadline, cp cancel pending, own ua|ka
   rq |-> EF,            \* those that may be repeated with credentials -> credentials already carried
   tr |-> -1, katr |-> -1, katried |-> FALSE, kan |-> 0,
   sv |-> EF,            \* INVITEs received, by number: st proc|fin|done, el, nl, ak, nk, ck
   cur |-> -1, unans |-> EF, refer |-> EF,
   rt |-> "", tgt |-> "", dst |-> "", rts |-> <<>>, brk |-> FALSE, ltk |-> FALSE,
   ds |-> FALSE, ct |-> EF, c0 |-> cfg.cred, w |-> <<>>, ev |-> <<>>, cb |-> <<>>,
   df |-> <<>>,          \* bodies that media hooks are still working on, oldest first
   hm |-> <<>>, ho |-> <<>>, cn |-> 0, le |-> 0]   \* what hooks are to answer; their calls; events created, last one reported

W(s, o) == [s EXCEPT !.w = Append(@, o @@ [at |-> s.t])]
EvD == [code |-> 0, sdp |-> "", rs |-> "", rd |-> <<>>, mf |-> -1, ch |-> FALSE, ph |-> ""]
Ev(s, o) == [s EXCEPT !.ev = Append(@, o @@ EvD @@ [at |-> s.t]), !.cn = IF s.cfg.hr THEN @ + 1 ELSE 0, !.le = IF s.cfg.hr THEN s.cn + 1 ELSE 0]
Cb(s, n, code) == [s EXCEPT !.cb = Append(@, [n |-> n, code |-> code, at |-> s.t])]
TmOff(s, S) == [s EXCEPT !.tm = TLCEval([x \in Tms |-> IF x \in S THEN Off ELSE s.tm[x]])]
Ended == {"Cancelling", "Disconnected", "Failed", "Dead"}
Connd == {"Connected", "UpdC", "UpdS"}

(* ---- media hooks: bodies pass through them on their way in (r) and out (l) ---- *)
EndsWith(b, x) == Len(b) >= Len(x) /\ SubSeq(b, Len(b) - Len(x) + 1, Len(b)) = x
Opaque(b) == b # "" /\ SubSeq(b, 1, 1) = "g"       \* not a session description
Rw(b, x) == IF Opaque(b) THEN b
            ELSE IF EndsWith(b, "~h") THEN SubSeq(b, 1, Len(b) - 2) \o x \o "~h" ELSE b \o x
HookCall(s, side, b) == [s EXCEPT !.ho = Append(@, [side |-> side, sdp |-> b]), !.hm = IF @ = <<>> THEN @ ELSE Tail(@)]
Mode(s) == IF s.hm = <<>> THEN "now" ELSE Head(s.hm)
ErrCode(m) == IF m = "err" THEN 488 ELSE 0
Wait(s, d) == [s EXCEPT !.df = Append(@, d @@ [i |-> s.cn + 1]), !.cn = @ + 1]
Report(s, b, held, ev) == Ev([s EXCEPT !.rsdp = b, !.held = held], ev @@ [sdp |-> b])
\* body b of the peer is on its way to the controller as (part of) event ev
Hooked(s, b) == s.cfg.hr /\ b # ""
Refuses(s, b) == Hooked(s, b) /\ Mode(s) = "err"
In(s, b, held, k, ev) ==
  IF ~Hooked(s, b) THEN Report(s, b, held, ev)
  ELSE LET s1 == HookCall(s, "r", b) IN
    IF Mode(s) = "now" THEN Report(s1, Rw(b, "r"), held, ev)
    ELSE Wait(s1, [side |-> "r", k |-> k, ev |-> ev, sdp |-> b, held |-> held])
Why(c) == IF c = 0 THEN "" ELSE "h" \o ToString(c)

(* ---- messages ---- *)
Q == [k |-> "q", bad |-> "", sdp |-> "", rs |-> "", mf |-> -1, au |-> "", rd |-> "", num |-> ""]
Req(s, m, x) == LET o == x @@ [num |-> IF m = "INVITE" /\ s.rt = "" THEN s.cfg.num ELSE ""] @@ Q @@ [m |-> m, cs |-> s.lcs, tgt |-> s.tgt, dst |-> IF s.cfg.op THEN "op" ELSE s.dst, rts |-> s.rts, tt |-> s.rt]
                IN [W(s, o) EXCEPT !.lcs = s.lcs + 1]
Inner(s, m, cs, rs, b) == W(s, [m |-> m, cs |-> cs, tgt |-> "-", dst |-> "-", rts |-> <<>>, tt |-> "-", rs |-> rs, sdp |-> b] @@ Q)
Bye(s, rs) == Req(s, "BYE", [rs |-> rs])
RS == [k |-> "r", bad |-> "", sdp |-> "", rs |-> "", ct |-> FALSE, rd |-> <<>>, ch |-> FALSE, ph |-> ""]
Ph(e) == IF "ph" \in DOMAIN e THEN e.ph ELSE ""
Ch(e) == "ch" \in DOMAIN e /\ e.ch
Answer(s, m, cs, code) == W(s, [m |-> m, cs |-> cs, code |-> code] @@ RS)

(* ---- INVITEs we send ---- *)
Invite(s, x, own) ==
  LET cs == s.lcs s1 == Req(s, "INVITE", x) IN
  [s1 EXCEPT !.iv = Upd(s.iv, cs, [st |-> "call", dl |-> s.t + TB, cp |-> FALSE, own |-> own, rs |-> IF "rs" \in DOMAIN x THEN x.rs ELSE ""]),
             !.rq = Upd(s.rq, cs, IF "au" \in DOMAIN x THEN x.au ELSE ""),
             !.tr = IF own = "ua" THEN cs ELSE @, !.katr = IF own = "ka" THEN cs ELSE @]
CancelTx(s, cs, rs) ==
  IF cs \notin DOMAIN s.iv THEN s
  ELSE IF s.iv[cs].st = "call" THEN [s EXCEPT !.iv[cs].cp = TRUE]
  ELSE IF s.iv[cs].st = "proc" THEN Inner(s, "CANCEL", cs, rs, "")
  ELSE s

(* ---- INVITEs we received ---- *)
SvNew(s, cs, el, nk, ck) == [s EXCEPT !.sv = Upd(s.sv, cs, [st |-> "proc", el |-> s.t + el, nl |-> Off, ak |-> FALSE, nk |-> nk, ck |-> ck])]
SvAns(s, cs, x, ak) ==        \* the leg answers INVITE cs
  LET s1 == W(s, x @@ [m |-> "INVITE", cs |-> cs] @@ RS) IN
  IF cs \notin DOMAIN s.sv \/ s.sv[cs].st # "proc" THEN s       \* (refused by the transaction layer)
  ELSE IF x.code < 200 THEN s1
  ELSE [s1 EXCEPT !.sv[cs].st = "fin", !.sv[cs].el = Off, !.sv[cs].nl = s.t + TB, !.sv[cs].ak = ak]

(* ---- state changes ---- *)
Leave(s, new) ==           \* leaving "Connected": keep alive and withheld ACK are wound up
  IF s.st # "Connected" THEN s
  ELSE LET a == IF s.katr >= 0 THEN [CancelTx(s, s.katr, "") EXCEPT !.katr = -1] ELSE s
           b == IF s.pend >= 0 THEN [Inner(a, "ACK", s.pend, "", "") EXCEPT !.pend = -1] ELSE a
       IN TmOff(b, {"exp", "ka"})
GoDead(s) == [Cb(s, "dead", 0) EXCEPT !.st = "Dead", !.tm = NoTm, !.rq = EF, !.tr = -1, !.katr = -1]
Go(s0, new) ==
  LET s == Leave(s0, new) IN
  CASE new \in {"Disconnected", "Failed"} -> [s EXCEPT !.st = new, !.tm.gd = s.t + TB]
    [] new = "Cancelling" -> [s EXCEPT !.st = new, !.tm.te = s.t + TE]
    [] new = "Connected" -> [s EXCEPT !.st = new, !.brk = FALSE, !.katr = -1, !.kan = 0, !.tm.ka = IF s.cfg.ka > 0 THEN s.t + s.cfg.ka ELSE Off]
    [] new = "Dead" -> GoDead(s)
    [] OTHER -> [s EXCEPT !.st = new]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Since(s, e) == IF "t0" \in DOMAIN e THEN e.t0 ELSE s.t     \* when the event was created
StartCreditAt(s, t) ==
  LET ct == IF s.c0 > 0 THEN Upd(s.ct, 0, t + s.c0) ELSE s.ct
      ds == {ct[k] : k \in DOMAIN ct} \ {0}
  IN [s EXCEPT !.ct = ct, !.c0 = 0, !.tm.cred = IF ds = {} THEN @ ELSE Min(ds)]
StartCredit(s) == StartCreditAt(s, s.t)
NoCredit(s) == TmOff(s, {"cred"})

SetTimersAt(s, t) ==       \* as a call starts
  LET c == s.cfg
      nop == IF c.nop > 0 /\ c.exp > 0 /\ c.nop >= c.exp THEN 0 ELSE c.nop
      nor == IF s.role = "uas" \/ c.nor >= 32000 \/ (c.exp > 0 /\ c.nor >= c.exp) \/ (nop > 0 /\ c.nor >= nop) THEN 0 ELSE c.nor
      s1 == [s EXCEPT !.expm = t + c.exp, !.nopm = t + c.nop, !.nop = nop]
  IN IF nor > 0 THEN [s1 EXCEPT !.tm.nor = t + nor]
     ELSE IF nop > 0 THEN [s1 EXCEPT !.tm.nop = s1.nopm]
     ELSE IF c.exp > 0 THEN [s1 EXCEPT !.tm.exp = s1.expm]
     ELSE s1
SetTimers(s) == SetTimersAt(s, s.t)

(* where in-dialog requests go: rr as they are to be traversed *)
Names(q) == [i \in 1..Len(q) |-> q[i].u]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
SetRoutes(s, rr, con) ==
  LET tg == IF con # "" THEN con ELSE s.tgt IN
  IF Len(rr) = 0 THEN [s EXCEPT !.tgt = tg, !.rts = <<>>, !.dst = tg]
  ELSE IF ~rr[1].lr THEN [s EXCEPT !.rts = Names(Tail(rr)) \o <<tg>>, !.tgt = rr[1].u, !.dst = rr[1].u]
  ELSE IF s.cfg.op THEN [s EXCEPT !.rts = Names(rr) \o <<tg>>, !.tgt = rr[1].u]
  ELSE [s EXCEPT !.rts = Names(rr), !.tgt = tg, !.dst = rr[1].u]

(* ---- events of the controller ---- *)
Hang(s, e) ==              \* leaving a connected state on our own accord
  [NoCredit(s) EXCEPT !.ds = TRUE]
Ends == {"fail", "redirect", "disconnect"}

UacTry(s, e) ==
  LET s1 == [s EXCEPT !.late = (e.sdp = ""), !.lsdp = e.sdp, !.tgt = s.cfg.nh, !.dst = s.cfg.nh, !.st = "Trying", !.ltk = TRUE]
  IN SetTimersAt(Invite(s1, [sdp |-> e.sdp, mf |-> IF e.mf < 0 THEN 70 ELSE e.mf, rs |-> e.rs, au |-> IF "au" \in DOMAIN e THEN e.au ELSE ""], "ua"), Since(s, e))

CtlUac(s, e) ==            \* Trying, Ringing
  IF e.n \notin Ends THEN s
  ELSE Cb([Go(TmOff(CancelTx(s, s.tr, e.rs), {"exp", "nop", "nor"}), "Cancelling") EXCEPT !.ds = TRUE], "disc", s.last)

CtlUpdC(s, e) ==
  IF e.n \notin Ends THEN s
  ELSE Cb(Go(Hang(Bye(CancelTx(s, s.tr, ""), e.rs), e), "Disconnected"), "disc", 0)

CtlConn(s, e) ==
  CASE e.n \in Ends ->
         LET rd == IF e.n = "disconnect" THEN e.rd ELSE ""
             s1 == IF rd # "" THEN [Req(s, "REFER", [rs |-> e.rs, rd |-> rd]) EXCEPT !.refer = Upd(@, s.lcs, s.t + TB)] ELSE Bye(s, e.rs)
         IN Cb(Go(Hang(s1, e), "Disconnected"), "disc", 0)
    [] e.n = "update" ->
         IF s.lsdp # "" /\ s.lsdp = e.sdp /\ "now" \notin DOMAIN e THEN Ev(s, [n |-> "connect", code |-> 200, sdp |-> s.rsdp])
         ELSE IF e.mf = 0 THEN Ev(s, [n |-> "fail", code |-> 483])
         ELSE Go([Invite(s, [sdp |-> e.sdp, rs |-> e.rs, mf |-> IF e.mf < 0 THEN 70 ELSE e.mf - 1], "ua") EXCEPT !.lsdp = e.sdp], "UpdC")
    [] e.n = "info" -> Req(s, "INFO", [sdp |-> e.sdp, rs |-> e.rs])
    [] e.n = "connect" ->
         IF s.pend < 0 THEN s
         ELSE Cb([Inner(StartCreditAt(NoCredit(TmOff(s, {"exp"})), Since(s, e)), "ACK", s.pend, "", e.sdp) EXCEPT !.lsdp = e.sdp, !.pend = -1], "conn", 0)
    [] OTHER -> s

FailCode(e) == IF e.code = 0 THEN 500 ELSE e.code
Rd(e) == IF "rds" \in DOMAIN e THEN e.rds ELSE IF e.rd = "" THEN <<>> ELSE <<e.rd>>
CtlUas(s, e) ==            \* Trying, Ringing
  LET trying == s.st = "Trying" IN
  CASE e.n = "ring" ->
         IF trying /\ e.code = 100 THEN s
         ELSE LET code == IF e.code = 0 THEN 180 ELSE e.code
                  s1 == [SvAns(s, s.cur, [code |-> code, sdp |-> e.sdp, rs |-> e.rs, ct |-> TRUE, ph |-> Ph(e)], FALSE) EXCEPT !.lsdp = e.sdp, !.ltk = (@ \/ code > 100)]
                  s2 == IF s.tm.nop # Off THEN [TmOff(s1, {"nop"}) EXCEPT !.tm.exp = IF s.cfg.exp > 0 THEN s.expm ELSE @] ELSE s1
              IN Cb([s2 EXCEPT !.st = "Ringing"], "ring", code)
    [] e.n \in {"connect", "preconnect"} ->
         LET pre == e.n = "preconnect"
             s1 == [SvAns(s, s.cur, [code |-> e.code, sdp |-> e.sdp, rs |-> e.rs, ct |-> TRUE, ph |-> Ph(e)], pre) EXCEPT !.lsdp = e.sdp, !.ltk = TRUE]
         IN IF pre THEN Go(TmOff(s1, {"nop"}), "Connected")
            ELSE Cb(Go(StartCreditAt(TmOff(s1, {"nop", "exp"}), Since(s, e)), "Connected"), "conn", 0)
    [] e.n = "redirect" ->
         Cb(Go([TmOff(SvAns(s, s.cur, [code |-> FailCode(e), sdp |-> e.sdp, rs |-> e.rs, rd |-> Rd(e), ph |-> Ph(e)], FALSE), {"nop", "exp"}) EXCEPT !.ds = TRUE, !.ltk = TRUE], "Failed"), "fail", FailCode(e))
    [] e.n = "fail" ->
         Cb(Go([TmOff(SvAns(s, s.cur, [code |-> FailCode(e), rs |-> e.rs, ph |-> Ph(e), ch |-> Ch(e)], FALSE), {"nop", "exp"}) EXCEPT !.ds = TRUE, !.ltk = TRUE], "Failed"), "fail", FailCode(e))
    [] e.n = "disconnect" ->
         Cb(Go([TmOff(SvAns(s, s.cur, [code |-> 500, rs |-> e.rs], FALSE), {"nop", "exp"}) EXCEPT !.ds = TRUE, !.ltk = TRUE], "Disconnected"), "disc", 100)
    [] OTHER -> s

CtlUpdS(s, e) ==
  CASE e.n = "ring" -> [SvAns(s, s.cur, [code |-> IF e.code = 0 THEN 180 ELSE e.code, sdp |-> e.sdp, rs |-> e.rs, ph |-> Ph(e)], FALSE) EXCEPT !.lsdp = e.sdp]
    [] e.n = "connect" -> Go([SvAns(s, s.cur, [code |-> e.code, sdp |-> e.sdp, rs |-> e.rs, ct |-> TRUE, ph |-> Ph(e)], FALSE) EXCEPT !.lsdp = e.sdp], "Connected")
    [] e.n = "redirect" -> Go(SvAns(s, s.cur, [code |-> FailCode(e), sdp |-> e.sdp, rs |-> e.rs, rd |-> Rd(e), ph |-> Ph(e)], FALSE), "Connected")
    [] e.n = "fail" -> Go([SvAns(s, s.cur, [code |-> FailCode(e), rs |-> e.rs, ph |-> Ph(e), ch |-> Ch(e)], FALSE) EXCEPT !.rsdp = "", !.held = FALSE], "Connected")
    [] e.n = "disconnect" -> Cb(Go(Hang(Bye(SvAns(s, s.cur, [code |-> 487, rs |-> e.rs], FALSE), e.rs), e), "Disconnected"), "disc", 0)
    [] e.n = "update" -> Ev(s, [n |-> "fail", code |-> 491])      \* both sides at once
    [] OTHER -> s

Ctl0(s, e) ==
  CASE s.st = "Idle" -> IF e.n = "try" THEN UacTry(s, e)
                        ELSE IF e.n \in Ends THEN Cb(GoDead([s EXCEPT !.ds = TRUE]), "disc", 0)
                        ELSE s
    [] s.st = "None" -> IF s.role = "uas" THEN s
                        ELSE IF e.n = "try" THEN UacTry(s, e)
                        ELSE IF e.n \in {"fail", "disconnect"} THEN Cb(GoDead([s EXCEPT !.ds = TRUE]), "disc", 0)
                        ELSE s
    [] s.st \in {"Trying", "Ringing"} -> IF s.role = "uac" THEN CtlUac(s, e) ELSE CtlUas(s, e)
    [] s.st = "Connected" -> CtlConn(s, e)
    [] s.st = "UpdC" -> CtlUpdC(s, e)
    [] s.st = "UpdS" -> CtlUpdS(s, e)
    [] OTHER -> s

\* events with a body to be sent wait for the hook
HasBody(s, e) ==
  /\ s.cfg.hl /\ e.sdp # "" /\ "done" \notin DOMAIN e /\ ~EndsWith(e.sdp, "!")
  /\ CASE s.st = "None" -> e.n = "try" /\ s.role = "uac"
       [] s.st \in {"Trying", "Ringing"} -> s.role = "uas" /\ (e.n \in {"connect", "preconnect"} \/ (e.n = "ring" /\ e.code # 0 /\ ~(s.st = "Trying" /\ e.code = 100)))
       [] s.st = "UpdS" -> e.n = "connect" \/ (e.n = "ring" /\ e.code # 0)
       [] s.st = "Connected" -> (e.n = "update" /\ ~(s.lsdp # "" /\ s.lsdp = e.sdp)) \/ (e.n = "connect" /\ s.pend >= 0)
       [] OTHER -> FALSE
CE(n, code, rs) == [n |-> n, code |-> code, sdp |-> "", rs |-> rs, rd |-> "", mf |-> -1]
FailOf(s, c) == Ev(s, [n |-> "fail", code |-> c, rs |-> Why(c)])
GiveUp(s, c) == Ctl0(s, CE(IF s.st \in {"UpdC", "UpdS"} THEN "disconnect" ELSE "fail", c, Why(c)))
DiscE == [n |-> "disconnect", code |-> 0, sdp |-> "", rs |-> "", rd |-> "", mf |-> -1]
LocFail(s, e, c) ==
  IF s.ds \/ (e.n = "ring" /\ s.st \in Connd) THEN s       \* (a provisional answer is no loss)
  ELSE IF e.n = "update" THEN FailOf(s, c)
  ELSE IF s.st = "UpdS" THEN Ev(Ctl0(Ctl0(s, CE("fail", c, Why(c))), DiscE), [n |-> "disconnect"])
  ELSE GiveUp(FailOf(s, c), c)
Ctl(s, e) ==
  IF ~HasBody(s, e) THEN Ctl0(s, e)
  ELSE LET s1 == HookCall(IF s.st = "Connected" /\ e.n = "connect" THEN TmOff(s, {"exp"}) ELSE s, "l", e.sdp)
           m == Mode(s) IN
    IF m = "now" THEN Ctl0(s1, [now |-> TRUE, done |-> TRUE] @@ [e EXCEPT !.sdp = Rw(@, "l")])
    ELSE IF m = "late" THEN Wait([s1 EXCEPT !.st = IF @ = "None" THEN "Idle" ELSE @], [side |-> "l", e |-> [t0 |-> s.t] @@ e])
    ELSE LocFail(s1, e, ErrCode(m))
RemFail(s, d, c) ==
  IF s.ds THEN s
  ELSE CASE d.k = "upd"   -> IF s.st = "UpdS" THEN Ctl0(s, CE("fail", c, Why(c))) ELSE s
         [] d.k = "uconn" -> Ctl0(Ev(FailOf(s, c), [n |-> "disconnect"]), CE("disconnect", 0, Why(c)))
         [] d.k = "ring" /\ s.st \in Connd -> s
         [] OTHER -> GiveUp(FailOf(s, c), c)
\* the hook is done with the oldest body: c = 0, or the failure code
HookDone(s0, c) ==
  IF s0.df = <<>> THEN s0
  ELSE LET d == Head(s0.df) s == [s0 EXCEPT !.df = Tail(@)] IN
    IF d.side = "l" THEN (IF c # 0 THEN LocFail(s, d.e, c) ELSE Ctl0(s, [done |-> TRUE] @@ [d.e EXCEPT !.sdp = Rw(@, "l")]))
    ELSE IF c # 0 THEN RemFail(s, d, c)
    ELSE IF s.ds THEN s
    ELSE LET b == Rw(d.sdp, "r") IN
      IF d.k # "ring" THEN Report(s, b, d.held, d.ev)
      ELSE IF s.le > d.i THEN [s EXCEPT !.rsdp = b, !.held = FALSE]       \* overtaken: of no interest any more
      ELSE [Report(s, b, FALSE, d.ev) EXCEPT !.le = d.i]

\* the leg ends itself (a limit, the operator, an answer never acknowledged)
Hangup(s) ==
  IF s.st \in Ended THEN s
  ELSE LET s1 == Ctl(s, DiscE) IN IF s1.st = "Dead" THEN s1 ELSE Ev(s1, [n |-> "disconnect"])

(* ---- responses to our INVITE ---- *)
ConnEv(s, e, k) == In(s, e.sdp, FALSE, k, [n |-> "connect", code |-> e.code, ph |-> e.ph])
RingEv(s, e) == In(s, e.sdp, FALSE, "ring", [n |-> "ring", code |-> e.code, ph |-> e.ph])
\* the hook refuses what the peer has answered: the call is given up
Reject(s, e, c) ==
  LET s1 == HookCall(s, "r", e.sdp)
      s2 == IF e.code < 200 THEN CancelTx(s1, s1.tr, Why(c)) ELSE Bye(IF s.late THEN Inner(s1, "ACK", e.cs, "", "") ELSE s1, "")
  IN Cb(Go([TmOff(FailOf(s2, c), {"exp", "cred"}) EXCEPT !.ds = TRUE], IF e.code < 200 THEN "Cancelling" ELSE "Failed"), "fail", c)
FailEv(s, e) ==
  IF e.rd # "" /\ e.code \in {300, 301, 302} THEN Ev(s, [n |-> "redirect", code |-> e.code, sdp |-> e.sdp, rd |-> e.rds, rs |-> e.rs, ph |-> e.ph])
  ELSE Ev(s, [n |-> "fail", code |-> e.code, rs |-> e.rs, ch |-> s.cfg.pa /\ e.chal # "" /\ e.code \in {401, 407} /\ s.st = "Trying", ph |-> e.ph])

RspEarly(s0, e) ==         \* UAC in Trying or Ringing
  LET trying == s0.st = "Trying"
      a == IF trying \/ e.code < 200 THEN [s0 EXCEPT !.last = e.code] ELSE s0
      b == IF trying /\ a.tm.nor # Off
           THEN LET x == TmOff(a, {"nor"}) IN
                IF e.code = 100 /\ s0.nop > 0 THEN [x EXCEPT !.tm.nop = s0.nopm]
                ELSE IF e.code < 200 /\ s0.cfg.exp > 0 THEN [x EXCEPT !.tm.exp = s0.expm] ELSE x
           ELSE a
      c == IF trying /\ e.code # 100 /\ b.tm.nop # Off
           THEN LET x == TmOff(b, {"nop"}) IN IF e.code < 200 /\ s0.cfg.exp > 0 THEN [x EXCEPT !.tm.exp = s0.expm] ELSE x
           ELSE b
      d == TmOff(c, {"exp"})
  IN IF trying /\ e.code = 100 THEN Ev(b, [n |-> "ring", code |-> 100, sdp |-> e.sdp, ph |-> e.ph])
     ELSE IF e.code < 200 THEN
       LET r == IF trying THEN c ELSE Cb(c, "ring", e.code) IN
       IF Refuses(c, e.sdp) THEN Reject(r, e, 488)
       ELSE LET x == [RingEv(r, e) EXCEPT !.st = "Ringing"] IN IF trying THEN Cb(x, "ring", e.code) ELSE x
     ELSE IF e.code < 300 THEN
       LET r == SetRoutes(d, Rev(e.rr), e.con) IN
       IF e.tag = "" THEN Cb(Go([Bye(Ev(r, [n |-> "fail", code |-> 502]), "") EXCEPT !.ds = TRUE], "Failed"), "fail", 502)
       ELSE LET q == [r EXCEPT !.rt = e.tag] IN
         IF Refuses(q, e.sdp) THEN Reject(q, e, 488)
         ELSE IF ~s0.late \/ e.sdp = "" THEN Cb(Go(StartCredit(ConnEv([q EXCEPT !.late = FALSE], e, "conn")), "Connected"), "conn", 0)
         ELSE Go([In(q, e.sdp, FALSE, "conn", [n |-> "preconnect", code |-> e.code, ph |-> e.ph]) EXCEPT !.pend = e.cs], "Connected")
     ELSE Cb(Go([FailEv(d, e) EXCEPT !.ds = TRUE], "Failed"), "fail", e.code)

RspUpd(s, e) ==
  IF e.code < 200 THEN (IF e.code = 100 THEN s
                        ELSE IF e.sdp = "" THEN Ev(s, [n |-> "ring", code |-> e.code, ph |-> e.ph])
                        ELSE IF Refuses(s, e.sdp) THEN HookCall(s, "r", e.sdp)
                        ELSE IF ~Hooked(s, e.sdp) THEN Ev(s, [n |-> "ring", code |-> e.code, sdp |-> e.sdp, ph |-> e.ph])
                        ELSE RingEv(s, e))
  ELSE IF e.code < 300 THEN
    IF Refuses(s, e.sdp)
    THEN Cb(Go(Ev(Hang(Bye(FailOf(HookCall(s, "r", e.sdp), 502), Why(488)), e), [n |-> "disconnect", rs |-> Why(500)]), "Disconnected"), "disc", 0)
    ELSE Go(ConnEv(s, e, "uconn"), "Connected")
  ELSE LET red == e.rd # "" /\ e.code \in {300, 301, 302}
           s1 == FailEv(IF red THEN s ELSE [s EXCEPT !.lsdp = ""], e) IN
    IF e.code \in {408, 481} THEN Cb(Go(Ev(Hang(Bye(s1, e.rs), e), [n |-> "disconnect"]), "Disconnected"), "disc", 0)
    ELSE Go(s1, "Connected")

RspCanc(s, e) ==
  IF e.code < 200 THEN s
  ELSE LET s1 == TmOff(s, {"te"}) IN
    IF e.code < 300 THEN Go(Bye([SetRoutes(s1, Rev(e.rr), e.con) EXCEPT !.rt = e.tag], ""), "Disconnected")
    ELSE GoDead(s1)

RspUA(s, e) ==
  IF s.st \in {"None", "Idle", "Dead"} THEN s
  ELSE LET hf == IF e.code = 401 THEN "401" ELSE "407" IN
    IF ~s.cfg.pa /\ s.cfg.auth /\ e.code \in {401, 407} /\ e.cs \in DOMAIN s.rq /\ s.rq[e.cs] # hf /\ e.chal = "ok" /\ ~s.ds
    THEN Invite([s EXCEPT !.rq = Del(@, e.cs)], [sdp |-> s.lsdp, mf |-> 70, au |-> hf, rs |-> s.iv[e.cs].rs], "ua")
    ELSE LET s1 == IF e.code >= 200 THEN [s EXCEPT !.rq = Del(@, e.cs)] ELSE s IN
      CASE s.st \in {"Trying", "Ringing"} -> RspEarly(s1, e)
        [] s.st = "UpdC" -> RspUpd(s1, e)
        [] s.st = "Cancelling" -> RspCanc(s1, e)
        [] OTHER -> s1

RspKa(s, e) ==
  IF s.st # "Connected" \/ s.katr # e.cs THEN s
  ELSE IF e.code \in {401, 407} /\ s.cfg.auth /\ e.chal = "ok" /\ ~s.katried
  THEN [Invite(s, [sdp |-> s.lsdp, mf |-> 70, au |-> IF e.code = 401 THEN "401" ELSE "407"], "ka") EXCEPT !.katried = TRUE]
  ELSE IF e.code < 200 THEN s
  ELSE LET s1 == [s EXCEPT !.katr = -1, !.kan = @ + 1] IN
    IF e.code \in {408, 481, 486}
    THEN IF s1.kan = 1 THEN [s1 EXCEPT !.tm.kd = IF @ = Off THEN s.t + KD ELSE @] ELSE Hangup(s1)
    ELSE [s1 EXCEPT !.tm.ka = s.t + s.cfg.ka]

\* a withheld ACK: only to the 2xx offering media that the controller still has to answer
Withheld(s, e) == s.late /\ s.st \in {"Trying", "Ringing"} /\ e.code >= 200 /\ e.code < 300 /\ e.sdp # "" /\ e.tag # ""
Final(s, e) == IF s.iv[e.cs].own = "ka" THEN RspKa(s, e) ELSE RspUA(s, e)
IvResp(s, e) ==
  IF e.cs \notin DOMAIN s.iv \/ s.iv[e.cs].st = "done" THEN s
  ELSE LET t == s.iv[e.cs] IN
    IF e.code < 200 THEN
      LET a == [s EXCEPT !.iv[e.cs].st = "proc", !.iv[e.cs].dl = s.t + TE, !.iv[e.cs].cp = FALSE]
          b == IF t.st = "call" /\ t.cp THEN Inner(a, "CANCEL", e.cs, "", "") ELSE a
      IN Final(b, e)
    ELSE LET a == [s EXCEPT !.iv[e.cs].st = "done", !.iv[e.cs].dl = Off]
             b == IF Withheld(s, e) THEN a ELSE Inner(a, "ACK", e.cs, "", "")
         IN Final(b, e)
ReferResp(s, e) == IF e.cs \notin DOMAIN s.refer THEN s
                   ELSE IF e.code < 200 THEN [s EXCEPT !.refer[e.cs] = s.t + TB]
                   ELSE Bye([s EXCEPT !.refer = Del(@, e.cs)], "")
Resp(s, e) == IF e.m = "INVITE" THEN IvResp(s, e) ELSE IF e.m = "REFER" THEN ReferResp(s, e) ELSE s

(* ---- requests of the peer ---- *)
Ours(s, m, match) == /\ s.st \notin {"None", "Idle", "Dead"} /\ match = "ok" /\ s.ltk
                     /\ s.rt # "" /\ (m = "BYE" \/ ~s.brk)
ByReq(s, e, rd, rs) == Cb(Go(Ev(Hang(s, e), [n |-> "disconnect", rd |-> rd, rs |-> rs]), "Disconnected"), "disc", 0)
Unans(s, e) == [s EXCEPT !.unans = Upd(@, <<e.m, e.cs>>, e.match)]
Hold(s) == [b |-> IF s.held THEN s.rsdp ELSE s.rsdp \o "~h"]

ReqConn(s, e) ==
  CASE e.m = "REFER" -> IF e.rd = "" THEN Answer(s, e.m, e.cs, 400)
                        ELSE Cb(Ev(Go(Hang(Bye(Answer(s, e.m, e.cs, 202), ""), e), "Disconnected"), [n |-> "disconnect", rd |-> Rd(e)]), "disc", 0)
    [] e.m = "INVITE" ->
         LET a == [SvAns(SvNew(s, e.cs, e.el, FALSE, ""), e.cs, [code |-> 100], FALSE) EXCEPT !.cur = e.cs]
             hold == e.sdp = "" /\ s.rsdp # ""
             b == IF ~hold THEN e.sdp ELSE IF Opaque(s.rsdp) THEN "" ELSE Hold(s).b
         IN IF ~hold /\ s.rsdp = e.sdp THEN SvAns(a, e.cs, [code |-> 200, sdp |-> s.lsdp, ct |-> TRUE], FALSE)
            ELSE IF Refuses(s, b) THEN SvAns(HookCall(a, "r", b), e.cs, [code |-> 488, rs |-> Why(488)], FALSE)
            ELSE LET c == In([a EXCEPT !.sv[e.cs].nk = TRUE, !.sv[e.cs].ck = "upd"], b, b # "" /\ hold, "upd",
                             [n |-> "update", mf |-> e.mf, rs |-> e.rs])
                 IN Go(c, "UpdS")
    [] e.m = "BYE" -> ByReq(Answer(s, e.m, e.cs, 200), e, Rd(e), e.rs)
    [] e.m = "INFO" -> Ev(Answer(s, e.m, e.cs, 200), [n |-> "info", sdp |-> e.sdp, rs |-> e.rs])
    [] e.m = "OPTIONS" -> Answer(s, e.m, e.cs, 200)
    [] OTHER -> Unans(s, e)
ReqUpd(s, e) ==
  LET told == IF s.st = "UpdS" THEN SvAns(s, s.cur, [code |-> 487], FALSE) ELSE CancelTx(s, s.tr, "") IN
  CASE e.m = "INVITE" -> SvAns(SvNew(s, e.cs, e.el, FALSE, ""), e.cs, [code |-> 491], FALSE)
    [] e.m = "BYE" -> ByReq(Answer(told, e.m, e.cs, 200), e, <<>>, e.rs)
    [] e.m = "REFER" /\ s.st = "UpdS" ->
         IF e.rd = "" THEN Answer(s, e.m, e.cs, 400) ELSE ByReq(Bye(Answer(told, e.m, e.cs, 202), ""), e, Rd(e), "")
    [] OTHER -> Unans(s, e)

Refused(s, e, code) == IF e.m = "INVITE" THEN SvAns(SvNew(s, e.cs, e.el, FALSE, ""), e.cs, [code |-> code], FALSE) ELSE Answer(s, e.m, e.cs, code)
Nobody(s, e) == IF e.m = "INVITE" THEN SvNew(s, e.cs, e.el, FALSE, "") ELSE Unans(s, e)
InDialog(s, e) ==
  IF ~Ours(s, e.m, e.match) THEN Refused(s, e, 481)
  ELSE IF s.rcs >= e.cs THEN Refused(s, e, 500)
  ELSE LET s1 == [s EXCEPT !.rcs = e.cs] IN
    CASE s.st = "Connected" -> ReqConn(s1, e)
      [] s.st \in {"UpdC", "UpdS"} -> ReqUpd(s1, e)
      [] s.st = "Disconnected" -> IF e.m = "BYE" THEN Answer(s1, e.m, e.cs, 200) ELSE Refused(s1, e, 500)
      [] s.st = "Ringing" /\ s.role = "uas" /\ e.m = "BYE" ->
           ByReq(Answer(SvAns(TmOff(s1, {"exp"}), s.cur, [code |-> 487], FALSE), e.m, e.cs, 200), e, Rd(e), e.rs)
      [] OTHER -> Nobody(s1, e)

First(s, e) ==
  LET a == SvAns(SvNew([s EXCEPT !.rcs = e.cs, !.cur = e.cs, !.rt = "p0", !.brk = TRUE], e.cs, e.el, TRUE, "prog"), e.cs, [code |-> 100], FALSE)
      b == [SetRoutes(a, e.rr, e.con) EXCEPT !.st = "Trying"]
  IN IF Refuses(s, e.sdp)
     THEN Cb(Go([SvAns(HookCall(b, "r", e.sdp), e.cs, [code |-> 488, rs |-> Why(488)], FALSE) EXCEPT !.ds = TRUE, !.ltk = TRUE], "Failed"), "fail", 488)
     ELSE SetTimers(In(b, e.sdp, FALSE, "try", [n |-> "try", mf |-> e.mf, rs |-> e.rs]))

DoReq(s, e0) == LET e == e0 @@ [el |-> IF e0.exp > 0 THEN e0.exp * 1000 ELSE TE] IN IF e.first THEN First(s, e) ELSE InDialog(s, e)

Repeat(s, e) ==            \* a retransmission: only what has not been answered reaches the leg again
  IF <<e.m, e.cs>> \notin DOMAIN s.unans THEN s
  ELSE Answer([s EXCEPT !.unans = Del(@, <<e.m, e.cs>>)], e.m, e.cs, IF Ours(s, e.m, s.unans[<<e.m, e.cs>>]) THEN 500 ELSE 481)

Ack(s, e) ==
  IF e.cs \notin DOMAIN s.sv \/ s.sv[e.cs].st # "fin" THEN s
  ELSE LET s1 == [s EXCEPT !.sv[e.cs].st = "done", !.sv[e.cs].nl = Off] IN
    IF ~s.sv[e.cs].ak \/ s.st \notin Connd THEN s1
    ELSE LET c == Cb(StartCredit(NoCredit(TmOff(s1, {"exp"}))), "conn", 0) IN
      IF Refuses(c, e.sdp) THEN GiveUp(FailOf(HookCall(c, "r", e.sdp), 488), 488)
      ELSE In(c, e.sdp, FALSE, "conn", [n |-> "connect"])

\* a pending INVITE is cancelled by its sender (or has expired)
Gone(s, cs, rs) ==
  LET t == s.sv[cs]
      s1 == SvAns(s, cs, [code |-> 487], FALSE)
  IN CASE t.ck = "prog" -> Cb(Ev(Go([s1 EXCEPT !.ds = TRUE], "Disconnected"), [n |-> "disconnect", rs |-> rs]), "disc", 0)
       [] t.ck = "upd" -> Cb(Ev(Go(Hang(Bye(s1, ""), [n |-> ""]), "Disconnected"), [n |-> "disconnect", rs |-> rs]), "disc", 0)
       [] OTHER -> s1
Cancel(s, e) ==
  IF e.cs \in DOMAIN s.sv /\ s.sv[e.cs].st = "proc"
  THEN Gone(Answer(s, "CANCEL", e.cs, 200), e.cs, e.rs)
  ELSE Answer(s, "CANCEL", e.cs, 481)

Credit(s, e) ==
  LET s1 == [s EXCEPT !.ct = Upd(@, e.key, e.v)] IN
  IF s.st \in Connd THEN StartCredit(NoCredit(s1)) ELSE s1

(* ---- time ---- *)
Local408(cs) == [cs |-> cs, code |-> 408, sdp |-> "", tag |-> "", con |-> "", rr |-> <<>>, chal |-> "", rd |-> "", rds |-> <<>>, rs |-> "", ph |-> ""]
Due(s) == {<<s.tm[x], "tm", x>> : x \in {y \in Tms : s.tm[y] # Off}}
     \cup {<<s.iv[c].dl, "iv", c>> : c \in {y \in DOMAIN s.iv : s.iv[y].st # "done"}}
     \cup {<<s.sv[c].el, "el", c>> : c \in {y \in DOMAIN s.sv : s.sv[y].el # Off}}
     \cup {<<s.sv[c].nl, "nl", c>> : c \in {y \in DOMAIN s.sv : s.sv[y].nl # Off}}
     \cup {<<s.refer[c], "rf", c>> : c \in DOMAIN s.refer}
Fire(s, d) ==
  CASE d[2] = "tm" ->
         LET x == d[3] s1 == TmOff(s, {x}) IN
         IF x \in {"exp", "nop", "nor", "cred", "kd"} THEN Hangup(s1)
         ELSE IF x \in {"te", "gd"} THEN GoDead(s1)
         ELSE [Invite(s1, [sdp |-> s.lsdp, mf |-> 70], "ka") EXCEPT !.katried = FALSE]
    [] d[2] = "iv" -> Final([s EXCEPT !.iv[d[3]].st = "done", !.iv[d[3]].dl = Off], Local408(d[3]))
    [] d[2] = "el" -> Gone(s, d[3], "")
    [] d[2] = "nl" -> LET s1 == [s EXCEPT !.sv[d[3]].st = "done", !.sv[d[3]].nl = Off] IN IF s.sv[d[3]].nk THEN Hangup(s1) ELSE s1
    [] d[2] = "rf" -> Bye([s EXCEPT !.refer = Del(@, d[3])], "")
RECURSIVE Adv(_, _)
Adv(s, t) ==
  LET D == {d \in Due(s) : d[1] <= t} IN
  IF D = {} THEN [s EXCEPT !.t = t]
  ELSE LET m == Min({d[1] : d \in D})
           d == CHOOSE x \in D : x[1] = m
       IN Adv(Fire([s EXCEPT !.t = IF m > s.t THEN m ELSE s.t], d), t)

Clear(s) == [s EXCEPT !.w = <<>>, !.ev = <<>>, !.cb = <<>>, !.ho = <<>>, !.hm = <<>>]
Step1(s, e) ==
  CASE e.in = "ctl"    -> Ctl(s, e)
    [] e.in = "hangup" -> Hangup(s)
    [] e.in = "credit" -> Credit(s, e)
    [] e.in = "resp"   -> Resp(s, e)
    [] e.in = "req"    -> DoReq(s, e)
    [] e.in = "repeat" -> Repeat(s, e)
    [] e.in = "ack"    -> Ack(s, e)
    [] e.in = "cancel" -> Cancel(s, e)
    [] e.in = "hook"   -> HookDone(s, e.code)
    [] e.in = "adv"    -> Adv(s, s.t + e.dt)
Step(s0, e) ==
  LET s == Step1([Clear(s0) EXCEPT !.hm = IF "hk" \in DOMAIN e THEN e.hk ELSE <<>>], e)
  IN IF s0.cfg.hl \/ s0.cfg.hr THEN Adv(s, s.t) ELSE s      \* an event that had to wait may come too late
=============================================================================
