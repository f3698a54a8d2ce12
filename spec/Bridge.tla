------------------------------- MODULE Bridge -------------------------------
(* The back-to-back user agent (sippy/b2bua.py, B2B/Route.py, RadiusAccounting.py,
   RadiusAuthorisation.py): calls made of an answering leg "a" and of one originating
   leg per route tried ("1", "2", ...), all of them as specified in Leg, tied together
   by the call controller, admitted by RADIUS and accounted to RADIUS.  Step(s, e)
   gives the state after one input e; outputs are in the legs' w (messages) and in each
   call's out (RADIUS requests). *)
EXTENDS Leg

Name(i) == ToString(i)
Secs(x) == x * 1000
Lc0 == [exp |-> 0, nop |-> 0, nor |-> 0, cred |-> 0, ka |-> 0, op |-> FALSE, auth |-> FALSE, pa |-> FALSE, nh |-> "nh", num |-> "", hl |-> FALSE, hr |-> FALSE]
Call0 == [st |-> "Idle", legs |-> [a |-> Init0("uas", Lc0)], cur |-> "", routes |-> <<>>, hs |-> {}, chal |-> FALSE, user |-> "",
          cli |-> "", cld |-> "", cnam |-> "", sdp |-> "", auth |-> FALSE, mf |-> -1, rs |-> "", ip |-> "", xh |-> "",
          acct |-> EF, tm |-> EF, grp |-> {}, asked |-> FALSE, gone |-> TRUE, out |-> <<>>]
Sys0(cfg, n) == [t |-> 0, cfg |-> cfg, calls |-> [i \in 1..n |-> Call0], drain |-> FALSE, stop |-> -1, idle |-> -1, stray |-> <<>>]
Map1(f, k) == IF k \in DOMAIN f THEN f[k] ELSE k         \* number translation, given by the configuration as a table

(* ---- accounting ---- *)
Floor(x) == x \div 1000
RoundS(ms) == (ms + 500) \div 1000       \* (schedules keep away from exact halves)
Cause(code) ==
  LET T == (400 :> "7f" @@ 401 :> "39" @@ 402 :> "15" @@ 403 :> "39" @@ 404 :> "1" @@ 407 :> "15" @@ 408 :> "66" @@ 481 :> "7f" @@ 483 :> "7f" @@ 486 :> "11"
            @@ 487 :> "12" @@ 488 :> "7f" @@ 500 :> "29" @@ 502 :> "26" @@ 503 :> "3f" @@ 504 :> "66" @@ 600 :> "11" @@ 603 :> "15")
  IN IF code >= 400 THEN (IF code \in DOMAIN T THEN T[code] ELSE "7f") ELSE IF code < 200 THEN "10" ELSE "0"
Rel(org) == IF org = "caller" THEN "2" ELSE IF org = "callee" THEN "4" ELSE "8"
\* times in ms; the harness reads the times of a record in ms as well (whole seconds unless precise)
Rec(c, x, k, sys) ==
  LET a == c.acct[x] m == c.tm[x]
      conn == m.conn # -1
      end == IF k = "Stop" THEN m.disc ELSE sys.t
      delay == IF conn THEN m.conn - m.setup ELSE end - m.setup
      dur == IF conn THEN end - m.conn ELSE 0
      d1 == IF sys.cfg.precise THEN delay ELSE RoundS(delay) * 1000
      u1 == IF sys.cfg.precise THEN dur ELSE RoundS(dur) * 1000
  IN [k |-> k, leg |-> x, org |-> a.org, usr |-> a.usr, cli |-> a.cli, cld |-> a.cld, host |-> a.host,
      setup |-> m.setup, conn |-> m.setup + d1,
      disc |-> IF k = "Start" THEN -1 ELSE m.setup + d1 + u1, durms |-> IF k = "Start" THEN -1 ELSE dur]
Acc(org, usr, cli, cld, host) == [org |-> org, usr |-> usr, cli |-> cli, cld |-> cld, host |-> host, crec |-> FALSE, drec |-> FALSE, al |-> Off]
AcctConn(c, x, sys) ==
  IF x \notin DOMAIN c.acct \/ c.acct[x].crec THEN c
  ELSE [c EXCEPT !.acct[x].crec = TRUE, !.acct[x].al = IF sys.cfg.alive > 0 THEN sys.t + sys.cfg.alive ELSE Off,
                 !.out = IF sys.cfg.start THEN Append(@, Rec(c, x, "Start", sys)) ELSE @]
AcctDisc(c, x, org, code, sys) ==
  IF x \notin DOMAIN c.acct \/ c.acct[x].drec THEN c
  ELSE [c EXCEPT !.acct[x].drec = TRUE, !.acct[x].al = Off,
                 !.out = Append(@, Rec(c, x, "Stop", sys) @@ [cause |-> Cause(code), rel |-> Rel(org)])]

(* ---- the controller ---- *)
ToCtl(e) == [in |-> "ctl", n |-> e.n, code |-> e.code, sdp |-> e.sdp, rs |-> e.rs, rd |-> IF Len(e.rd) > 0 THEN e.rd[1] ELSE "",
             rds |-> e.rd, mf |-> e.mf, ch |-> e.ch, ph |-> e.ph]
FailE(code) == [EvD EXCEPT !.code = code] @@ [n |-> "fail"]
Live(c, x) == c.legs[x].st \in {"Trying", "Ringing"}

RECURSIVE Proc(_, _, _, _)
RECURSIVE Place(_, _, _)
LegDo(c, x, L, org, sys) == Proc([c EXCEPT !.legs[x] = L], x, org, sys)
Tell(c, x, e, org, sys) == LegDo(c, x, Ctl(c.legs[x], ToCtl(e)), org, sys)

\* one route: r = [n, d, cld, cli, cnam, cred, exp, nop, nor, hs, user, pa, fof, op, xh, gt, bill]
Place(c0, r, sys) ==
  IF c0.mf >= 0 /\ c0.mf - 1 <= 0 THEN [Tell(c0, "a", FailE(483), "", sys) EXCEPT !.st = "Dead"]
  ELSE
  LET x == Name(r.n)
      cld == Map1(sys.cfg.trout, r.cld)
      lc == [exp |-> Secs(r.exp), nop |-> Secs(r.nop), nor |-> Secs(r.nor), cred |-> Secs(r.cred), ka |-> sys.cfg.kaO, op |-> r.op, auth |-> r.user, pa |-> r.pa,
             nh |-> IF r.d = "src" THEN "nh" ELSE r.d, num |-> cld \o "|" \o r.cli \o "|" \o r.cnam \o "|" \o r.xh, hl |-> FALSE, hr |-> FALSE]
      L == [Init0("uac", lc) EXCEPT !.t = sys.t]
      c == [c0 EXCEPT !.cur = x, !.hs = {r.hs[i] : i \in 1..Len(r.hs)}, !.legs = Upd(@, x, L),
                      !.tm = Upd(@, x, [setup |-> sys.t, conn |-> -1, disc |-> -1]),
                      !.acct = IF ~r.fof /\ sys.cfg.acct THEN Upd(@, x, Acc("originate", IF r.bill # "" THEN r.bill ELSE c0.user, r.cli, cld, IF r.d = "src" THEN "nh" ELSE r.d)) ELSE @,
                      !.grp = IF r.gt = <<>> THEN @ ELSE @ \cup {[at |-> sys.t + Secs(r.gt[1]), to |-> r.n + r.gt[2]]}]
      e == [in |-> "ctl", n |-> "try", sdp |-> c.sdp, mf |-> IF c.mf < 0 THEN -1 ELSE c.mf - 1, rs |-> c.rs, au |-> IF c.auth /\ r.pa THEN "401" ELSE ""]
  IN LegDo(c, x, UacTry(L, e), "", sys)
PlaceNext(c, sys) == Place([c EXCEPT !.routes = Tail(@)], Head(c.routes), sys)

OnCb(c, x, b, org, sys) ==
  CASE b.n = "conn" ->
         LET c1 == AcctConn([c EXCEPT !.tm[x].conn = sys.t], x, sys) IN IF x = "a" THEN [c1 EXCEPT !.st = "Connected"] ELSE c1
    [] b.n \in {"disc", "fail"} ->
         LET c1 == [c EXCEPT !.tm[x].disc = sys.t] IN
         IF x # "a" THEN AcctDisc(c1, x, org, b.code, sys)
         ELSE AcctDisc([c1 EXCEPT !.st = IF c.cur # "" /\ @ # "Dead" THEN "Disconnecting" ELSE "Dead"], "a", org, b.code, sys)
    [] b.n = "dead" ->
         IF x = "a" THEN [c EXCEPT !.gone = @ \/ c.cur = "" \/ c.legs[c.cur].st = "Dead"]
         ELSE [c EXCEPT !.gone = @ \/ (x = c.cur /\ c.legs.a.st = "Dead")]
    [] OTHER -> c
Off1(r, credit, sys) ==        \* the credit that a route grants: its own, or else the authorization's; at most the configured maximum (-1: unlimited)
  LET own == IF r.cred = -2 THEN credit ELSE r.cred IN
  IF sys.cfg.maxcred >= 0 /\ (own < 0 \/ own > sys.cfg.maxcred) THEN sys.cfg.maxcred ELSE own
RECURSIVE Build(_, _, _, _, _)
Build(c, q, i, credit, sys) ==
  IF i > Len(q) THEN <<>>
  ELSE LET r == q[i]
           cr == Off1(r, credit, sys)
           rest == Build(c, q, i + 1, credit, sys)
       IN IF cr = 0 \/ r.exp = 0 THEN rest
          ELSE <<[r EXCEPT !.cred = IF cr < 0 THEN 0 ELSE cr, !.exp = IF @ < 0 THEN 0 ELSE @]
                  @@ [n |-> i, cld |-> IF r.ncld = "=" THEN c.cld ELSE r.ncld, cli |-> IF r.ncli = "=" THEN c.cli ELSE r.ncli,
                      cnam |-> IF r.ncnam = "=" THEN c.cnam ELSE r.ncnam,
                      xh |-> IF r.nxh # "" /\ c.xh # "" THEN r.nxh \o "," \o c.xh ELSE r.nxh \o c.xh]>> \o rest
Refuse(c, code, chal, sys) == [Tell(c, "a", [FailE(code) EXCEPT !.ch = chal], "", sys) EXCEPT !.st = "Dead"]
RDone(c0, r, sys) ==           \* r = [ok, routes, credit, cli, cnam]
  LET c == [c0 EXCEPT !.asked = FALSE] IN
  IF ~r.ok THEN (IF c.legs.a.st # "Trying" THEN c ELSE Refuse(c, IF c.chal THEN 401 ELSE 403, c.chal, sys))
  ELSE
  LET c1 == IF sys.cfg.acct THEN [c EXCEPT !.acct = Upd(@, "a", Acc("answer", c.user, c.cli, c.cld, c.ip))] ELSE c IN
  IF c.legs.a.st # "Trying" THEN AcctDisc(c1, "a", "caller", 0, sys)
  ELSE LET c2 == [c1 EXCEPT !.cli = IF r.cli = "=" THEN @ ELSE r.cli, !.cnam = IF r.cnam = "=" THEN @ ELSE r.cnam]
           q == IF sys.cfg.static # <<>> THEN sys.cfg.static ELSE r.routes
           rs == Build(c2, q, 1, r.credit, sys)
       IN IF q = <<>> \/ rs = <<>> THEN Refuse(c2, 500, FALSE, sys)
          ELSE PlaceNext([c2 EXCEPT !.st = "ARComplete", !.routes = rs], sys)
Nobody0 == [ok |-> TRUE, routes |-> <<>>, credit |-> -1, cli |-> "=", cnam |-> "="]
AuthReq(c, sys) == [k |-> "Auth", usr |-> c.user, cred |-> IF c.auth THEN "digest" ELSE "password", cli |-> c.cli, cld |-> c.cld, ip |-> c.ip]
OnTry(c0, e, sys) ==
  LET c == [c0 EXCEPT !.sdp = e.sdp, !.mf = e.mf, !.rs = e.rs] IN
  IF c.cld = "" THEN Refuse(c, 500, FALSE, sys)
  ELSE LET c1 == [c EXCEPT !.st = "WaitRoute", !.user = IF sys.cfg.authen /\ c.auth THEN "alice" ELSE c.ip] IN
       IF sys.cfg.authen THEN [c1 EXCEPT !.asked = TRUE, !.out = Append(@, AuthReq(c1, sys))]
       ELSE RDone(c1, Nobody0, sys)
OnEv(c, x, e, org, sys) ==
  IF x = "a" THEN
    IF c.st = "Idle" THEN OnTry(c, e, sys)
    ELSE IF c.st \notin {"ARComplete", "Connected", "Disconnecting"} \/ c.cur = "" THEN c
    ELSE Tell(c, c.cur, e, org, sys)
  ELSE IF /\ e.n \in {"fail", "disconnect"} /\ c.st = "ARComplete" /\ Live(c, "a") /\ c.routes # <<>>
          /\ (e.n = "disconnect" \/ e.code \notin c.hs)
  THEN PlaceNext(c, sys)
  ELSE Tell(c, "a", e, org, sys)
Proc(c, x, org, sys) ==        \* callbacks of leg x, then its events, reach the controller
  LET L == c.legs[x] IN
  IF L.cb # <<>> THEN Proc(OnCb([c EXCEPT !.legs[x].cb = Tail(@)], x, Head(L.cb), org, sys), x, org, sys)
  ELSE IF L.ev # <<>> THEN Proc(OnEv([c EXCEPT !.legs[x].ev = Tail(@)], x, Head(L.ev), org, sys), x, org, sys)
  ELSE c
Ka(L, cs) == cs \in DOMAIN L.iv /\ L.iv[cs].own = "ka"
Org(x) == IF x = "a" THEN "caller" ELSE "callee"

(* ---- inputs ---- *)
Early503(s, e) == IF s.drain THEN 503 ELSE IF e.src = "bad" THEN 403 ELSE IF s.cfg.authen /\ s.cfg.digest /\ e.auth # "digest" /\ s.cfg.donly THEN 401 ELSE 0
NewCall(s, e) ==
  LET code == Early503(s, e)
      lc == [Lc0 EXCEPT !.ka = s.cfg.kaA]
      L == [Init0("uas", lc) EXCEPT !.t = s.t]
      \* a call without a user agent of ours
      el == IF e.exp > 0 THEN e.exp * 1000 ELSE TE
      Rej == SvAns(SvNew(L, e.cs, el, FALSE, ""), e.cs, [code |-> code, ch |-> code = 401], FALSE)
      nat == e.nat
      cld == Map1(s.cfg.trin, e.cld)
      c == [Call0 EXCEPT !.gone = FALSE, !.legs.a = L, !.chal = s.cfg.authen /\ s.cfg.digest /\ e.auth # "digest",
                         !.cli = e.cli, !.cld = cld, !.cnam = e.cnam, !.auth = (e.auth = "digest"), !.ip = e.ip, !.xh = e.xh,
                         !.tm = Upd(EF, "a", [setup |-> s.t, conn |-> -1, disc |-> -1])]
  IN IF code # 0 THEN [s EXCEPT !.calls[e.call] = [Call0 EXCEPT !.legs.a = Rej]]
     ELSE LET F == DoReq(L, e)
              F1 == IF nat /\ e.sdp # "" THEN [F EXCEPT !.ev[1].sdp = e.sdp \o "~n", !.rsdp = e.sdp] ELSE F IN
          [s EXCEPT !.calls[e.call] = LegDo(c, "a", F1, "caller", s)]
LegIn(s, e) ==
  LET c == s.calls[e.call] IN
  IF e.leg \notin DOMAIN c.legs THEN s
  ELSE LET L == c.legs[e.leg]
           N == CASE e.in = "resp" -> Resp(L, e)
                  [] e.in = "req" -> DoReq(L, e)
                  [] e.in = "repeat" -> Repeat(L, e)
                  [] e.in = "ack" -> Ack(L, e)
                  [] e.in = "cancel" -> Cancel(L, e)
       IN [s EXCEPT !.calls[e.call] = LegDo(c, e.leg, N, IF e.in = "resp" /\ e.m = "INVITE" /\ Ka(L, e.cs) THEN "" ELSE Org(e.leg), s)]
Operator(s, S) == [s EXCEPT !.calls = [i \in DOMAIN s.calls |-> IF i \in S /\ ~s.calls[i].gone THEN LegDo(s.calls[i], "a", Hangup(s.calls[i].legs.a), "", s) ELSE s.calls[i]]]

(* ---- time ---- *)
CallDue(c) == UNION {{<<d[1], x, d>> : d \in Due(c.legs[x])} : x \in DOMAIN c.legs}
         \cup {<<c.acct[x].al, "alive", x>> : x \in {y \in DOMAIN c.acct : c.acct[y].al # Off}}
         \cup {<<g.at, "grp", g>> : g \in c.grp}
GroupOver(c0, g, sys) ==
  LET c == [c0 EXCEPT !.grp = @ \ {g}] IN
  IF c.st # "ARComplete" \/ ~Live(c, "a") \/ c.routes = <<>> \/ c.routes[1].n > g.to THEN c
  ELSE IF g.to > c.routes[Len(c.routes)].n THEN [c EXCEPT !.routes = <<>>]
  ELSE LET c1 == [c EXCEPT !.routes = SelectSeq(@, LAMBDA r : r.n >= g.to)]
       IN LegDo(c1, c1.cur, Hangup(c1.legs[c1.cur]), "", sys)
FireCall(c, d, sys) ==
  CASE d[2] = "alive" -> [c EXCEPT !.acct[d[3]].al = @ + sys.cfg.alive, !.out = Append(@, Rec(c, d[3], "Alive", sys) @@ [cause |-> "10"])]
    [] d[2] = "grp" -> GroupOver(c, d[3], sys)
    [] OTHER -> LegDo(c, d[2], Fire(c.legs[d[2]], d[3]), IF d[3][2] = "el" \/ (d[3][2] = "iv" /\ ~Ka(c.legs[d[2]], d[3][3])) THEN Org(d[2]) ELSE "", sys)
At(c, t) == [c EXCEPT !.legs = TLCEval([x \in DOMAIN c.legs |-> [c.legs[x] EXCEPT !.t = t]])]
SetT(s, t) == [s EXCEPT !.t = t, !.calls = TLCEval([i \in DOMAIN s.calls |-> At(s.calls[i], t)])]
RECURSIVE Advance(_, _)
Advance(s, t) ==
  LET D == UNION {{<<d[1], i, d>> : d \in {x \in CallDue(s.calls[i]) : x[1] <= t}} : i \in DOMAIN s.calls} IN
  IF D = {} THEN SetT(s, t)
  ELSE LET m == Min({d[1] : d \in D})
           d == CHOOSE x \in D : x[1] = m
           s1 == SetT(s, IF m > s.t THEN m ELSE s.t)
       IN Advance(TLCEval([s1 EXCEPT !.calls[d[2]] = FireCall(s1.calls[d[2]], d[3], s1)]), t)

ClearS(s) == [s EXCEPT !.stray = <<>>, !.calls = TLCEval([i \in DOMAIN s.calls |->
                [s.calls[i] EXCEPT !.out = <<>>, !.legs = [x \in DOMAIN s.calls[i].legs |-> Clear(s.calls[i].legs[x])]]])]
StrayCode(e, s) == IF e.totag THEN 481
                   ELSE IF e.m \in {"NOTIFY", "PING"} THEN 200 ELSE 501
Active(s) == {i \in DOMAIN s.calls : ~s.calls[i].gone /\ s.calls[i].st \in {"Connected", "ARComplete"}}
BStep0(s0, e) ==
  LET s == ClearS(s0) IN
  CASE e.in = "new" -> NewCall(s, e)
    [] e.in = "radius" -> IF s.calls[e.call].asked THEN [s EXCEPT !.calls[e.call] = RDone(s.calls[e.call], e.res, s)] ELSE s
    [] e.in \in {"resp", "req", "repeat", "ack", "cancel"} -> LegIn(s, e)
    [] e.in = "disc" -> Operator(s, {e.call})
    [] e.in = "discall" -> Operator(s, DOMAIN s.calls)
    [] e.in = "drain" -> [s EXCEPT !.drain = TRUE]
    [] e.in = "stop" -> [Operator(s, DOMAIN s.calls) EXCEPT !.drain = TRUE, !.stop = s.t]
    [] e.in = "stray" -> [s EXCEPT !.stray = <<[m |-> e.m, code |-> StrayCode(e, s)]>>]
    [] e.in = "adv" -> Advance(s, s.t + e.dt)
    [] OTHER -> s
\* draining: idle is the time since when the process has been free to restart
BStep(s0, e) == LET s == BStep0(s0, e) IN [s EXCEPT !.idle = IF s.drain /\ Active(s) = {} THEN (IF @ < 0 THEN s.t ELSE @) ELSE -1]
Halt(s0, e, s) ==
  CASE e.halt = "restart" -> s.drain /\ Active(s) = {}
    [] e.halt = "stop" -> s.stop >= 0 /\ Active(s) = {}
    [] OTHER -> (s.stop < 0 \/ s.t <= s.stop + 3000) /\ (s0.idle < 0 \/ s.t <= s0.idle + 61000)
ListedSeq(s) == LET q == SelectSeq([i \in DOMAIN s.calls |-> [call |-> i, st |-> s.calls[i].st]], LAMBDA z : ~s.calls[z.call].gone) IN q
Listed(s) == {[call |-> i, st |-> s.calls[i].st] : i \in {j \in DOMAIN s.calls : ~s.calls[j].gone}}
=============================================================================
