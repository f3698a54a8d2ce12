------------------------------ MODULE MCBridge ------------------------------
(* Exhaustive behaviours of the back-to-back user agent: every order of messages of
   the caller and of the callees, authorization answers, operator commands and timers,
   up to MaxSteps inputs.  After every input 7 ms pass. *)
EXTENDS Bridge, Json, TLCExt
CONSTANTS CfgIds, MaxSteps, Emit
VARIABLES s, h
vars == <<s, h>>
R0 == [d |-> "d1", ncld |-> "=", ncli |-> "=", ncnam |-> "=", nxh |-> "", cred |-> -2, exp |-> -1, nop |-> 0, nor |-> 0, hs |-> <<>>, user |-> FALSE,
       pa |-> TRUE, fof |-> FALSE, op |-> FALSE, bill |-> "", gt |-> <<>>]
C0 == [authen |-> TRUE, digest |-> FALSE, donly |-> FALSE, acct |-> TRUE, start |-> TRUE, alive |-> 0, precise |-> TRUE, maxcred |-> -1, kaA |-> 0, kaO |-> 0,
       trin |-> EF, trout |-> EF, retrin |-> "", retrout |-> "", static |-> <<>>, hide |-> FALSE]
Cfgs == [plain |-> C0,
         static |-> [C0 EXCEPT !.authen = FALSE, !.static = <<R0>>],
         hunt  |-> [C0 EXCEPT !.alive = 13000, !.precise = FALSE, !.hide = TRUE],
         group |-> [C0 EXCEPT !.acct = FALSE],
         limit |-> [C0 EXCEPT !.maxcred = 23, !.start = FALSE],
         chal  |-> [C0 EXCEPT !.digest = TRUE],
         only  |-> [C0 EXCEPT !.digest = TRUE, !.donly = TRUE],
         drain |-> C0]
Ans(routes, credit) == [ok |-> TRUE, routes |-> routes, credit |-> credit, cli |-> "=", cnam |-> "="]
No == [ok |-> FALSE, routes |-> <<>>, credit |-> -1, cli |-> "=", cnam |-> "="]
Results(k) ==
  CASE k = "hunt" -> {Ans(<<[R0 EXCEPT !.hs = <<486>>, !.exp = 19, !.nop = 7], [R0 EXCEPT !.d = "d2", !.ncld = "700", !.bill = "acc1"]>>, -1), No}
    [] k = "group" -> {Ans(<<[R0 EXCEPT !.gt = <<5, 2>>], [R0 EXCEPT !.d = "d2"], [R0 EXCEPT !.d = "d3", !.gt = <<11, 1>>]>>, -1)}
    [] k = "limit" -> {Ans(<<[R0 EXCEPT !.cred = 17, !.exp = 19, !.nor = 3, !.fof = TRUE], [R0 EXCEPT !.d = "d2", !.nop = 7]>>, -1), Ans(<<R0>>, 0), Ans(<<R0>>, 45)}
    [] OTHER -> {Ans(<<R0>>, -1), No, Ans(<<>>, -1)}
H0 == [k |-> "", n |-> 0, fin |-> 0, code |-> 0, ok |-> {}, adm |-> FALSE, att |-> <<>>, rec |-> <<>>, pcs |-> [x \in {"a", "1", "2", "3"} |-> 99], re |-> 0,
       tc |-> -1, told |-> FALSE, calls |-> 0, drain |-> FALSE, bad |-> ""]
New(i, cs, auth, src, mf) ==
  [in |-> "new", call |-> i, leg |-> "a", m |-> "INVITE", cs |-> cs, sdp |-> "a0", src |-> src, auth |-> auth, cld |-> "200", nat |-> FALSE, cli |-> "100", cnam |-> "A Caller",
   ip |-> "nh", xh |-> "xa", mf |-> mf, exp |-> 0, con |-> "c1", rr |-> <<>>, rs |-> "", first |-> TRUE, match |-> "ok", rd |-> ""]
RespE(x, m, cs, code, sdp) ==
  [in |-> "resp", call |-> 1, leg |-> x, m |-> m, cs |-> cs, code |-> code, sdp |-> sdp, tag |-> IF x = "a" THEN "p0" ELSE "p1", con |-> IF code \in 200..299 THEN "c1" ELSE "",
   rr |-> <<>>, chal |-> "", rd |-> "", rds |-> <<>>, rs |-> "", ph |-> ""]
ReqE(x, m, cs, sdp) ==
  [in |-> "req", call |-> 1, leg |-> x, m |-> m, cs |-> cs, sdp |-> sdp, match |-> "ok", rs |-> "y1", rd |-> "", mf |-> 70, exp |-> 0, con |-> "c1", rr |-> <<>>, first |-> FALSE]
c == s.calls[1]
Legs == DOMAIN c.legs
NewIn == IF h.calls = 0 THEN {New(1, 100, IF h.k = "only" THEN a ELSE "none", src, mf) : a \in {"none", "digest"}, src \in {"ok", "bad"}, mf \in {70, 1}}
         ELSE IF h.calls = 1 /\ h.k = "drain" THEN {New(2, 100, "none", "ok", 70)} ELSE {}
RespIn == UNION {LET L == c.legs[x] IN UNION {
    IF L.iv[i].st = "done" THEN {}
    ELSE IF x # "a" /\ i = 0 THEN {RespE(x, "INVITE", i, k, IF k \in {183, 200} THEN "b1" ELSE "") : k \in {100, 183, 200, 486, 503}}
    ELSE {RespE(x, "INVITE", i, k, IF k = 200 THEN "b2" ELSE "") : k \in {200, 481, 488}} : i \in DOMAIN L.iv} : x \in Legs}
Up(x) == c.legs[x].st \in Connd
ReqIn == UNION {LET L == c.legs[x] n == h.pcs[x] + (IF x = "a" /\ h.pcs[x] = 99 THEN 2 ELSE 1) IN
    IF Up(x) THEN {ReqE(x, "BYE", n, ""), ReqE(x, "INFO", n, "b9")}
                  \cup (IF h.re < 1 THEN {ReqE(x, "INVITE", n, IF x = "a" THEN "a5" ELSE "b5")} ELSE {})
    ELSE IF L.st = "Disconnected" THEN {ReqE(x, "BYE", n, "")}
    ELSE {} : x \in Legs}
MiscIn ==
  UNION {{[in |-> "ack", call |-> 1, leg |-> x, cs |-> i, sdp |-> ""] : i \in {y \in DOMAIN c.legs[x].sv : c.legs[x].sv[y].st = "fin"}}
      \cup {[in |-> "cancel", call |-> 1, leg |-> x, cs |-> i, rs |-> "y2"] : i \in {y \in DOMAIN c.legs[x].sv : c.legs[x].sv[y].st = "proc"}} : x \in Legs}
  \cup (IF h.calls > 0 /\ ~c.gone THEN {[in |-> "disc", call |-> 1]} ELSE {})
  \cup (IF h.k = "drain" THEN {[in |-> "drain"], [in |-> "stop"]} ELSE {})
  \cup {[in |-> "radius", call |-> i, res |-> r] : i \in {j \in DOMAIN s.calls : s.calls[j].asked}, r \in Results(h.k)}
  \cup LET D == UNION {CallDue(s.calls[i]) : i \in DOMAIN s.calls} IN IF D # {} THEN {[in |-> "adv", dt |-> Min({d[1] : d \in D}) - s.t + 1]} ELSE {}
Inputs == NewIn \cup RespIn \cup ReqIn \cup MiscIn

Finals(q) == SelectSeq(q, LAMBDA o : o.k = "r" /\ o.m = "INVITE" /\ o.cs = 100 /\ o.code >= 200)
First1(q) == SelectSeq(q, LAMBDA o : o.k = "q" /\ o.m = "INVITE" /\ o.tt = "")
Rng(q) == {q[i] : i \in 1..Len(q)}
RecBad(r, z) == LET S == {i \in 1..Len(r) : r[i].leg = z.leg} IN
  (z.k = "Stop" /\ \E i \in S : r[i].k = "Stop") \/ (z.k = "Start" /\ S # {}) \/ (z.k = "Alive" /\ \E i \in S : r[i].k = "Stop")
RECURSIVE RecAll(_, _, _)
RecAll(hh, q, i) == IF i > Len(q) THEN hh ELSE IF q[i].k = "Auth" THEN RecAll(hh, q, i + 1)
  ELSE RecAll([hh EXCEPT !.rec = Append(@, [leg |-> q[i].leg, k |-> q[i].k]), !.bad = IF RecBad(hh.rec, q[i]) THEN "records" ELSE @], q, i + 1)
Att(x) == SelectSeq([j \in 1..4 |-> j], LAMBDA j : Name(j) \in DOMAIN x.legs /\ First1(x.legs[Name(j)].w) # <<>>)
Hist(hh, x) ==
  LET k == x.calls[1] f == Finals(k.legs.a.w) IN
  RecAll([hh EXCEPT !.fin = @ + Len(f), !.code = IF f # <<>> THEN f[1].code ELSE @, !.att = @ \o Att(k),
                    !.tc = IF @ < 0 /\ k.tm # EF /\ k.tm["a"].conn >= 0 THEN k.tm["a"].conn ELSE @], k.out, 1)
Start == /\ h.k = ""
         /\ \E k \in CfgIds : s' = TLCEval(Sys0(Cfgs[k], 2)) /\ h' = [H0 EXCEPT !.k = k]
Do(e) ==
  LET x == BStep(s, e)
      y == IF e.in = "adv" THEN ClearS(x) ELSE BStep(x, [in |-> "adv", dt |-> 7])
      h1 == [h EXCEPT !.n = @ + 1, !.calls = IF e.in = "new" THEN @ + 1 ELSE @, !.drain = @ \/ e.in \in {"drain", "stop"},
               !.adm = @ \/ (e.in = "radius" /\ e.res.ok) \/ (e.in = "new" /\ ~s.cfg.authen /\ e.src = "ok"),
               !.ok = IF e.in = "resp" /\ e.m = "INVITE" /\ e.cs = 0 /\ e.code = 200 THEN @ \cup {e.leg} ELSE @,
               !.re = IF e.in = "req" /\ e.m = "INVITE" THEN @ + 1 ELSE @,
               !.told = @ \/ (e.in \in {"cancel", "disc", "stop"}) \/ (e.in = "req" /\ e.m = "BYE"),
               !.bad = IF e.in = "new" /\ h.drain /\ ~x.calls[e.call].gone THEN "admitted while draining" ELSE @,
               !.pcs = IF e.in = "req" THEN [@ EXCEPT ![e.leg] = e.cs] ELSE @]
  IN s' = TLCEval(ClearS(y)) /\ h' = TLCEval(Hist(Hist(h1, x), y))
Rel0(L) == [L EXCEPT !.t = 0, !.tm = [x \in Tms |-> IF L.tm[x] = Off THEN Off ELSE L.tm[x] - L.t], !.expm = 0, !.nopm = L.nopm - L.t,
            !.iv = [i \in DOMAIN L.iv |-> [L.iv[i] EXCEPT !.dl = IF @ = Off THEN Off ELSE @ - L.t]],
            !.sv = [i \in DOMAIN L.sv |-> [L.sv[i] EXCEPT !.el = IF @ = Off THEN Off ELSE @ - L.t, !.nl = IF @ = Off THEN Off ELSE @ - L.t]]]
Rel1(k) == [k EXCEPT !.legs = [x \in DOMAIN k.legs |-> Rel0(k.legs[x])], !.grp = {[at |-> g.at - s.t, to |-> g.to] : g \in k.grp},
            !.tm = [x \in DOMAIN k.tm |-> [j \in {"conn", "disc"} |-> k.tm[x][j] >= 0]],
            !.acct = [x \in DOMAIN k.acct |-> [k.acct[x] EXCEPT !.al = IF @ = Off THEN Off ELSE @ - s.t]]]
MView == <<[s EXCEPT !.t = 0, !.idle = 0, !.stop = @ >= 0, !.calls = [i \in DOMAIN s.calls |-> Rel1(s.calls[i])]], [h EXCEPT !.n = 0, !.tc = IF @ < 0 THEN -1 ELSE s.t - @]>>
EView == <<MView[1], h.k, h.calls, h.pcs, h.re>>
Init == s = Sys0(C0, 2) /\ h = H0 /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(EView))))
Next == Start \/ (h.k # "" /\ h.n < MaxSteps /\ \E e \in Inputs : Do(e))
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Quiet == [s EXCEPT !.cfg.alive = 0, !.calls = [i \in DOMAIN s.calls |-> [s.calls[i] EXCEPT !.acct = [x \in DOMAIN @ |-> [@[x] EXCEPT !.al = Off]]]]]
Over == BStep(Quiet, [in |-> "adv", dt |-> 3000000])     \* nothing more happens but time
Alive1 == {x \in Legs \ {"a"} : c.legs[x].st \notin Ended}
HO == Hist(h, Over)
B01 == /\ h.fin <= 1 /\ HO.fin <= 1
       /\ h.fin = 1 /\ h.code = 200 => h.ok # {}
       /\ h.calls > 0 => HO.fin = 1
B02 == /\ \A i \in DOMAIN Over.calls : LET k == Over.calls[i] IN
            \/ k.gone /\ \A x \in DOMAIN k.legs : k.legs[x].st \in {"None", "Dead"}
            \/ k.cur # "" /\ k.legs["a"].st \in Connd /\ k.legs[k.cur].st \in Connd
B03 == /\ Cardinality(Alive1) <= 1
       /\ \A i \in 1..Len(h.att) - 1 : h.att[i] < h.att[i + 1]
       /\ \A x \in DOMAIN c.legs : x # "a" => \E i \in 1..Len(h.att) : Name(h.att[i]) = x
B04 == h.att # <<>> => h.adm
B05 == /\ h.bad # "records"
       /\ \A x \in DOMAIN c.acct : Cardinality({i \in 1..Len(HO.rec) : HO.rec[i] = [leg |-> x, k |-> "Stop"]}) = (IF Over.calls[1].legs[x].st \in Ended THEN 1 ELSE 0)
B06 == \A x \in Alive1 : c.legs[x].cfg.cred > 0 /\ c.tm[x].conn >= 0 => s.t <= c.tm[x].conn + c.legs[x].cfg.cred + 1
B07 == h.bad # "admitted while draining"
EmitEdge == Emit => PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'),
   e |-> IF h.k = "" THEN [in |-> "cfg", cfg |-> s'.cfg]
         ELSE CHOOSE e \in Inputs : LET x == BStep(s, e) IN s' = ClearS(IF e.in = "adv" THEN x ELSE BStep(x, [in |-> "adv", dt |-> 7]))]))
=============================================================================
