------------------------------ MODULE MCMedia ------------------------------
(* Media sessions closed with an environment: two parties sending session descriptions,
   an application playing, copying and recording, and a proxy that answers, refuses or
   stays silent. *)
EXTENDS Media, Json, TLCExt
CONSTANTS CfgIds, MaxSteps, Emit, Focus     \* Focus: "cmd" (order of commands) or "sdp" (rewriting)
VARIABLES m, n, inp, h
vars == <<m, n, inp, h>>
Base == [kind |-> "plain", sbind |-> TRUE, tnot |-> TRUE, local |-> TRUE, ra |-> "", rb |-> "198.51.100.8", la |-> "198.51.100.9", lb |-> "", za |-> 0, zb |-> 0,
         soft |-> FALSE, ntag |-> TRUE, nort |-> FALSE]
Cfgs == [plain |-> Base, pt |-> [Base EXCEPT !.za = 20, !.zb = 30, !.soft = FALSE, !.nort = TRUE, !.tnot = FALSE], w2s |-> [Base EXCEPT !.kind = "w2s", !.sbind = FALSE],
         s2w |-> [Base EXCEPT !.kind = "s2w", !.sbind = FALSE], soft |-> [Base EXCEPT !.zb = 20, !.soft = TRUE, !.local = FALSE]]
At(nm, v) == [n |-> nm, v |-> v, f |-> "", msid |-> FALSE]
Web1 == <<At("setup", "actpass"), At("fingerprint", "sha-256 AA"), At("ice-ufrag", "uf"), At("ice-pwd", "pw"), [n |-> "candidate", v |-> "1 1 udp 9 192.168.1.5 5000 typ host", f |-> "use", msid |-> FALSE],
          [n |-> "ssrc", v |-> "77 msid:x", f |-> "77", msid |-> TRUE], At("sendrecv", "")>>
Sect(k, p) ==
  CASE k = "au" -> [m |-> "audio", tr |-> "RTP/AVP", at |-> "IP4", addr |-> "192.0.2.1", port |-> p, fm |-> <<"0", "101">>, b |-> <<>>, a |-> <<At("rtpmap", "0 PCMU/8000"), At("sendrecv", ""), At("rtcp", "5001")>>]
    [] k = "hold" -> [m |-> "audio", tr |-> "RTP/AVP", at |-> "IP4", addr |-> "0.0.0.0", port |-> p, fm |-> <<"0">>, b |-> <<>>, a |-> <<At("sendrecv", "")>>]
    [] k = "zero" -> [m |-> "video", tr |-> "RTP/SAVP", at |-> "IP6", addr |-> "2001:db8::1", port |-> 0, fm |-> <<"96">>, b |-> <<"b=AS:64">>, a |-> <<At("ptime", "40")>>]
    [] k = "msg" -> [m |-> "message", tr |-> "TCP/MSRP", at |-> "IP4", addr |-> "192.0.2.9", port |-> p, fm |-> <<"*">>, b |-> <<>>, a |-> <<At("path", "msrp:x")>>]
    [] OTHER -> [m |-> "audio", tr |-> "UDP/TLS/RTP/SAVPF", at |-> "IP4", addr |-> "192.0.2.3", port |-> p, fm |-> <<"0">>, b |-> <<>>, a |-> Web1]
Sdps(x) == IF Focus = "cmd" THEN (IF x = "a" THEN {<<"au">>} ELSE {<<"au", "zero">>})
           ELSE IF m.cfg.kind = "plain" THEN (IF x = "a" THEN {<<"hold">>, <<"au", "zero">>} ELSE {<<"msg", "au">>}) ELSE {<<"web">>}
Sdp(k, o) == [txt |-> "", bad |-> FALSE, sid |-> o[1], ver |-> o[2], sa |-> <<At("group", "BUNDLE 0")>>, oth |-> <<"s=-", "t=0 0">>, secs |-> [i \in 1..Len(k) |-> Sect(k[i], 4000 + 2 * i)]]
Orgs == IF Focus = "cmd" THEN {<<"1", "1">>} ELSE {<<"1", "1">>, <<"1", "2">>, <<"2", "1">>}
R0 == [k |-> "none", port |-> 0, addr |-> "", six |-> FALSE, subs |-> <<>>, txt |-> ""]
SubAns(c) == IF c = "M4:1 S" THEN [t |-> "actpass sha-256 DD", w |-> <<"actpass", "sha-256 DD">>]
             ELSE IF c = "M5:1 S" THEN [t |-> "LU LP c=1%201%20udp", w |-> <<"LU", "LP", "1 1 udp">>] ELSE [t |-> "0", w |-> <<"0">>]
Answers(f) ==
  IF f = None THEN {}
  ELSE {R0, [R0 EXCEPT !.k = "err", !.txt = "E1"]} \cup
       IF f.c.k = "U" THEN {[R0 EXCEPT !.k = "port", !.port = 20000, !.subs = [i \in 1..Len(f.c.s) |-> SubAns(f.c.s[i])]],
                            [R0 EXCEPT !.k = "port", !.port = 30000, !.addr = "2001:db8::99", !.six = TRUE, !.subs = [i \in 1..Len(f.c.s) |-> SubAns(f.c.s[i])]]}
                           \cup (IF f.c.s = <<>> THEN {} ELSE {[R0 EXCEPT !.k = "port", !.port = 20000, !.subs = [i \in 1..Len(f.c.s) |-> [t |-> "-1", w |-> <<"-1">>]]]})
       ELSE {[R0 EXCEPT !.k = "txt", !.txt = "0"]}
NoThen == [in |-> "none"]
Acts(id) ==
  UNION {{[in |-> "sdp", id |-> id, x |-> x, sdp |-> Sdp(k, o)] : k \in Sdps(x), o \in Orgs} : x \in {"a", "o"}}
  \cup {[in |-> "newport", x |-> "a"], [in |-> "timeout", idx |-> 0], [in |-> "delete", drop |-> FALSE]}
  \cup IF Focus = "sdp" THEN {} ELSE
       {[in |-> "play", id |-> id, x |-> x, name |-> "moh", times |-> 1, idx |-> 0] : x \in {x \in {"a", "o"} : m[x].cod # "None"}}
  \cup {[in |-> "stop", id |-> id, x |-> "o", idx |-> 0]}
  \cup {[in |-> "copy", id |-> id, x |-> x, name |-> "192.0.2.50:9000", idx |-> 0] : x \in {"a", "o"}}
  \cup {[in |-> "record", id |-> id, x |-> "a", name |-> nm, flags |-> "", onlya |-> FALSE, idx |-> 1] : nm \in {"", "rec1"}}
\* what an application may do now: nothing once the session is deleted
Inputs(id) ==
  (IF m.del \/ Len(m.q) >= 3 THEN {} ELSE Acts(id))
  \cup {[in |-> "ans", r |-> r, then |-> t] : r \in Answers(m.fl),
          t \in {NoThen} \cup (IF m.del THEN {} ELSE {[in |-> "stop", id |-> id, x |-> "a", idx |-> 0], [in |-> "delete", drop |-> FALSE]})}
\* history: outstanding requests, results by request, commands, what was delivered by each side
H0 == [want |-> EF, res |-> EF, cmds |-> <<>>, answered |-> 0, used |-> {}, dels |-> <<>>, src |-> [a |-> <<>>, o |-> <<>>], out |-> [a |-> <<>>, o |-> <<>>], got |-> EF]
IsReq(e) == e.in \in {"sdp", "play", "stop", "copy", "record"}
Note(q, e) == IF ~IsReq(e) THEN q ELSE Upd(q, e.id, e)
CmdIdx(c) == IF SubSeq(c.a, 1, 3) = "c-0" THEN 0 ELSE 1
Hist(e, x) ==
  LET w1 == Note(h.want, e)
      w == IF e.in = "ans" THEN (IF x.done # <<>> THEN Note(w1, e.then) ELSE w1) ELSE w1
      sq == SelectSeq(x.done, LAMBDA d : d.ok /\ d.txt = "sdp")
      del == Map(sq, LAMBDA d : [x |-> w[d.id].x, src |-> <<w[d.id].sdp.sid, w[d.id].sdp.ver>>, out |-> <<d.n, d.v>>])
      OfX(k) == SelectSeq(del, LAMBDA d : d.x = k)
  IN [h EXCEPT !.want = w, !.res = Fold(LAMBDA f, d : Upd(f, d.id, (IF d.id \in DOMAIN f THEN f[d.id] ELSE 0) + 1), @, x.done),
               !.cmds = @ \o Map(x.cmds, LAMBDA c : c.k), !.answered = @ + (IF e.in = "ans" THEN 1 ELSE 0),
               !.used = @ \cup {CmdIdx(c) : c \in {c \in Rng(x.cmds) : c.k = "U"}},
               !.dels = @ \o Map(SelectSeq(x.cmds, LAMBDA c : c.k = "D"), CmdIdx),
               !.src = [k \in {"a", "o"} |-> @[k] \o Map(OfX(k), LAMBDA d : d.src)],
               !.out = [k \in {"a", "o"} |-> @[k] \o Map(OfX(k), LAMBDA d : d.out)]]
Init == /\ \E c \in CfgIds : m = Init0(Cfgs[c])
        /\ n = 0 /\ inp = [in |-> "cfg", cfg |-> m.cfg] /\ h = H0
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<"start">>))))
EView == IF n = 0 THEN <<"start">> ELSE <<[m EXCEPT !.cmds = <<>>, !.done = <<>>, !.ret = ""], n, 0>>
MView == <<m, n, h>>
Next == IF Emit /\ n = 0 THEN n' = 1 /\ inp' = [in |-> "cfg", cfg |-> m.cfg] /\ UNCHANGED <<m, h>>
        ELSE /\ n < MaxSteps
             /\ \E e \in Inputs(n) :
                  LET x == TLCEval(Step(m, e)) IN
                  /\ m' = x /\ inp' = e /\ n' = n + 1 /\ h' = (IF Emit THEN h ELSE TLCEval(Hist(e, x)))
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'), e |-> inp']))
\* ---- guarantees
Quiet == m.fl = None /\ m.q = <<>>
R01 == /\ \A i \in DOMAIN h.res : h.res[i] = 1
       /\ m.fl = None => m.q = <<>>
       /\ Len(h.cmds) = h.answered + (IF m.fl = None THEN 0 ELSE 1)
       /\ Quiet => \A i \in DOMAIN h.want : (i \in DOMAIN h.res \/ (h.want[i].in = "sdp" /\ (i \notin DOMAIN m.up \/ Web(m.cfg, h.want[i].x))))
       /\ \A i, j \in 1..Len(h.dels) : i # j => h.dels[i] # h.dels[j]
       /\ m.del /\ Quiet => h.used \ {m.mti} \subseteq Rng(h.dels)
R03 == /\ \A k \in {"a", "o"} : \A i \in 1..(Len(h.src[k]) - 1) :
            LET s == h.src[k] o == h.out[k] IN
            /\ s[i + 1] = s[i] => o[i + 1] = o[i]
            /\ s[i + 1][1] = s[i][1] /\ s[i + 1][2] # s[i][2] => o[i + 1] = <<o[i][1], o[i][2] + 1>>
            /\ s[i + 1][1] # s[i][1] => o[i + 1][1] # o[i][1]
       /\ \A d \in Rng(m.done) : d.ok /\ d.txt = "sdp" =>
            \A i \in 1..Len(d.secs) :
              LET u == h.want[d.id].sdp.secs[i] g == d.secs[i] IN
              IF Lower(u.tr) \in Media THEN /\ g.addr \notin {"192.0.2.1", "192.0.2.3", "0.0.0.0", "2001:db8::1"}
                                            /\ (g.port = 0) = (u.port = 0) /\ g.port \in {0, 20000, 30000}
                                            /\ (g.port = 20000 => g.addr = "10.5.5.5") /\ (g.port = 30000 => g.addr = "2001:db8::99")
              ELSE g.addr = u.addr /\ g.port = u.port /\ g.tr = u.tr
=============================================================================
