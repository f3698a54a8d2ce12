-------------------------------- MODULE Media --------------------------------
(* A media session at an RTP proxy (sippy/Rtp_proxy/session.py, Session/*.py,
   Cmd/sequencer.py): the commands of the session go to the proxy one at a time and in
   order; the session descriptions of both sides ("a" caller, "o" callee) are rewritten
   to the addresses the proxy gives.  Step(m, e) gives the state after one input e.
   Outputs: cmds (sent to the proxy), done (results handed on), ret (what the call
   itself returned). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EF == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max(a, b) == IF a > b THEN a ELSE b
Rng(q) == {q[i] : i \in 1..Len(q)}
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
RECURSIVE Fold(_, _, _)
Fold(F(_, _), z, q) == IF q = <<>> THEN z ELSE Fold(F, F(z, Head(q)), Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Lower(tr) == LET T == ("RTP/AVP" :> "rtp/avp" @@ "RTP/SAVP" :> "rtp/savp" @@ "UDP/TLS/RTP/SAVP" :> "udp/tls/rtp/savp" @@ "UDP/TLS/RTP/SAVPF" :> "udp/tls/rtp/savpf"
                       @@ "udptl" :> "udptl" @@ "UDPTL" :> "udptl" @@ "UDP/BFCP" :> "udp/bfcp" @@ "udp" :> "udp" @@ "RTP/SAVPF" :> "rtp/savpf") IN
             IF tr \in DOMAIN T THEN T[tr] ELSE tr
Media == {"rtp/avp", "rtp/savp", "rtp/savpf", "udp/tls/rtp/savp", "udp/tls/rtp/savpf", "udp", "udptl", "udp/bfcp"}
Dtls == {"UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF"}

(* cfg: kind "plain" | "w2s" (caller is WebRTC) | "s2w" (callee is WebRTC); sbind, tnot, local;
   ra, rb: address each side is known at ("" none); la, lb: local address of each side; za, zb: ptime (0 none); soft; ntag; nort *)
Other(x) == IF x = "a" THEN "o" ELSE "a"
Web(cfg, x) == (cfg.kind = "w2s" /\ x = "a") \/ (cfg.kind = "s2w" /\ x = "o")
Pt(cfg, x) == IF x = "a" THEN cfg.za ELSE cfg.zb
Side0 == [ex |-> FALSE, np |-> FALSE, cod |-> "None", oh |-> <<>>, n |-> 1, v |-> 0]
None == [k |-> "none"]
Init0(cfg) == [cfg |-> cfg, a |-> Side0, o |-> Side0, q |-> <<>>, fl |-> None, del |-> FALSE, sdel |-> FALSE, closed |-> FALSE, maxi |-> -1, mti |-> -1,
               up |-> EF, st |-> {}, cmds |-> <<>>, done |-> <<>>, ret |-> ""]
Clear(m) == [m EXCEPT !.cmds = <<>>, !.done = <<>>, !.ret = ""]
Done(m, id, r) == [m EXCEPT !.done = Append(@, r @@ [id |-> id])]
Res(txt) == [ok |-> TRUE, txt |-> txt]
Fail == [ok |-> FALSE, txt |-> ""]

(* ---- one command at a time ---- *)
Send(m, c, k) ==
  IF m.closed THEN m
  ELSE IF m.fl # None THEN [m EXCEPT !.q = Append(@, [c |-> c, k |-> k])]
  ELSE [m EXCEPT !.fl = [k |-> "cmd", c |-> c, do |-> k], !.cmds = Append(@, c)]
Tags(m, x) == IF x = "a" THEN "f t" ELSE "t f"
Cmd(k, o, a, s) == [k |-> k, o |-> o, a |-> a, s |-> s]
Ix(i) == "c-" \o ToString(i)
NTag(i) == IF i = 0 THEN "n" ELSE "n%20" \o ToString(i)
Update(m, x, i, ip, port, opts, subs, k) ==
  LET cfg == m.cfg y == Other(x)
      ra == IF x = "a" THEN cfg.ra ELSE cfg.rb
      la == IF x = "a" THEN cfg.la ELSE cfg.lb
      o == opts \cup (IF ~cfg.sbind THEN {} ELSE IF ra # "" THEN {"R" \o ra} ELSE IF la # "" /\ cfg.local THEN {"L" \o la} ELSE {})
                \cup (IF m[y].np THEN {"N"} ELSE {})
      tags == IF m[y].ex THEN Tags(m, x) ELSE IF x = "a" THEN "f" ELSE "t"
      a == Join(<<Ix(i), ip, ToString(port), tags>> \o (IF cfg.tnot /\ cfg.ntag THEN <<"sock", NTag(i)>> ELSE <<>>), " ")
  IN Send([m EXCEPT !.maxi = Max(@, i), ![y].np = FALSE], Cmd("U", o, a, subs), k)
Delete(m) == IF m.fl # None THEN [m EXCEPT !.sdel = TRUE] ELSE [m EXCEPT !.closed = TRUE]
RECURSIVE Dels(_, _)
Dels(m, i) == IF i < 0 THEN m ELSE Dels(IF i = m.mti THEN m ELSE Send(m, Cmd("D", {}, Ix(i) \o " f t", <<>>), [k |-> "none"]), i - 1)
DelSess(m) == IF m.del THEN m ELSE Delete([Dels(m, m.maxi) EXCEPT !.del = TRUE, !.maxi = -1])

(* ---- session descriptions ---- *)
Attr(n, v) == [n |-> n, v |-> v]
Plain(q) == Map(q, LAMBDA z : Attr(z.n, z.v))
Has(q, n) == \E i \in 1..Len(q) : q[i].n = n
First(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n /\ \A j \in 1..(i - 1) : q[j].n # n]
Without(q, S) == SelectSeq(q, LAMBDA z : z.n \notin S)
DtlsRm == {"setup", "fingerprint", "rtcp"}
IceRm == {"ice-ufrag", "ice-pwd", "candidate", "ice-options", "rtcp-mux", "end-of-candidates", "extmap", "extmap-allow-mixed", "msid", "msid-semantic", "mid", "group", "rtcp-fb"}
\* subcommands of one section: [kind, cmds]; "bad" if the description lacks what the gateway needs
Subs(m, x, s, sa) ==
  LET all == s.a \o sa
      role == IF Has(all, "setup") THEN First(all, "setup").v ELSE ""
      dd == IF ~Has(all, "fingerprint") \/ role \notin {"active", "actpass", "passive"} THEN [kind |-> "bad", cmds |-> <<>>]
            ELSE [kind |-> "dedtls", cmds |-> <<"M4:1 " \o (IF role = "passive" THEN "P " ELSE "A ") \o First(all, "fingerprint").v
                                               \o (IF Has(all, "ssrc") THEN " " \o First(all, "ssrc").f ELSE "")>>]
      cand == SelectSeq(s.a, LAMBDA z : z.n = "candidate" /\ z.f = "use")
      di == IF ~Has(s.a, "ice-ufrag") \/ ~Has(s.a, "ice-pwd") THEN [kind |-> "bad", cmds |-> <<>>]
            ELSE [kind |-> "deice", cmds |-> <<"M5:1 A " \o First(s.a, "ice-ufrag").v \o " " \o First(s.a, "ice-pwd").v>>
                                               \o Map(cand, LAMBDA z : "M5:1 C " \o z.v)]
  IN (IF Web(m.cfg, Other(x)) THEN <<[kind |-> "dtls", cmds |-> <<"M4:1 S">>], [kind |-> "ice", cmds |-> <<"M5:1 S">>]>> ELSE <<>>)
     \o (IF Web(m.cfg, x) /\ s.tr \in Dtls THEN <<dd>> ELSE <<>>) \o (IF Web(m.cfg, x) THEN <<di>> ELSE <<>>)
RECURSIVE Place(_, _, _, _, _)
Place(m, x, id, S, j) ==       \* one update per media section, in order
  IF j > Len(S) THEN m
  ELSE LET u == m.up[id]
           s == u.secs[S[j]]
           subs == Subs(m, x, s, u.sa)
           z == Pt(m.cfg, x)
           opts == (IF s.at = "IP6" THEN {"6"} ELSE {}) \cup (IF z > 0 /\ ~m.cfg.soft THEN {"z" \o ToString(z)} ELSE {})
       IN IF \E i \in 1..Len(subs) : subs[i].kind = "bad" THEN [m EXCEPT !.ret = "bad"]
          ELSE Place(Update(m, x, j - 1, s.addr, s.port, opts, Fold(LAMBDA q, c : q \o c.cmds, <<>>, subs),
                            [k |-> "sect", x |-> x, id |-> id, si |-> S[j], subs |-> subs, hold |-> s.addr = (IF s.at = "IP6" THEN "::" ELSE "0.0.0.0")]), x, id, S, j + 1)
OnSdp(m, e) ==
  LET S == SelectSeq([i \in 1..Len(e.sdp.secs) |-> i], LAMBDA i : Lower(e.sdp.secs[i].tr) \in Media) IN
  IF e.sdp.bad THEN [m EXCEPT !.ret = "bad"]
  ELSE IF S = <<>> THEN [m EXCEPT !.ret = "same"]
  ELSE Place([m EXCEPT !.ret = "wait", ![e.x].cod = Join(e.sdp.secs[S[1]].fm, ","),
                       !.up = Upd(@, e.id, [x |-> e.x, secs |-> e.sdp.secs, sa |-> e.sdp.sa, oth |-> e.sdp.oth, sid |-> e.sdp.sid, ver |-> e.sdp.ver, todo |-> Rng(S), dead |-> FALSE])], e.x, e.id, S, 1)
\* what the proxy answered to an update: ur = [ok, port, addr, fam, subs]
SubOk(c, r) == CASE c.kind = "dtls" -> Len(r[1].w) = 2 [] c.kind = "ice" -> Len(r[1].w) >= 3 [] OTHER -> \A i \in 1..Len(r) : r[i].t = "0"
Pad(q, n) == q \o [i \in 1..(n - Len(q)) |-> [t |-> "0", w |-> <<"0">>]]
RECURSIVE Split(_, _)
Split(subs, r) == IF subs = <<>> THEN <<>> ELSE <<SubSeq(r, 1, Len(subs[1].cmds))>> \o Split(Tail(subs), SubSeq(r, Len(subs[1].cmds) + 1, Len(r)))
UResult(m, subs, r) ==
  LET want == Fold(LAMBDA n, c : n + Len(c.cmds), 0, subs)
      parts == Split(subs, Pad(r.subs, want))
  IN IF r.k # "port" \/ r.port = 0 THEN Fail
     ELSE IF subs # <<>> /\ Len(r.subs) > want THEN Fail
     ELSE IF subs # <<>> /\ \E i \in 1..Len(subs) : ~SubOk(subs[i], parts[i]) THEN Fail
     ELSE [ok |-> TRUE, port |-> r.port, addr |-> IF r.addr = "" THEN "10.5.5.5" ELSE r.addr, fam |-> IF r.six THEN "IP6" ELSE "IP4",
           fins |-> [i \in 1..Len(subs) |-> [kind |-> subs[i].kind, r |-> parts[i]]]]
Rm(u, si, S) == LET here == {z.n : z \in Rng(u.secs[si].a)} IN
  [u EXCEPT !.secs[si].a = Without(@, S), !.sa = Without(@, S \ here)]
Add(u, si, q) == [u EXCEPT !.secs[si].a = @ \o q]
Fin(u, si, f) ==
  CASE f.kind = "dtls" -> Add(Rm(u, si, DtlsRm), si, <<Attr("setup", f.r[1].w[1]), Attr("fingerprint", f.r[1].w[2])>>)
    [] f.kind = "ice" -> [Add(Rm(u, si, IceRm), si, <<Attr("rtcp-mux", ""), Attr("ice-lite", ""), Attr("ice-ufrag", f.r[1].w[1]), Attr("ice-pwd", f.r[1].w[2])>>
                            \o Map(SubSeq(f.r[1].w, 3, Len(f.r[1].w)), LAMBDA c : Attr("candidate", c))) EXCEPT !.secs[si].tr = "UDP/TLS/RTP/SAVP"]
    [] f.kind = "dedtls" -> [Rm(u, si, DtlsRm) EXCEPT !.secs[si].tr = "RTP/AVP"]
    [] f.kind = "deice" -> [Rm(u, si, IceRm) EXCEPT !.secs[si].a = SelectSeq(@, LAMBDA z : ~(z.n = "ssrc" /\ z.msid))]
SectDone(m, k, ur) ==
  LET u == m.up[k.id] x == k.x si == k.si IN
  IF u.dead THEN m
  ELSE IF ~ur.ok THEN Done([m EXCEPT !.up[k.id].dead = TRUE], k.id, Fail)
  ELSE LET u1 == Fold(LAMBDA z, f : Fin(z, si, f), u, ur.fins)
           s == u1.secs[si]
           a1 == IF ~k.hold THEN s.a ELSE LET q == Without(s.a, {"sendrecv"}) IN IF Has(q, "sendonly") THEN q ELSE Append(q, Attr("sendonly", ""))
           z == Pt(m.cfg, x)
           a2 == IF z = 0 THEN a1 ELSE Append(Without(a1, {"ptime"}), Attr("ptime", ToString(z)))
           a3 == Map(a2, LAMBDA t : IF t.n = "rtcp" THEN Attr("rtcp", ToString(ur.port + 1) \o " IN " \o ur.fam \o " " \o ur.addr) ELSE t)
           s2 == [s EXCEPT !.a = a3, !.at = ur.fam, !.addr = ur.addr, !.port = IF @ = 0 THEN 0 ELSE ur.port]
           u2 == [u1 EXCEPT !.secs[si] = s2, !.todo = @ \ {si}]
           old == m[x].oh
           sd == CASE old = <<>> -> m[x] [] old[1] # u.sid -> [m[x] EXCEPT !.n = @ + 1, !.v = 0] [] old[2] # u.ver -> [m[x] EXCEPT !.v = @ + 1] [] OTHER -> m[x]
           N == Len(u2.secs)
           out == [ok |-> TRUE, txt |-> "sdp", n |-> sd.n, v |-> sd.v, sa |-> Plain(u2.sa), oth |-> u2.oth,
                   secs |-> [i \in 1..N |-> LET w == u2.secs[i] IN [m |-> w.m, tr |-> w.tr, at |-> w.at, addr |-> w.addr, port |-> w.port, fm |-> w.fm, b |-> w.b,
                                a |-> Plain(w.a) \o (IF i = N /\ m.cfg.nort THEN <<Attr("nortpproxy", "yes")>> ELSE <<>>)]]]
       IN IF u2.todo # {} THEN [m EXCEPT !.up[k.id] = u2]
          ELSE Done([m EXCEPT !.up[k.id] = [u2 EXCEPT !.dead = TRUE], ![x] = [sd EXCEPT !.oh = <<u.sid, u.ver>>]], k.id, out)

(* ---- the other commands ---- *)
PlayCmd(m, x, e) == Send(m, Cmd("P" \o ToString(e.times), {}, Join(<<Ix(e.idx), e.name, m[x].cod, Tags(m, x)>>, " "), <<>>), [k |-> "res", id |-> e.id])
Play(m, e) ==
  LET x == e.x y == Other(x) IN
  IF ~m[x].ex THEN Done(m, e.id, Fail)
  ELSE IF m[y].ex THEN PlayCmd(m, x, e)
  ELSE Update(m, y, e.idx, "0.0.0.0", 0, {}, <<>>, [k |-> "play", x |-> y, e |-> e])
CopyCmd(m, e) == Send(m, Cmd("C", {}, Join(<<Ix(e.idx), "udp:" \o e.name, Tags(m, e.x)>>, " "), <<>>), [k |-> "res", id |-> e.id])
Copy(m, e) == IF m[e.x].ex THEN CopyCmd(m, e) ELSE Update(m, e.x, e.idx, "0.0.0.0", 0, {}, <<>>, [k |-> "copy", x |-> e.x, e |-> e])
RecCmd(m, e, half) ==
  LET t == IF half = "a" THEN "f t" ELSE "t f" IN
  IF e.name = "" THEN Send(m, Cmd("R" \o e.flags, {}, Ix(e.idx) \o " " \o t, <<>>), [k |-> "res", id |-> e.id])
  ELSE Send(m, Cmd("C" \o e.flags, {}, Join(<<Ix(e.idx), e.name \o "." \o half, t>>, " "), <<>>),
            IF half = "a" /\ ~e.onlya THEN [k |-> "rec2", e |-> e] ELSE [k |-> "res", id |-> e.id])
Record(m, e) == IF m.a.ex THEN RecCmd(m, e, "a") ELSE Update(m, "a", e.idx, "0.0.0.0", 0, {}, <<>>, [k |-> "rec1", x |-> "a", e |-> e])
Stop(m, e) == IF ~m[e.x].ex THEN Done(m, e.id, Fail) ELSE Send(m, Cmd("S", {}, Ix(e.idx) \o " " \o Tags(m, e.x), <<>>), [k |-> "res", id |-> e.id])
\* the handler of a command
Handle(m, k, r) ==
  LET m1 == IF k.k \in {"sect", "play", "copy", "rec1"} THEN [m EXCEPT ![k.x].ex = TRUE] ELSE m
      ur == UResult(m, IF k.k = "sect" THEN k.subs ELSE <<>>, r)
      no == r.k = "none"
  IN CASE k.k = "none" -> m
       [] k.k = "sect" -> SectDone(m1, k, ur)
       [] k.k = "play" -> IF ur.ok THEN PlayCmd(m1, Other(k.x), k.e) ELSE Done(m1, k.e.id, Fail)
       [] k.k = "copy" -> IF ur.ok THEN CopyCmd(m1, k.e) ELSE Done(m1, k.e.id, Fail)
       [] k.k = "rec1" -> IF ur.ok THEN RecCmd(m1, k.e, "a") ELSE Done(m1, k.e.id, Fail)
       [] k.k = "rec2" -> IF no THEN Done(m, k.e.id, Fail) ELSE RecCmd(m, k.e, "o")
       [] k.k = "res" -> Done(m, k.id, IF no THEN Fail ELSE Res(r.txt))
Answer(m, r, Then(_)) ==
  IF m.fl = None THEN m
  ELSE LET k == m.fl.do
           m1 == [m EXCEPT !.fl = None]
           m2 == IF m1.q = <<>> THEN m1 ELSE LET h == Head(m1.q) IN [m1 EXCEPT !.q = Tail(@), !.fl = [k |-> "cmd", c |-> h.c, do |-> h.k], !.cmds = Append(@, h.c)]
           m3 == Handle(m2, k, r)
           m4 == IF m3.done # <<>> THEN Then(m3) ELSE m3     \* what the handler itself asks for
       IN IF m4.sdel THEN Delete(m4) ELSE m4
Op(m, e) ==
  CASE e.in = "sdp" -> OnSdp(m, e)
    [] e.in = "play" -> Play(m, e)
    [] e.in = "stop" -> Stop(m, e)
    [] e.in = "copy" -> Copy(m, e)
    [] e.in = "record" -> Record(m, e)
    [] e.in = "newport" -> [m EXCEPT ![e.x].np = TRUE]
    [] e.in = "timeout" -> [m EXCEPT !.mti = e.idx]
    [] e.in = "delete" -> DelSess(m)
    [] e.in = "stats" -> [m EXCEPT !.cmds = Append(@, Cmd("Q", {}, Ix(e.idx) \o " f t", <<>>)), !.st = @ \cup {e.id}]
    [] e.in = "sans" -> IF e.id \in m.st THEN Done([m EXCEPT !.st = @ \ {e.id}], e.id, IF e.r.k = "none" \/ e.r.k = "err" THEN Fail ELSE Res(e.r.txt)) ELSE m
    [] OTHER -> m
Step(m0, e) == LET m == Clear(m0) IN IF e.in = "ans" THEN Answer(m, e.r, LAMBDA z : Op(z, e.then)) ELSE Op(m, e)
=============================================================================
