------------------------------- MODULE TMedia -------------------------------
EXTENDS Media, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Count(a, x) = Count(b, x)
P(p) == Props \cap {p} # {}
SameCmd(g, w) == g.k = w.k /\ Rng(g.o) = w.o /\ g.a = w.a /\ g.s = w.s
CmdsOk(e, n) == Len(e.cmds) = Len(n.cmds) /\ \A i \in 1..Len(e.cmds) : SameCmd(e.cmds[i], n.cmds[i])
SameSect(g, w) == g.m = w.m /\ g.tr = w.tr /\ g.at = w.at /\ g.addr = w.addr /\ g.port = w.port /\ g.fm = w.fm /\ SameBag(g.b, w.b) /\ SameBag(g.a, w.a)
SameDone(g, w) ==
  /\ g.id = w.id /\ g.ok = w.ok /\ (w.ok => g.txt = w.txt)
  /\ (P("R03") /\ w.ok /\ w.txt = "sdp") =>
        /\ g.n = w.n /\ g.v = w.v /\ SameBag(g.sa, w.sa) /\ SameBag(g.oth, w.oth) /\ g.oc = "203.0.113.9" /\ Len(g.secs) = Len(w.secs)
        /\ \A i \in 1..Len(g.secs) : SameSect(g.secs[i], w.secs[i])
DoneOk(e, n) == Len(e.done) = Len(n.done) /\ \A w \in Rng(n.done) : \E g \in Rng(e.done) : SameDone(g, w)
\* what is said to the proxy about a section belongs to R03, that it is said in turn to R01
Bare(c) == [k |-> c.k, a |-> c.a]
TurnOk(e, n) == Map(e.cmds, Bare) = Map(n.cmds, Bare)
Ok(e, n) == /\ e.exc = "" /\ e.ret = n.ret /\ DoneOk(e, n)
            /\ IF P("R03") THEN CmdsOk(e, n) ELSE TurnOk(e, n)
            /\ e.in = "sdp" /\ e.ret = "same" => e.kept
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].cfg)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == Step(s, e) IN
     IF Ok(e, x) THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [cmds |-> x.cmds, done |-> x.done, ret |-> x.ret],
                got |-> [cmds |-> e.cmds, done |-> e.done, ret |-> e.ret, exc |-> e.exc]]))
          /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
