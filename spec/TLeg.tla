-------------------------------- MODULE TLeg --------------------------------
EXTENDS Leg, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Count(a, x) = Count(b, x)
Map(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
RECURSIVE Without(_, _)
Without(q, n) ==       \* all but the first n hang-up events
  IF q = <<>> THEN <<>>
  ELSE IF Head(q).n = "disconnect" /\ n = 0 THEN Without(Tail(q), 0)
  ELSE <<Head(q)>> \o Without(Tail(q), IF Head(q).n = "disconnect" THEN n - 1 ELSE n)
\* an ended leg may repeat its hang-up event; a leg that hangs itself up may do so in passing
Evs(q, e) == IF s.st \in {"Cancelling", "Disconnected", "Failed"} THEN Without(q, 0) ELSE IF e.in = "adv" THEN Without(q, 1) ELSE q
P2(o) == IF o.k = "q" /\ o.m \in {"BYE", "ACK", "CANCEL"} THEN [x \in DOMAIN o \ {"sdp", "rs"} |-> o[x]] ELSE IF o.k = "q" THEN [k |-> "q", m |-> o.m, at |-> o.at] ELSE IF o.k = "r" THEN [k |-> "r", m |-> o.m, cs |-> o.cs, code |-> o.code, at |-> o.at] ELSE o
Fin(o) == o.k = "q" \/ (o.k = "r" /\ (o.code >= 200)) \/ o.k = "?"
Brief(q) == SelectSeq(Map(q, P2), Fin)
Evn(q) == Map(q, LAMBDA x : [n |-> x.n, code |-> x.code])
Ok(e, x) ==
  /\ e.exc = ""
  /\ Props \cap {"U01"} # {} => (s.st = "Dead" => SameBag(e.w, x.w)) /\ e.cb = x.cb /\ Evs(e.ev, e) = Evs(x.ev, e)
  /\ Props \cap {"U05"} # {} => SameBag(e.w, x.w) /\ e.cb = x.cb /\ Evs(e.ev, e) = Evs(x.ev, e) /\ e.ho = x.ho
  /\ Props \cap {"U02"} # {} => SameBag(Brief(e.w), Brief(x.w)) /\ e.cb = x.cb
  /\ Props \cap {"U03"} # {} => SameBag(e.w, x.w)
  /\ Props \cap {"U04"} # {} /\ e.in \in {"adv", "credit"} => SameBag(Brief(e.w), Brief(x.w)) /\ e.cb = x.cb /\ Evn(Evs(e.ev, e)) = Evn(Evs(x.ev, e))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].role, Traces[tr].cfg)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == Step(s, e) IN
     IF Ok(e, x) /\ e.t = x.t THEN s' = x /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
     ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [w |-> x.w, ev |-> x.ev, cb |-> x.cb, ho |-> x.ho, st |-> x.st, t |-> x.t],
                                           got |-> [w |-> e.w, ev |-> e.ev, cb |-> e.cb, ho |-> e.ho, exc |-> e.exc]]))
          /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
