------------------------------- MODULE TRtpp -------------------------------
EXTENDS Rtpp, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, s
vars == <<tr, l, s>>
P(p) == p \in Props
\* e.snd: what was sent, [ck, c, to]; cookies are numbered in the order they are first seen
Old(e) == {i \in 1..Len(e.snd) : e.snd[i].ck < e.first}
New(e) == {i \in 1..Len(e.snd) : e.snd[i].ck >= e.first}
\* e.snd[i].m: this is a command of the client's own (V, VF, Ib)
Cnt(S, F(_)) == Cardinality({i \in S : F(i)})
NewTxt(e, own) == {i \in New(e) : e.snd[i].m = own}
OutTxt(x, own) == {i \in 1..Len(x.out) : (x.out[i].k # "u") = own}
SameNew(e, x, own) ==
  /\ Cardinality(NewTxt(e, own)) = Cardinality(OutTxt(x, own))
  /\ \A i \in OutTxt(x, own) : Cnt(NewTxt(e, own), LAMBDA j : e.snd[j].c = x.out[i].c) = Cnt(OutTxt(x, own), LAMBDA j : x.out[j].c = x.out[i].c)
Fresh(e) == \A i, j \in New(e) : i # j => e.snd[i].ck # e.snd[j].ck
ReOk(e, x, z) == /\ {e.snd[i].ck : i \in Old(e)} = x.re /\ Cardinality(Old(e)) = Cardinality(x.re)
                 /\ \A i \in Old(e) : e.snd[i].c = z.pend[e.snd[i].ck].c
ToOk(e) == \A i \in 1..Len(e.snd) : e.snd[i].to
DoneOk(e, x) == Len(e.done) = Len(x.done) /\ \A w \in Rng(x.done) : w \in Rng(e.done)
\* commands, their retransmissions and results (R02); the state of the proxy and the checks that decide it (R04)
Ok02(e, x) == Fresh(e) /\ SameNew(e, x, FALSE) /\ ReOk(e, x, s) /\ ToOk(e) /\ DoneOk(e, x) /\ DelayOk(s, e, e.d) /\ (x.failed => e.on = x.on)
Ok04(e, x) == SameNew(e, x, TRUE) /\ e.on = x.on /\ (e.in = "pick" => e.res = x.on)
\* for each descriptor of x.out a cookie; several commands of one text take theirs in order
Cks(e, x) == [i \in 1..Len(x.out) |->
   LET S == {j \in New(e) : e.snd[j].c = x.out[i].c}
       r == Cardinality({j \in 1..i : x.out[j].c = x.out[i].c})
   IN e.snd[CHOOSE j \in S : Cardinality({m \in S : m <= j}) = r].ck]
\* when timers of the proxy state run is up to the code within their windows
Ev(e) == IF e.in # "tick" THEN e ELSE [hb |-> \E i \in New(e) : e.snd[i].c = "Ib", vc |-> \E i \in New(e) : e.snd[i].c = "V"] @@ e
\* silence: nothing was sent although it is too late
Late02 == \E ck \in DOMAIN s.pend : s.pend[ck].nx + Tol < Traces[tr].ev[l].t
Late04 == ~s.shut /\ ((s.hb.lo # Off /\ s.hb.hi + Tol < Traces[tr].ev[l].t) \/ (s.vc.lo # Off /\ s.vc.hi + Tol < Traces[tr].ev[l].t))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0
End == PrintT(<<"DONE", tr>>)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         x == TLCEval(Step(s, Ev(e)))
         a == (P("R02") => ~Late02 /\ Ok02(e, x)) /\ (P("R04") => ~Late04 /\ Ok04(e, x)) /\ e.exc = ""
         b == ~Late02 /\ ~Late04 /\ Ok02(e, x) /\ Ok04(e, x)
     IN IF a /\ b THEN s' = [Bind(x, Cks(e, x)) EXCEPT !.d = e.d] /\ l' = l + 1 /\ tr' = tr /\ (l = Len(Traces[tr].ev) => End)
        ELSE IF a THEN End /\ l' = Len(Traces[tr].ev) + 1 /\ UNCHANGED <<tr, s>>      \* another property is broken: this one cannot be judged further
        ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> [snd |-> [i \in 1..Len(x.out) |-> x.out[i].c], re |-> {s.pend[k].c : k \in x.re}, done |-> x.done, on |-> x.on, late |-> Late02 \/ Late04],
                   got |-> [snd |-> [i \in 1..Len(e.snd) |-> e.snd[i].c], done |-> e.done, on |-> e.on, exc |-> e.exc, d |-> e.d]]))
             /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
