------------------------------ MODULE TSipTM ------------------------------
(* Trace validation: every recorded behaviour of the transaction layer must be
   a behaviour of SipTM, as far as the outputs which Props talk about go. *)
EXTENDS SipTM, Json
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, s
vars == <<tr, l, s>>

Rel(p, st, e, o) ==
  CASE p = "S01" -> o.k = "cb"
    [] p = "S02" -> o.k \in {"req", "ack"}
    [] p = "S03" -> \/ e.in \in {"req", "noise"} \/ o.k = "dlv"
                    \/ (e.in \in {"resp", "ack", "cxl"} /\ Cached(st, e.sum))
    [] p = "S04" -> \/ o.k \in {"acb", "ncb"} \/ (o.k = "refused" /\ e.in = "rsp")
                    \/ o.k \in {"rsp", "rsp-notag"} /\ e.in \in {"rsp", "adv", "ack"}
                    \/ o.k = "rsp-notag" /\ e.in = "req" /\ o.code # 482
    [] p = "S05" -> \/ e.in = "cxl" \/ o.k = "ccb"
                    \/ o.k \in {"rsp", "rsp-notag"} /\ o.code = 487 /\ ~o.rep
    [] p = "S06" -> e.in = "late"
    [] OTHER -> FALSE

Sel(st, e, q) == SelectSeq(q, LAMBDA x : \E p \in Props : Rel(p, st, e, x.o))
Count(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)

QuietOk(st, e) == (e.in = "quiet" /\ "S06" \in Props /\ Size(st) = 0 /\ CacheSize(st) = 0)
                     => (e.tab = 0 /\ e.timers = 0)

Ev == Traces[tr].ev[l]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].pr)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Ev
         r == Step(s, e)
         want == Sel(s, e, r.out)
         got == Sel(s, e, e.out)
     IN IF SameBag(want, got) /\ QuietOk(r.s, e) /\ e.exc = ""
        THEN /\ s' = r.s /\ l' = l + 1 /\ tr' = tr
             /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr>>))
        ELSE /\ PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, want |-> want, got |-> got]))
             /\ FALSE
Spec == Init /\ [][Next]_vars
===========================================================================
