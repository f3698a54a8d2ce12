------------------------------ MODULE MCCodec -------------------------------
(* A message of P parts and an application doing anything it can with it, with at most MaxObj objects. *)
EXTENDS Codec, Json, TLCExt
CONSTANTS P, MaxObj, MaxMarks, MaxSteps, Emit
VARIABLES s, n, inp, hist
vars == <<s, n, inp, hist>>
\* whose[o]: the place object o came from
VARIABLE whose
all == <<s, n, inp, hist, whose>>
N == Cardinality(DOMAIN s.obj)
Used == UNION {s.obj[o] : o \in DOMAIN s.obj}
Inputs == {[in |-> "read", o |-> o] : o \in DOMAIN s.obj}
     \cup (IF N < MaxObj THEN {[in |-> "copy", o |-> o, n |-> N + 1] : o \in DOMAIN s.obj} ELSE {})
     \cup (IF Cardinality(Used) < MaxMarks THEN {[in |-> "mark", o |-> o, m |-> Cardinality(Used) + 1] : o \in DOMAIN s.obj} ELSE {})
     \cup {[in |-> "put", p |-> q[1], o |-> q[2]] : q \in {q \in (1..P) \X DOMAIN s.obj : whose[q[2]] = q[1] /\ s.row[q[1]] # q[2]}}
     \cup {[in |-> "write"]}
     \cup (IF N + P <= MaxObj THEN {[in |-> "again", n |-> N + 1]} ELSE {})
\* what was done to each object, told as the ways it came about: the marks made on it and, before the copy, on what it was copied from
Hist(e) ==
  CASE e.in = "copy" -> Upd(hist, e.n, hist[e.o])
    [] e.in = "mark" -> [hist EXCEPT ![e.o] = Append(@, e.m)]
    [] e.in = "again" -> [o \in DOMAIN hist \cup {e.n + p : p \in 0..P - 1} |-> IF o >= e.n THEN hist[s.row[o - e.n + 1]] ELSE hist[o]]
    [] OTHER -> hist
Whose(e) ==
  CASE e.in = "copy" -> Upd(whose, e.n, whose[e.o])
    [] e.in = "again" -> [o \in DOMAIN whose \cup {e.n + p : p \in 0..P - 1} |-> IF o >= e.n THEN o - e.n + 1 ELSE whose[o]]
    [] OTHER -> whose
Init == /\ s = Init0(P) /\ n = 0 /\ inp = [in |-> "cfg"] /\ hist = [o \in 1..P |-> <<>>] /\ whose = [o \in 1..P |-> o]
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<s.obj, s.row, whose>>))))
EView == <<s.obj, s.row, whose>>
MView == <<s, n, whose, [o \in DOMAIN hist |-> {hist[o][i] : i \in 1..Len(hist[o])}]>>
Next == /\ n < MaxSteps
        /\ \E e \in Inputs : s' = TLCEval(Step(s, e)) /\ inp' = e /\ n' = n + 1 /\ hist' = TLCEval(Hist(e)) /\ whose' = TLCEval(Whose(e))
Spec == Init /\ [][Next]_all
EmitEdge == PrintT("EDGE " \o ToJson([a |-> TLCFP(EView), b |-> TLCFP(EView'), e |-> inp']))
\* what is written in a place is what was received there, but for changes made to the very object in it and what it was copied from
S08 == /\ \A p \in 1..P : whose[s.row[p]] = p
       /\ s.out # <<>> => \A p \in 1..P : s.out[p] = {hist[s.row[p]][i] : i \in 1..Len(hist[s.row[p]])}
\* no operation on one object shows in another
Apart == [][\A o \in DOMAIN s.obj : s'.obj[o] # s.obj[o] => inp'.in = "mark" /\ inp'.o = o]_all
=============================================================================
