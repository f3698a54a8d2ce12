------------------------------- MODULE Codec --------------------------------
(* A SIP message in the hands of an application (sippy/SipMsg.py, SipHeader.py, the header classes, MsgBody.py,
   SdpBody.py, MultipartMixBody.py): a row of parts (headers, last the body), each an object whose content
   the application may read, copy, put in place of another one, or change by leaving a mark of its own.
   What the content is does not matter here (that part of the comparison is the driver's, over
   the grammar): what matters is which marks each part written carries, and that nothing else changes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* obj[o]: the marks on object o; row[p]: which object is in place p
Init0(P) == [obj |-> [o \in 1..P |-> {}], row |-> [p \in 1..P |-> p], out |-> <<>>]
            \* (objects of a message are numbered by place when it is first read)
Marks(s) == [p \in 1..Len(s.row) |-> s.obj[s.row[p]]]
Step(s0, e) ==
  LET s == [s0 EXCEPT !.out = <<>>] IN
  CASE e.in = "read" -> s                                                       \* looking at it is no change
    [] e.in = "copy" -> [s EXCEPT !.obj = Upd(@, e.n, s.obj[e.o])]              \* a copy is the same, and another object
    [] e.in = "mark" -> [s EXCEPT !.obj[e.o] = @ \cup {e.m}]                    \* a change is to that object only
    [] e.in = "put" -> [s EXCEPT !.row[e.p] = e.o]
    [] e.in = "write" -> [s EXCEPT !.out = Marks(s)]
    \* what was written is read back as a message of its own
    [] e.in = "again" -> LET P == Len(s.row) IN [s EXCEPT !.obj = [o \in DOMAIN s.obj \cup {e.n + p : p \in 0..P - 1} |-> IF o >= e.n THEN s.obj[s.row[o - e.n + 1]] ELSE s.obj[o]],
                                                          !.row = [p \in 1..P |-> e.n + p - 1]]
    [] OTHER -> s
=============================================================================
