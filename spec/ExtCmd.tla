------------------------------- MODULE ExtCmd -------------------------------
(* Pool of external command workers (sippy/External_command.py).
   s.q      items waiting, in order of submission
   s.it     item -> [lines, ans, st: "queued","taken","run","done","dropped", cxl, w]
   s.w      worker -> [st: "new","idle","busy","gone", id]
   A worker takes the head of the queue (internal).  An item that was cancelled before is dropped;
   an item cancelled while a worker holds it may go either way (Cancel returns both outcomes).
   Otherwise the worker hands all its lines to its process, when that has finished the previous item,
   reads the answer up to the empty line, and the handler is called with it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init0(n) == [q |-> <<>>, it |-> <<>>, down |-> FALSE,
             w |-> [i \in 0..(n - 1) |-> [st |-> "new", id |-> ""]]]
Submit(s, id, lines, ans) ==
  [s EXCEPT !.q = Append(s.q, id), !.it = Upd(s.it, id, [lines |-> lines, ans |-> ans, st |-> "queued", cxl |-> FALSE, w |-> -1])]
Idle(s, w) == s.w[w].st = "idle"
\* the set of possible outcomes
Cancel(s, id) ==
  LET s1 == [s EXCEPT !.it[id].cxl = TRUE]
      w == s.it[id].w
  IN IF s.it[id].st = "taken" THEN {s1, [s1 EXCEPT !.w[w] = [st |-> "idle", id |-> ""], !.it[id].st = "dropped"]} ELSE {s1}
CanTake(s, w) == Idle(s, w) /\ s.q # <<>>
Take(s, w) ==
  LET id == Head(s.q) IN
  IF s.it[id].cxl THEN [s EXCEPT !.q = Tail(s.q), !.it[id].st = "dropped"]
  ELSE [s EXCEPT !.q = Tail(s.q), !.w[w] = [st |-> "taken", id |-> id], !.it[id].st = "taken", !.it[id].w = w]
\* the process of worker w receives the item
CanWrite(s, w, id, lines) == s.w[w].st = "taken" /\ s.w[w].id = id /\ lines = s.it[id].lines
Write(s, w) == [s EXCEPT !.w[w] = [st |-> "idle", id |-> ""], !.it[s.w[w].id].st = "run"]
CanResult(s, id, lines, ws) == id \in DOMAIN s.it /\ s.it[id].st = "run" /\ lines = s.it[id].ans /\ ws \subseteq {s.it[id].w}
Result(s, id) == [s EXCEPT !.it[id].st = "done"]
CanExit(s, w) == s.down /\ s.w[w].st = "idle" /\ s.q = <<>>
Exit(s, w) == [s EXCEPT !.w[w].st = "gone"]
\* nothing more can happen: everything queued was answered or dropped; after shutdown no worker is left
Quiet(s, alive) ==
  /\ \A i \in DOMAIN s.it : s.it[i].st = "done" \/ (s.it[i].st = "dropped" /\ s.it[i].cxl)
  /\ alive = Cardinality({w \in DOMAIN s.w : s.w[w].st # "gone"})
  /\ s.down => alive = 0
=============================================================================
