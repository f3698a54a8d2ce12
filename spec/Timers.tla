------------------------------- MODULE Timers -------------------------------
(* Timer service (sippy/Core/EventDispatcher.py, sippy/Time/Timeout.py): what a
   user of timers sees.  Time is counted in ticks (1/64 s in recorded traces).
   s.t : timers by id; a timer is [due, lo, hi, per, left, on, made]:
     due  earliest deadline, hi  latest deadline (equal unless the period is randomized)
     per  period, pr  randomization in percent, left  runs left (-1 unlimited), on  armed
     made dispatch pass in which it was armed (0: outside of any)
   s.pass  number of the current dispatch pass, 0 = none; s.at0  time at which it began;
   s.brk   the loop was told to stop during the pass *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [t |-> <<>>, pass |-> 0, passes |-> 0, at0 |-> 0, brk |-> FALSE]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Act(s) == {i \in DOMAIN s.t : s.t[i].on}

Lo(p, pr) == (p * (100 - pr)) \div 100
Hi(p, pr) == (p * (100 + pr) + 99) \div 100

\* may timer i run at time `at`?  It is due, and no other armed timer has an earlier deadline
CanFire(s, i, at) ==
  /\ s.pass > 0 /\ i \in Act(s) /\ s.t[i].due <= at
  /\ \A j \in Act(s) : s.t[i].due <= s.t[j].hi
Fired(s, i) ==
  LET t == s.t[i] IN
  IF t.left = 1 THEN [s EXCEPT !.t[i].on = FALSE, !.t[i].left = 0]
  ELSE [s EXCEPT !.t[i].due = t.due + Lo(t.per, t.pr), !.t[i].hi = t.hi + Hi(t.per, t.pr),
                 !.t[i].left = IF t.left > 0 THEN t.left - 1 ELSE t.left]
Made(s, i, due, hi, per, n, pr) ==
  [s EXCEPT !.t = Upd(s.t, i, [due |-> due, hi |-> hi, per |-> per, pr |-> pr, left |-> n, on |-> TRUE, made |-> s.pass])]
Cancelled(s, i) == IF i \in DOMAIN s.t THEN [s EXCEPT !.t[i].on = FALSE] ELSE s
PassBegin(s, at) == [s EXCEPT !.pass = s.passes + 1, !.passes = s.passes + 1, !.at0 = at, !.brk = FALSE]
\* a pass may end when everything that was due at its beginning has run
CanEnd(s) == s.pass > 0 /\ (s.brk \/ \A i \in Act(s) : s.t[i].made = s.pass \/ s.t[i].hi > s.at0)
PassEnd(s) == [s EXCEPT !.pass = 0]
=============================================================================
