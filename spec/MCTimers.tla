------------------------------ MODULE MCTimers ------------------------------
(* The dispatcher's mechanism - a heap with lazily removed entries, counted as
   wasted, compacted when most of it is waste - with callbacks that cancel and
   create timers, under every order; checked against the service Timers:
   a run is always one that Timers allows, and a pass ends when Timers allows it. *)
EXTENDS Timers, Json, TLCExt
CONSTANTS Ids, Horizon, Emit, MaxMk
VARIABLES a,        \* abstract state (Timers)
          heap,     \* set of [id, key, gen] entries; live iff cb[gen] # "none"
          gen, live,\* entry generation per id, and live generations
          left,     \* runs left by id
          per,
          wasted, now, last, ph, prog, mk, ok, inp
mvars == <<a, heap, gen, live, left, per, wasted, now, last, ph, prog, mk, ok, inp>>
\* callback programs: what a timer does when it runs
Progs == {"nop", "cancelself", "cancelother", "mkzero", "raise", "break"}
Other(i) == CHOOSE j \in Ids : j # i

Live(x) == x.gen \in live
MinKey == CHOOSE k \in {x.key : x \in heap} : \A x \in heap : k <= x.key
Mask(f) == [i \in Act(a) |-> f[i]]
\* (deadlines relative to now: only `mk' and `now' bound the exploration)
SmallView == <<[i \in Act(a) |-> <<a.t[i].due - now, a.t[i].left, a.t[i].made = a.pass>>],
               a.pass > 0, a.brk, {[id |-> x.id, key |-> x.key - now, live |-> Live(x)] : x \in heap}, Mask(left), Mask(per), Mask(prog),
               wasted, now, last = now, ph, mk, ok>>

Init == /\ a = Init0 /\ heap = {} /\ gen = [i \in Ids |-> 0] /\ live = {} /\ left = [i \in Ids |-> 0]
        /\ per = [i \in Ids |-> 0] /\ wasted = 0 /\ now = 0 /\ last = 0 /\ ph = "idle" /\ prog = [i \in Ids |-> "nop"] /\ mk = 0 /\ ok = TRUE
        /\ inp = [in |-> "none"] /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(SmallView))))

Entry(i, g, k) == [id |-> i, gen |-> <<i, g>>, key |-> k]
Arm(i, d, n, hp, lv) == [heap |-> hp \cup {Entry(i, gen[i] + 1, now + d)}, live |-> lv \cup {<<i, gen[i] + 1>>}]

\* -- environment, outside of a pass
Create == ph = "idle" /\ mk < MaxMk /\ \E i \in Ids, d \in {0, 1, 2}, n \in {1, 2, -1}, pg \in Progs :
  /\ i \notin Act(a) /\ (d = 0 => n = 1)
  /\ LET x == Arm(i, d, n, heap, live) IN heap' = x.heap /\ live' = x.live
  /\ gen' = [gen EXCEPT ![i] = @ + 1] /\ left' = [left EXCEPT ![i] = n] /\ per' = [per EXCEPT ![i] = d]
  /\ prog' = [prog EXCEPT ![i] = pg] /\ mk' = mk + 1 /\ last' = now
  /\ a' = Made(a, i, now + d, now + d, d, n, 0)
  /\ inp' = [in |-> "mk", id |-> i, d |-> d, n |-> n, prog |-> pg]
  /\ UNCHANGED <<wasted, now, ph, ok>>
CancelEnv == ph = "idle" /\ \E i \in Act(a) :
  /\ live' = live \ {<<i, gen[i]>>} /\ wasted' = wasted + 1 /\ a' = Cancelled(a, i)
  /\ inp' = [in |-> "cancel", id |-> i]
  /\ UNCHANGED <<heap, gen, left, per, now, last, ph, prog, mk, ok>>
Time == ph = "idle" /\ now < Horizon /\ \E d \in {1, 3} :
  /\ now' = now + d /\ last' = now + d /\ ph' = "disp" /\ a' = PassBegin(a, now + d)
  /\ inp' = [in |-> "adv", n |-> d]
  /\ UNCHANGED <<heap, gen, live, left, per, wasted, prog, mk, ok>>

\* -- the pass
Skip == ph = "disp" /\ \E x \in heap : x.key = MinKey /\ ~Live(x)
  /\ heap' = heap \ {x} /\ wasted' = wasted - 1 /\ UNCHANGED <<a, gen, live, left, per, now, last, ph, prog, mk, ok, inp>>
Run == ph = "disp" /\ \E x \in heap :
  /\ x.key = MinKey /\ Live(x) /\ x.key <= last
  /\ LET i == x.id
         again == left[i] # 1
         h1 == IF again THEN (heap \ {x}) \cup {[x EXCEPT !.key = x.key + per[i]]} ELSE heap \ {x}
         a1 == Fired(a, i)
         o == Other(i)
         canmk == prog[i] = "mkzero" /\ o \notin Act(a1) /\ mk < MaxMk
         \* the dispatcher forgets a one-shot timer after its callback
         lv == IF again THEN live ELSE live \ {x.gen}
     IN /\ ok' = (ok /\ CanFire(a, i, now))
        /\ left' = [left EXCEPT ![i] = IF @ > 1 THEN @ - 1 ELSE @, ![o] = IF canmk THEN 1 ELSE @]
        /\ CASE prog[i] = "cancelself" -> /\ live' = live \ {x.gen} /\ wasted' = wasted + 1
                                          /\ a' = Cancelled(a1, i) /\ heap' = h1 /\ UNCHANGED <<gen, per, prog, mk, last, ph>>
             [] prog[i] = "cancelother" /\ o \in Act(a1) ->
                  /\ live' = lv \ {<<o, gen[o]>>} /\ wasted' = wasted + 1 /\ a' = Cancelled(a1, o) /\ heap' = h1
                  /\ UNCHANGED <<gen, per, prog, mk, last, ph>>
             [] canmk ->
                  /\ heap' = h1 \cup {Entry(o, gen[o] + 1, now)} /\ live' = lv \cup {<<o, gen[o] + 1>>}
                  /\ gen' = [gen EXCEPT ![o] = @ + 1] /\ per' = [per EXCEPT ![o] = 0] /\ prog' = [prog EXCEPT ![o] = "nop"]
                  /\ mk' = mk + 1 /\ last' = now /\ a' = Made(a1, o, now, now, 0, 1, 0) /\ UNCHANGED <<wasted, ph>>
             [] prog[i] = "break" ->
                  /\ heap' = h1 /\ live' = lv /\ a' = [a1 EXCEPT !.brk = TRUE] /\ ph' = "brk"
                  /\ UNCHANGED <<gen, per, prog, mk, last, wasted>>
             [] OTHER -> /\ heap' = h1 /\ live' = lv /\ a' = a1 /\ UNCHANGED <<gen, per, prog, mk, last, wasted, ph>>
        /\ UNCHANGED <<now, inp>>
Finish == /\ \/ ph = "disp" /\ (heap = {} \/ \A x \in heap : x.key = MinKey => Live(x) /\ x.key > last)
             \/ ph = "brk"
          /\ ph' = "idle" /\ ok' = (ok /\ CanEnd(a)) /\ a' = PassEnd(a)
          \* compaction
          /\ IF wasted * 2 > Cardinality(heap) THEN heap' = {x \in heap : Live(x)} /\ wasted' = 0 ELSE UNCHANGED <<heap, wasted>>
          /\ UNCHANGED <<gen, live, left, per, now, last, prog, mk, inp>>
Next == Create \/ CancelEnv \/ Time \/ Skip \/ Run \/ Finish
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Skip \/ Run \/ Finish)
(* ---- *)
Conform == ok                                                     \* every run is one Timers allows
Armed == ph = "idle" => Act(a) = {x.id : x \in {y \in heap : Live(y)}}      \* nothing armed is lost, nothing cancelled stays
EndsLive == (ph = "disp") ~> (ph = "idle")
EmitEdge == Emit => PrintT("EDGE " \o ToJson(
   [a |-> TLCFP(SmallView), b |-> TLCFP(SmallView'), e |-> IF ph = "idle" THEN inp' ELSE [in |-> "i"]]))
=============================================================================
