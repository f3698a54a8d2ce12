------------------------------ MODULE MCExtCmd ------------------------------
(* The pool's mechanism: a queue under a mutex with a condition variable, worker
   threads that block in wait(), a shutdown token that each worker passes on.
   Every interleaving of NW workers and an environment that submits N items,
   cancels them and shuts the pool down; checked against ExtCmd. *)
EXTENDS ExtCmd, Json, TLCExt
CONSTANTS NW, N, Emit
VARIABLES q,        \* shared list; 0 is the shutdown token
          lk,       \* mutex owner, 0 = free
          wt, sg,   \* threads in wait(), threads that were signalled
          pc, cur,  \* per worker
          sub, cxl, down, ans,  \* environment: submitted, cancelled items, shutdown called, answered items (handler called)
          took,     \* order in which items left the queue
          a,        \* abstract state (ExtCmd), one branch suffices as the mechanism decides
          inp
vars == <<q, lk, wt, sg, pc, cur, sub, cxl, down, ans, took, a, inp>>
W == 1..NW
Id(i) == "i" \o ToString(i)
Init == /\ q = <<>> /\ lk = 0 /\ wt = {} /\ sg = {} /\ pc = [w \in W |-> "lock"] /\ cur = [w \in W |-> 0]
        /\ sub = 0 /\ cxl = {} /\ down = FALSE /\ ans = {} /\ took = <<>>
        /\ a = [Init0(NW) EXCEPT !.w = [i \in 0..(NW - 1) |-> [st |-> "idle", id |-> ""]]] /\ inp = [in |-> "none"]
        /\ (Emit => PrintT("INIT " \o ToJson(TLCFP(<<q, lk, wt, sg, pc, cur, sub, cxl, down, ans>>))))
Notify(s) == IF wt \ s = {} THEN {s} ELSE {s \cup {x} : x \in wt \ s}
\* environment (its critical sections are short: atomic, when the mutex is free)
EnvSubmit == /\ sub < N /\ ~down /\ lk = 0 /\ sub' = sub + 1 /\ q' = Append(q, sub + 1) /\ sg' \in Notify(sg)
             /\ a' = Submit(a, Id(sub + 1), <<>>, <<>>) /\ inp' = [in |-> "submit", id |-> sub + 1]
             /\ UNCHANGED <<lk, wt, pc, cur, cxl, down, ans, took>>
EnvCancel == /\ \E i \in 1..sub : i \notin cxl /\ i \notin ans /\ cxl' = cxl \cup {i} /\ inp' = [in |-> "cancel", id |-> i]
                                  /\ \E w \in {x \in W : cur[x] = i} \cup {0} :
                                       IF w > 0 /\ pc[w] = "check" THEN a' = [a EXCEPT !.it[Id(i)].cxl = TRUE, !.it[Id(i)].st = "dropped",
                                                                                   !.w[w - 1] = [st |-> "idle", id |-> ""]]
                                       ELSE w = 0 /\ (\A x \in W : cur[x] = i => pc[x] # "check") /\ a' = [a EXCEPT !.it[Id(i)].cxl = TRUE]
             /\ UNCHANGED <<q, lk, wt, sg, pc, cur, sub, down, ans, took>>
EnvDown == /\ ~down /\ lk = 0 /\ down' = TRUE /\ q' = Append(q, 0) /\ sg' \in Notify(sg) /\ inp' = [in |-> "shutdown"]
           /\ a' = [a EXCEPT !.down = TRUE]
           /\ UNCHANGED <<lk, wt, pc, cur, sub, cxl, ans, took>>
\* workers
U == UNCHANGED <<sub, cxl, down>>
St(w) == inp' = [in |-> "step", w |-> w]
WLock(w) == pc[w] = "lock" /\ lk = 0 /\ lk' = w /\ pc' = [pc EXCEPT ![w] = "test"] /\ St(w) /\ U /\ UNCHANGED <<q, wt, sg, cur, ans, took, a>>
WTest(w) == /\ pc[w] = "test" /\ St(w) /\ U
            /\ IF q = <<>> THEN /\ wt' = wt \cup {w} /\ lk' = 0 /\ pc' = [pc EXCEPT ![w] = "wait"] /\ UNCHANGED <<q, sg, cur, ans, took, a>>
               ELSE LET x == Head(q) IN
                 IF x = 0 THEN /\ q' = Append(Tail(q), 0) /\ sg' \in Notify(sg) /\ lk' = 0 /\ pc' = [pc EXCEPT ![w] = "gone"]
                               /\ a' = Exit(a, w - 1) /\ UNCHANGED <<wt, cur, ans, took>>
                 ELSE /\ q' = Tail(q) /\ cur' = [cur EXCEPT ![w] = x] /\ lk' = 0 /\ took' = Append(took, x)
                      /\ pc' = [pc EXCEPT ![w] = "check"] /\ a' = Take(a, w - 1) /\ UNCHANGED <<wt, sg, ans>>
WWake(w) == pc[w] = "wait" /\ w \in sg /\ lk = 0 /\ lk' = w /\ sg' = sg \ {w} /\ wt' = wt \ {w} /\ pc' = [pc EXCEPT ![w] = "test"]
            /\ St(w) /\ U /\ UNCHANGED <<q, cur, ans, took, a>>
WCheck(w) == /\ pc[w] = "check" /\ St(w) /\ U
             /\ IF cur[w] \in cxl THEN pc' = [pc EXCEPT ![w] = "lock"] /\ cur' = [cur EXCEPT ![w] = 0]
                ELSE pc' = [pc EXCEPT ![w] = "run"] /\ UNCHANGED cur
             /\ UNCHANGED <<q, lk, wt, sg, ans, took, a>>
WRun(w) == /\ pc[w] = "run" /\ pc' = [pc EXCEPT ![w] = "post"] /\ a' = Write(a, w - 1) /\ St(w) /\ U
           /\ UNCHANGED <<q, lk, wt, sg, cur, ans, took>>
WPost(w) == /\ pc[w] = "post" /\ ans' = ans \cup {cur[w]} /\ cur' = [cur EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = "lock"]
            /\ a' = Result(a, Id(cur[w])) /\ St(w) /\ U /\ UNCHANGED <<q, lk, wt, sg, took>>
Worker(w) == WLock(w) \/ WTest(w) \/ WWake(w) \/ WCheck(w) \/ WRun(w) \/ WPost(w)
Next == EnvSubmit \/ EnvCancel \/ EnvDown \/ \E w \in W : Worker(w)
Spec == Init /\ [][Next]_vars /\ \A w \in W : SF_vars(Worker(w))
(* ---- properties ---- *)
Order == \A i \in 1..Len(took) : took[i] = i
OnceEach == \A w, v \in W : w # v /\ cur[w] > 0 => cur[w] # cur[v]
\* each mechanism step was allowed by the abstract pool
Abs == [][/\ (\A w \in W : (pc[w] = "run" /\ pc'[w] = "post") => CanWrite(a, w - 1, Id(cur[w]), <<>>))
          /\ (\A w \in W : (pc[w] # "gone" /\ pc'[w] = "gone") => CanExit(a, w - 1))
          /\ (\A w \in W : (pc[w] = "post" /\ pc'[w] = "lock") => CanResult(a, Id(cur[w]), <<>>, {w - 1}))]_vars
NotRunIfCancelled == \A i \in DOMAIN a.it : a.it[i].st = "dropped" => a.it[i].cxl
Answered == \A i \in 1..N : (sub >= i /\ i \notin cxl) ~> (i \in ans \/ i \in cxl)
AllStop == down ~> (\A w \in W : pc[w] = "gone")
MView == <<q, lk, wt, sg, pc, cur, sub, cxl, down, ans>>
EmitEdge == Emit => PrintT("EDGE " \o ToJson([a |-> TLCFP(MView), b |-> TLCFP(MView'), e |-> inp']))
=============================================================================
