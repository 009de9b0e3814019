----------------------------- MODULE HikuQueueMC ------------------------------
(* All behaviours of small programs; behaviours for replay; traces.         *)
EXTENDS HikuQueue, Json, IOUtils

Rng(s) == {s[n] : n \in DOMAIN s}

CONSTANT Mode   \* "mc", "gen" or "trace"

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, q, fired, hist, l
vars == <<i, q, fired, hist, l>>

P == Cases[i].prog

Init == /\ i \in 1..Len(Cases) /\ q = Begin(Cases[i].prog)
        /\ fired = <<>> /\ hist = <<>> /\ l = 1

\* ---------------- free behaviours --------------------------------------
Step == /\ ~ q.busy /\ q.futs # {}
        /\ \E done \in (SUBSET q.futs) \ {{}} :
             /\ q' = Collect(Progress(q, done))
             /\ hist' = IF Mode = "gen" THEN Append(hist, [done |-> done, fired |-> {}]) ELSE hist
        /\ UNCHANGED <<i, fired, l>>

Run == /\ q.busy /\ ~ Settled(q)
       /\ \E r \in Fireable(q) :
            /\ q' = Collect(Fire(q, r, P))
            /\ fired' = Append(fired, r[1])
            /\ hist' = IF Mode = "gen" THEN [hist EXCEPT ![Len(hist)].fired = @ \cup {r[1]}]
                       ELSE hist
       /\ UNCHANGED <<i, l>>

Rest == /\ q.busy /\ Settled(q)
        /\ q' = [q EXCEPT !.busy = FALSE]
        /\ UNCHANGED <<i, fired, hist, l>>

Report == /\ Mode = "gen" /\ l = 1 /\ ~ q.busy /\ q.futs = {}
          /\ PrintT("BEH " \o ToJson([i |-> i, hist |-> hist]))
          /\ l' = 0 /\ UNCHANGED <<i, q, fired, hist>>

Free == Step \/ Run \/ Rest \/ Report

\* ---------------- recorded traces ---------------------------------------
Ev == Cases[i].ev[l]

Why == CASE Ev.e = "fire" ->
              IF ~ q.busy THEN "callback outside of progress"
              ELSE IF \E n \in DOMAIN fired : fired[n] = Ev.c THEN "callback ran twice"
              ELSE IF \E r \in Fireable(q) : r[1] = Ev.c THEN ""
              ELSE "callback ran too early or without a reason"
         [] Ev.e = "progress" -> IF Rng(Ev.done) \subseteq q.futs THEN "" ELSE "unknown futures"
         [] Ev.e = "after" -> IF ~ Settled(q) THEN "callbacks did not run: " \o
                                   ToString({r[1] : r \in Fireable(q) \cup q.due})
                              ELSE IF Rng(Ev.futs) # q.futs THEN "wrong futures are waited for: " \o
                                   ToString(Ev.futs)
                              ELSE ""
         [] Ev.e = "end" -> IF q.futs # {} THEN "ended with work left"
                            ELSE IF q.live # {} THEN "task sets never completed" ELSE ""
  
Trace == /\ l > 0 /\ l <= Len(Cases[i].ev)
         /\ IF Why # "" THEN /\ PrintT("STUCK " \o ToJson([i |-> i, l |-> l, why |-> Why]))
                             /\ l' = 0 /\ UNCHANGED <<i, q, fired, hist>>
            ELSE /\ l' = l + 1
                 /\ UNCHANGED <<i, hist>>
                 /\ IF l = Len(Cases[i].ev) THEN PrintT("ACCEPT " \o ToJson([i |-> i])) ELSE TRUE
                 /\ CASE Ev.e = "fire" ->
                           /\ \E r \in Fireable(q) : r[1] = Ev.c /\ q' = Collect(Fire(q, r, P))
                           /\ fired' = Append(fired, Ev.c)
                      [] Ev.e = "progress" -> q' = Collect(Progress(q, Rng(Ev.done))) /\ UNCHANGED fired
                      [] Ev.e = "after" -> q' = [q EXCEPT !.busy = FALSE] /\ UNCHANGED fired
                      [] OTHER -> UNCHANGED <<q, fired>>

Next == IF Mode = "trace" THEN Trace ELSE Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Free)

\* ---------------- properties -------------------------------------------
Once == \A a, b \in DOMAIN fired : a # b => fired[a] # fired[b]

\* a task set completes only after everything forked from it
RECURSIVE Below(_, _)
Below(qq, t) == {t} \cup UNION {Below(qq, k) : k \in {x \in DOMAIN qq.parent : qq.parent[x] = t}}
NoEarly == \A t \in DOMAIN q.parent :
  t \notin q.live => \A f \in q.futs : q.owner[f] \notin Below(q, t)

\* at the end nothing is left over
AllRun == (~ q.busy /\ q.futs = {} /\ (hist # <<>> \/ fired # <<>>)) =>
             (q.reg = {} /\ q.due = {} /\ q.live = {})

Ends == Mode = "mc" => <>(q.futs = {} /\ ~ q.busy)
=============================================================================
