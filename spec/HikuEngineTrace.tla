--------------------------- MODULE HikuEngineTrace ---------------------------
(***************************************************************************)
(* Validation of recorded executions of the real engine: every event of a  *)
(* trace must be explained by an action of HikuEngine.  Cases are read     *)
(* from the file named by the environment variable CASES (one JSON object  *)
(* per line: scenario and events `ev`).  A trace is accepted when some     *)
(* explanation reaches its end ("ACCEPT" is printed); an event without     *)
(* explanation prints "STUCK" with the clause that failed.                 *)
(***************************************************************************)
EXTENDS HikuEngine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, l, e, m     \* case, position, engine state, call id -> step
vars == <<i, l, e, m>>

C == Cases[i]
Ev == C.ev[l]

ItemKeys(ev) == {<<ev.items[n].name, Rng(ev.items[n].opts)>> : n \in DOMAIN ev.items}

StepCtx(c, en, s) ==
  LET vis == en.visits[en.steps[s].v]
      nd == NodeOf(GraphOf(c, en, vis.sp), vis.node)
      k == CHOOSE k \in en.steps[s].keys : TRUE
  IN IF ItemOf(nd, k[1]).ctx THEN "ok" ELSE "none"

\* --- why a step does not explain a call ("" = it does) --------------------
Mismatch(c, en, s, ev) ==
  LET st == en.steps[s]
      vis == en.visits[st.v]
  IN IF st.fn # ev.fn THEN "loader"
     ELSE IF (st.k = "link") # (ev.k = "l") THEN "protocol"
     ELSE IF StepCtx(c, en, s) # ev.ctx THEN "context"
     ELSE IF st.k = "fields" THEN
       IF ItemKeys(ev) # st.keys THEN "fields or their options"
       ELSE IF ev.hasids = vis.root THEN "protocol"
       ELSE IF ~ vis.root /\ ~ SubMultiset(ev.ids, vis.ids) THEN "object ids"
       ELSE ""
     ELSE LET gi == LinkGI(c, en, s) IN
       IF ev.req # (IF gi.req = "" THEN "none" ELSE IF vis.root THEN "one" ELSE "many")
         THEN "protocol"
       ELSE IF gi.req # "" /\ ~ SubMultiset(ev.reqs, LinkReqs(c, en, s)) THEN "required values"
       ELSE IF ev.hasopts # (gi.opts # <<>>) THEN "protocol"
       ELSE IF Rng(ev.opts) # OptSet(st.it) THEN "link options"
       ELSE ""

\* Steps of visits with equal content and progress are interchangeable: one
\* representative is enough.
VSteps(en, v) == {s \in DOMAIN en.steps : en.steps[s].v = v}
Class(en, s) ==
  LET v == en.steps[s].v
      base == Min(VSteps(en, v)) - 1
  IN <<en.visits[v], s - base, [n \in 1..Cardinality(VSteps(en, v)) |-> en.steps[base + n].st]>>

CallSucc(c, en, mm, ev) ==
  LET cand == {x \in Callable(en) : Mismatch(c, en, x, ev) = ""}
      reps == IF Cardinality(cand) < 2 THEN cand
              ELSE {x \in cand : \A y \in cand : y < x => Class(en, y) # Class(en, x)}
  IN {[e |-> Call(en, s), m |-> Append(mm, s)] : s \in reps}

\* --- results of loaders ---------------------------------------------------
\* the shape a loader has to return
WellFormed(c, en, s, call, ev) ==
  LET st == en.steps[s]
      vis == en.visits[st.v]
      nit == Len(call.items)
  IN IF st.k = "fields" THEN
       /\ ev.seq
       /\ IF vis.root THEN Len(ev.lens) = nit
          ELSE /\ Len(ev.lens) = Len(call.ids)
               /\ \A n \in DOMAIN ev.lens : ev.lens[n] = nit
     ELSE LET gi == LinkGI(c, en, s)
              many == call.req = "many"
          IN /\ many => ev.seq /\ Len(ev.lens) = Len(call.reqs)
             /\ gi.ty = "many" =>
                  IF many THEN \A n \in DOMAIN ev.lens : ev.lens[n] # -1 ELSE ev.seq
             /\ gi.ty = "one" => \A n \in DOMAIN ev.vals : ev.vals[n] # <<>>

CallEv(c, cid) == c.ev[CHOOSE n \in DOMAIN c.ev : c.ev[n].e = "call" /\ c.ev[n].cid = cid]

LinkVal(gi, x) ==
  IF gi.ty = "many" THEN Many([n \in DOMAIN x |-> Ref(gi.to, x[n])])
  ELSE IF x = <<>> THEN Null ELSE Ref(gi.to, x[1])

RetSucc(c, en, mm, ev) ==
  IF ev.cid \notin DOMAIN mm THEN {}
  ELSE LET s == mm[ev.cid]
           st == en.steps[s]
           vis == en.visits[st.v]
           call == CallEv(c, ev.cid)
       IN IF st.st # "called" THEN {}
          ELSE IF en.canc THEN {[e |-> Gone(en, s), m |-> mm]}
          ELSE IF ev.out = "raise" \/ ~ WellFormed(c, en, s, call, ev)
          THEN {[e |-> Gone(Fail(en), s), m |-> mm]}
          ELSE IF st.k = "fields" THEN
            LET keys == [n \in DOMAIN call.items |->
                           <<call.items[n].name, Rng(call.items[n].opts)>>]
                ids == IF vis.root THEN <<"">> ELSE call.ids
            IN {[e |-> RetFields(c, en, s, ids, keys, ev.rows), m |-> mm]}
          ELSE
            LET gi == LinkGI(c, en, s)
                ids == StepIds(en, s)
                single == call.req # "many"
                pos(r) == CHOOSE n \in DOMAIN call.reqs :
                             call.reqs[n] = r /\ \A k \in 1..(n-1) : call.reqs[k] # r
                reqs == IF single THEN <<>> ELSE LinkReqs(c, en, s)
                vals == [n \in DOMAIN ids |->
                           LinkVal(gi, IF single THEN ev.vals[1] ELSE ev.vals[pos(reqs[n])])]
            IN {[e |-> RetLink(c, en, s, vals, single), m |-> mm]}

\* --- nothing happens until the environment answers ------------------------
InFlight(en, mm) == {k \in DOMAIN mm : en.steps[mm[k]].st = "called"}

QuiesceWhy(c, en, mm, ev) ==
  IF en.failed THEN ""
  ELSE IF Callable(en) # {} THEN
    "a loader that could run was not started: " \o
      ToString({en.steps[s].fn : s \in Callable(en)})
  ELSE IF Rng(ev.infl) # InFlight(en, mm) THEN "the executor waits for the wrong tasks"
  ELSE ""

\* --- the end ---------------------------------------------------------------
EndWhy(c, en, ev) ==
  IF ev.touched # <<>> THEN "changed by the execution: " \o ToString(ev.touched)
  ELSE IF en.canc THEN
    IF ev.ok THEN "a result was returned although the execution was cancelled"
    ELSE IF ev.exc # "cancelled" /\ ~ (ev.exc = "loader" /\ \E n \in DOMAIN c.ev :
                c.ev[n].e = "ret" /\ c.ev[n].out = "raise") THEN "cancellation was replaced by an error"
    ELSE IF Called(en) # {} THEN "ended while cancelled loaders are still running: " \o
            ToString({en.steps[s].fn : s \in Called(en)})
    ELSE ""
  ELSE IF ~ ev.ok THEN
    IF ~ en.failed THEN "failed without a reason"
    ELSE IF \E n \in DOMAIN c.ev : c.ev[n].e = "ret" /\ c.ev[n].out = "raise"
         THEN IF ev.exc = "loader" \/ \E n \in DOMAIN c.ev :
                    c.ev[n].e = "ret" /\ c.ev[n].out = "value"
              THEN "" ELSE "the error of the loader was replaced"
    ELSE ""
  ELSE IF en.failed THEN "an error was swallowed, a result was returned"
  ELSE IF ~ AllDone(en) THEN "finished with work left: " \o
          ToString({en.steps[s].fn : s \in {x \in DOMAIN en.steps : en.steps[x].st # "done"}})
  ELSE IF ev.exposed # <<>> THEN "keys that were not requested are readable: " \o ToString(ev.exposed)
  ELSE LET want == Flat(c, en)
           got == Rng(ev.flat)
       IN IF want = got THEN ""
          ELSE "result differs: missing " \o ToString(want \ got) \o " unexpected " \o ToString(got \ want)

\* --- behaviour -------------------------------------------------------------
Succ(c, en, mm, ev) ==
  CASE ev.e = "call" -> CallSucc(c, en, mm, ev)
    [] ev.e = "cancel" -> {[e |-> Cancel(en), m |-> mm]}
    [] ev.e = "gone" -> IF ev.cid \in DOMAIN mm /\ en.canc
                        THEN {[e |-> Gone(en, mm[ev.cid]), m |-> mm]} ELSE {}
    [] ev.e = "ret" -> RetSucc(c, en, mm, ev)
    [] ev.e = "quiesce" -> IF QuiesceWhy(c, en, mm, ev) = "" THEN {[e |-> en, m |-> mm]} ELSE {}
    [] ev.e = "end" -> IF EndWhy(c, en, ev) = "" THEN {[e |-> en, m |-> mm]} ELSE {}

Why(c, en, mm, ev) ==
  CASE ev.e = "gone" -> "loader ended or was cancelled without a reason"
    [] ev.e = "call" ->
         LET same == {s \in DOMAIN en.steps : en.steps[s].fn = ev.fn}
             can == same \cap Callable(en)
         IN IF en.canc THEN "call of " \o ev.fn \o " started by a cancelled execution"
            ELSE IF same = {} THEN "call of " \o ev.fn \o " that the query does not need"
            ELSE IF can = {} /\ \E s \in same : en.steps[s].st = "wait"
                 THEN "call of " \o ev.fn \o " before the data it depends on is loaded"
            ELSE IF can = {} THEN "repeated call of " \o ev.fn
            ELSE "call of " \o ev.fn \o " with wrong " \o
                 ToString({Mismatch(c, en, s, ev) : s \in can}) \o
                 ", expected " \o ToString({<<en.steps[s].keys, en.visits[en.steps[s].v].ids>> : s \in can})
    [] ev.e = "ret" -> "unexpected return"
    [] ev.e = "quiesce" -> QuiesceWhy(c, en, mm, ev)
    [] ev.e = "end" -> EndWhy(c, en, ev)

\* --- decision by depth-first search ----------------------------------------
\* "yes", "no" or "?" (more than Budget steps were tried)
CONSTANT Budget

RECURSIVE Explain(_, _, _, _)
Explain(c, en, mm, k) ==
  IF k > Len(c.ev) \/ TLCGet(1) > Budget THEN TRUE
  ELSE /\ TLCSet(1, TLCGet(1) + 1)
       /\ \E x \in Succ(c, en, mm, c.ev[k]) : Explain(c, x.e, x.m, k + 1)

Verdict(c) ==
  IF TLCSet(1, 0) /\ Explain(c, Start(c), <<>>, 1)
  THEN IF TLCGet(1) > Budget THEN "?" ELSE "yes"
  ELSE "no"

DInit == i \in 1..Len(Cases) /\ l = 1 /\ e = 0 /\ m = 0
DNext == /\ l = 1 /\ l' = 0 /\ UNCHANGED <<i, e, m>>
         /\ LET v == Verdict(C) IN
            PrintT("VERDICT " \o ToJson([i |-> i, v |-> v, n |-> TLCGet(1)]))
DSpec == DInit /\ [][DNext]_vars

Init == i \in 1..Len(Cases) /\ l = 1 /\ e = Start(Cases[i]) /\ m = <<>>

Stuck == /\ PrintT("STUCK " \o ToJson([i |-> i, l |-> l, why |-> Why(C, e, m, Ev)]))
         /\ l' = 0 /\ e' = [failed |-> TRUE] /\ m' = <<>>

Next == /\ l > 0 /\ l <= Len(C.ev)
        /\ UNCHANGED i
        /\ LET ss == Succ(C, e, m, Ev) IN
           IF ss = {} THEN Stuck
           ELSE \E x \in ss :
                  /\ l' = l + 1
                  /\ IF l = Len(C.ev)
                     THEN /\ PrintT("ACCEPT " \o ToJson([i |-> i]))
                          /\ e' = [failed |-> FALSE] /\ m' = <<>>
                     ELSE e' = x.e /\ m' = x.m

Spec == Init /\ [][Next]_vars
=============================================================================
