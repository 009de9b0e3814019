---------------------------- MODULE HikuEngineMC ------------------------------
(***************************************************************************)
(* Model checking of the engine design over all schedules of a catalogue   *)
(* of scenarios (file CASES: scenario and tables `data` of what loaders    *)
(* return), and generation of behaviours for replay into the real engine.  *)
(*                                                                         *)
(* The engine calls every loader that can run at once; the environment     *)
(* decides which call returns next, or fails, or cancels the execution.    *)
(***************************************************************************)
EXTENDS HikuEngine, Json, IOUtils

CONSTANTS Failing,   \* BOOLEAN: loaders may fail
          Cancelling, \* BOOLEAN: the caller may cancel
          Record     \* BOOLEAN: record and print behaviours

Cases == ndJsonDeserialize(IOEnv.CASES)

FKey(x) == <<x.g, x.n, x.id, x.name, Rng(x.o)>>
LKey(x) == <<x.g, x.n, x.req, x.name, Rng(x.o)>>

Tables ==
  [n \in DOMAIN Cases |->
     [f |-> FoldSeq(LAMBDA x, a : (FKey(x) :> x.v) @@ a, <<>>, Cases[n].data.f),
      l |-> FoldSeq(LAMBDA x, a : (LKey(x) :> x.ids) @@ a, <<>>, Cases[n].data.l)]]

\* ----------------------------------------------------------------------
\* What the query means, with no engine at all: straight from the data.
LinkOf(gi, ids) ==
  IF gi.ty = "many" THEN Many([n \in DOMAIN ids |-> Ref(gi.to, ids[n])])
  ELSE IF ids = <<>> THEN Null ELSE Ref(gi.to, ids[1])

RefLink(n, gidx, node, id, gi, opts) ==
  LET t == Tables[n]
      key == Required(ItemOf(NodeOf(Cases[n].graphs[gidx], node), gi.req))
      req == IF gi.req = "" THEN "" ELSE t.f[<<gidx, node, id, gi.req, key[2]>>].s
  IN LinkOf(gi, t.l[<<gidx, node, req, gi.name, opts>>])

\* the low-level graph completely loaded, as a store in space 0
LowStore(n) ==
  LET c == Cases[n]
      g == c.graphs[2]
      ids(nd) == IF nd.name = "" THEN {""} ELSE Rng(c.pools[nd.name])
      slots == UNION { UNION { {<<nd, id, it>> : it \in {x \in Rng(nd.items) : x.opts = <<>>}}
                               : id \in ids(nd)} : nd \in Rng(g.nodes)}
      val(s) == IF s[3].k = "f" THEN Tables[n].f[<<2, s[1].name, s[2], s[3].name, {}>>]
                ELSE RefLink(n, 2, s[1].name, s[2], s[3], {})
  IN FoldSet(LAMBDA s, a : (Slot(0, s[1].name, s[2], <<s[3].name, {}>>) :> val(s)) @@ a,
             <<>>, slots)

LowStores == [n \in DOMAIN Cases |-> IF Len(Cases[n].graphs) = 2 THEN LowStore(n) ELSE <<>>]

RefField(n, node, id, gi, opts) ==
  IF gi.sub = 0 THEN Tables[n].f[<<1, node, id, gi.name, opts>>]
  ELSE LET sg == Cases[n].sgs[gi.sub]
           env == ("this" :> Ref(sg.node, id)) @@
                  [o \in {p[1] : p \in opts} |->
                     LET s == (CHOOSE p \in opts : p[1] = o)[2]
                     IN IF s = "null" THEN Null ELSE Leaf(s)]
       IN Eval(gi.expr, env, 0, LowStores[n])

\* value of the required field of a link, possibly computed by a sub-graph
RefLinkHigh(n, node, id, gi, opts) ==
  LET nd == NodeOf(Cases[n].graphs[1], node)
      req == IF gi.req = "" THEN ""
             ELSE RefField(n, node, id, ItemOf(nd, gi.req), Required(ItemOf(nd, gi.req))[2]).s
  IN LinkOf(gi, Tables[n].l[<<1, node, req, gi.name, opts>>])

RECURSIVE RefFlat(_, _, _, _, _)
RefFlat(n, node, id, q, path) ==
  LET g == Cases[n].graphs[1]
      nd == NodeOf(g, node)
      one(it) ==
        LET gi == ItemOf(nd, it.name)
            p == path \o "/" \o ResultKey(it)
        IN IF gi.k = "f" THEN {<<p, RefField(n, node, id, gi, OptSet(it)).s>>}
           ELSE LET v == RefLinkHigh(n, node, id, gi, OptSet(it)) IN
                IF v.t = "null" THEN {<<p, "null">>}
                ELSE IF v.t = "ref"
                THEN {<<p, "obj">>} \cup RefFlat(n, gi.to, v.s, it.node, p)
                ELSE {<<p, "len:" \o ToString(Len(v.c))>>} \cup
                     UNION {RefFlat(n, gi.to, v.c[k].s, it.node,
                                    p \o "[" \o ToString(k - 1) \o "]") : k \in DOMAIN v.c}
  IN UNION {one(q.fields[k]) : k \in DOMAIN q.fields}

Meaning == [n \in DOMAIN Cases |->
  LET g == Cases[n].graphs[1] IN
  IF AnyMissing(g, g.nodes[1], Cases[n].q) THEN {}
  ELSE RefFlat(n, "", "", FillNode(g, g.nodes[1], Cases[n].q), "")]

\* ----------------------------------------------------------------------
VARIABLES i, e, hist, rep
vars == <<i, e, hist, rep>>

CallAll(en) == [en EXCEPT !.steps = [s \in DOMAIN en.steps |->
                  IF s \in Callable(en) THEN [en.steps[s] EXCEPT !.st = "called"]
                  ELSE en.steps[s]]]

Sig(c, en, s) ==
  LET st == en.steps[s]
      vis == en.visits[st.v]
      gi == IF st.k = "link" THEN LinkGI(c, en, s) ELSE NoItem
  IN [fn |-> st.fn, k |-> st.k,
      items |-> IF st.k = "link" THEN {} ELSE st.keys,
      opts |-> IF st.k = "link" THEN OptSet(st.it) ELSE {},
      ids |-> IF st.k = "link" THEN {} ELSE Rng(vis.ids),
      reqs |-> IF st.k = "link" /\ gi.req # "" THEN Rng(LinkReqs(c, en, s)) ELSE {}]

\* data for a returning call
FieldRows(n, en, s, keys) ==
  LET vis == en.visits[en.steps[s].v]
      gidx == en.spaces[vis.sp].graph
      ids == StepIds(en, s)
  IN [a \in DOMAIN ids |-> [b \in DOMAIN keys |->
        Tables[n].f[<<gidx, vis.node, ids[a], keys[b][1], keys[b][2]>>]]]

LinkVals(n, en, s) ==
  LET c == Cases[n]
      vis == en.visits[en.steps[s].v]
      gidx == en.spaces[vis.sp].graph
      gi == LinkGI(c, en, s)
      ids == StepIds(en, s)
      reqs == IF gi.req = "" THEN <<>> ELSE LinkReqs(c, en, s)
  IN [a \in DOMAIN ids |->
        LinkOf(gi, Tables[n].l[<<gidx, vis.node, IF gi.req = "" THEN "" ELSE reqs[a],
                                 gi.name, OptSet(en.steps[s].it)>>])]

Return(n, en, s) ==
  LET c == Cases[n]
      st == en.steps[s]
      vis == en.visits[st.v]
  IN IF st.k = "fields"
     THEN LET keys == SetToSeq(st.keys) IN
          RetFields(c, en, s, StepIds(en, s), keys, FieldRows(n, en, s, keys))
     ELSE RetLink(c, en, s, LinkVals(n, en, s), LinkGI(c, en, s).req = "" \/ vis.root)

Init == /\ i \in 1..Len(Cases)
        /\ e = CallAll(Start(Cases[i]))
        /\ hist = <<>>
        /\ rep = FALSE

Note(s, out) == IF Record
  THEN hist' = Append(hist, [infl |-> {Sig(Cases[i], e, x) : x \in Called(e)},
                             n |-> Cardinality(Called(e)),
                             ret |-> Sig(Cases[i], e, s), out |-> out])
  ELSE UNCHANGED hist

Ret == \E s \in Called(e) :
         /\ ~ e.failed
         /\ e' = CallAll(Return(i, e, s))
         /\ Note(s, "value")
         /\ UNCHANGED <<i, rep>>

FailRet == /\ Failing
           /\ \E s \in Called(e) :
                /\ ~ e.failed
                /\ e' = Fail(e)
                /\ Note(s, "raise")
                /\ UNCHANGED <<i, rep>>

\* the caller cancels the execution, which waits until its loaders end
NoSig == [fn |-> "", k |-> "", items |-> {}, opts |-> {}, ids |-> {}, reqs |-> {}]
CancelIt == /\ Cancelling /\ ~ e.failed /\ ~ AllDone(e)
            /\ e' = Cancel(e)
            /\ IF Record
               THEN hist' = Append(hist, [infl |-> {Sig(Cases[i], e, x) : x \in Called(e)},
                                          n |-> Cardinality(Called(e)),
                                          ret |-> NoSig, out |-> "cancel"])
               ELSE UNCHANGED hist
            /\ UNCHANGED <<i, rep>>

GoneRet == \E s \in Called(e) :
             /\ e.canc
             /\ e' = Gone(e, s)
             /\ Note(s, "gone")
             /\ UNCHANGED <<i, rep>>

Over == IF e.canc THEN Called(e) = {} ELSE e.failed \/ AllDone(e)

Report == /\ Record /\ Over /\ ~ rep
         /\ PrintT("BEH " \o ToJson([i |-> i, hist |-> hist, failed |-> e.failed,
                                     flat |-> IF e.failed THEN {} ELSE Flat(Cases[i], e)]))
         /\ rep' = TRUE
         /\ UNCHANGED <<i, e, hist>>

Next == Ret \/ FailRet \/ CancelIt \/ GoneRet \/ Report

Spec == Init /\ [][Next]_vars /\ WF_vars(Ret) /\ WF_vars(GoneRet)

\* One schedule only (each time the first call returns), to tell how large a
\* scenario is: number of calls, most calls in flight.
SizeInit == /\ i \in 1..Len(Cases)
            /\ e = CallAll(Start(Cases[i]))
            /\ hist = <<0, 0>>
            /\ rep = FALSE

SizeNext ==
  \/ /\ Called(e) # {} /\ hist[1] < 30
     /\ LET s == CHOOSE x \in Called(e) : \A y \in Called(e) : x <= y
        IN e' = CallAll(Return(i, e, s))
     /\ hist' = <<hist[1] + 1,
                  IF Cardinality(Called(e)) > hist[2]
                  THEN Cardinality(Called(e)) ELSE hist[2]>>
     /\ UNCHANGED <<i, rep>>
  \/ /\ (Called(e) = {} \/ hist[1] >= 30) /\ ~ rep
     /\ PrintT("SIZE " \o ToJson([i |-> i, n |-> hist[1], w |-> hist[2]]))
     /\ rep' = TRUE
     /\ UNCHANGED <<i, e, hist>>

SizeSpec == SizeInit /\ [][SizeNext]_vars

\* ------------------------- properties ---------------------------------
\* A step runs only after everything it depends on.
DepsRespected == \A s \in DOMAIN e.steps :
  e.steps[s].st # "wait" => \A d \in e.steps[s].deps : e.steps[d].st = "done"

\* Links never run before their required field is stored.
RequiredStored == \A s \in Called(e) :
  e.steps[s].k = "link" =>
    LET gi == LinkGI(Cases[i], e, s)
        vis == e.visits[e.steps[s].v]
    IN gi.req # "" => \A id \in Rng(StepIds(e, s)) :
         Slot(vis.sp, vis.node, id,
              Required(ItemOf(NodeOf(GraphOf(Cases[i], e, vis.sp), vis.node), gi.req)))
           \in DOMAIN e.store

\* Ordered nodes run strictly one step after another, in request order.
OrderedSequential == \A v \in DOMAIN e.visits :
  e.visits[v].q.ord =>
    LET mine == {s \in DOMAIN e.steps : e.steps[s].v = v} IN
    /\ Cardinality({s \in mine : e.steps[s].st = "called"}) <= 1
    /\ \A s, t \in mine : s < t /\ e.steps[t].st # "wait" => e.steps[s].st = "done"

\* One call per loader and visit, one call per requested link.
NoExtraCalls == \A v \in DOMAIN e.visits :
  ~ e.visits[v].q.ord =>
    \A s, t \in DOMAIN e.steps :
      (s # t /\ e.steps[s].v = v /\ e.steps[t].v = v /\ e.steps[s].k # "link")
        => e.steps[s].fn # e.steps[t].fn

\* No visit without objects; number of calls does not depend on data size.
NoEmptyVisits == \A v \in DOMAIN e.visits : e.visits[v].root \/ e.visits[v].ids # <<>>

\* Work conserving: nothing that can run waits.
WorkConserving == e.failed \/ Callable(e) = {}

\* Whatever the schedule, the result is the meaning of the query.
Confluent == (AllDone(e) /\ ~ e.failed) => Flat(Cases[i], e) = Meaning[i]

\* The engine never stops halfway.
NoDeadlock == e.failed \/ AllDone(e) \/ Called(e) # {}

\* A cancelled execution only waits for its loaders, nothing is stored.
CancelStops == [][e.canc => /\ e'.canc /\ e'.store = e.store
                            /\ Called(e') \subseteq Called(e)]_vars
CancelWaits == (e.canc /\ rep) => Called(e) = {}

Terminates == <>Over
=============================================================================
