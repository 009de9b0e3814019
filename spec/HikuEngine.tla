----------------------------- MODULE HikuEngine ------------------------------
(***************************************************************************)
(* The query execution engine of Hiku as a state machine.                  *)
(*                                                                         *)
(* Executing a query is a set of *visits*: "load items q of the objects    *)
(* `ids` of node `node`".  Every visit is planned into *steps*:            *)
(*   fields step  one call of a loader for all requested fields it loads   *)
(*   link step    one call of a link loader; its result creates new visits *)
(*   sub step     fields computed by a sub-graph: executes the sub-graph's *)
(*                required low-level query in a space of its own, then     *)
(*                evaluates the expressions                                *)
(* A step may be called only when the steps in `deps` are done.  The engine*)
(* is free in everything else: which of the called steps returns next is   *)
(* decided by the environment.  `store` is the normalized result.          *)
(*                                                                         *)
(* All operators take the scenario `c` (graphs, query) as an argument, so  *)
(* that one TLC run checks many scenarios; `e` is the engine state.        *)
(***************************************************************************)
EXTENDS HikuExpr

NoItem == [k |-> "f", name |-> "", alias |-> "", opts |-> <<>>, node |-> EmptyNode]

GraphOf(c, e, sp) == c.graphs[e.spaces[sp].graph]

(* ------------------------- options ------------------------------------- *)
\* Declared options only, defaults filled in.
FilledOpts(gi, it) ==
  [n \in DOMAIN gi.opts |->
     LET o == gi.opts[n]
         p == SelectSeq(it.opts, LAMBDA x : x[1] = o.name)
     IN <<o.name, IF p # <<>> THEN p[1][2] ELSE o.def>>]

MissingOpts(gi, it) ==
  \E n \in DOMAIN gi.opts : /\ ~ gi.opts[n].has
                            /\ \A i \in DOMAIN it.opts : it.opts[i][1] # gi.opts[n].name

\* the request of a field which is required by a link
Required(gi) ==
  <<gi.name, {<<gi.opts[n].name, gi.opts[n].def>> : n \in {n \in DOMAIN gi.opts : gi.opts[n].has}}>>

RECURSIVE FillNode(_, _, _)
FillNode(g, nd, q) ==
  [q EXCEPT !.fields = [i \in DOMAIN q.fields |->
     LET it == q.fields[i]
         gi == ItemOf(nd, it.name)
         o == [it EXCEPT !.opts = FilledOpts(gi, it)]
     IN IF gi.k = "l" THEN [o EXCEPT !.node = FillNode(g, NodeOf(g, gi.to), it.node)]
        ELSE o]]

RECURSIVE AnyMissing(_, _, _)
AnyMissing(g, nd, q) ==
  \E i \in DOMAIN q.fields :
     LET it == q.fields[i]
         gi == ItemOf(nd, it.name)
     IN MissingOpts(gi, it) \/ (gi.k = "l" /\ AnyMissing(g, NodeOf(g, gi.to), it.node))

(* ------------------------- planning ------------------------------------ *)
\* Entries of a query node in request order; a link with a requirement first
\* asks for the required field.
Entries(nd, q) ==
  FlattenSeq([i \in DOMAIN q.fields |->
    LET it == q.fields[i]
        gi == ItemOf(nd, it.name)
        fe == [k |-> "f", fn |-> gi.fn, sub |-> gi.sub, key |-> StoreKey(it), it |-> NoItem]
    IN IF gi.k = "f" THEN <<fe>>
       ELSE LET le == [k |-> "l", fn |-> gi.fn, sub |-> 0, key |-> StoreKey(it), it |-> it] IN
            IF gi.req = "" THEN <<le>>
            ELSE LET r == ItemOf(nd, gi.req) IN
                 << [k |-> "f", fn |-> r.fn, sub |-> r.sub, key |-> Required(r),
                     it |-> NoItem], le >> ])

StepRec(v, k, fn, sub, keys, it, deps) ==
  [v |-> v, k |-> k, fn |-> fn, sub |-> sub, keys |-> keys, it |-> it, deps |-> deps,
   st |-> "wait", sp |-> 0]

\* unordered: one step per loader, one per link; links wait for the loader of
\* their required field
PlanUnordered(nd, v, q, base) ==
  LET es == Entries(nd, q)
      fs == SelectSeq(es, LAMBDA x : x.k = "f")
      ls == SelectSeq(es, LAMBDA x : x.k = "l")
      fns == Distinct([i \in DOMAIN fs |-> fs[i].fn])
      pos(fn) == CHOOSE n \in DOMAIN fns : fns[n] = fn
      fstep(n) == LET mine == {i \in DOMAIN fs : fs[i].fn = fns[n]}
                      sub == fs[CHOOSE i \in mine : TRUE].sub
                  IN StepRec(v, IF sub = 0 THEN "fields" ELSE "sub", fns[n], sub,
                             {fs[i].key : i \in mine}, NoItem, {})
      lstep(n) == LET gi == ItemOf(nd, ls[n].it.name)
                      deps == IF gi.req = "" THEN {}
                              ELSE {base + pos(ItemOf(nd, gi.req).fn)}
                  IN StepRec(v, "link", ls[n].fn, 0, {ls[n].key}, ls[n].it, deps)
  IN [n \in 1..Len(fns) |-> fstep(n)] \o [n \in 1..Len(ls) |-> lstep(n)]

\* ordered: entries in request order, adjacent fields of one loader form one
\* step, every step waits for the previous one
RECURSIVE GroupFrom(_, _, _, _, _)
GroupFrom(es, i, v, base, acc) ==
  IF i > Len(es) THEN acc
  ELSE LET x == es[i]
           deps == IF acc = <<>> THEN {} ELSE {base + Len(acc)}
           n == Len(acc)
       IN IF /\ x.k = "f" /\ n > 0 /\ acc[n].k # "link" /\ acc[n].fn = x.fn
          THEN GroupFrom(es, i + 1, v, base, [acc EXCEPT ![n].keys = @ \cup {x.key}])
          ELSE GroupFrom(es, i + 1, v, base,
                 Append(acc, StepRec(v, IF x.k = "l" THEN "link"
                                        ELSE IF x.sub = 0 THEN "fields" ELSE "sub",
                                     x.fn, x.sub, {x.key}, x.it, deps)))

Plan(nd, v, q, base) ==
  IF q.ord THEN GroupFrom(Entries(nd, q), 1, v, base, <<>>)
  ELSE PlanUnordered(nd, v, q, base)

AddVisit(c, e, sp, node, root, ids, q) ==
  LET v == Len(e.visits) + 1
      nd == NodeOf(GraphOf(c, e, sp), node)
  IN [e EXCEPT !.visits = Append(@, [sp |-> sp, node |-> node, root |-> root,
                                     ids |-> ids, q |-> q]),
               !.steps = @ \o Plan(nd, v, q, Len(e.steps))]

(* ------------------------- the store ----------------------------------- *)
Slot(sp, node, id, key) == <<sp, node, id, key>>
StepIds(e, s) == IF e.visits[e.steps[s].v].root THEN <<"">> ELSE e.visits[e.steps[s].v].ids

PutAll(store, pairs) ==
  LET keys == {p[1] : p \in pairs} IN
  [k \in keys |-> (CHOOSE p \in pairs : p[1] = k)[2]] @@ store

(* ------------------------- sub-graph steps ----------------------------- *)
SubItems(c, e, s) == \* graph items of the keys of a sub step, with options
  LET st == e.steps[s]
      vis == e.visits[st.v]
      nd == NodeOf(GraphOf(c, e, vis.sp), vis.node)
  IN {<<ItemOf(nd, k[1]), k>> : k \in st.keys}

ItemReqPaths(gi) ==
  ReqPaths(gi.expr, [x \in {"this"} \cup {gi.opts[i].name : i \in DOMAIN gi.opts} |->
                        IF x = "this" THEN <<"this">> ELSE NoPath])

SubReqs(c, e, s) ==
  LET sg == c.sgs[e.steps[s].sub]
      g == c.graphs[sg.graph]
      paths == UNION {ItemReqPaths(x[1]) : x \in SubItems(c, e, s)}
  IN QueryOf(g, g.nodes[1], sg.node, paths)

StartSub(c, e, s) ==
  LET st == e.steps[s]
      sg == c.sgs[st.sub]
      vis == e.visits[st.v]
      sp == Len(e.spaces) + 1
      e1 == [e EXCEPT !.spaces = Append(@, [graph |-> sg.graph]),
                      !.steps[s].st = "called", !.steps[s].sp = sp]
      reqs == SubReqs(c, e, s)
      this == SelectSeq(reqs.fields, LAMBDA it : it.name = "this")
      rest == [reqs EXCEPT !.fields = SelectSeq(@, LAMBDA it : it.name # "this")]
      e2 == IF this = <<>> \/ vis.ids = <<>> THEN e1
            ELSE AddVisit(c, e1, sp, sg.node, FALSE, vis.ids, this[1].node)
  IN IF rest.fields = <<>> THEN e2 ELSE AddVisit(c, e2, sp, "", TRUE, <<>>, rest)

SubFinished(e, s) ==
  /\ e.steps[s].k = "sub" /\ e.steps[s].st = "called"
  /\ \A i \in DOMAIN e.steps :
        e.visits[e.steps[i].v].sp = e.steps[s].sp => e.steps[i].st = "done"

FinishSub(c, e, s) ==
  LET st == e.steps[s]
      sg == c.sgs[st.sub]
      vis == e.visits[st.v]
      optenv(x) == [o \in {p[1] : p \in x[2][2]} |->
                      LET s1 == (CHOOSE p \in x[2][2] : p[1] = o)[2]
                      IN IF s1 = "null" THEN Null ELSE Leaf(s1)]
      val(x, id) == Eval(x[1].expr, ("this" :> Ref(sg.node, id)) @@ optenv(x), st.sp, e.store)
      pairs == {<<Slot(vis.sp, vis.node, id, x[2]), val(x, id)>> :
                   x \in SubItems(c, e, s), id \in Rng(vis.ids)}
  IN [e EXCEPT !.store = PutAll(@, pairs), !.steps[s].st = "done"]

DepsDone(e, s) == \A d \in e.steps[s].deps : e.steps[d].st = "done"

\* Sub steps are started and finished by the engine itself, without waiting
\* for anything outside.
RECURSIVE Settle(_, _)
Settle(c, e) ==
  LET startable == {s \in DOMAIN e.steps : /\ e.steps[s].k = "sub"
                                           /\ e.steps[s].st = "wait" /\ DepsDone(e, s)}
      finished == {s \in DOMAIN e.steps : SubFinished(e, s)}
  IN IF startable # {} THEN Settle(c, StartSub(c, e, Min(startable)))
     ELSE IF finished # {} THEN Settle(c, FinishSub(c, e, Max(finished)))
     ELSE e

(* ------------------------- actions ------------------------------------- *)
Start(c) ==
  LET g == c.graphs[1]
      bad == AnyMissing(g, g.nodes[1], c.q)
      e0 == [visits |-> <<>>, steps |-> <<>>, spaces |-> <<[graph |-> 1]>>,
             store |-> <<>>, failed |-> bad, canc |-> FALSE]
  IN IF bad THEN e0
     ELSE Settle(c, AddVisit(c, e0, 1, "", TRUE, <<>>, FillNode(g, g.nodes[1], c.q)))

Callable(e) == {s \in DOMAIN e.steps : /\ e.steps[s].k # "sub"
                                       /\ e.steps[s].st = "wait" /\ DepsDone(e, s)}
Called(e) == {s \in DOMAIN e.steps : e.steps[s].k # "sub" /\ e.steps[s].st = "called"}
AllDone(e) == \A s \in DOMAIN e.steps : e.steps[s].st = "done"

LinkGI(c, e, s) ==
  LET vis == e.visits[e.steps[s].v]
  IN ItemOf(NodeOf(GraphOf(c, e, vis.sp), vis.node), e.steps[s].it.name)

\* value(s) of the required field a link step passes to its loader
LinkReqs(c, e, s) ==
  LET vis == e.visits[e.steps[s].v]
      gi == LinkGI(c, e, s)
      ids == StepIds(e, s)
      key == Required(ItemOf(NodeOf(GraphOf(c, e, vis.sp), vis.node), gi.req))
  IN [i \in DOMAIN ids |-> At(e.store, Slot(vis.sp, vis.node, ids[i], key)).s]

Call(e, s) == [e EXCEPT !.steps[s].st = "called"]

Fail(e) == [e EXCEPT !.failed = TRUE]

\* The caller cancelled the execution: running loaders get cancelled, nothing
\* new starts; a cancelled call is `gone` when its loader has really ended.
Cancel(e) == [e EXCEPT !.failed = TRUE, !.canc = TRUE]
Gone(e, s) == [e EXCEPT !.steps[s].st = "gone"]

\* A fields step returned: keys[j] of object ids[i] has value rows[i][j].
RetFields(c, e, s, ids, keys, rows) ==
  LET vis == e.visits[e.steps[s].v]
      pairs == {<<Slot(vis.sp, vis.node, ids[i], keys[j]), rows[i][j]>> :
                   i \in DOMAIN ids, j \in DOMAIN keys}
  IN Settle(c, [e EXCEPT !.store = PutAll(@, pairs), !.steps[s].st = "done"])

\* A link step returned: vals[i] (Null, Ref or Many) is the target of the
\* i-th object of the visit.  `flat` are the objects to visit next.
VIds(v) == IF v.t = "ref" THEN <<v.s>>
           ELSE IF v.t = "many" THEN [i \in DOMAIN v.c |-> v.c[i].s] ELSE <<>>

RetLink(c, e, s, vals, single) ==
  LET st == e.steps[s]
      vis == e.visits[st.v]
      gi == LinkGI(c, e, s)
      ids == StepIds(e, s)
      key == CHOOSE k \in st.keys : TRUE
      pairs == {<<Slot(vis.sp, vis.node, ids[i], key), vals[i]>> : i \in DOMAIN ids}
      next == IF single THEN VIds(vals[1])
              ELSE FlattenSeq([i \in DOMAIN vals |-> VIds(vals[i])])
      e1 == [e EXCEPT !.store = PutAll(@, pairs), !.steps[s].st = "done"]
  IN Settle(c, IF next = <<>> THEN e1
               ELSE AddVisit(c, e1, vis.sp, gi.to, FALSE, next, st.it.node))

(* ------------------------- reading the result -------------------------- *)
\* The result as a set of <<path, leaf>>, read the way a user reads it: by
\* result keys, following the references.
RECURSIVE FlatNode(_, _, _, _, _, _)
FlatNode(g, store, node, id, q, path) ==
  LET nd == NodeOf(g, node)
      one(it) ==
        LET gi == ItemOf(nd, it.name)
            p == path \o "/" \o ResultKey(it)
            v == At(store, Slot(1, node, id, StoreKey(it)))
        IN IF gi.k = "f" THEN {<<p, v.s>>}
           ELSE IF v.t \in {"null", "missing"} THEN {<<p, v.s>>}
           ELSE IF v.t = "ref" THEN {<<p, "obj">>} \cup
                  FlatNode(g, store, gi.to, v.s, it.node, p)
           ELSE {<<p, "len:" \o ToString(Len(v.c))>>} \cup
                UNION {FlatNode(g, store, gi.to, v.c[i].s, it.node,
                                p \o "[" \o ToString(i - 1) \o "]") : i \in DOMAIN v.c}
  IN UNION {one(q.fields[i]) : i \in DOMAIN q.fields}

Flat(c, e) ==
  LET g == c.graphs[1]
  IN FlatNode(g, e.store, "", "", FillNode(g, g.nodes[1], c.q), "")
=============================================================================
