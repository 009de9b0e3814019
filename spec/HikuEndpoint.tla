----------------------------- MODULE HikuEndpoint -----------------------------
(***************************************************************************)
(* Endpoints: reading, choice of a graph, validation, execution and        *)
(* denormalization of each request put together.                           *)
(*                                                                         *)
(* c = [query, mutation: [g, f, l] (graph and tables of HikuDenorm),       *)
(*      hasmut, vals: Seq([s, v]) value trees of canonical values,  *)
(*      reqs: Seq([syntax, doc, opname, vars]),                            *)
(*      outs: Seq([kind: "data" "errors" "raised", v, errs,                *)
(*                 order, ordered: order was recorded])]                   *)
(*                                                                         *)
(* An endpoint has no memory: the response to each of a history of         *)
(* requests (alone, in batches, one after another or concurrent) depends   *)
(* on nothing but the request.                                             *)
(***************************************************************************)
EXTENDS HikuGraphQL, HikuDenorm

\* options get trees of their values
RECURSIVE Trees(_, _)
Trees(vals, q) ==
  [q EXCEPT !.fields = [n \in DOMAIN q.fields |->
     [q.fields[n] EXCEPT
        !.opts = [m \in DOMAIN @ |-> <<@[m][1], @[m][2], At(vals, @[m][2])>>],
        !.node = IF q.fields[n].k = "l" THEN Trees(vals, @) ELSE @]]]

\* __typename is not a part of the graph
RECURSIVE Strip(_)
Strip(q) ==
  LET fs == SelectSeq(q.fields, LAMBDA it : it.name # "__typename") IN
  [q EXCEPT !.fields = [n \in DOMAIN fs |->
                          IF fs[n].k = "l" THEN [fs[n] EXCEPT !.node = Strip(@)] ELSE fs[n]]]

\* is __typename requested as the scalar without options it is, and under names
\* of its own?
RECURSIVE Misnamed(_)
Misnamed(q) ==
  \E n \in DOMAIN q.fields :
    LET it == q.fields[n] IN
    \/ it.name = "__typename"
       /\ \/ it.k = "l" \/ it.opts # <<>>
          \/ \E m \in DOMAIN q.fields :
               q.fields[m].name # "__typename" /\ ResultKey(q.fields[m]) = ResultKey(it)
    \/ it.name # "__typename" /\ it.k = "l" /\ Misnamed(it.node)

Vals(c) == FoldSeq(LAMBDA x, a : (x.s :> x.v) @@ a, <<>>, c.vals)

Refused == [kind |-> "errors", maybe |-> FALSE, v |-> VMissing, q |-> EmptyNode, type |-> ""]

Response(c, vals, req) ==
  IF req.syntax THEN Refused ELSE
  LET r == Read(req.doc, req.opname, req.vars) IN
  IF r.must \/ r.type \notin {"query", "mutation"} \/ (r.type = "mutation" /\ ~ c.hasmut)
  THEN Refused
  ELSE LET side == IF r.type = "query" THEN c.query ELSE c.mutation
           root == IF r.type = "query" THEN "Query" ELSE "Mutation"
           q == Trees(vals, r.q)
       IN IF Problems(side.g, "", Strip(q)) # {} \/ Misnamed(q) THEN Refused
          ELSE [kind |-> "data", maybe |-> r.may, q |-> Strip(q), type |-> r.type,
                v |-> Object(side.g, FTab(side), LTab(side), root, "", "", q)]

BadOne(c, vals, n) ==
  LET want == Response(c, vals, c.reqs[n])
      out == c.outs[n]
      me == "request " \o ToString(n) \o ": "
  IN CASE out.kind = "errors" ->
            Clause(me \o "refused: " \o ToString(out.errs), want.kind = "errors" \/ want.maybe)
            \cup Clause(me \o "no errors", out.errs # <<>>)
       [] out.kind = "data" ->
            Clause(me \o "an invalid request is executed", want.kind = "data")
            \cup Clause(me \o "data differs", want.kind # "data" \/ VSame(out.v, want.v))
            \cup Clause(me \o "order of execution: " \o ToString(out.order),
                        want.kind = "data" /\ want.q.ord /\ out.ordered =>
                          Distinct(out.order) =
                          Distinct([m \in DOMAIN want.q.fields |-> want.q.fields[m].name]))
       [] OTHER -> {me \o ToString(out.errs)}

\* Every executed request asks the root for what it requests by itself, once for
\* each field: answers are not shared between requests, requests which are
\* refused ask for nothing.
Asked(log, name) == Len(SelectSeq(log, LAMBDA x : x = name))
Total(f, S) == FoldSet(LAMBDA x, a : f[x] + a, 0, S)

BadEffects(c, vals, type, side) ==
  LET items == NodeOf(side.g, "").items
      wants == [n \in DOMAIN c.reqs |-> Response(c, vals, c.reqs[n])]
      mine == {n \in DOMAIN c.reqs : c.outs[n].kind = "data" /\ wants[n].type = type}
      least(name) == [n \in mine |->
        IF \E m \in DOMAIN wants[n].q.fields : wants[n].q.fields[m].name = name THEN 1 ELSE 0]
      most(name) == [n \in mine |->
        Cardinality({m \in DOMAIN wants[n].q.fields :
          LET f == wants[n].q.fields[m] IN
          f.name = name \/ \E k \in DOMAIN items : items[k].name = f.name /\ items[k].req = name})]
  IN UNION {
       LET name == items[k].name
           asked == Asked(side.log, name)
       IN Clause(type \o ": " \o name \o " is asked for " \o ToString(asked) \o " times, not "
                 \o ToString(Total(least(name), mine)),
                 asked >= Total(least(name), mine) /\ asked <= Total(most(name), mine))
       : k \in DOMAIN items}

BadEndpoint(c) ==
  IF Len(c.outs) # Len(c.reqs) THEN {"other number of responses"}
  ELSE LET vals == Vals(c)
           bad == UNION {BadOne(c, vals, n) : n \in DOMAIN c.reqs}
       IN IF bad # {} THEN bad
          ELSE BadEffects(c, vals, "query", c.query)
               \cup IF c.hasmut THEN BadEffects(c, vals, "mutation", c.mutation) ELSE {}
=============================================================================
