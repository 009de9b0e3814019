------------------------------ MODULE HikuGraphs ------------------------------
(***************************************************************************)
(* Construction and transformation of graphs.                              *)
(*                                                                         *)
(* graph = Seq([k: "node" "root" "other", name, desc, items])              *)
(* item  = [k: "f" "l" "other", name, type, func, req, desc, opts]         *)
(* opt   = [k: "o" "other", name, type, has, def, desc]                    *)
(* type  = [k, a, n, s]; func is the number of a function: those below 100 *)
(* have a __postprocess__ which replaces it by the one 100 above           *)
(*                                                                         *)
(* transformer = [t, name, s, item]:                                       *)
(*   "id"; "drop", items called name; "desc", describe items called name   *)
(*   as s; "add" item to the node called name; "to", point links called    *)
(*   name to s; "opts", describe options of items called name as s         *)
(***************************************************************************)
EXTENDS HikuQuery, Json

Target(t) == IF t.k = "ref" THEN t.s
             ELSE IF t.k \in {"opt", "seq"} /\ t.a[1].k = "ref" THEN t.a[1].s ELSE ""
\* links lead to objects: one, maybe one or many
LinkType(t) ==
  CASE t.k = "ref" -> [ok |-> TRUE, kind |-> "One", to |-> t.s]
    [] t.k = "opt" /\ t.a[1].k = "ref" -> [ok |-> TRUE, kind |-> "Maybe", to |-> t.a[1].s]
    [] t.k = "seq" /\ t.a[1].k = "ref" -> [ok |-> TRUE, kind |-> "Many", to |-> t.a[1].s]
    [] OTHER -> [ok |-> FALSE, kind |-> "", to |-> ""]
Names(s) == [i \in DOMAIN s |-> s[i].name]
Twice(s) == {s[i] : i \in {i \in DOMAIN s : \E j \in 1..(i - 1) : s[i] = s[j]}}

\* ------------------------------ validation -----------------------------
\* problem = [at: where it is, w: what it is and the names its message has
\* to mention]
P(w) == {[at |-> <<>>, w |-> w]}
Place(n, ps) == {[p EXCEPT !.at = <<n>> \o @] : p \in ps}
RootItems(g) == FoldLeft(LAMBDA a, x : IF x.k = "root" THEN a \o x.items ELSE a, <<>>, g)
NodesOf(g) == SelectSeq(g, LAMBDA x : x.k = "node")

ItemProblems(g, where, items, it) ==
  IF it.k # "l" THEN {}
  ELSE IF \E n \in DOMAIN it.opts : it.opts[n].k # "o" THEN P(<<"options of link", it.name>>)
  ELSE (IF Target(it.type) \in Rng(Names(NodesOf(g))) THEN {}
        ELSE P(<<"missing node", it.name, Target(it.type)>>))
       \cup (IF it.req = "" \/ it.req \in Rng(Names(items)) THEN {}
             ELSE P(<<"missing field", it.name, it.req, where>>))

NodeProblems(g, where, items) ==
  IF \E n \in DOMAIN items : items[n].k = "other" THEN P(<<"members of node", where>>)
  ELSE UNION {Place(n, ItemProblems(g, where, items, items[n])) : n \in DOMAIN items}
       \cup (IF Twice(Names(items)) = {} THEN {}
             ELSE P(<<"duplicates in node", where>> \o SetToSeq(Twice(Names(items)))))

GraphProblems(g) ==
  IF \E n \in DOMAIN g : g[n].k = "other" THEN P(<<"members of graph">>)
  ELSE Place(0, NodeProblems(g, "root", RootItems(g)))
       \cup UNION {Place(n, NodeProblems(g, g[n].name, g[n].items)) :
                   n \in {n \in DOMAIN g : g[n].k = "node"}}
       \cup (IF Twice(Names(NodesOf(g))) = {} THEN {}
             ELSE P(<<"duplicate nodes">> \o SetToSeq(Twice(Names(NodesOf(g))))))

\* ----------------------------- construction ----------------------------
Map(g, f(_)) == [n \in DOMAIN g |-> [g[n] EXCEPT !.items = [m \in DOMAIN @ |-> f(@[m])]]]
Process(it) == [it EXCEPT !.func = IF @ < 100 THEN @ + 100 ELSE @]
Constructed(g) == Map(g, Process)

AnyType == [k |-> "any", a |-> <<>>, n |-> <<>>, s |-> ""]
TypeOf(it) == IF it.type.k = "none" THEN AnyType ELSE it.type
RecordOf(items) == [k |-> "rec", s |-> "", n |-> Names(items),
                    a |-> [i \in DOMAIN items |-> TypeOf(items[i])]]

\* types of the graph: nodes hide data types
TypesOf(g, dts) ==
  LET ns == NodesOf(g) IN
  {<<"__root__", RecordOf(RootItems(g))>>}
  \cup {<<ns[i].name, RecordOf(ns[i].items)>> : i \in DOMAIN ns}
  \cup {<<dts[i].name, dts[i].type>> :
          i \in {i \in DOMAIN dts : dts[i].name \notin Rng(Names(ns))}}

\* ---------------------------- transformation ---------------------------
Transform(g, t) ==
  CASE t.t = "drop" -> [n \in DOMAIN g |-> [g[n] EXCEPT
                          !.items = SelectSeq(@, LAMBDA it : it.name # t.name)]]
    [] t.t = "desc" -> Map(g, LAMBDA it : IF it.name = t.name THEN [it EXCEPT !.desc = t.s] ELSE it)
    [] t.t = "opts" -> Map(g, LAMBDA it : IF it.name # t.name THEN it
                          ELSE [it EXCEPT !.opts = [m \in DOMAIN @ |-> [@[m] EXCEPT !.desc = t.s]]])
    [] t.t = "add" -> [n \in DOMAIN g |->
                        IF g[n].name = t.name THEN [g[n] EXCEPT !.items = Append(@, t.item)]
                        ELSE g[n]]
    [] t.t = "to" -> Map(g, LAMBDA it : IF it.name = t.name /\ it.k = "l"
                          THEN [it EXCEPT !.type = [k |-> "seq", n |-> <<>>, s |-> "",
                                  a |-> <<[k |-> "ref", a |-> <<>>, n |-> <<>>, s |-> t.s]>>]]
                          ELSE it)
    [] OTHER -> g

\* [ok, g]: transformers one after another, each gives a graph
Applied(g, ts) ==
  FoldLeft(LAMBDA a, t :
    IF ~ a.ok THEN a
    ELSE LET x == Transform(a.g, t) IN
         IF GraphProblems(x) # {} THEN [ok |-> FALSE, g |-> x]
         ELSE [ok |-> TRUE, g |-> Constructed(x)],
    [ok |-> TRUE, g |-> Constructed(g)], ts)

\* ------------------------------- verdicts ------------------------------
\* msgs: Seq(Seq(word)), words of messages
Reported(ps, msgs) ==
  /\ Len(msgs) = Cardinality(ps)
  /\ \A p \in ps : \E n \in DOMAIN msgs : Rng(Tail(p.w)) \subseteq Rng(msgs[n])

\* a view of a graph = [items, root, nodes, maps, types, dts]
View(why, g, dts, v) ==
  Clause(why \o ": not the graph described", v.items = g)
  \cup Clause(why \o ": root", v.root = RootItems(g))
  \cup Clause(why \o ": nodes", v.nodes = NodesOf(g) /\ v.names = Names(NodesOf(g)))
  \cup Clause(why \o ": maps", v.maps)
  \cup Clause(why \o ": types", Rng(v.types) = TypesOf(g, dts))
  \cup Clause(why \o ": data types", v.dts = dts)

\* types are compared by what they are
RECURSIVE Canon(_)
Canon(t) == [k |-> t.k, s |-> t.s,
             f |-> IF t.k = "rec" THEN {<<t.n[i], Canon(t.a[i])>> : i \in DOMAIN t.n} ELSE {},
             a |-> IF t.k = "rec" THEN <<>> ELSE [i \in DOMAIN t.a |-> Canon(t.a[i])]]
Compared(e) == /\ e[1] = e[2] => e[3] = <<TRUE, TRUE, TRUE>>
               /\ Canon(e[1]) # Canon(e[2]) => e[3] = <<FALSE, FALSE, FALSE>>

\* c = [g, dts, ts, eqs, ok, msgs, first, again, final, finalok, kept]
BadGraph(c) ==
  LET ps == GraphProblems(c.g)
      a == Applied(c.g, c.ts)
  IN UNION {Clause("kind of a link: " \o ToString(c.links[n]),
                   c.links[n][2] = LinkType(c.links[n][1])) : n \in DOMAIN c.links}
     \cup UNION {Clause("types are compared wrong: " \o ToString(c.eqs[n]), Compared(c.eqs[n])) :
            n \in DOMAIN c.eqs}
     \cup IF ps # {}
     THEN Clause("a broken graph is accepted: " \o ToString(ps), ~ c.ok)
          \cup Clause("not what is wrong: " \o ToString(ps), c.ok \/ Reported(ps, c.msgs))
     ELSE Clause("a graph is refused: " \o ToString(c.msgs), c.ok)
          \cup (IF ~ c.ok THEN {} ELSE
                View("graph", Constructed(c.g), c.dts, c.first)
                \cup Clause("its parts are changed", c.kept)
                \cup Clause("transformation changes the graph", c.again = c.first)
                \cup Clause("a broken transformed graph is accepted", c.finalok => a.ok)
                \cup Clause("a transformed graph is refused", a.ok => c.finalok)
                \cup (IF c.finalok /\ a.ok THEN View("transformed", a.g, c.dts, c.final) ELSE {}))
=============================================================================
