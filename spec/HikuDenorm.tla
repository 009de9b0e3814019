------------------------------ MODULE HikuDenorm ------------------------------
(***************************************************************************)
(* What a denormalized result looks like: straight from the values the     *)
(* loaders returned (tables of the case), the query and the types.         *)
(*                                                                         *)
(* c.f: Seq([n, id, name, o, v])  value of a field  (v: value tree)        *)
(* c.l: Seq([n, req, name, o, ids])  targets of a link                     *)
(* items of nodes have a field  req: field required by a link or ""        *)
(* Value trees are those of HikuValidate.                                  *)
(***************************************************************************)
EXTENDS HikuValidate

VLeaf(s) == [k |-> "s", a |-> <<>>, n |-> <<>>, s |-> s]
VNull == [k |-> "n", a |-> <<>>, n |-> <<>>, s |-> "null"]
VList(a) == [k |-> "l", a |-> a, n |-> <<>>, s |-> ""]
VDict(n, a) == [k |-> "d", a |-> a, n |-> n, s |-> ""]
VMissing == [k |-> "missing", a |-> <<>>, n |-> <<>>, s |-> ""]

\* equal values (keys of dictionaries in any order)
RECURSIVE VSame(_, _)
VSame(v, w) ==
  /\ v.k = w.k
  /\ CASE v.k = "l" -> /\ Len(v.a) = Len(w.a)
                       /\ \A n \in DOMAIN v.a : VSame(v.a[n], w.a[n])
       [] v.k = "d" -> /\ Rng(v.n) = Rng(w.n)
                       /\ Len(v.n) = Len(w.n)
                       /\ \A n \in DOMAIN v.n : \A m \in DOMAIN w.n :
                            v.n[n] = w.n[m] => VSame(v.a[n], w.a[m])
       [] OTHER -> v.s = w.s

VGet(v, key) == IF v.k = "d" /\ \E n \in DOMAIN v.n : v.n[n] = key
                THEN v.a[CHOOSE n \in DOMAIN v.n : v.n[n] = key] ELSE VMissing

\* options of a request with the defaults of the graph
WithDefaults(gi, it) ==
  LET given == {<<o[1], o[2]>> : o \in OptSet(it)} IN
  given \cup {<<gi.opts[n].name, gi.opts[n].def.s>> :
                n \in {n \in DOMAIN gi.opts : ~ \E o \in given : o[1] = gi.opts[n].name}}

FTab(c) == FoldSeq(LAMBDA x, a : (<<x.n, x.id, x.name, Rng(x.o)>> :> x.v) @@ a, <<>>, c.f)
LTab(c) == FoldSeq(LAMBDA x, a : (<<x.n, x.req, x.name, Rng(x.o)>> :> x.ids) @@ a, <<>>, c.l)

Lookup(t, k, dflt) == IF k \in DOMAIN t THEN t[k] ELSE dflt

\* fields of a record; tn: name of its type
RECURSIVE Project(_, _, _, _, _)
Project(dts, t, v, q, tn) ==
  CASE t.k = "ref" -> Project(dts, Elem(dts, t.s).type, v, q, t.s)
    [] t.k = "opt" -> IF v.k = "n" THEN VNull ELSE Project(dts, t.a[1], v, q, tn)
    [] t.k = "seq" -> VList([n \in DOMAIN v.a |-> Project(dts, t.a[1], v.a[n], q, tn)])
    [] OTHER ->
       LET one(it) ==
             IF it.name = "__typename" THEN VLeaf("s:" \o tn)
             ELSE IF it.k = "f" THEN VGet(v, it.name)
             ELSE Project(dts, t.a[CHOOSE n \in DOMAIN t.n : t.n[n] = it.name],
                          VGet(v, it.name), it.node, "")
       IN VDict([n \in DOMAIN q.fields |-> ResultKey(q.fields[n])],
                [n \in DOMAIN q.fields |-> one(q.fields[n])])

\* an object; root: name of the root type
RECURSIVE Object(_, _, _, _, _, _, _)
Object(g, ft, lt, root, node, id, q) ==
  LET nd == Elem(g.nodes, node)
      one(it) ==
        IF it.name = "__typename" THEN VLeaf("s:" \o IF node = "" THEN root ELSE node)
        ELSE
        LET gi == Elem(nd.items, it.name)
            o == WithDefaults(gi, it)
        IN IF gi.k = "f"
           THEN LET v == Lookup(ft, <<node, id, gi.name, o>>, VMissing) IN
                IF it.k = "f" THEN v ELSE Project(g.dts, gi.type, v, it.node, "")
           ELSE LET req == IF gi.req = "" THEN ""
                           ELSE Lookup(ft, <<node, id, gi.req, {}>>, VMissing).s
                    ids == Lookup(lt, <<node, req, gi.name, o>>, <<"missing">>)
                IN CASE gi.type.k = "seq" ->
                          VList([n \in DOMAIN ids |->
                                   Object(g, ft, lt, root, gi.to, ids[n], it.node)])
                     [] ids = <<>> -> VNull
                     [] OTHER -> Object(g, ft, lt, root, gi.to, ids[1], it.node)
  IN VDict([n \in DOMAIN q.fields |-> ResultKey(q.fields[n])],
           [n \in DOMAIN q.fields |-> one(q.fields[n])])

\* c = [g, q, f, l, root, outs: Seq([name, err, v])]
BadDenorm(c) ==
  LET want == Object(c.g, FTab(c), LTab(c), c.root, "", "", c.q) IN
  UNION {Clause(c.outs[n].name \o " failed: " \o c.outs[n].err, c.outs[n].err = "")
         \cup Clause(c.outs[n].name \o " differs",
                     c.outs[n].err # "" \/ VSame(c.outs[n].v, want))
         : n \in DOMAIN c.outs}
=============================================================================
