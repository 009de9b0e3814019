------------------------------ MODULE HikuQuery ------------------------------
(***************************************************************************)
(* Query algebra shared by all Hiku specifications.                        *)
(*                                                                         *)
(* A query node is  [ord: BOOLEAN, fields: Seq(Item)],  an item is         *)
(*   [k: {"f","l"}, name: STRING, alias: STRING ("" = none),               *)
(*    opts: Seq(<<name, value>>), node: query node (empty for "f")].       *)
(* Option values and all data values are opaque canonical strings.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Rng(s) == {s[i] : i \in DOMAIN s}

\* a verdict: nothing, or the name of the broken clause
Clause(name, ok) == IF ok THEN {} ELSE {name}

EmptyNode == [ord |-> FALSE, fields |-> <<>>]

OptSet(it) == Rng(it.opts)

ResultKey(it) == IF it.alias = "" THEN it.name ELSE it.alias

\* Two items with equal StoreKey may share one slot of the normalized result;
\* items with different StoreKey must not.
StoreKey(it) == <<it.name, OptSet(it)>>

\* Two items with equal MergeKey are the same request.
MergeKey(it) == <<it.k, it.name, OptSet(it), ResultKey(it)>>

(***************************************************************************)
(* Constructive merge: one item per MergeKey, sub-queries of links with    *)
(* the same key merged recursively.  Items keep the order of their first   *)
(* occurrence (this matters for ordered nodes only).                       *)
(***************************************************************************)
RECURSIVE MergeNodes(_)
MergeNodes(ns) ==
  LET all == FlattenSeq([i \in DOMAIN ns |-> ns[i].fields])
      firsts == SelectSeq([i \in DOMAIN all |-> i],
                   LAMBDA i : ~ \E j \in 1..(i-1) : MergeKey(all[j]) = MergeKey(all[i]))
      same(i) == SelectSeq([j \in DOMAIN all |-> j],
                   LAMBDA j : MergeKey(all[j]) = MergeKey(all[i]))
      mk(i) == IF all[i].k = "f" THEN all[i]
               ELSE LET s == same(i) IN
                    [all[i] EXCEPT !.node =
                        MergeNodes([n \in DOMAIN s |-> all[s[n]].node])]
  IN [ord |-> \E i \in DOMAIN ns : ns[i].ord,
      fields |-> [n \in DOMAIN firsts |-> mk(firsts[n])]]

(***************************************************************************)
(* Declarative meaning of a query: the set of request paths.  A path is a  *)
(* sequence of MergeKeys.  Merging must preserve exactly this set.         *)
(***************************************************************************)
RECURSIVE Paths(_)
Paths(n) ==
  UNION { LET it == n.fields[i] IN
          {<<MergeKey(it)>>} \cup
          { <<MergeKey(it)>> \o p : p \in IF it.k = "l" THEN Paths(it.node) ELSE {} }
        : i \in DOMAIN n.fields }

\* No node of a merged query contains one request twice.
RECURSIVE NoDup(_)
NoDup(n) ==
  /\ \A i, j \in DOMAIN n.fields : i # j => MergeKey(n.fields[i]) # MergeKey(n.fields[j])
  /\ \A i \in DOMAIN n.fields : n.fields[i].k = "l" => NoDup(n.fields[i].node)

\* Order in which distinct requests are first made at one node.
FirstOrder(ns) ==
  LET all == FlattenSeq([i \in DOMAIN ns |-> ns[i].fields])
      idx == SelectSeq([i \in DOMAIN all |-> i],
                LAMBDA i : ~ \E j \in 1..(i-1) : MergeKey(all[j]) = MergeKey(all[i]))
  IN [n \in DOMAIN idx |-> MergeKey(all[idx[n]])]

\* the same requests in another order (order matters in ordered nodes only)
RECURSIVE Same(_, _), SameItem(_, _)
Same(p, q) ==
  /\ p.ord = q.ord
  /\ Len(p.fields) = Len(q.fields)
  /\ IF p.ord
     THEN \A i \in DOMAIN p.fields : SameItem(p.fields[i], q.fields[i])
     ELSE \A i \in DOMAIN p.fields : \E j \in DOMAIN q.fields : SameItem(p.fields[i], q.fields[j])
SameItem(a, b) == MergeKey(a) = MergeKey(b) /\ (a.k = "l" => Same(a.node, b.node))


\* Sequence helpers ---------------------------------------------------------
Distinct(s) == \* first occurrences, in order
  LET idx == SelectSeq([i \in DOMAIN s |-> i],
               LAMBDA i : ~ \E j \in 1..(i-1) : s[j] = s[i])
  IN [n \in DOMAIN idx |-> s[idx[n]]]

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

\* s asks for the same elements as t, none more often than t does
SubMultiset(s, t) == /\ Rng(s) = Rng(t)
                     /\ \A x \in Rng(s) : Count(s, x) <= Count(t, x)

RECURSIVE JoinStr(_, _)
JoinStr(s, sep) ==
  IF Len(s) = 0 THEN "" ELSE
  IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinStr(Tail(s), sep)

(***************************************************************************)
(* Graph definitions, as the scenario files give them.                     *)
(*  graph = [nodes: Seq([name, items])]; nodes[1] is the root, name "".    *)
(*  item  = [name, k: "f"|"l", fn, sub: index of a sub-graph or 0,         *)
(*           opts: Seq([name, has, def]), req, ty: "one"|"maybe"|"many",   *)
(*           to, expr, dt]                                                 *)
(***************************************************************************)
NodeOf(g, n) == g.nodes[CHOOSE i \in DOMAIN g.nodes : g.nodes[i].name = n]
HasItem(nd, name) == \E i \in DOMAIN nd.items : nd.items[i].name = name
ItemOf(nd, name) == nd.items[CHOOSE i \in DOMAIN nd.items : nd.items[i].name = name]

(***************************************************************************)
(* Values.  [t: tag, s: canonical string, kk: keys, c: children]           *)
(*   t = "x" scalar, "null", "l" list (c), "d" dict (kk, c),               *)
(*       "ref" reference (kk = <<node>>, s = ident), "many" refs (c)       *)
(***************************************************************************)
Leaf(s) == [t |-> "x", s |-> s, kk |-> <<>>, c |-> <<>>]
Null == [t |-> "null", s |-> "null", kk |-> <<>>, c |-> <<>>]
Ref(n, i) == [t |-> "ref", s |-> i, kk |-> <<n>>, c |-> <<>>]
Many(rs) == [t |-> "many", s |-> "many", kk |-> <<>>, c |-> rs]
MkList(vs) == [t |-> "l", kk |-> <<>>, c |-> vs,
               s |-> "l[" \o JoinStr([i \in DOMAIN vs |-> vs[i].s], ",") \o "]"]
MkDict(ks, vs) == [t |-> "d", kk |-> ks, c |-> vs,
               s |-> "d{" \o JoinStr([i \in DOMAIN vs |-> ks[i] \o "=" \o vs[i].s], ",") \o "}"]
\* a slot that was never stored: differs from every value
Missing == [t |-> "missing", s |-> "MISSING", kk |-> <<>>, c |-> <<>>]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Missing
ChildOf(v, k) == IF \E i \in DOMAIN v.kk : v.kk[i] = k
                 THEN v.c[CHOOSE i \in DOMAIN v.kk : v.kk[i] = k] ELSE Missing

\* objects are true, lists of objects when there are any
Truthy(v) == CASE v.t = "ref" -> TRUE
               [] v.t = "many" -> v.c # <<>>
               [] OTHER -> v.s \notin {"null", "b:0", "i:0", "f:0.0", "s:", "l[]", "d{}"}
=============================================================================
