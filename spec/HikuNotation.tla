----------------------------- MODULE HikuNotation -----------------------------
(***************************************************************************)
(* Queries in their notations: EDN, Protocol Buffers, GraphQL documents    *)
(* written by the exporter, and the builder.                               *)
(*                                                                         *)
(* An EDN value here is [t, s, c, v]: t as in HikuEDN, s the name of a     *)
(* keyword, c its items, v its value as an option (canonical).             *)
(* A message is [items: Seq([k: "field" "link" "none", name, opts, node])] *)
(* A handle is [name, alias, opts, items: Seq(handle), link]               *)
(***************************************************************************)
EXTENDS HikuQuery

\* reading = [ok, fields]
Refuse == [ok |-> FALSE, fields |-> <<>>]
Fields(fs) == [ok |-> TRUE, fields |-> fs]
Also(a, b) == IF a.ok /\ b.ok THEN Fields(a.fields \o b.fields) ELSE Refuse
Item(k, name, alias, opts, node) ==
  [k |-> k, name |-> name, alias |-> alias, opts |-> opts, node |-> node]
Plain(fs) == [ord |-> FALSE, fields |-> fs]

\* -------------------------------- EDN -----------------------------------
\* :name or (:name {:option value})
Named(x) ==
  CASE x.t = "kw" -> [ok |-> TRUE, name |-> x.s, opts |-> <<>>]
    [] x.t = "t" /\ Len(x.c) = 2 /\ x.c[1].t = "kw" /\ x.c[2].t = "d"
       /\ (\A i \in DOMAIN x.c[2].c : i % 2 = 1 => x.c[2].c[i].t = "kw") ->
         [ok |-> TRUE, name |-> x.c[1].s,
          opts |-> [i \in 1..(Len(x.c[2].c) \div 2) |->
                      <<x.c[2].c[2 * i - 1].s, x.c[2].c[2 * i].v>>]]
    [] OTHER -> [ok |-> FALSE, name |-> "", opts |-> <<>>]

RECURSIVE EdnNode(_)
EdnNode(x) ==
  LET linkOf(k, v) ==
        LET n == Named(k)
            sub == EdnNode(v)
        IN IF n.ok /\ sub.ok THEN Fields(<<Item("l", n.name, "", n.opts, Plain(sub.fields))>>)
           ELSE Refuse
      member(m) ==
        IF m.t = "d"
        THEN FoldLeft(LAMBDA a, i : Also(a, linkOf(m.c[2 * i - 1], m.c[2 * i])),
                      Fields(<<>>), [i \in 1..(Len(m.c) \div 2) |-> i])
        ELSE LET n == Named(m) IN
             IF n.ok THEN Fields(<<Item("f", n.name, "", n.opts, EmptyNode)>>) ELSE Refuse
  IN IF x.t # "l" THEN Refuse
     ELSE FoldLeft(LAMBDA a, m : Also(a, member(m)), Fields(<<>>), x.c)

\* --------------------------- Protocol Buffers ---------------------------
RECURSIVE PbNode(_)
PbNode(x) ==
  LET one(i) ==
        CASE i.k = "none" \/ i.name = "" -> Refuse
          [] i.k = "field" -> Fields(<<Item("f", i.name, "", i.opts, EmptyNode)>>)
          [] OTHER -> LET sub == PbNode(i.node) IN
                      IF sub.ok THEN Fields(<<Item("l", i.name, "", i.opts, Plain(sub.fields))>>)
                      ELSE Refuse
  IN FoldLeft(LAMBDA a, i : Also(a, one(i)), Fields(<<>>), x.items)

\* -------------------------------- builder -------------------------------
RECURSIVE Built(_)
Built(hs) ==
  Plain([i \in DOMAIN hs |->
           IF hs[i].link THEN Item("l", hs[i].name, hs[i].alias, hs[i].opts, Built(hs[i].items))
           ELSE Item("f", hs[i].name, hs[i].alias, hs[i].opts, EmptyNode)])

\* ------------------------------- exports --------------------------------
\* EDN and messages have no aliases and no order
RECURSIVE NoAlias(_)
NoAlias(q) == [ord |-> FALSE,
               fields |-> [i \in DOMAIN q.fields |->
                             [q.fields[i] EXCEPT !.alias = "", !.node = NoAlias(@)]]]

\* options have no order
RECURSIVE Canon(_)
Canon(q) == [q EXCEPT !.fields = [i \in DOMAIN @ |->
               [@[i] EXCEPT !.opts = {@[n] : n \in DOMAIN @}, !.node = Canon(@)]]]

\* ------------------------------- verdicts -------------------------------
\* got = [ok, q]
Meaning(r) == MergeNodes(<<Plain(r.fields)>>)
Reading(r, got) ==
  Clause("it is refused", r.ok => got.ok)
  \cup Clause("it is accepted", got.ok => r.ok)
  \cup Clause("another query", r.ok /\ got.ok => Same(got.q, Meaning(r)))

Exported(q, got) ==
  Clause("the exported query is refused", got.ok)
  \cup Clause("the exported query is another", got.ok =>
                Same(got.q, MergeNodes(<<q>>)))

BadNotation(c) ==
  CASE c.what = "edn" -> Reading(EdnNode(c.x), c.got)
    [] c.what = "pb" -> Reading(PbNode(c.x), c.got)
    [] c.what = "build" ->
         Clause("not what the handles say", c.got.ok /\ Canon(c.got.q) = Canon(Built(c.x)))
    [] c.what = "eq" ->
         \* everything told about a query tells it from others
         LET same == c.a = c.b IN
         Clause("queries are compared wrong", c.got = <<same, same, same>>)
    [] c.what = "export" ->
         Exported(IF c.aliases THEN c.q ELSE NoAlias(c.q), c.got)
         \cup Clause("the query is changed", c.kept)
=============================================================================
