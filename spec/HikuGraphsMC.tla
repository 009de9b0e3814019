----------------------------- MODULE HikuGraphsMC -----------------------------
(***************************************************************************)
(* All small graphs; all are replayed.                                     *)
(***************************************************************************)
EXTENDS HikuGraphs

CONSTANTS Items,   \* items of a graph
          Size     \* items of a node

Int0 == [k |-> "int", a |-> <<>>, n |-> <<>>, s |-> ""]
RefTo(s) == [k |-> "ref", a |-> <<>>, n |-> <<>>, s |-> s]
Item(k, name, type, req) == [k |-> k, name |-> name, type |-> type, func |-> 0, req |-> req,
                             desc |-> "", opts |-> <<>>]
BadOpt == <<[k |-> "other", name |-> "x", type |-> Int0, has |-> FALSE, def |-> "null", desc |-> ""]>>
Members == {Item("f", "a", Int0, ""), Item("f", "b", Int0, ""),
            Item("l", "a", RefTo("N"), ""), Item("l", "b", RefTo("N"), "a"),
            Item("l", "c", RefTo("M"), "z"), Item("other", "o", Int0, ""),
            [Item("l", "d", RefTo("M"), "z") EXCEPT !.opts = BadOpt]}
Seqs == UNION {[1..m -> Members] : m \in 0..Size}
GraphItems == {[k |-> "node", name |-> n, desc |-> "", items |-> s] : n \in {"N", "M"}, s \in Seqs}
              \cup {[k |-> "root", name |-> "", desc |-> "", items |-> s] : s \in Seqs}
              \cup {[k |-> "other", name |-> "x", desc |-> "", items |-> <<>>]}

VARIABLES g, shown
MInit == g \in UNION {[1..m -> GraphItems] : m \in 0..Items} /\ shown = FALSE
Show == ~ shown /\ shown' = TRUE /\ UNCHANGED g /\ PrintT("GRAPH " \o ToJson(g))
MSpec == MInit /\ [][Show]_<<g, shown>>

\* ------------------------------- theorems ------------------------------
Fine == GraphProblems(g) = {}
\* links of a graph lead to its nodes
Linked == Fine => \A i \in DOMAIN g : \A it \in Rng(g[i].items) :
            it.k = "l" => Target(it.type) \in Rng(Names(NodesOf(g)))
\* construction and neutral transformers change nothing which matters
Neutral == Fine => /\ GraphProblems(Constructed(g)) = {}
                   /\ Constructed(Constructed(g)) = Constructed(g)
                   /\ Applied(g, <<[t |-> "id"], [t |-> "id"]>>).g = Constructed(g)
\* each node has one type
Typed == Fine => Cardinality(TypesOf(g, <<>>)) = Len(NodesOf(g)) + 1
=============================================================================
