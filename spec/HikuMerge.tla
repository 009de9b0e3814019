------------------------------ MODULE HikuMerge -------------------------------
(***************************************************************************)
(* Merging queries.  MergeNodes (HikuQuery) is the constructive merge, its *)
(* meaning is given by Paths; here the two are checked against each other  *)
(* for every small list of nodes, these lists are replayed into the real   *)
(* merge(), and recorded calls of merge() are decided.                     *)
(***************************************************************************)
EXTENDS HikuQuery, Json, IOUtils

CONSTANTS Size,     \* items per node
          Lists     \* nodes per list

\* ------------------------- recorded calls ------------------------------
\* c = [ns, out, again, flip, after, err]
BadMerge(c) ==
  IF c.err # "" THEN {"merge failed: " \o c.err} ELSE
  Clause("requests are lost or made up",
         Paths(c.out) = UNION {Paths(c.ns[i]) : i \in DOMAIN c.ns})
  \cup Clause("one request twice in a node", NoDup(c.out))
  \cup Clause("wrong merge", Same(c.out, MergeNodes(c.ns)))
  \cup Clause("order of an ordered node is not kept",
              c.out.ord => [i \in DOMAIN c.out.fields |-> MergeKey(c.out.fields[i])]
                           = FirstOrder(c.ns))
  \cup Clause("merging again changes the query", c.again = c.out)
  \cup Clause("depends on the order of nodes",
              Paths(c.flip) = Paths(c.out) /\ c.flip.ord = c.out.ord)
  \cup Clause("arguments are changed", c.after = c.ns)

\* ------------------------- all small lists ------------------------------
Opts == {<<>>, <<<<"x", "i:1">>>>}
Fields == {[k |-> "f", name |-> n, alias |-> a, opts |-> o, node |-> EmptyNode] :
             n \in {"a", "b"}, a \in {"", "b"}, o \in Opts}
Leaves == {f \in Fields : f.opts = <<>>}
Subs == {[ord |-> FALSE, fields |-> s] :
           s \in UNION {[1..m -> {f \in Leaves : f.alias = ""}] : m \in 1..2}}
Links == {[k |-> "l", name |-> n, alias |-> a, opts |-> <<>>, node |-> s] :
            n \in {"b", "c"}, a \in {"", "a"}, s \in Subs}
Nodes == {[ord |-> o, fields |-> s] : o \in BOOLEAN,
            s \in UNION {[1..m -> Leaves \cup Links] : m \in 0..Size}}

VARIABLES ns, shown

MInit == /\ ns \in UNION {[1..m -> Nodes] : m \in 1..Lists}
         /\ shown = FALSE
MNext == /\ ~ shown
         /\ PrintT("NODES " \o ToJson(ns))
         /\ shown' = TRUE
         /\ UNCHANGED ns
MSpec == MInit /\ [][MNext]_<<ns, shown>>

\* --------------------------- theorems -----------------------------------
Meaning == Paths(MergeNodes(ns)) = UNION {Paths(ns[i]) : i \in DOMAIN ns}
Unique == NoDup(MergeNodes(ns))
Idempotent == MergeNodes(<<MergeNodes(ns)>>) = MergeNodes(ns)
Order == [i \in DOMAIN MergeNodes(ns).fields |-> MergeKey(MergeNodes(ns).fields[i])]
         = FirstOrder(ns)
Associative == Len(ns) = 2 => \A x \in {ns[1], ns[2]} :
                 MergeNodes(<<MergeNodes(ns), x>>) = MergeNodes(ns \o <<x>>)
               /\ MergeNodes(<<x, MergeNodes(ns)>>) = MergeNodes(<<x>> \o ns)
Commutes == Len(ns) = 2 =>
              Paths(MergeNodes(<<ns[2], ns[1]>>)) = Paths(MergeNodes(ns))
=============================================================================
