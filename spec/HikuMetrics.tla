----------------------------- MODULE HikuMetrics ------------------------------
(***************************************************************************)
(* What telemetry tells about an execution: every successful call of a     *)
(* loader is one observation of each field it was asked for, labelled with *)
(* the node which asked; nothing else is observed.                         *)
(***************************************************************************)
EXTENDS HikuQuery

\* c = [calls: Seq([node, fields: Seq(name), ms]), samples: Seq([graph, node,
\*      field, count, us]), failed]
Calls(c, node, field) ==
  FoldLeft(LAMBDA acc, x : IF x.node = node
                           THEN acc + Cardinality({n \in DOMAIN x.fields : x.fields[n] = field})
                           ELSE acc, 0, c.calls)
Took(c, node, field) ==
  FoldLeft(LAMBDA acc, x : IF x.node = node /\ \E n \in DOMAIN x.fields : x.fields[n] = field
                           THEN acc + x.ms ELSE acc, 0, c.calls)

Keys(c) == UNION {{<<c.calls[n].node, c.calls[n].fields[m]>> : m \in DOMAIN c.calls[n].fields}
                  : n \in DOMAIN c.calls}
           \cup {<<c.samples[n].node, c.samples[n].field>> : n \in DOMAIN c.samples}

Sample(c, k) == LET s == {n \in DOMAIN c.samples : <<c.samples[n].node, c.samples[n].field>> = k} IN
                IF s = {} THEN [count |-> 0, us |-> 0] ELSE c.samples[CHOOSE n \in s : TRUE]

BadMetrics(c) ==
  UNION {LET want == Calls(c, k[1], k[2])
             got == Sample(c, k) IN
         Clause(ToString(k) \o " was called " \o ToString(want) \o " times, observed "
                \o ToString(got.count),
                IF c.failed THEN got.count <= want ELSE got.count = want)
         \cup Clause(ToString(k) \o " took less than it's loaders: " \o ToString(got.us),
                     c.failed \/ got.us >= 1000 * Took(c, k[1], k[2])) : k \in Keys(c)}
  \cup Clause("label of the graph", \A n \in DOMAIN c.samples : c.samples[n].graph = "the graph")
=============================================================================
