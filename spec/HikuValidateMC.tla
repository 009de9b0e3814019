--------------------------- MODULE HikuValidateMC -----------------------------
(***************************************************************************)
(* All small queries on one graph with every kind of item; theorems about  *)
(* validity, and every query is replayed into the real validator.          *)
(***************************************************************************)
EXTENDS HikuValidate, Json

CONSTANT Two      \* BOOLEAN: two items at the root

T(k, a) == [k |-> k, a |-> a, n |-> <<>>, s |-> ""]
IntT == T("int", <<>>)
RecT(n, a) == [k |-> "rec", a |-> a, n |-> n, s |-> ""]
RefT(s) == [k |-> "ref", a |-> <<>>, n |-> <<>>, s |-> s]
Val(k, s) == [k |-> k, a |-> <<>>, n |-> <<>>, s |-> s]
One == Val("i", "i:1")
Str == Val("s", "s:x")

It(k, name, type, to, opts) == [k |-> k, name |-> name, type |-> type, to |-> to, opts |-> opts]
G == [nodes |-> <<
        [name |-> "", items |-> <<
           It("f", "a", T("none", <<>>), "", <<[name |-> "o", type |-> IntT, has |-> TRUE, def |-> One],
                                              [name |-> "m", type |-> T("opt", <<IntT>>), has |-> TRUE,
                                               def |-> Val("n", "null")]>>),
           It("l", "l", T("seq", <<RefT("N")>>), "N", <<[name |-> "o", type |-> IntT, has |-> FALSE,
                                                         def |-> One]>>),
           It("f", "r", T("opt", <<RefT("R")>>), "", <<>>)>>],
        [name |-> "N", items |-> <<
           It("f", "a", T("str", <<>>), "", <<>>),
           It("f", "r", T("seq", <<RefT("R")>>), "", <<>>)>>]>>,
      dts |-> <<[name |-> "R", type |-> RecT(<<"a", "r">>, <<IntT, T("opt", <<RefT("R")>>)>>)]>>]

\* ---------------------------- queries ----------------------------------
Names == {"a", "l", "r", "zz"}
OptsS == {<<>>, <<<<"o", "i:1", One>>>>, <<<<"o", "s:x", Str>>>>, <<<<"p", "i:1", One>>>>,
          <<<<"m", "i:1", One>>, <<"o", "i:1", One>>>>, <<<<"m", "null", Val("n", "null")>>>>}
F(name, alias, opts) == [k |-> "f", name |-> name, alias |-> alias, opts |-> opts, node |-> EmptyNode]
L(name, alias, opts, fs) == [k |-> "l", name |-> name, alias |-> alias, opts |-> opts,
                             node |-> [ord |-> FALSE, fields |-> fs]]
Leaf1 == {F(n, "", <<>>) : n \in {"a", "r", "zz"}}
Deep == {L("r", "", o, <<f>>) : f \in {F("a", "", <<>>), F("zz", "", <<>>)}, o \in {<<>>, <<<<"o", "i:1", One>>>>}}
        \cup {L("a", "", <<>>, <<F("a", "", <<>>)>>)}
Inner == Leaf1 \cup Deep
Subs == {<<x>> : x \in Inner} \cup
        {<<x, y>> : x \in Leaf1 \cup {L("r", "", <<>>, <<F("a", "", <<>>)>>)},
                    y \in {F("a", "r", <<>>), F("a", "", <<>>), F("r", "a", <<>>)}}
Roots1 == {F(n, a, o) : n \in Names, a \in {"", "l"}, o \in OptsS}
          \cup {L(n, "", o, s) : n \in Names, o \in OptsS, s \in Subs}
Plain == {F(n, a, o) : n \in {"a", "r"}, a \in {"", "x", "l"}, o \in {<<>>, <<<<"o", "i:1", One>>>>}}
         \cup {L(n, a, o, <<F("a", "", <<>>)>>) : n \in {"l", "r"}, a \in {"", "a"}, o \in OptsS}
Queries == {[ord |-> FALSE, fields |-> <<x>>] : x \in Roots1} \cup
           IF Two THEN {[ord |-> FALSE, fields |-> <<x, y>>] : x, y \in Plain} ELSE {}

VARIABLES q, shown
VInit == /\ q \in Queries
         /\ MergeNodes(<<q>>) = q       \* readers merge queries
         /\ shown = FALSE
\* only queries that can be executed
ValidOnly == Valid(G, q) /\ \A n \in DOMAIN q.fields : q.fields[n].name = "r" => q.fields[n].k = "l"
VNext == /\ ~ shown /\ shown' = TRUE /\ UNCHANGED q
         /\ PrintT("QUERY " \o ToJson([g |-> G, q |-> q]))
VSpec == VInit /\ [][VNext]_<<q, shown>>

\* --------------------------- theorems -----------------------------------
\* parts of a valid query are valid, and so is their order irrelevant
PartsValid == Valid(G, q) => \A n \in DOMAIN q.fields :
                Valid(G, [ord |-> FALSE, fields |-> <<q.fields[n]>>])
Reverse2(x) == [n \in DOMAIN x |-> x[Len(x) + 1 - n]]
OrderFree == Valid(G, q) <=> Valid(G, [q EXCEPT !.fields = Reverse2(@)])
\* aliases matter only where results clash
AliasFree == Len(q.fields) = 1 =>
   Problems(G, "", q) = Problems(G, "", [q EXCEPT !.fields[1].alias = "fresh"])
\* something is valid, something is not (not vacuous)
=============================================================================
