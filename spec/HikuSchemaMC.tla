----------------------------- MODULE HikuSchemaMC -----------------------------
(***************************************************************************)
(* Schemas of all small graphs: every type at a field, an option, a data   *)
(* type; with and without mutations.  All are replayed.                    *)
(***************************************************************************)
EXTENDS HikuSchema, Json

CONSTANT Depth

T(k, a) == [k |-> k, a |-> a, n |-> <<>>, s |-> ""]
RefTo(s) == [k |-> "ref", a |-> <<>>, n |-> <<>>, s |-> s]
BaseTypes == {T("any", <<>>), T("int", <<>>), T("str", <<>>), T("bool", <<>>), T("float", <<>>)}
RECURSIVE TypesTo(_, _)
TypesTo(n, refs) ==
  BaseTypes \cup refs \cup
  IF n = 0 THEN {}
  ELSE LET x == TypesTo(n - 1, refs) IN
       {T("opt", <<t>>) : t \in x} \cup {T("seq", <<t>>) : t \in x}
       \cup {T("map", <<T("str", <<>>), t>>) : t \in BaseTypes \cup refs}
       \cup {[k |-> "rec", a |-> <<t>>, n |-> <<"a">>, s |-> ""] : t \in BaseTypes \cup refs}

\* fields may refer to nodes and data types, options and data types to data types
Outs == TypesTo(Depth, {RefTo("N"), RefTo("D"), RefTo("L")}) \cup {T("none", <<>>)}
Ins == TypesTo(Depth, {RefTo("D"), RefTo("L")}) \cup {T("none", <<>>)}
Item(name, t, opts) == [k |-> "f", name |-> name, type |-> t, to |-> "", desc |-> "",
                        private |-> FALSE, opts |-> opts]
Opt(t) == <<[name |-> "o", type |-> t, has |-> FALSE, def |-> VNull, desc |-> ""]>>
Graphs(t, s, d) ==
  [nodes |-> <<[name |-> "N", desc |-> "a node", items |-> <<Item("a", t, Opt(s))>>],
               [name |-> "", desc |-> "", items |-> <<Item("r", RefTo("D"), <<>>)>>]>>,
   dts |-> <<[name |-> "D", type |-> [k |-> "rec", a |-> <<d, T("opt", <<RefTo("D")>>)>>,
                                      n |-> <<"x", "y">>, s |-> ""]],
             [name |-> "L", type |-> T("seq", <<RefTo("D")>>)]>>]

VARIABLES c, shown
Small == TypesTo(0, {RefTo("D")})
One == T("int", <<>>)
CInit0 ==
  /\ \/ \E t \in Outs : c = [g |-> Graphs(t, One, One), muts |-> <<>>, hasmut |-> FALSE]
     \/ \E t \in Ins : c = [g |-> Graphs(One, t, One), muts |-> <<>>, hasmut |-> FALSE]
     \/ \E t \in Ins : c = [g |-> Graphs(One, One, t), muts |-> <<Item("m", t, Opt(t))>>, hasmut |-> TRUE]
  /\ shown = FALSE
Show == /\ ~ shown /\ shown' = TRUE /\ UNCHANGED c
        /\ PrintT("SCHEMA " \o ToJson(c))
MSpec == CInit0 /\ [][Show]_<<c, shown>>

SchemaClosed == Closed(c)
NoDoubleNull == \A x \in Rng(Types(c)) : \A f \in Rng(FieldsOf(c, x)) :
                  NullOnce(f.type) /\ \A m \in DOMAIN f.args : NullOnce(f.args[m].type)
NullsKept == \A n \in DOMAIN c.g.nodes : \A it \in Rng(c.g.nodes[n].items) :
               (TypeIdent(c.g.dts, it.type, FALSE).k # "NON_NULL") <=> Nullable(c.g.dts, it.type)
=============================================================================
