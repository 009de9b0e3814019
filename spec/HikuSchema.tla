------------------------------ MODULE HikuSchema ------------------------------
(***************************************************************************)
(* GraphQL introspection: the schema a graph describes, and the answer to  *)
(* any query about it.                                                     *)
(*                                                                         *)
(* c.g: graph of HikuValidate, items and options with  desc  ("" is none), *)
(* nodes too; c.muts: items of the root of the mutation graph, c.hasmut    *)
(* ident = [k: "SCALAR" "OBJECT" "INPUT_OBJECT" "LIST" "NON_NULL",         *)
(*          name, of: Seq(ident)]                                          *)
(***************************************************************************)
EXTENDS HikuDenorm

Ident(k, name) == [k |-> k, name |-> name, of |-> <<>>]
Wrap(k, x) == [k |-> k, name |-> "", of |-> <<x>>]
NonNull(x) == Wrap("NON_NULL", x)
Scalar(name) == Ident("SCALAR", name)

\* types of hiku in terms of GraphQL
RECURSIVE TypeIdent(_, _, _)
TypeIdent(dts, t, input) ==
  CASE t.k \in {"none", "any", "map", "rec"} -> Scalar("Any")
    [] t.k = "bool" -> NonNull(Scalar("Boolean"))
    [] t.k = "str" -> NonNull(Scalar("String"))
    [] t.k = "int" -> NonNull(Scalar("Int"))
    [] t.k = "float" -> NonNull(Scalar("Float"))
    [] t.k = "seq" -> NonNull(Wrap("LIST", TypeIdent(dts, t.a[1], input)))
    [] t.k = "opt" -> LET x == TypeIdent(dts, t.a[1], input) IN
                      IF x.k = "NON_NULL" THEN x.of[1] ELSE x
    [] t.k = "ref" -> IF Has(dts, t.s) /\ Elem(dts, t.s).type.k # "rec"
                      THEN TypeIdent(dts, Elem(dts, t.s).type, input)
                      ELSE NonNull(Ident(IF input THEN "INPUT_OBJECT" ELSE "OBJECT", t.s))

RECURSIVE Named(_)
Named(x) == IF x.of = <<>> THEN x ELSE Named(x.of[1])

DataTypes(c) == SelectSeq(c.g.dts, LAMBDA d : d.type.k = "rec")
NodesOf(c) == [n \in DOMAIN c.g.nodes |->
                 IF c.g.nodes[n].name = "" THEN [c.g.nodes[n] EXCEPT !.name = "Query"]
                 ELSE c.g.nodes[n]]
              \o IF c.hasmut THEN <<[name |-> "Mutation", items |-> c.muts, desc |-> ""]>> ELSE <<>>

Types(c) ==
  <<Scalar("String"), Scalar("Int"), Scalar("Boolean"), Scalar("Float"), Scalar("Any")>>
  \o [n \in DOMAIN NodesOf(c) |-> Ident("OBJECT", NodesOf(c)[n].name)]
  \o FoldLeft(LAMBDA acc, d : acc \o <<Ident("OBJECT", d.name), Ident("INPUT_OBJECT", d.name)>>,
              <<>>, DataTypes(c))

NameOf(x) == CASE x.k = "INPUT_OBJECT" -> "IO" \o x.name
               [] OTHER -> x.name

\* ---------------------------- parts of it -------------------------------
Arg(dts, o) == [name |-> o.name, desc |-> o.desc, type |-> TypeIdent(dts, o.type, TRUE),
                def |-> IF o.has THEN <<o.def>> ELSE <<>>]
FieldsOf(c, x) ==
  IF x.k # "OBJECT" THEN <<>>
  ELSE IF Has(NodesOf(c), x.name)
  THEN LET its == SelectSeq(Elem(NodesOf(c), x.name).items, LAMBDA it : ~ it.private) IN
       [n \in DOMAIN its |->
          [name |-> its[n].name, desc |-> its[n].desc,
           type |-> TypeIdent(c.g.dts, its[n].type, FALSE),
           args |-> [m \in DOMAIN its[n].opts |-> Arg(c.g.dts, its[n].opts[m])]]]
  ELSE LET t == Elem(c.g.dts, x.name).type IN
       [n \in DOMAIN t.n |-> [name |-> t.n[n], desc |-> "",
                              type |-> TypeIdent(c.g.dts, t.a[n], FALSE), args |-> <<>>]]
InputsOf(c, x) ==
  IF x.k # "INPUT_OBJECT" THEN <<>>
  ELSE LET t == Elem(c.g.dts, x.name).type IN
       [n \in DOMAIN t.n |-> [name |-> t.n[n], desc |-> "",
                              type |-> TypeIdent(c.g.dts, t.a[n], TRUE), def |-> <<>>]]

\* ----------------------------- answers ----------------------------------
Str(s) == VLeaf("s:" \o s)
StrOrNull(s) == IF s = "" THEN VNull ELSE Str(s)
Dict(q, F(_)) == VDict([n \in DOMAIN q.fields |-> ResultKey(q.fields[n])],
                       [n \in DOMAIN q.fields |-> F(q.fields[n])])
ListOf(s, F(_)) == VList([n \in DOMAIN s |-> F(s[n])])

RECURSIVE AType(_, _, _), AField(_, _, _), AArg(_, _, _)
AType(c, x, q) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("__Type")
          [] it.name = "kind" -> Str(x.k)
          [] it.name = "name" -> StrOrNull(NameOf(x))
          [] it.name = "description" ->
               IF x.k = "OBJECT" /\ Has(NodesOf(c), x.name)
               THEN StrOrNull(Elem(NodesOf(c), x.name).desc) ELSE VNull
          [] it.name = "fields" -> ListOf(FieldsOf(c, x), LAMBDA f : AField(c, f, it.node))
          [] it.name = "inputFields" -> ListOf(InputsOf(c, x), LAMBDA a : AArg(c, a, it.node))
          [] it.name = "ofType" -> IF x.of = <<>> THEN VNull ELSE AType(c, x.of[1], it.node)
          [] it.name \in {"interfaces", "possibleTypes", "enumValues"} -> VList(<<>>)
  IN Dict(q, one)
AField(c, f, q) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("__Field")
          [] it.name = "name" -> Str(f.name)
          [] it.name = "description" -> StrOrNull(f.desc)
          [] it.name = "isDeprecated" -> [VLeaf("b:0") EXCEPT !.k = "b"]
          [] it.name = "deprecationReason" -> VNull
          [] it.name = "type" -> AType(c, f.type, it.node)
          [] it.name = "args" -> ListOf(f.args, LAMBDA a : AArg(c, a, it.node))
  IN Dict(q, one)
\* default values are literals of GraphQL; read by the harness: kind "j"
AArg(c, a, q) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("__InputValue")
          [] it.name = "name" -> Str(a.name)
          [] it.name = "description" -> StrOrNull(a.desc)
          [] it.name = "type" -> AType(c, a.type, it.node)
          [] it.name = "defaultValue" ->
               IF a.def = <<>> THEN VNull
               ELSE [k |-> "j", a |-> a.def, n |-> <<>>, s |-> "json"]
  IN Dict(q, one)

Description(d) == CASE d = "skip" -> "Directs the executor to skip this field or fragment when the `if` argument is true."
                    [] d = "include" -> "Directs the executor to include this field or fragment only when the `if` argument is true."
ArgDescription(d) == CASE d = "skip" -> "Skipped when true."
                       [] d = "include" -> "Included when true."
ADirective(c, d, q) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("__Directive")
          [] it.name = "name" -> Str(d)
          [] it.name = "description" -> [k |-> "any", a |-> <<>>, n |-> <<>>, s |-> ""]
          [] it.name = "locations" -> VList(<<Str("FIELD"), Str("FRAGMENT_SPREAD"), Str("INLINE_FRAGMENT")>>)
          [] it.name = "args" ->
               VList(<<AArg(c, [name |-> "if", desc |-> ArgDescription(d), def |-> <<>>,
                                type |-> NonNull(Scalar("Boolean"))], it.node)>>)
  IN Dict(q, one)

ASchema(c, q) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("__Schema")
          [] it.name = "types" ->
               [k |-> "bag", a |-> [n \in DOMAIN Types(c) |-> AType(c, Types(c)[n], it.node)],
                n |-> <<>>, s |-> ""]
          [] it.name = "queryType" -> AType(c, Ident("OBJECT", "Query"), it.node)
          [] it.name = "mutationType" ->
               IF c.hasmut THEN AType(c, Ident("OBJECT", "Mutation"), it.node) ELSE VNull
          [] it.name = "subscriptionType" -> VNull
          [] it.name = "directives" ->
               VList(<<ADirective(c, "skip", it.node), ADirective(c, "include", it.node)>>)
  IN Dict(q, one)

ARoot(c) ==
  LET one(it) ==
        CASE it.name = "__typename" -> Str("Query")
          [] it.name = "__schema" -> ASchema(c, it.node)
          [] it.name = "__type" ->
               LET named == {n \in DOMAIN Types(c) :
                               <<"name", "s:" \o NameOf(Types(c)[n])>> \in
                                 {<<o[1], o[2]>> : o \in Rng(it.opts)}}
               IN IF named = {} THEN VNull
                  ELSE AType(c, Types(c)[CHOOSE n \in named : TRUE], it.node)
  IN Dict(c.q, one)

RECURSIVE AEq(_, _)
\* v: expected, w: real
AEq(v, w) ==
  CASE v.k = "any" -> TRUE
    [] v.k \in {"l", "j"} -> w.k = v.k /\ Len(v.a) = Len(w.a) /\ \A n \in DOMAIN v.a : AEq(v.a[n], w.a[n])
    [] v.k = "bag" ->
         /\ w.k = "l" /\ Len(v.a) = Len(w.a)
         /\ IF \A n \in DOMAIN v.a : AEq(v.a[n], w.a[n]) THEN TRUE ELSE
            \A n \in DOMAIN v.a :
              Cardinality({m \in DOMAIN v.a : v.a[m] = v.a[n]}) <=
              Cardinality({m \in DOMAIN w.a : AEq(v.a[n], w.a[m])})
    [] v.k = "d" -> /\ w.k = "d" /\ Rng(v.n) = Rng(w.n) /\ Len(v.n) = Len(w.n)
                    /\ \A n \in DOMAIN v.n : \A m \in DOMAIN w.n :
                         v.n[n] = w.n[m] => AEq(v.a[n], w.a[m])
    [] OTHER -> w.k \notin {"l", "d", "j"} /\ v.s = w.s

\* c = [g, muts, hasmut, q, errs: Seq(error of validation), err, v]
BadSchema(c) ==
  IF c.err # "" THEN {"failed: " \o c.err} ELSE
  Clause("rejected: " \o ToString(c.errs), c.errs = <<>>)
  \cup Clause("answer differs", AEq(ARoot(c), c.v))

(***************************************************************************)
(* Graphs which GraphQL can't describe are refused: names (sequences of    *)
(* characters here) with other characters, nodes without fields.           *)
(* c = [names: Seq([n: node's, k: "node" | "root" | "field" | "option",    *)
(*      chars, empty]), refused, errors]                                   *)
(***************************************************************************)
Letters == {"_", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
            "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G",
            "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X",
            "Y", "Z"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ValidName(chars) == /\ Len(chars) > 0 /\ chars[1] \in Letters
                    /\ Rng(chars) \subseteq Letters \cup Digits
Mistakes(c) == {n \in DOMAIN c.names : c.names[n].k # "root" /\ ~ ValidName(c.names[n].chars)}
               \cup {0 - n : n \in {m \in DOMAIN c.names : c.names[m].empty}}
BadNames(c) ==
  Clause("refused: " \o ToString(c.errors), Mistakes(c) = {} => ~ c.refused)
  \cup Clause("accepted", Mistakes(c) # {} => c.refused)
  \cup Clause("reported " \o ToString(c.errors), Len(c.errors) = Cardinality(Mistakes(c)))

\* ---------------------------- the schema --------------------------------
\* types that are referred to are defined, once
Closed(c) ==
  LET refs == UNION {UNION {{Named(f.type)} \cup {Named(f.args[m].type) : m \in DOMAIN f.args}
                            : f \in Rng(FieldsOf(c, x))} \cup
                     {Named(a.type) : a \in Rng(InputsOf(c, x))} : x \in Rng(Types(c))}
  IN /\ refs \subseteq Rng(Types(c))
     /\ \A n, m \in DOMAIN Types(c) : NameOf(Types(c)[n]) = NameOf(Types(c)[m]) => n = m

RECURSIVE NullOnce(_)
\* there is no such thing as a non-null non-null type
NullOnce(x) == x.of = <<>> \/ (/\ NullOnce(x.of[1])
                               /\ ~ (x.k = "NON_NULL" /\ x.of[1].k = "NON_NULL"))

RECURSIVE Nullable(_, _)
Nullable(dts, t) == t.k \in {"none", "any", "map", "rec", "opt"}
                    \/ (t.k = "ref" /\ Has(dts, t.s) /\ Nullable(dts, Elem(dts, t.s).type)
                        /\ Elem(dts, t.s).type.k # "rec")
=============================================================================
