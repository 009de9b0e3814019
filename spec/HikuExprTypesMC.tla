--------------------------- MODULE HikuExprTypesMC ---------------------------
(***************************************************************************)
(* Small expressions over one small graph, accepted or not; all of them    *)
(* are built (and executed) by the real code too.                          *)
(***************************************************************************)
EXTENDS HikuExprTypes, Json

CONSTANT Wraps     \* constructs around a reference

T0(k) == [k |-> k, a |-> <<>>, n |-> <<>>, s |-> ""]
T1(k, x) == [k |-> k, a |-> <<x>>, n |-> <<>>, s |-> ""]
Rec(n, a) == [k |-> "rec", a |-> a, n |-> n, s |-> ""]

Ts == << [name |-> "D", node |-> FALSE, type |-> Rec(<<"a">>, <<T0("int")>>)],
         [name |-> "X", node |-> TRUE, type |->
            Rec(<<"f", "d", "m", "s">>,
                <<T0("int"), T1("opt", T1("seq", RefT("D"))), T1("opt", RefT("X")),
                  T1("seq", RefT("Y"))>>)],
         [name |-> "Y", node |-> TRUE, type |-> Rec(<<"a">>, <<T0("any")>>)],
         [name |-> "", node |-> TRUE, type |-> Rec(<<"f", "x">>, <<T0("str"), RefT("X")>>)] >>

Ex(op, s, a, ty) == [op |-> op, s |-> s, a |-> a, ty |-> ty, p |-> <<>>, r |-> <<>>, m |-> <<>>]
Lit == Ex("lit", "b:1", <<>>, <<>>)
Syms == {Ex("sym", n, <<>>, <<>>) : n \in {"this", "f", "x", "v"}}
Names == {"f", "d", "m", "s", "a"}
Gets(E) == {Ex("get", n, <<x>>, <<>>) : n \in Names, x \in E}
Refs1 == Syms \cup Gets(Syms)
Refs2 == Refs1 \cup Gets(Gets(Syms))

Params == {<<T0("any")>>, <<T0("int")>>, <<Rec(<<"a">>, <<T0("any")>>)>>,
           <<T1("opt", Rec(<<"f">>, <<T0("int")>>))>>,
           <<Rec(<<"s", "m">>, <<T0("any"), T1("opt", T0("any"))>>)>>,
           <<T1("seq", Rec(<<"a">>, <<T0("int")>>))>>, <<>>}

Wrap(x) ==
  {Ex("each", "v", <<c, x>>, <<>>) : c \in Refs1 \cup {Lit}}
  \cup {Ex("ifsome", "v", <<c, x, Lit>>, <<>>) : c \in Refs1}
  \cup {Ex("ifsome", "v", <<c, Lit, x>>, <<>>) : c \in {Ex("sym", "f", <<>>, <<>>)}}
  \cup {Ex("call", "fn", <<x>>, p) : p \in Params}
  \cup {Ex("if", "", <<c, x, Lit>>, <<>>) : c \in {Lit, Ex("sym", "v", <<>>, <<>>)}}
  \cup {Ex("list", "", <<x, Lit>>, <<>>)}

\* graphs hold these data: of each item something and nothing
Slot(n, i, f) == <<1, n, i, <<f, {}>>>>
DVal(x) == [t |-> "d", s |-> "d{a=" \o x \o "}", kk |-> <<"a">>, c |-> <<Leaf(x)>>]
Stores == {
  (Slot("", "", "f") :> Leaf("s:r")) @@ (Slot("", "", "x") :> Ref("X", "i:1"))
  @@ (Slot("X", "i:1", "f") :> Leaf("i:0")) @@ (Slot("X", "i:1", "d") :> d)
  @@ (Slot("X", "i:1", "m") :> m) @@ (Slot("X", "i:1", "s") :> s)
  @@ (Slot("Y", "i:2", "a") :> Leaf("s:y"))
  : d \in {Null, MkList(<<>>), MkList(<<DVal("i:5"), DVal("i:6")>>)},
    m \in {Null, Ref("X", "i:1")},
    s \in {Many(<<>>), Many(<<Ref("Y", "i:2"), Ref("Y", "i:2")>>)} }

VARIABLES e, n
MInit == e \in Refs2 \cup {Lit} /\ n = 0
Grow == n < Wraps /\ n' = n + 1 /\ e' \in Wrap(e)
Emit == n < 10 /\ n' = 10 /\ UNCHANGED e /\ PrintT("EXPR " \o ToJson(e))
MSpec == MInit /\ [][Grow]_<<e, n>>
ESpec == MInit /\ [][Grow \/ Emit]_<<e, n>>

\* ------------------------------- theorems ------------------------------
RECURSIVE Conforms(_, _)
Conforms(v, t) ==
  CASE v.t = "missing" -> FALSE
    [] t.k = "opt" -> v.t = "null" \/ Conforms(v, t.a[1])
    [] t.k = "seq" -> v.t \in {"l", "many"} /\ \A i \in DOMAIN v.c : Conforms(v.c[i], t.a[1])
    [] t.k = "ref" /\ Named(Ts, t.s).node -> v.t = "ref" /\ v.kk = <<t.s>>
    [] t.k = "ref" -> Conforms(v, Named(Ts, t.s).type)
    [] t.k = "rec" -> v.t \in {"d", "ref"}
    [] OTHER -> TRUE

\* items of the graph the evaluation looks at, Lost for what is not there
Lost == <<"?", "?">>
RECURSIVE ArgReads(_, _, _), Reads(_, _, _)
Look(v, name, store) ==
  IF v.t = "ref" THEN IF Slot(v.kk[1], v.s, name) \in DOMAIN store
                      THEN {<<v.kk[1], name>>} ELSE {Lost}
  ELSE IF Get(v, name, 1, store).t = "missing" THEN {Lost} ELSE {}
ArgReads(v, t, store) ==
  IF v.t = "null" THEN {}
  ELSE CASE t.k = "opt" -> ArgReads(v, t.a[1], store)
    [] t.k = "seq" -> UNION {ArgReads(v.c[i], t.a[1], store) : i \in DOMAIN v.c}
    [] t.k = "rec" -> UNION {Look(v, t.n[i], store) \cup
                             (IF Lost \in Look(v, t.n[i], store) THEN {}
                              ELSE ArgReads(Get(v, t.n[i], 1, store), t.a[i], store))
                             : i \in DOMAIN t.n}
    [] OTHER -> {}
Reads(x, env, store) ==
  LET val(i) == Value(x.a[i], env, 1, store)
      sub(i) == Reads(x.a[i], env, store)
      all == UNION {sub(i) : i \in DOMAIN x.a}
  IN CASE x.op = "sym" -> IF x.s \in DOMAIN env THEN {}
                          ELSE IF Slot("", "", x.s) \in DOMAIN store THEN {<<"", x.s>>} ELSE {Lost}
       [] x.op = "get" -> all \cup (IF Lost \in all THEN {} ELSE Look(val(1), x.s, store))
       [] x.op = "each" ->
            sub(1) \cup (IF Lost \in sub(1) THEN {} ELSE
              UNION {Reads(x.a[2], (x.s :> val(1).c[i]) @@ env, store) : i \in DOMAIN val(1).c})
       [] x.op = "ifsome" ->
            sub(1) \cup (IF Lost \in sub(1) THEN {}
                         ELSE IF val(1).t = "null" THEN sub(3)
                         ELSE Reads(x.a[2], (x.s :> val(1)) @@ env, store))
       [] x.op = "if" -> sub(1) \cup (IF Lost \in sub(1) THEN {}
                                      ELSE IF Truthy(val(1)) THEN sub(2) ELSE sub(3))
       [] x.op = "call" -> all \cup (IF Lost \in all THEN {} ELSE
              UNION {ArgReads(val(i), x.ty[i], store) : i \in DOMAIN x.a})
       [] OTHER -> all

Types == Check(Ts, e, EnvOf("X", <<>>))
This == "this" :> Ref("X", "i:1")
\* accepted expressions look at nothing which is not there, and at nothing
\* which is not requested; they give what their types promise
Sound == (n < 10 /\ Types.ok) => \A store \in Stores :
           /\ Reads(e, This, store) \subseteq Types.uses
           /\ Types.ref => Conforms(Value(e, This, 1, store), Types.t)
=============================================================================
