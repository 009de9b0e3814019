------------------------------ MODULE HikuExpr -------------------------------
(***************************************************************************)
(* Expressions of two-level graphs: what they mean (Eval) and which data   *)
(* of the low-level graph they need (ReqPaths / ReqQuery).                 *)
(*                                                                         *)
(* An expression is [op, s, p, a, r]:                                      *)
(*   sym s | get s a[1] | each s a[1] a[2] | ifsome s a[1] a[2] a[3]       *)
(*   if a[1] a[2] a[3]  | call s a (r: requirement tree per argument)      *)
(*   lit s | list a | dict p a                                             *)
(***************************************************************************)
EXTENDS HikuQuery

NoPath == <<"?">>

RECURSIVE TreePaths(_)
TreePaths(t) == UNION { {<<t[i].name>>} \cup {<<t[i].name>> \o p : p \in TreePaths(t[i].sub)}
                        : i \in DOMAIN t }

\* access path of a reference expression; env maps variables to paths
RECURSIVE PathOf(_, _)
PathOf(e, env) ==
  CASE e.op = "sym" -> IF e.s \in DOMAIN env THEN env[e.s] ELSE <<e.s>>
    [] e.op = "get" -> LET p == PathOf(e.a[1], env) IN
                       IF p = NoPath THEN NoPath ELSE p \o <<e.s>>
    [] OTHER -> NoPath

RECURSIVE ReqPaths(_, _)
ReqPaths(e, env) ==
  LET own == LET p == PathOf(e, env) IN IF p = NoPath THEN {} ELSE {p}
      sub(i) == ReqPaths(e.a[i], env)
      all == UNION {sub(i) : i \in DOMAIN e.a}
  IN CASE e.op = "sym" -> own
       [] e.op = "get" -> own \cup all
       [] e.op = "each" ->
            sub(1) \cup ReqPaths(e.a[2], (e.s :> PathOf(e.a[1], env)) @@ env)
       [] e.op = "ifsome" ->
            sub(1) \cup ReqPaths(e.a[2], (e.s :> PathOf(e.a[1], env)) @@ env) \cup sub(3)
       [] e.op = "call" ->
            UNION { IF e.r[i] = <<>> THEN sub(i)
                    ELSE LET p == PathOf(e.a[i], env) IN
                         {p} \cup {p \o q : q \in TreePaths(e.r[i])}
                  : i \in DOMAIN e.a }
       [] OTHER -> all

\* paths -> query over graph g at node nd; complex fields become "l" items
RECURSIVE QueryOf(_, _, _, _)
QueryOf(g, nd, this, paths) ==
  LET heads == {p[1] : p \in {q \in paths : q # <<>>}}
      tails(h) == {Tail(p) : p \in {q \in paths : q # <<>> /\ q[1] = h}} \ {<<>>}
      mk(h) ==
        IF h = "this" /\ this # "" THEN
          [k |-> "l", name |-> h, alias |-> "", opts |-> <<>>,
           node |-> QueryOf(g, NodeOf(g, this), "", tails(h))]
        ELSE LET it == ItemOf(nd, h) IN
          IF it.k = "l" THEN
            [k |-> "l", name |-> h, alias |-> "", opts |-> <<>>,
             node |-> QueryOf(g, NodeOf(g, it.to), "", tails(h))]
          ELSE [k |-> "f", name |-> h, alias |-> "", opts |-> <<>>, node |-> EmptyNode]
      hs == SetToSeq(heads)
  IN [ord |-> FALSE, fields |-> [i \in DOMAIN hs |-> mk(hs[i])]]

(***************************************************************************)
(* Evaluation reads a store: a function of slots <<space, node, ident,     *)
(* <<name, options>>>>.  Objects of the low-level graph live in space sp,  *)
(* its root items under node "" and ident "".                              *)
(***************************************************************************)
Get(v, name, sp, store) ==
  IF v.t = "d" THEN ChildOf(v, name)
  ELSE IF v.t # "ref" THEN Missing
  ELSE At(store, <<sp, v.kk[1], v.s, <<name, {}>>>>)

\* rendering of the arguments a function of an expression looks at
RECURSIVE Render(_, _, _, _)
Render(v, tree, sp, store) ==
  IF tree = <<>> THEN v.s
  ELSE IF v.t \in {"many", "l"} THEN
    "[" \o JoinStr([i \in DOMAIN v.c |-> Render(v.c[i], tree, sp, store)], ",") \o "]"
  ELSE IF v.t = "null" THEN "null"
  ELSE "{" \o JoinStr([i \in DOMAIN tree |->
          tree[i].name \o "=" \o
          Render(Get(v, tree[i].name, sp, store), tree[i].sub, sp, store)], ",") \o "}"

\* env: variable -> value
RECURSIVE Eval(_, _, _, _)
Eval(e, env, sp, store) ==
  LET ev(i) == Eval(e.a[i], env, sp, store) IN
  CASE e.op = "sym" -> IF e.s \in DOMAIN env THEN env[e.s]
                       ELSE At(store, <<sp, "", "", <<e.s, {}>>>>)
    [] e.op = "get" -> Get(ev(1), e.s, sp, store)
    [] e.op = "lit" -> IF e.s = "null" THEN Null ELSE Leaf(e.s)
    [] e.op = "list" -> MkList([i \in DOMAIN e.a |-> ev(i)])
    [] e.op = "dict" -> MkDict(e.p, [i \in DOMAIN e.a |-> ev(i)])
    [] e.op = "if" -> IF Truthy(ev(1)) THEN ev(2) ELSE ev(3)
    [] e.op = "ifsome" ->
         LET b == ev(1) IN
         IF b.t # "null" THEN Eval(e.a[2], (e.s :> b) @@ env, sp, store) ELSE ev(3)
    [] e.op = "each" ->
         LET col == ev(1) IN
         MkList([i \in DOMAIN col.c |-> Eval(e.a[2], (e.s :> col.c[i]) @@ env, sp, store)])
    [] e.op = "call" ->
         Leaf("s:" \o e.s \o "(" \o
              JoinStr([i \in DOMAIN e.a |-> Render(ev(i), e.r[i], sp, store)], ";") \o ")")
=============================================================================
