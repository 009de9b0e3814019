---------------------------- MODULE HikuExprTypes ----------------------------
(***************************************************************************)
(* Which expressions a low-level graph accepts, what the accepted ones     *)
(* mean, and which data of the graph they may touch.                       *)
(*                                                                         *)
(* A type is [k, a, n, s]:                                                 *)
(*   any | int | str | bool | float                                        *)
(*   opt a[1] | seq a[1] | map a[1] a[2] | rec (names n, types a) | ref s  *)
(* ts is a sequence of [name, node, type]: what references lead to.  The   *)
(* type called "" tells about the root; node = FALSE: complex data.        *)
(* Expressions are those of HikuExpr, calls have the types of parameters:  *)
(*   call s a ty                                                           *)
(***************************************************************************)
EXTENDS HikuExpr

AnyT == [k |-> "any", a |-> <<>>, n |-> <<>>, s |-> ""]
RefT(s) == [k |-> "ref", a |-> <<>>, n |-> <<>>, s |-> s]

Named(ts, name) == ts[CHOOSE i \in DOMAIN ts : ts[i].name = name]
Target(ts, t) == IF t.k = "ref" THEN Named(ts, t.s).type ELSE t

HasName(t, name) == t.k = "rec" /\ \E i \in DOMAIN t.n : t.n[i] = name
TypeIn(t, name) == t.a[CHOOSE i \in DOMAIN t.n : t.n[i] = name]

\* data of type x can be used where y is wanted
RECURSIVE Fits(_, _, _)
Fits(ts, x, y) ==
  LET a == Target(ts, x)
      b == Target(ts, y)
  IN IF b.k = "any" THEN TRUE
     ELSE IF a.k = b.k THEN
       IF b.k = "rec" THEN \A i \in DOMAIN b.n : /\ HasName(a, b.n[i])
                                                 /\ Fits(ts, TypeIn(a, b.n[i]), b.a[i])
       ELSE \A i \in DOMAIN b.a : Fits(ts, a.a[i], b.a[i])
     ELSE b.k = "opt" /\ Fits(ts, a, b.a[1])

(***************************************************************************)
(* ok: accepted; ref: leads to data of the graph, of type t; uses: items   *)
(* <<node, name>> of the low-level graph which are needed.                 *)
(***************************************************************************)
Plain(ok, uses) == [ok |-> ok, ref |-> FALSE, t |-> AnyT, uses |-> uses]

\* items of the graph a parameter of type p needs of data of type x
RECURSIVE ParamUses(_, _, _)
ParamUses(ts, x, p) ==
  LET a == Target(ts, x) IN
  CASE p.k \in {"opt", "seq"} ->
         ParamUses(ts, IF a.k = p.k THEN a.a[1] ELSE x, p.a[1])
    [] p.k = "rec" ->
         UNION {(IF x.k = "ref" /\ Named(ts, x.s).node THEN {<<x.s, p.n[i]>>} ELSE {})
                \cup ParamUses(ts, TypeIn(a, p.n[i]), p.a[i]) : i \in DOMAIN p.n}
    [] OTHER -> {}

\* env: variable -> [t, own]; own: not an item of the root
RECURSIVE Check(_, _, _)
Check(ts, e, env) ==
  LET sub(i) == Check(ts, e.a[i], env)
      subs == {sub(i) : i \in DOMAIN e.a}
      allok == \A x \in subs : x.ok
      all == UNION {x.uses : x \in subs}
      root == Named(ts, "").type
      bound(t) == Check(ts, e.a[2], (e.s :> t) @@ env)
  IN CASE e.op = "lit" -> Plain(TRUE, {})
       [] e.op = "sym" ->
            IF e.s \in DOMAIN env
            THEN [ok |-> TRUE, ref |-> TRUE, t |-> env[e.s], uses |-> {}]
            ELSE IF HasName(root, e.s)
            THEN [ok |-> TRUE, ref |-> TRUE, t |-> TypeIn(root, e.s), uses |-> {<<"", e.s>>}]
            ELSE Plain(FALSE, {})
       [] e.op = "get" ->
            LET o == sub(1)
                t == Target(ts, o.t)
            IN IF o.ok /\ o.ref /\ HasName(t, e.s)
               THEN [ok |-> TRUE, ref |-> TRUE, t |-> TypeIn(t, e.s),
                     uses |-> o.uses \cup (IF o.t.k = "ref" /\ Named(ts, o.t.s).node
                                           THEN {<<o.t.s, e.s>>} ELSE {})]
               ELSE Plain(FALSE, {})
       [] e.op = "each" ->
            LET o == sub(1)
                t == Target(ts, o.t)
            IN IF o.ok /\ o.ref /\ t.k = "seq"
               THEN LET b == bound(t.a[1]) IN Plain(b.ok, o.uses \cup b.uses)
               ELSE Plain(FALSE, {})
       [] e.op = "ifsome" ->
            LET o == sub(1)
                t == Target(ts, o.t)
                x == sub(3)
            IN IF o.ok /\ o.ref
               THEN LET b == bound(IF t.k = "opt" THEN t.a[1] ELSE o.t)
                    IN Plain(b.ok /\ x.ok, o.uses \cup b.uses \cup x.uses)
               ELSE Plain(FALSE, {})
       [] e.op = "call" ->
            Plain(/\ allok
                  /\ Len(e.a) = Len(e.ty)
                  /\ \A i \in DOMAIN e.a : LET x == sub(i) IN
                       Fits(ts, IF x.ref THEN x.t ELSE AnyT, e.ty[i]),
                  all \cup UNION {LET x == sub(i) IN
                                  IF x.ok /\ x.ref /\ i \in DOMAIN e.ty /\ Fits(ts, x.t, e.ty[i])
                                  THEN ParamUses(ts, x.t, e.ty[i]) ELSE {} : i \in DOMAIN e.a})
       [] OTHER -> Plain(allok, all)

\* what an expression over objects of the given node can mention
EnvOf(node, opts) ==
  ("this" :> RefT(node)) @@ [n \in {opts[i].name : i \in DOMAIN opts} |->
     opts[CHOOSE i \in DOMAIN opts : opts[i].name = n].type]

(***************************************************************************)
(* Meaning.  Values are shown completely; of objects nothing but what a    *)
(* parameter tells.                                                        *)
(***************************************************************************)
RECURSIVE Show(_)
Show(v) ==
  CASE v.t = "ref" -> "#"
    [] v.t \in {"many", "l"} -> "[" \o JoinStr([i \in DOMAIN v.c |-> Show(v.c[i])], ",") \o "]"
    [] v.t = "d" -> "{" \o JoinStr([i \in DOMAIN v.c |-> v.kk[i] \o "=" \o Show(v.c[i])], ",") \o "}"
    [] OTHER -> v.s

RECURSIVE Arg(_, _, _, _)
Arg(v, t, sp, store) ==
  IF v.t = "null" THEN "null"
  ELSE CASE t.k = "opt" -> Arg(v, t.a[1], sp, store)
    [] t.k = "seq" -> "[" \o JoinStr([i \in DOMAIN v.c |-> Arg(v.c[i], t.a[1], sp, store)], ",") \o "]"
    [] t.k = "rec" -> "{" \o JoinStr([i \in DOMAIN t.n |->
          t.n[i] \o "=" \o Arg(Get(v, t.n[i], sp, store), t.a[i], sp, store)], ",") \o "}"
    [] OTHER -> Show(v)

RECURSIVE Value(_, _, _, _)
Value(e, env, sp, store) ==
  LET ev(i) == Value(e.a[i], env, sp, store) IN
  CASE e.op = "sym" -> IF e.s \in DOMAIN env THEN env[e.s]
                       ELSE At(store, <<sp, "", "", <<e.s, {}>>>>)
    [] e.op = "get" -> Get(ev(1), e.s, sp, store)
    [] e.op = "lit" -> IF e.s = "null" THEN Null ELSE Leaf(e.s)
    [] e.op = "list" -> MkList([i \in DOMAIN e.a |-> ev(i)])
    [] e.op = "dict" -> MkDict(e.p, [i \in DOMAIN e.a |-> ev(i)])
    [] e.op = "if" -> IF Truthy(ev(1)) THEN ev(2) ELSE ev(3)
    [] e.op = "ifsome" ->
         LET b == ev(1) IN
         IF b.t # "null" THEN Value(e.a[2], (e.s :> b) @@ env, sp, store) ELSE ev(3)
    [] e.op = "each" ->
         LET col == ev(1) IN
         MkList([i \in DOMAIN col.c |-> Value(e.a[2], (e.s :> col.c[i]) @@ env, sp, store)])
    [] e.op = "call" ->
         Leaf("s:" \o e.s \o "(" \o
              JoinStr([i \in DOMAIN e.a |-> Arg(ev(i), e.ty[i], sp, store)], ";") \o ")")

(***************************************************************************)
(* A recorded construction and execution:                                  *)
(* c = [ts, node, opts: Seq([name, type, v]), e, accepted, ran, err,       *)
(*      data: Seq([n, id, f, v]), ids, values, loaded: Seq(<<node, name>>)]*)
(***************************************************************************)
StoreOf(c) ==
  LET key(d) == <<1, d.n, d.id, <<d.f, {}>>>> IN
  [k \in {key(c.data[i]) : i \in DOMAIN c.data} |->
     c.data[CHOOSE i \in DOMAIN c.data : key(c.data[i]) = k].v]

BadExpr(c) ==
  LET r == Check(c.ts, c.e, EnvOf(c.node, c.opts))
      store == StoreOf(c)
      env(id) == ("this" :> Ref(c.node, id)) @@
                 [n \in {c.opts[i].name : i \in DOMAIN c.opts} |->
                    c.opts[CHOOSE i \in DOMAIN c.opts : c.opts[i].name = n].v]
      want(i) == Show(Value(c.e, env(c.ids[i]), 1, store))
  IN Clause("refused: " \o c.err, r.ok => c.accepted)
     \cup Clause("accepted", c.accepted => r.ok)
     \cup (IF ~ (r.ok /\ c.accepted) THEN {}
           ELSE Clause("failed: " \o c.err, c.ran)
                \cup (IF ~ c.ran THEN {}
                      ELSE Clause("number of values", Len(c.values) = Len(c.ids))
                           \cup UNION {Clause("value " \o c.values[i] \o " of " \o c.ids[i] \o
                                              ", expected " \o want(i), c.values[i] = want(i))
                                       : i \in DOMAIN c.ids \cap DOMAIN c.values}
                           \cup {"loads " \o ToString(x) \o " which is not mentioned"
                                 : x \in Rng(c.loaded) \ r.uses}))
=============================================================================
