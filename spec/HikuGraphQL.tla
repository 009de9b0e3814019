----------------------------- MODULE HikuGraphQL ------------------------------
(***************************************************************************)
(* Meaning of GraphQL documents as Hiku queries.                           *)
(*                                                                         *)
(* doc = [ops: Seq([kind, name, vars, sel]), frags: Seq([name, sel])]      *)
(* var = [name, nonnull, has, def]                                         *)
(* sel: Seq of  [k: "field"|"spread"|"inline", name, alias, args, dirs,    *)
(*               leaf, sel]                                                *)
(* args: Seq(<<name, value>>), dirs: Seq([name, args])                     *)
(* value = [t: "x"|"var"|"l"|"d", s, kk, c]                                *)
(***************************************************************************)
EXTENDS HikuQuery

\* ------------------------------ values ---------------------------------
RECURSIVE GVal(_, _), GVars(_)
GVal(env, v) ==
  CASE v.t = "var" -> IF v.s \in DOMAIN env THEN env[v.s] ELSE "undefined"
    [] v.t = "l" -> "l[" \o JoinStr([n \in DOMAIN v.c |-> GVal(env, v.c[n])], ",") \o "]"
    [] v.t = "d" -> "d{" \o JoinStr([n \in DOMAIN v.c |->
                       v.kk[n] \o "=" \o GVal(env, v.c[n])], ",") \o "}"
    [] OTHER -> v.s
GVars(v) == IF v.t = "var" THEN {v.s} ELSE UNION {GVars(v.c[n]) : n \in DOMAIN v.c}

Undefined(env, v) == GVars(v) \ DOMAIN env # {}

\* ---------------------------- directives -------------------------------
DirAt(dirs, name) == {n \in DOMAIN dirs : dirs[n].name = name}
HasDir(dirs, name) == DirAt(dirs, name) # {}
Dir(dirs, name) == dirs[CHOOSE n \in DirAt(dirs, name) :
                          \A m \in DirAt(dirs, name) : n <= m]
DirErr(env, dirs, name) ==
  HasDir(dirs, name) /\ LET a == Dir(dirs, name).args IN
    \/ Len(a) # 1
    \/ a[1][1] # "if"
    \/ Undefined(env, a[1][2])
DirVal(env, dirs, name) == GVal(env, Dir(dirs, name).args[1][2]) = "b:1"

\* must: the document has to be rejected; may: something is wrong in a part
\* which is not selected, it may be rejected
Directives(env, dirs) ==
  LET es == DirErr(env, dirs, "skip")
      ei == DirErr(env, dirs, "include")
      skip == HasDir(dirs, "skip") /\ ~ es /\ DirVal(env, dirs, "skip")
      incl == ~ HasDir(dirs, "include") \/ ei \/ DirVal(env, dirs, "include")
  IN [off |-> skip \/ ~ incl,
      must |-> es \/ (~ skip /\ ei),
      may |-> es \/ ei]

\* ----------------------------- selections ------------------------------
FragNames(frags) == {frags[n].name : n \in DOMAIN frags}
Frag(frags, name) == frags[CHOOSE n \in DOMAIN frags : frags[n].name = name]

Nothing == [items |-> <<>>, must |-> FALSE, may |-> FALSE]
Broken == [items |-> <<>>, must |-> TRUE, may |-> TRUE]
Join(a, b) == [items |-> a.items \o b.items, must |-> a.must \/ b.must, may |-> a.may \/ b.may]

RECURSIVE Select(_, _, _, _)
Select(frags, env, sels, pend) ==
  LET body(x) ==
        CASE x.k = "spread" ->
               IF x.name \notin FragNames(frags) \/ x.name \in pend THEN Broken
               ELSE Select(frags, env, Frag(frags, x.name).sel, pend \cup {x.name})
          [] x.k = "inline" -> Select(frags, env, x.sel, pend)
          [] OTHER ->
               LET sub == IF x.leaf THEN Nothing ELSE Select(frags, env, x.sel, pend)
                   bad == \E n \in DOMAIN x.args : Undefined(env, x.args[n][2])
                   it == [k |-> IF x.leaf THEN "f" ELSE "l", name |-> x.name, alias |-> x.alias,
                          opts |-> [n \in DOMAIN x.args |->
                                      <<x.args[n][1], GVal(env, x.args[n][2])>>],
                          node |-> [ord |-> FALSE, fields |-> sub.items]]
               IN [items |-> <<it>>, must |-> bad \/ sub.must, may |-> bad \/ sub.may]
      one(x) ==
        LET d == Directives(env, x.dirs)
            b == body(x)
        IN IF d.must THEN Broken
           ELSE IF d.off THEN [items |-> <<>>, must |-> FALSE, may |-> d.may \/ b.may]
           ELSE [b EXCEPT !.may = @ \/ d.may]
  IN FoldLeft(LAMBDA a, x : Join(a, one(x)), Nothing, sels)

\* ----------------------------- operations ------------------------------
Repeats(s) == \E m, n \in DOMAIN s : m # n /\ s[m].name = s[n].name

Named(doc, opname) == {n \in DOMAIN doc.ops : doc.ops[n].name = opname}

BadOperation(doc, opname) ==
  \/ doc.ops = <<>>
  \/ Repeats(doc.ops)
  \/ Repeats(doc.frags)
  \/ IF opname = "" THEN Len(doc.ops) > 1 ELSE Named(doc, opname) = {}

Operation(doc, opname) ==
  IF opname = "" THEN doc.ops[1] ELSE doc.ops[CHOOSE n \in Named(doc, opname) : TRUE]

\* vars: Seq(<<name, value>>) given together with the document
Given(vars, name) == \E n \in DOMAIN vars : vars[n][1] = name
Env(op, vars) ==
  [name \in {op.vars[n].name : n \in DOMAIN op.vars} |->
     LET d == op.vars[CHOOSE n \in DOMAIN op.vars : op.vars[n].name = name] IN
     IF Given(vars, name) THEN vars[CHOOSE n \in DOMAIN vars : vars[n][1] = name][2]
     ELSE IF d.has THEN GVal(<<>>, d.def) ELSE "null"]
MissingVar(op, vars) ==
  \E n \in DOMAIN op.vars : /\ op.vars[n].nonnull /\ ~ op.vars[n].has
                            /\ ~ Given(vars, op.vars[n].name)

Read(doc, opname, vars) ==
  IF BadOperation(doc, opname) THEN [must |-> TRUE, may |-> TRUE, type |-> "", name |-> "", q |-> EmptyNode]
  ELSE LET op == Operation(doc, opname)
           env == Env(op, vars)
           s == Select(doc.frags, env, op.sel, {})
           unused == \E n \in DOMAIN doc.frags :
                       Select(doc.frags, env, doc.frags[n].sel, {doc.frags[n].name}).may
           must == MissingVar(op, vars) \/ s.must
       IN [must |-> must, may |-> must \/ s.may \/ unused,
           type |-> op.kind, name |-> op.name,
           q |-> MergeNodes(<<[ord |-> op.kind = "mutation", fields |-> s.items]>>)]

\* ----------------------------- recorded --------------------------------
\* c = [doc, vars, opname, only: only queries are accepted, err, type, name, q]
BadRead(c) ==
  LET want == Read(c.doc, c.opname, c.vars)
      must == want.must \/ (c.only /\ want.type # "query")
      may == want.may \/ must
  IN IF c.err # "" THEN
       Clause("a valid document is rejected: " \o c.err, may)
       \cup Clause("unexpected kind of error: " \o c.err,
                   c.err \in {"TypeError", "ValueError", "GraphQLSyntaxError"})
     ELSE IF must THEN {"an invalid document is accepted"}
     ELSE Clause("type of the operation", c.only \/ c.type = want.type)
          \cup Clause("name of the operation", c.only \/ c.name = want.name)
          \cup Clause("requests of the query", Paths(c.q) = Paths(want.q))
          \cup Clause("one request twice", NoDup(c.q))
          \cup Clause("wrong query", Same(c.q, want.q))

=============================================================================
