------------------------------- MODULE HikuSQL --------------------------------
(***************************************************************************)
(* Relational meaning of the SQL sources: FieldsQuery is a lookup of rows  *)
(* by key, LinkQuery is a relation between two columns.                    *)
(*                                                                         *)
(* cell: canonical string, "null" is NULL                                  *)
(* table = [cols: Seq(name), rows: Seq(Seq(cell))]                         *)
(***************************************************************************)
EXTENDS HikuQuery

Col(t, name) == CHOOSE n \in DOMAIN t.cols : t.cols[n] = name
Cell(t, row, name) == row[Col(t, name)]

\* rows found by a value: NULL is equal to nothing
Found(t, col, v) == {n \in DOMAIN t.rows : v # "null" /\ Cell(t, t.rows[n], col) = v}

\* the possible answers about one object: a row with this key, nulls if
\* there is none
RowsOf(t, pk, fields, id) ==
  LET rs == Found(t, pk, id) IN
  IF rs = {} THEN {[m \in DOMAIN fields |-> "null"]}
  ELSE {[m \in DOMAIN fields |-> Cell(t, t.rows[n], fields[m])] : n \in rs}

\* targets of a link, in the order of the table
Targets(t, from, to, v) ==
  FoldLeft(LAMBDA acc, row : IF v # "null" /\ Cell(t, row, from) = v
                             THEN Append(acc, Cell(t, row, to)) ELSE acc,
           <<>>, t.rows)

Bag(s) == [x \in Rng(s) |-> Cardinality({n \in DOMAIN s : s[n] = x})]
SameBag(s, r) == Len(s) = Len(r) /\ Bag(s) = Bag(r)

\* one statement at most, none to find nothing
Statements(c) ==
  Clause("more than one statement", c.stmts <= 1)
  \cup Clause("a statement without identifiers",
              (\A n \in DOMAIN c.ids : c.ids[n] = "null") /\ c.kind = "link" => c.stmts = 0)
  \cup Clause("a statement without identifiers",
              c.ids = <<>> => c.stmts = 0)

\* c = [kind "fields", t, pk, fields, ids, out: Seq(Seq(cell)), stmts, err]
BadFields(c) ==
  IF c.err # "" THEN {"failed: " \o c.err} ELSE
  IF Len(c.out) # Len(c.ids) THEN {"other number of rows"} ELSE
  UNION {Clause("row of " \o c.ids[n] \o " is " \o ToString(c.out[n]),
                c.out[n] \in RowsOf(c.t, c.pk, c.fields, c.ids[n])) : n \in DOMAIN c.ids}
  \cup Statements(c)

\* c = [kind "link", t, from, to, mode, ids, out: Seq(Seq(cell)), got, stmts,
\*      err]
\* got: rows <<from, to>> in the order the database returned them, if known
BadLink(c) ==
  LET want(v) == Targets(c.t, c.from, c.to, v)
      one(v, o) ==
        CASE c.mode = "many" -> SameBag(o, want(v))
          [] want(v) = <<>> -> o = <<>>
          [] OTHER -> Len(o) = 1 /\ o[1] \in Rng(want(v))
      order(v) == FoldLeft(LAMBDA acc, p : IF p[1] = v THEN Append(acc, p[2]) ELSE acc,
                           <<>>, c.got)
      missing == c.mode = "one" /\ \E n \in DOMAIN c.ids : want(c.ids[n]) = <<>>
  IN IF missing THEN Clause("a missing object of a One link is not an error", c.err # "") ELSE
     IF c.err # "" THEN {"failed: " \o c.err} ELSE
     IF Len(c.out) # Len(c.ids) THEN {"other number of targets"} ELSE
     UNION {Clause("targets of " \o c.ids[n] \o " are " \o ToString(c.out[n]),
                   one(c.ids[n], c.out[n])) : n \in DOMAIN c.ids}
     \cup UNION {Clause("order of targets of " \o c.ids[n],
                        c.mode = "many" /\ c.got # <<>> => c.out[n] = order(c.ids[n]))
                 : n \in DOMAIN c.ids}
     \cup Statements(c)

\* ------------------------- whole executions ----------------------------
(* c = [kind "graph", nodes: Seq([name, t, pk, links]), root: Seq([name,    *)
(*      to, ids]), q, v: value tree of the result, err]                     *)
(* link = [name, to, req, t, from, tocol, mode]                             *)
E(s, name) == s[CHOOSE n \in DOMAIN s : s[n].name = name]

TLeaf(s) == [k |-> "x", a |-> <<>>, n |-> <<>>, s |-> s]
TFail == TLeaf("fail")
TDict(fs, vals) == [k |-> "d", a |-> vals, n |-> [n \in DOMAIN fs |-> ResultKey(fs[n])], s |-> ""]
TNull == TLeaf("null")

RECURSIVE Failed(_)
Failed(v) == v = TFail \/ \E n \in DOMAIN v.a : Failed(v.a[n])

RECURSIVE Obj(_, _, _, _)
Obj(c, node, id, q) ==
  LET nd == E(c.nodes, node)
      cell(name) == (CHOOSE r \in RowsOf(nd.t, nd.pk, <<name>>, id) : TRUE)[1]
      one(it) ==
        IF it.k = "f" THEN TLeaf(cell(it.name))
        ELSE LET l == E(nd.links, it.name)
                 to == Targets(l.t, l.from, l.tocol, cell(l.req))
             IN CASE l.mode = "many" ->
                       [k |-> "bag", n |-> <<>>, s |-> "",
                        a |-> [n \in DOMAIN to |-> Obj(c, l.to, to[n], it.node)]]
                  [] to = <<>> -> IF l.mode = "one" THEN TFail ELSE TNull
                  [] OTHER -> Obj(c, l.to, to[1], it.node)
  IN TDict(q.fields, [n \in DOMAIN q.fields |-> one(q.fields[n])])

RootObj(c) ==
  LET one(it) == LET r == E(c.root, it.name) IN
                 [k |-> "l", n |-> <<>>, s |-> "",
                  a |-> [n \in DOMAIN r.ids |-> Obj(c, r.to, r.ids[n], it.node)]]
  IN TDict(c.q.fields, [n \in DOMAIN c.q.fields |-> one(c.q.fields[n])])

RECURSIVE Eq(_, _)
\* v: expected, w: real
Eq(v, w) ==
  CASE v.k = "x" -> w.k \notin {"l", "d"} /\ w.s = v.s
    [] v.k = "l" -> w.k = "l" /\ Len(v.a) = Len(w.a) /\ \A n \in DOMAIN v.a : Eq(v.a[n], w.a[n])
    [] v.k = "bag" ->
         /\ w.k = "l" /\ Len(v.a) = Len(w.a)
         /\ \A n \in DOMAIN v.a :
              Cardinality({m \in DOMAIN v.a : v.a[m] = v.a[n]}) <=
              Cardinality({m \in DOMAIN w.a : Eq(v.a[n], w.a[m])})
    [] v.k = "d" -> /\ w.k = "d" /\ Rng(v.n) = Rng(w.n)
                    /\ \A n \in DOMAIN v.n : \A m \in DOMAIN w.n :
                         v.n[n] = w.n[m] => Eq(v.a[n], w.a[m])

BadGraph(c) ==
  LET want == RootObj(c) IN
  IF Failed(want) THEN Clause("a missing object of a One link is not an error", c.err # "")
  ELSE IF c.err # "" THEN {"failed: " \o c.err}
  ELSE Clause("result differs", Eq(want, c.v))

\* ------------------------------- types ---------------------------------
\* c = [kind "type", col, given, type]: types are never guessed
BadType(c) ==
  LET want == CASE c.given # "" -> c.given
                [] c.col \in {"Integer", "BigInteger", "SmallInteger", "FK"} -> "Integer"
                [] c.col = "Unicode" -> "String"
                [] OTHER -> "None"
  IN Clause(c.col \o " became " \o c.type, c.type = want)

BadSQL(c) == CASE c.kind = "fields" -> BadFields(c)
               [] c.kind = "link" -> BadLink(c)
               [] c.kind = "graph" -> BadGraph(c)
               [] c.kind = "type" -> BadType(c)
=============================================================================
