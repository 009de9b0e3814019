----------------------------- MODULE HikuValidate -----------------------------
(***************************************************************************)
(* When a query may be executed on a graph.                                *)
(*                                                                         *)
(* type  = [k, a: Seq(type), n: Seq(STRING), s]                            *)
(*   k: "none" "any" "bool" "str" "int" "float" "opt" "seq" "map" "rec"    *)
(*      "ref" (s = name of a data type)                                    *)
(* value = [k: "n" "b" "i" "f" "s" "l" "d", a: Seq(value), n: keys, s]     *)
(* graph = [nodes: Seq([name, items]), dts: Seq([name, type])]             *)
(* item  = [k: "f" "l", name, type, to, opts: Seq([name, type, has, def])] *)
(* query items: opts is Seq(<<name, canonical, value>>)                    *)
(***************************************************************************)
EXTENDS HikuQuery

Elem(s, name) == s[CHOOSE n \in DOMAIN s : s[n].name = name]
Has(s, name) == \E n \in DOMAIN s : s[n].name = name

\* ----------------------- values of options -----------------------------
RECURSIVE Conforms(_, _, _)
Conforms(dts, v, t) ==
  CASE t.k \in {"none", "any"} -> TRUE
    [] t.k = "bool" -> v.k = "b"
    [] t.k = "str" -> v.k = "s"
    [] t.k = "int" -> v.k = "i"
    [] t.k = "float" -> v.k = "f"
    [] t.k = "opt" -> v.k = "n" \/ Conforms(dts, v, t.a[1])
    [] t.k = "seq" -> v.k = "l" /\ \A n \in DOMAIN v.a : Conforms(dts, v.a[n], t.a[1])
    [] t.k = "map" -> /\ v.k = "d"
                      /\ \A n \in DOMAIN v.a : Conforms(dts, v.a[n], t.a[2])
                      /\ v.a # <<>> => t.a[1].k \in {"str", "any"}
    [] t.k = "rec" -> /\ v.k = "d"
                      /\ Rng(v.n) = Rng(t.n)
                      /\ \A n \in DOMAIN v.n : \E m \in DOMAIN t.n :
                           t.n[m] = v.n[n] /\ Conforms(dts, v.a[n], t.a[m])
    [] t.k = "ref" -> Conforms(dts, v, Elem(dts, t.s).type)
    [] OTHER -> FALSE

\* --------------------- types with fields inside ------------------------
NoRec == [k |-> "none", a |-> <<>>, n |-> <<>>, s |-> ""]
RECURSIVE RecOf(_, _, _)
\* the record type behind at most one Optional or Sequence
RecOf(dts, t, nested) ==
  CASE t.k = "rec" -> t
    [] t.k = "ref" -> RecOf(dts, Elem(dts, t.s).type, nested)
    [] t.k \in {"opt", "seq"} /\ ~ nested -> RecOf(dts, t.a[1], TRUE)
    [] OTHER -> NoRec
IsRec(dts, t) == RecOf(dts, t, FALSE).k = "rec"

\* ---------------------------- problems ---------------------------------
P(what, name) == {[what |-> what, name |-> name]}
When(cond, p) == IF cond THEN p ELSE {}

Conflicts(q) ==
  UNION {When(\E m \in 1..(n - 1) : /\ ResultKey(q.fields[m]) = ResultKey(q.fields[n])
                                    /\ StoreKey(q.fields[m]) # StoreKey(q.fields[n]),
              P("conflict", ResultKey(q.fields[n]))) : n \in DOMAIN q.fields}

Options(dts, gi, it) ==
  LET given == {o[1] : o \in OptSet(it)}
      one(d) == IF d.name \in given
                THEN LET v == (CHOOSE o \in OptSet(it) : o[1] = d.name)[3] IN
                     When(~ Conforms(dts, v, d.type), P("type", d.name))
                ELSE IF ~ d.has THEN P("required", d.name)
                ELSE When(~ Conforms(dts, d.def, d.type), P("type", d.name))
  IN UNION {P("option", o) : o \in {o \in given : ~ Has(gi.opts, o)}}
     \cup UNION {one(gi.opts[n]) : n \in DOMAIN gi.opts}

RECURSIVE InRecord(_, _, _)
InRecord(dts, rec, q) ==
  LET one(it) ==
        IF ~ \E n \in DOMAIN rec.n : rec.n[n] = it.name THEN P("unknown", it.name)
        ELSE LET t == rec.a[CHOOSE n \in DOMAIN rec.n : rec.n[n] = it.name] IN
             When(it.opts # <<>>, P("options in record", ""))
             \cup (IF it.k = "f" THEN When(it.opts = <<>> /\ IsRec(dts, t), P("not a field", it.name))
                   ELSE IF IsRec(dts, t) THEN InRecord(dts, RecOf(dts, t, FALSE), it.node)
                   ELSE P("not a link", it.name))
  IN Conflicts(q) \cup UNION {one(q.fields[n]) : n \in DOMAIN q.fields}

RECURSIVE Problems(_, _, _)
Problems(g, node, q) ==
  LET nd == Elem(g.nodes, node)
      one(it) ==
        IF ~ Has(nd.items, it.name) THEN P("unknown", it.name)
        ELSE LET gi == Elem(nd.items, it.name) IN
             IF gi.k = "l" THEN
               IF it.k = "f" THEN P("not a field", it.name)
               ELSE Options(g.dts, gi, it) \cup Problems(g, gi.to, it.node)
             ELSE Options(g.dts, gi, it) \cup
               (IF it.k = "f" THEN {}
                ELSE IF IsRec(g.dts, gi.type) THEN InRecord(g.dts, RecOf(g.dts, gi.type, FALSE), it.node)
                ELSE P("not a link", it.name))
  IN Conflicts(q) \cup UNION {one(q.fields[n]) : n \in DOMAIN q.fields}

Valid(g, q) == Problems(g, "", q) = {}

\* ----------------------------- recorded --------------------------------
\* c = [g, q, errs: Seq(set of words of the message), err: exception of
\*      validate(), run: exception of the execution or ""]
BadValidate(c) ==
  LET ps == Problems(c.g, "", c.q) IN
  IF c.err # "" THEN {"validation failed: " \o c.err} ELSE
  Clause("an invalid query is accepted: " \o ToString(ps), ps # {} => c.errs # <<>>)
  \cup Clause("a valid query is rejected: " \o ToString(c.errs), ps = {} => c.errs = <<>>)
  \cup UNION {Clause("not reported: " \o p.what \o " " \o p.name,
                     p.name = "" \/ \E n \in DOMAIN c.errs : p.name \in Rng(c.errs[n]))
              : p \in IF c.errs = <<>> THEN {} ELSE ps}
  \cup Clause("a valid query can not be executed: " \o c.run, ps = {} => c.run = "")

=============================================================================
