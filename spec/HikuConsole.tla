------------------------------ MODULE HikuConsole -----------------------------
(***************************************************************************)
(* The developer console: documentation of a graph in the notation of      *)
(* Kinko, and responses to requests.                                       *)
(*                                                                         *)
(* c = [g, f, l (HikuDenorm), debug,                                       *)
(*      reqs: Seq([method, path, script, kind: "query" "broken" "big"      *)
(*                 "fails", q]),                                           *)
(*      outs: Seq([status, length, kind, v, n, words])]                    *)
(***************************************************************************)
EXTENDS HikuDenorm

\* ---------------------------- documentation ----------------------------
Container(t) == t.k \in {"opt", "seq", "map", "rec"}
Word(t) == CASE t.k = "bool" -> "Boolean" [] t.k = "str" -> "String"
             [] t.k = "int" -> "Integer" [] t.k = "ref" -> t.s [] OTHER -> "Unknown"
RECURSIVE Pad(_)
Pad(n) == IF n = 0 THEN "" ELSE "  " \o Pad(n - 1)

RECURSIVE Lines(_, _, _), Arg(_, _, _, _)
Arg(buf, ind, t, desc) ==
  LET n == Len(buf)
      r == IF Container(t) THEN Lines(buf, ind + 1, t)
           ELSE [buf EXCEPT ![n] = @ \o " " \o Word(t)]
  IN IF desc = "" THEN r ELSE [r EXCEPT ![n] = @ \o "  ; " \o desc]
Lines(buf, ind, t) ==
  LET call(w) == Append(buf, Pad(ind) \o w) IN
  CASE t.k = "opt" -> Arg(call("Option"), ind, t.a[1], "")
    [] t.k = "seq" -> Arg(call("List"), ind, t.a[1], "")
    [] t.k = "map" -> Arg(Arg(call("Dict"), ind, t.a[1], ""), ind, t.a[2], "")
    [] OTHER -> FoldLeft(LAMBDA b, i :
                  Arg(Append(b, Pad(ind + 1) \o ":" \o t.n[i]), ind + 1, t.a[i],
                      IF "d" \in DOMAIN t THEN t.d[i] ELSE ""),
                  call("Record"), [i \in DOMAIN t.n |-> i])

Typed(items) == SelectSeq(items, LAMBDA it : it.type.k \notin {"any", "none"})
NodeRecord(items) ==
  LET s == Typed(items) IN
  [k |-> "rec", s |-> "", n |-> [i \in DOMAIN s |-> s[i].name],
   a |-> [i \in DOMAIN s |-> s[i].type], d |-> [i \in DOMAIN s |-> s[i].desc]]
Def(name, t, desc) == [name |-> name, type |-> t, desc |-> desc]
Defs(g) ==
  LET nodes == SelectSeq(g.nodes, LAMBDA n : n.name # "")
      roots == SelectSeq(g.nodes, LAMBDA n : n.name = "")
      dts == SelectSeq(g.dts, LAMBDA d : d.type.k # "any")
  IN [i \in DOMAIN dts |-> Def(dts[i].name, dts[i].type, "")]
     \o [i \in DOMAIN nodes |-> Def(nodes[i].name, NodeRecord(nodes[i].items), nodes[i].desc)]
     \o FoldLeft(LAMBDA a, n : a \o [i \in DOMAIN Typed(n.items) |->
                   LET it == Typed(n.items)[i] IN Def(it.name, it.type, it.desc)],
                 <<>>, roots)
Docs(g) ==
  FoldLeft(LAMBDA b, d :
      Arg(Append(IF b = <<>> THEN b ELSE Append(b, ""), "type " \o d.name), 0, d.type, d.desc),
    <<>>, Defs(g))

\* ------------------------------ responses ------------------------------
Answer(c, req) ==
  CASE req.path \notin {"/", "/docs", "/console.js", ""} -> [status |-> 404, kind |-> "text"]
    [] req.method = "GET" ->
         [status |-> 200, kind |-> CASE req.path \in {"/", ""} -> "html" [] req.path = "/docs" -> "docs"
                                     [] OTHER -> "js"]
    [] req.method # "POST" \/ req.path \notin {"/", ""} -> [status |-> 405, kind |-> "text"]
    [] req.kind = "big" -> [status |-> 400, kind |-> "text"]
    [] req.kind = "broken" -> [status |-> 500, kind |-> "traceback"]
    [] Problems(c.g, "", req.q) # {} -> [status |-> 400, kind |-> "errors"]
    [] req.kind = "fails" -> [status |-> 500, kind |-> "traceback"]
    [] OTHER -> [status |-> 200, kind |-> "data"]

BadAnswer(c, n) ==
  LET req == c.reqs[n]
      out == c.outs[n]
      want == Answer(c, req)
      me == "request " \o ToString(n) \o ": "
  IN Clause(me \o "another response: " \o ToString(<<out.status, out.kind>>),
            out.status = want.status /\ out.kind = want.kind)
     \cup Clause(me \o "wrong length", out.length)
     \cup (IF out.kind # want.kind THEN {} ELSE
           CASE want.kind = "data" ->
                  Clause(me \o "data differs",
                         VSame(out.v, Object(c.g, FTab(c), LTab(c), "", "", "", req.q)))
             [] want.kind = "errors" -> Clause(me \o "no errors", out.words # <<>>)
             [] want.kind = "traceback" ->
                  Clause(me \o "traceback in production or none in debugging",
                         (out.words # <<>>) = c.debug)
             [] want.kind = "docs" -> Clause(me \o "documentation", out.words = Docs(c.g))
             [] want.kind = "html" ->
                  Clause(me \o "addresses",
                         {req.script \o x : x \in {"/", "/docs", "/console.js"}}
                         \subseteq Rng(out.words))
             [] OTHER -> {})

BadConsole(c) == Clause("no response", Len(c.outs) = Len(c.reqs))
                 \cup UNION {BadAnswer(c, n) : n \in DOMAIN c.outs}
=============================================================================
