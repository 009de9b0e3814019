---------------------------- MODULE HikuGraphQLMC -----------------------------
(***************************************************************************)
(* A family of small documents, all of them: directives with constants and *)
(* variables at all kinds of selections, fragments which use each other,   *)
(* variables declared, defaulted and given or not.  Theorems about their   *)
(* meaning are invariants, and every document is replayed.                 *)
(***************************************************************************)
EXTENDS HikuGraphQL, Json

CONSTANT Second   \* BOOLEAN: more selections

X(s) == [t |-> "x", s |-> s, kk |-> <<>>, c |-> <<>>]
V(s) == [t |-> "var", s |-> s, kk |-> <<>>, c |-> <<>>]
Sel(k, name, dirs, sub) == [k |-> k, name |-> name, alias |-> "", args |-> <<>>, dirs |-> dirs,
                            leaf |-> sub = <<>>, sel |-> sub]
A == Sel("field", "a", <<>>, <<>>)
B == Sel("field", "b", <<>>, <<>>)
Conds == {X("b:1"), X("b:0"), V("v")}
D(name, v) == [name |-> name, args |-> <<<<"if", v>>>>]
Dirs1 == {<<>>} \cup {<<D("skip", v)>> : v \in Conds} \cup {<<D("include", v)>> : v \in Conds}
Dirs2 == {<<D("skip", v), D("include", w)>> : v, w \in Conds}
         \cup {<<D("include", w), D("skip", v)>> : v, w \in Conds}
Firsts == UNION {{Sel("field", "a", d, <<>>), Sel("field", "l", d, <<A, B>>),
                  Sel("spread", "F", d, <<>>), Sel("inline", "", d, <<A, B>>)}
                 : d \in Dirs1 \cup Dirs2}
Seconds == {<<>>, <<Sel("field", "l", <<>>, <<B>>)>>} \cup
           IF Second THEN {<<A>>, <<Sel("spread", "G", <<>>, <<>>)>>,
                           <<Sel("inline", "", <<D("skip", V("v"))>>, <<Sel("spread", "F", <<>>, <<>>)>>)>>}
           ELSE {}
FBody == {<<B>>, <<Sel("spread", "G", <<>>, <<>>), A>>,
          <<Sel("field", "l", <<>>, <<Sel("spread", "F", <<>>, <<>>)>>)>>}
GBody == {<<Sel("field", "b", <<D("include", V("v"))>>, <<>>)>>, <<Sel("spread", "F", <<>>, <<>>)>>}
Decl == {<<>>, <<[name |-> "v", nonnull |-> FALSE, has |-> FALSE, def |-> X("null")]>>,
         <<[name |-> "v", nonnull |-> TRUE, has |-> FALSE, def |-> X("null")]>>,
         <<[name |-> "v", nonnull |-> FALSE, has |-> TRUE, def |-> X("b:1")]>>}
GivenVars == {<<>>, <<<<"v", "b:0">>>>, <<<<"v", "b:1">>>>}
Frags == {<<[name |-> "F", sel |-> f], [name |-> "G", sel |-> g]>> : f \in FBody, g \in GBody}
         \cup {<<[name |-> "F", sel |-> f]>> : f \in FBody}

VARIABLES d, decided
vs == <<d, decided>>

\* only documents where the choices matter
Uses(name) == \E n \in DOMAIN d.doc.ops[1].sel : d.doc.ops[1].sel[n].name = name
Matters == /\ (d.doc.frags[1].sel # <<B>> => Uses("F"))
           /\ (Len(d.doc.frags) = 2 => d.doc.frags[1].sel # <<B>>)
           /\ (d.doc.ops[1].kind = "mutation" => d.doc.ops[1].vars = <<>>)
GInit == /\ \E f \in Firsts, s \in Seconds, fr \in Frags, v \in Decl, g \in GivenVars :
              \E kind \in {"query", "mutation"} :
              d = [doc |-> [ops |-> <<[kind |-> kind, name |-> "", vars |-> v, sel |-> <<f>> \o s]>>,
                            frags |-> fr],
                   vars |-> g, opname |-> ""]
         /\ decided = FALSE /\ Matters
GNext == /\ ~ decided /\ decided' = TRUE /\ UNCHANGED d
         /\ PrintT("DOC " \o ToJson(d))
GSpec == GInit /\ [][GNext]_vs

\* theorems
R == Read(d.doc, d.opname, d.vars)
\* a selection which is skipped is as good as absent
SkipMeansAbsent == LET op == d.doc.ops[1] IN
  ~ R.must /\ Directives(Env(op, d.vars), op.sel[1].dirs).off =>
    R.q = Read([d.doc EXCEPT !.ops[1].sel = Tail(op.sel)], "", d.vars).q
\* an inline fragment or a spread means its selections
InlineMeansBody == LET op == d.doc.ops[1] x == op.sel[1] IN
  (x.k = "inline" /\ x.dirs = <<>>) =>
    R.q = Read([d.doc EXCEPT !.ops[1].sel = x.sel \o Tail(op.sel)], "", d.vars).q
SpreadMeansInline == LET op == d.doc.ops[1] x == op.sel[1] IN
  (x.k = "spread" /\ x.name = "F" /\ ~ R.must) =>
    R.q = Read([d.doc EXCEPT !.ops[1].sel[1] =
                  [x EXCEPT !.k = "inline", !.sel = Frag(d.doc.frags, "F").sel]], "", d.vars).q
\* the first declaration of a cyclic fragment that is reached is an error
MustMay == R.must => R.may
=============================================================================
