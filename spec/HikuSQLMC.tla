------------------------------ MODULE HikuSQLMC -------------------------------
(***************************************************************************)
(* All small tables and lists of identifiers: what the engine relies on    *)
(* when it batches, deduplicates and joins calls; and reading of a result  *)
(* by portions of FETCH rows.  Every state is replayed into the real       *)
(* sources.                                                                *)
(***************************************************************************)
EXTENDS HikuSQL, Json

CONSTANTS MaxRows, MaxIds, FETCH

Keys == {"null", "i:0", "i:1"}
\* id is unique and never NULL; f is nullable
Rows(n) == {s \in [1..n -> {"i:0", "i:1", "i:2"} \X Keys] :
              \A a, b \in 1..n : s[a][1] = s[b][1] => a = b}
Tables == {[cols |-> <<"id", "f">>, rows |-> [m \in DOMAIN r |-> <<r[m][1], r[m][2]>>]] :
             r \in UNION {Rows(n) : n \in 0..MaxRows}}
Ids == UNION {[1..n -> Keys \cup {"i:9"}] : n \in 0..MaxIds}

VARIABLES t, ids, shown,
          rest, got, phase     \* portions

vars == <<t, ids, shown, rest, got, phase>>
SInit == t \in Tables /\ ids \in Ids /\ shown = FALSE
         /\ rest = t.rows /\ got = <<>> /\ phase = "read"

Show == /\ ~ shown /\ shown' = TRUE
        /\ PrintT("TABLE " \o ToJson([t |-> t, ids |-> ids]))
        /\ UNCHANGED <<t, ids, rest, got, phase>>

Fetch == /\ shown /\ phase = "read"
         /\ LET k == IF Len(rest) < FETCH THEN Len(rest) ELSE FETCH IN
            IF k = 0 THEN phase' = "done" /\ UNCHANGED <<rest, got>>
            ELSE /\ got' = got \o SubSeq(rest, 1, k)
                 /\ rest' = SubSeq(rest, k + 1, Len(rest))
                 /\ UNCHANGED phase
         /\ UNCHANGED <<t, ids, shown>>

SSpec == SInit /\ [][Show \/ Fetch]_vars

\* --------------------------- theorems -----------------------------------
Row(f, id) == CHOOSE r \in RowsOf(t, "id", f, id) : TRUE

\* unique keys leave no choice
Determined == \A n \in DOMAIN ids : Cardinality(RowsOf(t, "id", <<"id", "f">>, ids[n])) = 1
\* columns may be asked for together or one by one
Columns == \A n \in DOMAIN ids :
             Row(<<"id", "f">>, ids[n]) = Row(<<"id">>, ids[n]) \o Row(<<"f">>, ids[n])
\* links partition the table: every row with a value is somebody's target
Partition == \A n \in DOMAIN t.rows :
               LET v == t.rows[n][2] IN
               v # "null" => \E m \in DOMAIN Targets(t, "f", "id", v) :
                               Targets(t, "f", "id", v)[m] = t.rows[n][1]
\* NULL is never anybody's value
NullLess == Targets(t, "f", "id", "null") = <<>> /\ Found(t, "f", "null") = {}
\* a link by a key finds the object itself
SelfLink == \A n \in DOMAIN ids :
              Targets(t, "id", "id", ids[n]) =
                IF Found(t, "id", ids[n]) = {} THEN <<>> ELSE <<ids[n]>>
\* portions lose nothing
Portions == /\ got \o rest = t.rows
            /\ phase = "done" => got = t.rows
=============================================================================
