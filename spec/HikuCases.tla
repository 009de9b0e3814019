------------------------------ MODULE HikuCases -------------------------------
(***************************************************************************)
(* Total verdicts over recorded cases: each line of the file CASES is one  *)
(* observation of the real code; Bad(case) is the set of clauses of the    *)
(* specification it breaks.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Bad(_)

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, decided

\* whatever is given to the code, stays as it is; asked again, it answers the same
Left(c) == IF "touched" \in DOMAIN c /\ c.touched # <<>>
           THEN {"changed: " \o ToString(c.touched)} ELSE {}

CInit == case \in 1..Len(Cases) /\ decided = FALSE

Decide == /\ ~ decided
          /\ PrintT("VERDICT " \o ToJson([i |-> case, bad |-> Bad(Cases[case]) \cup Left(Cases[case])]))
          /\ decided' = TRUE
          /\ UNCHANGED case

CSpec == CInit /\ [][Decide]_<<case, decided>>
=============================================================================
