------------------------------ MODULE HikuEDNMC -------------------------------
(***************************************************************************)
(* All texts up to a length over an alphabet: their meanings are printed   *)
(* to be compared with the real reader.                                    *)
(***************************************************************************)
EXTENDS HikuEDN, Json

CONSTANTS Length, Alphabet

VARIABLES text, m

MInit == text = <<>> /\ m = Start
MNext == /\ Len(text) < Length /\ m.out = "ok"
         /\ \E c \in Alphabet :
              /\ text' = Append(text, c)
              /\ m' = Step(m, c)
              /\ PrintT("TEXT " \o ToJson([text |-> text', r |-> Finish(m')]))
MSpec == MInit /\ [][MNext]_<<text, m>>

\* ------------------------------ theorems -------------------------------
\* every value has a text
RECURSIVE Write(_)
Write(v) ==
  LET seq == FoldLeft(LAMBDA a, x : a \o <<32>> \o x, <<>>, [i \in DOMAIN v.c |-> Write(v.c[i])])
      str(x) == FoldLeft(LAMBDA a, c : a \o (IF c \in {34, 92} THEN <<92, c>> ELSE <<c>>), <<>>, x)
  IN CASE v.t = "nil" -> Nil [] v.t = "true" -> True [] v.t = "false" -> False
       [] v.t \in {"num", "sym"} -> v.s
       [] v.t = "kw" -> <<58>> \o v.s
       [] v.t = "str" -> <<34>> \o str(v.s) \o <<34>>
       [] v.t = "l" -> <<91>> \o seq \o <<93>>
       [] v.t = "t" -> <<40>> \o seq \o <<41>>
       [] v.t = "d" -> <<123>> \o seq \o <<125>>
       [] v.t = "s" -> <<35, 123>> \o seq \o <<125>>
       [] v.t = "inst" -> <<35>> \o Inst \o <<32, 34>> \o str(v.s) \o <<34>>
       [] v.t = "uuid" -> <<35>> \o Uuid \o <<32, 34>> \o str(v.s) \o <<34>>
       [] OTHER -> <<35>> \o v.s \o seq
Written == Finish(m).out = "ok" => Loads(Write(Finish(m).v)) = Finish(m)
\* what has no meaning gets none by what follows
Stuck == [][m.out # "ok" => m'.out = m.out]_<<text, m>>
\* white space after a text does not matter
Trailing == Finish(m) = Finish(Step(m, 32)) \/ m.mode \in {"str", "esc", "u1", "u2", "u3", "u4", "chr"}
            \/ Finish(m).out # "ok"
Incremental == m = Run(text)
=============================================================================
