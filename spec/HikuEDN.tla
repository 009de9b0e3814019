------------------------------- MODULE HikuEDN --------------------------------
(***************************************************************************)
(* The notation of EDN values, as a machine which consumes a text one      *)
(* character (code point) at a time.                                       *)
(*                                                                         *)
(* value = [t, s: Seq(code point), c: Seq(value)]                          *)
(*   t: "nil" "true" "false" "num" "str" "kw" "sym" "inst" "uuid"          *)
(*      "l" [..]  "t" (..)  "d" {..} (keys and values alternate)           *)
(*      "s" #{..}  "tag" #s value                                          *)
(*                                                                         *)
(* machine = [st: stack of open values, mode, buf, out]                    *)
(*   out: "ok"; "bad", the text has no meaning and is refused; "any", what *)
(*   is left to the implementation                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

White == {32, 44, 10, 13, 9}                     \* space , \n \r \t
Digits == 48..57
Letters == (65..90) \cup (97..122)
Closers == {93, 125, 41}                         \* ] } )
Ends == White \cup Closers
\* . * + ! - _ ? $ % & = / : < > | ' #
SymChars == Letters \cup Digits \cup
  {46, 42, 43, 33, 45, 95, 63, 36, 37, 38, 61, 47, 58, 60, 62, 124, 39, 35}
NumChars == Digits \cup {43, 45, 101, 69, 77, 78, 46}
Hex(c) == CASE c \in Digits -> c - 48
            [] c \in 97..102 -> c - 87
            [] c \in 65..70 -> c - 55
            [] OTHER -> -1
\* \a \b \f \n \r \t \v
Escapes == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13)
           @@ (116 :> 9) @@ (118 :> 11) @@ (34 :> 34) @@ (92 :> 92) @@ (47 :> 47)

Newline == <<110, 101, 119, 108, 105, 110, 101>>
Space == <<115, 112, 97, 99, 101>>
Tab == <<116, 97, 98>>
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Nil == <<110, 105, 108>>
Inst == <<105, 110, 115, 116>>
Uuid == <<117, 117, 105, 100>>

Val(t, s, c) == [t |-> t, s |-> s, c |-> c]
Atom(t) == Val(t, <<>>, <<>>)

\* -?d+(.d+)?([eE][+-]?d+)?
Plain(s) ==
  LET AllDigits(x) == x # <<>> /\ \A i \in DOMAIN x : x[i] \in Digits
      a == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
      es == {i \in DOMAIN a : a[i] \in {101, 69}}
      e == IF es = {} THEN Len(a) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
      m == SubSeq(a, 1, e - 1)
      x == SubSeq(a, e + 1, Len(a))
      ds == {i \in DOMAIN m : m[i] = 46}
      d == IF ds = {} THEN Len(m) + 1 ELSE CHOOSE i \in ds : \A j \in ds : i <= j
  IN /\ AllDigits(SubSeq(m, 1, d - 1))
     /\ ds # {} => AllDigits(SubSeq(m, d + 1, Len(m)))
     /\ es # {} => AllDigits(IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x)

\* exact numbers are marked by M, whole ones by N
NumOk(s) ==
  CASE s # <<>> /\ s[Len(s)] = 77 -> Plain(SubSeq(s, 1, Len(s) - 1))
    [] s # <<>> /\ s[Len(s)] = 78 ->
         /\ Plain(SubSeq(s, 1, Len(s) - 1))
         /\ \A i \in DOMAIN s : s[i] \notin {46, 101, 69}
    [] OTHER -> Plain(s)

\* pairs of surrogates are one character
Joined(s) ==
  FoldLeft(LAMBDA a, c :
    IF a # <<>> /\ a[Len(a)] \in 55296..56319 /\ c \in 56320..57343
    THEN SubSeq(a, 1, Len(a) - 1) \o <<65536 + (a[Len(a)] - 55296) * 1024 + (c - 56320)>>
    ELSE Append(a, c), <<>>, s)

\* mappings and sets have no order
RECURSIVE SameValue(_, _)
SameValue(a, b) ==
  /\ a.t = b.t /\ a.s = b.s /\ Len(a.c) = Len(b.c)
  /\ LET n == Len(a.c) IN
     CASE a.t = "s" -> /\ \A i \in 1..n : \E j \in 1..n : SameValue(a.c[i], b.c[j])
                       /\ \A j \in 1..n : \E i \in 1..n : SameValue(a.c[i], b.c[j])
       [] a.t = "d" ->
            LET k == n \div 2
                pair(x, i, y, j) == /\ SameValue(x.c[2 * i - 1], y.c[2 * j - 1])
                                    /\ SameValue(x.c[2 * i], y.c[2 * j])
            IN /\ \A i \in 1..k : \E j \in 1..k : pair(a, i, b, j)
               /\ \A j \in 1..k : \E i \in 1..k : pair(a, i, b, j)
       [] OTHER -> \A i \in 1..n : SameValue(a.c[i], b.c[i])

\* --------------------------- finished values ---------------------------
\* what is the same as a key of a mapping or as an item of a set: numbers
\* and booleans are left to the implementation
RECURSIVE Vague(_), Key(_)
Vague(v) == v.t \in {"num", "true", "false"} \/ \E i \in DOMAIN v.c : Vague(v.c[i])
Key(v) == [v EXCEPT !.t = IF @ = "t" THEN "l" ELSE @, !.c = [i \in DOMAIN @ |-> Key(@[i])]]
IntTok(s) == s = <<48>> \/ (LET a == IF s[1] = 45 THEN Tail(s) ELSE s IN
                            a[1] # 48 /\ \A i \in DOMAIN a : a[i] \in Digits)
\* whole numbers, each written in its only way
RECURSIVE Exact(_)
Exact(v) == /\ v.t \notin {"true", "false"}
            /\ v.t = "num" => IntTok(v.s)
            /\ \A i \in DOMAIN v.c : Exact(v.c[i])
Doubtful(ks) ==
  \E i, j \in DOMAIN ks : i < j /\
     \/ SameValue(Key(ks[i]), Key(ks[j]))
     \/ Vague(ks[i]) /\ Vague(ks[j]) /\ ~ (Exact(ks[i]) /\ Exact(ks[j]))
Keys(items) == [i \in 1..(Len(items) \div 2) |-> items[2 * i - 1]]

\* 2020-01-31T23:59:59.000001Z
InstOk(s) ==
  LET two(i) == (s[i] - 48) * 10 + s[i + 1] - 48 IN
  /\ Len(s) = 27
  /\ \A i \in 1..27 : CASE i \in {5, 8} -> s[i] = 45 [] i = 11 -> s[i] = 84
                        [] i \in {14, 17} -> s[i] = 58 [] i = 20 -> s[i] = 46
                        [] i = 27 -> s[i] = 90 [] OTHER -> s[i] \in Digits
  /\ s[1] # 48 /\ two(6) \in 1..12 /\ two(9) \in 1..28
  /\ two(12) <= 23 /\ two(15) <= 59 /\ two(18) <= 59
UuidOk(s) ==
  /\ Len(s) = 36
  /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE s[i] \in Digits \cup 97..102

Open(k) == [k |-> k, items |-> <<>>, tag |-> <<>>]
Start == [st |-> <<Open("top")>>, mode |-> "", buf |-> <<>>, out |-> "ok"]
Fail(m, why) == [m EXCEPT !.out = why]
Top(m) == m.st[Len(m.st)]
Pop(m) == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]

RECURSIVE Put(_, _)
Put(m, v) ==
  LET top == Top(m)
      mm == [m EXCEPT !.mode = "", !.buf = <<>>]
  IN IF top.k # "tag" THEN [mm EXCEPT !.st[Len(m.st)].items = Append(@, v)]
     ELSE IF top.tag \in {Inst, Uuid}
          THEN IF v.t = "str"
               THEN IF (top.tag = Inst /\ InstOk(v.s)) \/ (top.tag = Uuid /\ UuidOk(v.s))
                    THEN Put(Pop(mm), Val(IF top.tag = Inst THEN "inst" ELSE "uuid", v.s, <<>>))
                    ELSE Fail(mm, "any")
               ELSE Fail(mm, "bad")
          ELSE Put(Pop(mm), Val("tag", top.tag, <<v>>))

Closing == (93 :> {"l"}) @@ (41 :> {"t"}) @@ (125 :> {"d", "s"})
Close(m, c) ==
  LET top == Top(m) IN
  IF top.k \notin Closing[c] THEN Fail(m, "bad")
  ELSE IF top.k = "d" /\ Len(top.items) % 2 = 1 THEN Fail(m, "bad")
  ELSE IF top.k = "d" /\ Doubtful(Keys(top.items)) THEN Fail(m, "any")
  ELSE IF top.k = "s" /\ Doubtful(top.items) THEN Fail(m, "any")
  ELSE Put(Pop(m), Val(top.k, <<>>, top.items))

Symbol(s) == CASE s = True -> Atom("true")
               [] s = False -> Atom("false")
               [] s = Nil -> Atom("nil")
               [] s[1] = 58 -> Val("kw", Tail(s), <<>>)
               [] OTHER -> Val("sym", s, <<>>)

\* ------------------------------- machine -------------------------------
Mode(m, mode, buf) == [m EXCEPT !.mode = mode, !.buf = buf]

Between(m, c) ==
  CASE c \in White -> m
    [] c = 59 -> Mode(m, "com", <<>>)
    [] c = 34 -> Mode(m, "str", <<>>)
    [] c = 92 -> Mode(m, "chr", <<>>)
    [] c \in Digits -> Mode(m, "num", <<c>>)
    [] c \in {45, 46} -> Mode(m, "sign", <<c>>)
    [] c \in Letters \/ c = 58 -> Mode(m, "sym", <<c>>)
    [] c = 91 -> [m EXCEPT !.st = Append(@, Open("l"))]
    [] c = 40 -> [m EXCEPT !.st = Append(@, Open("t"))]
    [] c = 123 -> [m EXCEPT !.st = Append(@, Open("d"))]
    [] c = 35 -> Mode(m, "hash", <<>>)
    [] c \in Closers -> Close(m, c)
    [] c > 127 -> Fail(m, "any")
    [] OTHER -> Fail(m, "bad")

\* the character which ends a value is consumed after the value
After(m, c) == IF m.out = "ok" THEN Between(m, c) ELSE m

Step(m, c) ==
  CASE m.out # "ok" -> m
    [] m.mode = "" -> Between(m, c)
    [] m.mode = "com" -> IF c = 10 THEN Mode(m, "", <<>>) ELSE m
    [] m.mode = "str" ->
         CASE c = 92 -> [m EXCEPT !.mode = "esc"]
           [] c = 34 -> Put(m, Val("str", Joined(m.buf), <<>>))
           [] OTHER -> [m EXCEPT !.buf = Append(@, c)]
    [] m.mode = "esc" ->
         CASE c = 117 -> [m EXCEPT !.mode = "u1", !.buf = Append(@, 0)]
           [] c \in DOMAIN Escapes -> [m EXCEPT !.mode = "str", !.buf = Append(@, Escapes[c])]
           [] OTHER -> Fail(m, "any")
    [] m.mode \in {"u1", "u2", "u3", "u4"} ->
         IF Hex(c) < 0 THEN Fail(m, IF c \in White \cup 9..32 \cup {43, 45, 95} \/ c > 127 THEN "any" ELSE "bad")
         ELSE [m EXCEPT !.buf[Len(m.buf)] = @ * 16 + Hex(c),
                        !.mode = CASE @ = "u1" -> "u2" [] @ = "u2" -> "u3"
                                   [] @ = "u3" -> "u4" [] OTHER -> "str"]
    [] m.mode = "chr" ->
         CASE m.buf = <<>> -> IF c > 127 \/ c \in White THEN Fail(m, "any") ELSE [m EXCEPT !.buf = <<c>>]
           [] c \in Letters -> [m EXCEPT !.buf = Append(@, c)]
           [] c \notin Ends -> Fail(m, "any")
           [] Len(m.buf) = 1 -> After(Put(m, Val("str", m.buf, <<>>)), c)
           [] m.buf = Newline -> After(Put(m, Val("str", <<10>>, <<>>)), c)
           [] m.buf = Space -> After(Put(m, Val("str", <<32>>, <<>>)), c)
           [] m.buf = Tab -> After(Put(m, Val("str", <<9>>, <<>>)), c)
           [] OTHER -> Fail(m, "bad")
    [] m.mode = "sign" ->
         CASE m.buf[1] = 45 /\ c \in Digits -> Mode(m, "num", Append(m.buf, c))
           [] c \in Digits \/ c \notin SymChars -> Fail(m, "any")
           [] OTHER -> Mode(m, "sym", Append(m.buf, c))
    [] m.mode = "num" ->
         CASE c \in NumChars -> [m EXCEPT !.buf = Append(@, c)]
           [] c \notin Ends \/ ~ NumOk(m.buf) -> Fail(m, "any")
           [] OTHER -> After(Put(m, Val("num", m.buf, <<>>)), c)
    [] m.mode = "sym" ->
         CASE c \in Ends -> IF m.buf = <<58>> THEN Fail(m, "any")
                            ELSE After(Put(m, Symbol(m.buf)), c)
           [] c \in SymChars -> [m EXCEPT !.buf = Append(@, c)]
           [] OTHER -> Fail(m, "any")
    [] m.mode = "hash" ->
         CASE c = 123 -> [Mode(m, "", <<>>) EXCEPT !.st = Append(@, Open("s"))]
           [] c \in Letters -> Mode(m, "tag", <<c>>)
           [] OTHER -> Fail(m, "any")
    [] m.mode = "tag" ->
         CASE c \in White \cup {34, 91, 123, 40} ->
                Between([Mode(m, "", <<>>) EXCEPT
                          !.st = Append(@, [Open("tag") EXCEPT !.tag = m.buf])], c)
           [] c \in SymChars \ {35} -> [m EXCEPT !.buf = Append(@, c)]
           [] OTHER -> Fail(m, "any")

Run(text) == FoldLeft(Step, Start, text)

\* the meaning of a text: [out, v]
Finish(m) ==
  LET e == Step(m, 32)
      one == Len(e.st) = 1 /\ e.mode \in {"", "com"} /\ Len(e.st[1].items) = 1
  IN CASE m.mode = "chr" /\ m.buf = <<>> /\ m.out = "ok" -> [out |-> "bad", v |-> Atom("nil")]
       [] e.out # "ok" -> [out |-> e.out, v |-> Atom("nil")]
       [] one -> [out |-> "ok", v |-> e.st[1].items[1]]
       [] OTHER -> [out |-> "bad", v |-> Atom("nil")]
Loads(text) == Finish(Run(text))

\* ------------------------------ agreement ------------------------------
\* nums: what texts of numbers are, [tok, v]
RECURSIVE Resolve(_, _)
Resolve(nums, v) ==
  IF v.t = "num" THEN [v EXCEPT !.s = nums[CHOOSE i \in DOMAIN nums : nums[i].tok = v.s].v]
  ELSE [v EXCEPT !.c = [i \in DOMAIN @ |-> Resolve(nums, @[i])]]

Broke(why, ok) == IF ok THEN {} ELSE {why}

\* elements with a tag of hs are what the handler makes of their values:
\* here [handled value]
Handled(hs, v) ==
  LET RECURSIVE H(_)
      H(x) == LET c == [i \in DOMAIN x.c |-> H(x.c[i])] IN
              IF x.t = "tag" /\ \E i \in DOMAIN hs : hs[i] = x.s
              THEN Val("l", <<>>, <<Val("sym", <<104, 97, 110, 100, 108, 101, 100>>, <<>>)>> \o c)
              ELSE [x EXCEPT !.c = c]
  IN H(v)

\* c = [text, nums, handlers, got: [out: "ok" | "bad", v], what]
\* got: what the reader made of the text
BadLoads(c) ==
  LET e0 == Loads(c.text)
      e == IF e0.out = "ok" THEN [e0 EXCEPT !.v = Handled(c.handlers, @)] ELSE e0
  IN CASE e.out = "any" -> {}
    [] e.out = "bad" -> Broke("a text without a meaning is accepted", c.got.out = "bad")
    [] OTHER -> Broke("the text is refused", c.got.out = "ok")
                \cup Broke("wrong value", c.got.out # "ok" \/
                           SameValue(Resolve(c.nums, e.v), c.got.v))

\* characters of strings
RECURSIVE Chars(_)
Chars(v) == (IF v.t = "str" THEN Range(v.s) ELSE {})
            \cup UNION {Chars(v.c[i]) : i \in DOMAIN v.c}

\* got: the value which was written as the text; ascii: what was asked for
BadDumps(c) ==
  LET e == Loads(c.text) IN
  Broke("the value is written as a text without a meaning", e.out = "ok")
  \cup Broke("the value is written as another value",
             e.out # "ok" \/ SameValue(Resolve(c.nums, e.v), c.got.v))
  \cup Broke("characters outside of ASCII are written as asked for",
             IF c.ascii THEN \A i \in DOMAIN c.text : c.text[i] < 128
             ELSE \A x \in Chars(c.got.v) : x < 128 \/ x \in Range(c.text))

\* what cannot be written is refused
BadRefusal(c) == Broke("something is written as an unknown value", c.refused)

\* mappings, which were read, are values: they do not change
BadFrozen(c) == Broke("a mapping was changed", c.refused /\ SameValue(c.a, c.b))

\* values are equal when they mean the same; lists and vectors, numbers and
\* booleans are left to the implementation
BadEq(c) ==
  Broke("values which are the same differ",
        SameValue(c.a, c.b) => \A i \in DOMAIN c.got : c.got[i])
  \cup Broke("values which differ are the same",
        (~ SameValue(Key(c.a), Key(c.b)) /\ ~ (Vague(c.a) /\ Vague(c.b)))
          => \A i \in DOMAIN c.got : ~ c.got[i])

BadEDN(c) == CASE c.what = "dumps" -> BadDumps(c)
               [] c.what = "eq" -> BadEq(c)
               [] c.what = "refusal" -> BadRefusal(c)
               [] c.what = "frozen" -> BadFrozen(c)
               [] OTHER -> BadLoads(c)
=============================================================================
