----------------------------- MODULE StdStrings -----------------------------
(* What the functions of std/strings return: Go's package strings on ASCII    *)
(* texts, written as mathematical definitions.  A state is one observed call  *)
(* of the compiled library; the behaviour is legal iff the observed result is *)
(* the defined one.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Sub(s, i, n) == SubSeq(s, i + 1, i + n)               \* n characters from offset i
Drop(s, n) == SubSeq(s, n + 1, Len(s))
OccursAt(s, t, i) == i >= 0 /\ i + Len(t) <= Len(s) /\ Sub(s, i, Len(t)) = t
Index(s, t) == IF \E i \in 0..Len(s) : OccursAt(s, t, i)
               THEN CHOOSE i \in 0..Len(s) : OccursAt(s, t, i) /\ \A j \in 0..(i - 1) : ~OccursAt(s, t, j)
               ELSE -1
Contains(s, t) == \E i \in 0..Len(s) : OccursAt(s, t, i)
HasPrefix(s, t) == OccursAt(s, t, 0)
HasSuffix(s, t) == OccursAt(s, t, Len(s) - Len(t))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Explode(_)
Explode(s) == IF s = "" THEN << >> ELSE << Sub(s, 0, 1) >> \o Explode(Drop(s, 1))
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) == LET i == Index(s, sep) IN
                   IF i < 0 THEN << s >> ELSE << Sub(s, 0, i) >> \o SplitAt(Drop(s, i + Len(sep)), sep)
Split(s, sep) == IF sep = "" THEN Explode(s) ELSE SplitAt(s, sep)
\* Non-overlapping occurrences, from the left; the empty text occurs around every character.
Count(s, t) == IF t = "" THEN Len(s) + 1 ELSE Len(SplitAt(s, t)) - 1
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE s \o Repeat(s, n - 1)
RECURSIVE Interleave(_, _, _)
\* new in front of each of the first n characters, and after the last one if the budget allows
Interleave(s, new, n) == IF n = 0 THEN s
                         ELSE IF s = "" THEN new
                         ELSE new \o Sub(s, 0, 1) \o Interleave(Drop(s, 1), new, n - 1)
RECURSIVE Repl(_, _, _, _)
Repl(s, old, new, n) == LET i == Index(s, old) IN
                        IF n = 0 \/ i < 0 THEN s
                        ELSE Sub(s, 0, i) \o new \o Repl(Drop(s, i + Len(old)), old, new, n - 1)
Replace(s, old, new, n) == IF old = "" THEN Interleave(s, new, n) ELSE Repl(s, old, new, n)
Bit(b) == IF b THEN "1" ELSE "0"
Cut(s, sep) == LET i == Index(s, sep) IN
               IF i >= 0 THEN << Sub(s, 0, i), Drop(s, i + Len(sep)), "1" >> ELSE << s, "", "0" >>
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN Drop(s, Len(p)) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN Sub(s, 0, Len(s) - Len(p)) ELSE s
RECURSIVE TrimLeft(_, _)
TrimLeft(s, cs) == IF s # "" /\ Contains(cs, Sub(s, 0, 1)) THEN TrimLeft(Drop(s, 1), cs) ELSE s
RECURSIVE TrimRight(_, _)
TrimRight(s, cs) == IF s # "" /\ Contains(cs, Drop(s, Len(s) - 1)) THEN TrimRight(Sub(s, 0, Len(s) - 1), cs) ELSE s
Trim(s, cs) == TrimRight(TrimLeft(s, cs), cs)

Expected(c) ==
  LET a == c.s IN
  CASE c.f = "Index"      -> ToString(Index(a[1], a[2]))
    [] c.f = "Contains"   -> Bit(Contains(a[1], a[2]))
    [] c.f = "Join"       -> Join(c.e, a[1])
    [] c.f = "HasPrefix"  -> Bit(HasPrefix(a[1], a[2]))
    [] c.f = "HasSuffix"  -> Bit(HasSuffix(a[1], a[2]))
    [] c.f = "Count"      -> ToString(Count(a[1], a[2]))
    [] c.f = "Split"      -> Split(a[1], a[2])
    [] c.f = "Repeat"     -> Repeat(a[1], c.n)
    [] c.f = "Replace"    -> Replace(a[1], a[2], a[3], c.n)
    [] c.f = "ReplaceAll" -> Replace(a[1], a[2], a[3], -1)
    [] c.f = "Cut"        -> Cut(a[1], a[2])
    [] c.f = "CutPrefix"  -> << TrimPrefix(a[1], a[2]), Bit(HasPrefix(a[1], a[2])) >>
    [] c.f = "CutSuffix"  -> << TrimSuffix(a[1], a[2]), Bit(HasSuffix(a[1], a[2])) >>
    [] c.f = "TrimPrefix" -> TrimPrefix(a[1], a[2])
    [] c.f = "TrimSuffix" -> TrimSuffix(a[1], a[2])
    [] c.f = "TrimLeft"   -> TrimLeft(a[1], a[2])
    [] c.f = "TrimRight"  -> TrimRight(a[1], a[2])
    [] c.f = "Trim"       -> Trim(a[1], a[2])
    [] c.f = "TrimSpace"  -> Trim(a[1], c.ws)

\* Laws every one of the definitions has to obey (checked in each state).
Laws(c) ==
  LET a == c.s IN
  CASE c.f = "Split" /\ a[2] # "" -> Join(Expected(c), a[2]) = a[1]
    [] c.f = "Cut" -> LET r == Expected(c) IN IF r[3] = "1" THEN r[1] \o a[2] \o r[2] = a[1] ELSE r[1] = a[1]
    [] c.f = "ReplaceAll" /\ a[2] # "" -> Expected(c) = Join(Split(a[1], a[2]), a[3])
    [] c.f = "Trim" -> Expected(c) = TrimLeft(TrimRight(a[1], a[2]), a[2])
    [] c.f = "Count" -> ToString(Len(Split(a[1], a[2])) - (IF a[2] = "" THEN -1 ELSE 1)) = Expected(c)
    [] OTHER -> TRUE

VARIABLES k, ok
Init == k \in 1..Len(Cases) /\ ok = "todo"
Next == /\ ok = "todo"
        /\ ok' = "done" /\ k' = k
        /\ LET c == Cases[k]  e == Expected(c) IN
           /\ Assert(Laws(c), <<"law", c>>)
           /\ IF e = c.go THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> c.id, v |-> "oracle", exp |-> e]))
           /\ IF e = c.got THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> c.id, v |-> "reject", exp |-> e]))
Spec == Init /\ [][Next]_<<k, ok>>
=============================================================================
