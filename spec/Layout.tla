------------------------------- MODULE Layout -------------------------------
(* Layouts of a program.  A program is a token sequence together with the      *)
(* places in which a line break is required; a layout is any text which the    *)
(* token grammar (TshLexer) splits into exactly these tokens, with at least    *)
(* one line break in every required place, none in the others and any number   *)
(* in front of the first token and behind the last.  Blanks and comments are   *)
(* free.  The machine below reads a text and walks through the program's       *)
(* tokens; the text is a layout of the program iff it reaches "layout".  The   *)
(* meaning of a program is the same in all of its layouts.                     *)
(* case: t text, toks tokens, brk[k] line break required in front of token k   *)
(*       (k > 1), op: what precedes a part of a program can end an operand     *)
EXTENDS TshLexer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, i, k, operand, nl, verdict
vars == <<cs, i, k, operand, nl, verdict>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ i = 1 /\ k = 1 /\ operand = C.op /\ nl = FALSE /\ verdict = "none"
\* the line ends within a raw string are line ends of the file, too
NoCR(q) == SelectSeq(q, LAMBDA c : c # CR)
Same(a, b) == a = b \/ (Len(a) > 1 /\ Len(b) > 1 /\ a[1] = 96 /\ b[1] = 96 /\ NoCR(a) = NoCR(b))
Stop(v) == verdict' = v /\ UNCHANGED <<i, k, operand, nl>> /\ (v # "layout" => PrintT("@@" \o ToJson([id |-> C.id, at |-> i, k |-> k])))
Next ==
  /\ verdict = "none" /\ cs' = cs
  /\ IF i > Len(C.t) THEN Stop(IF k = Len(C.toks) + 1 THEN "layout" ELSE "no")
     ELSE LET x == Lexeme(C.t, i, operand) IN
       CASE x.type \in {"ERROR", "UNSPEC"} -> Stop("no")
         [] x.type \in {"SPACE", "COMMENT"} -> i' = x.end /\ UNCHANGED <<k, operand, nl, verdict>>
         [] x.type = "NEWLINE" -> i' = x.end /\ nl' = TRUE /\ operand' = FALSE /\ UNCHANGED <<k, verdict>>
         [] OTHER -> IF k <= Len(C.toks) /\ Same(C.toks[k], SubSeq(C.t, i, x.end - 1)) /\ (k = 1 \/ nl = C.brk[k])
                     THEN i' = x.end /\ k' = k + 1 /\ operand' = (x.type \in OperandEnd) /\ nl' = FALSE /\ verdict' = verdict
                     ELSE Stop("no")
Spec == Init /\ [][Next]_vars
=============================================================================
