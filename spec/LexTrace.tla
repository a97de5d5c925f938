------------------------------ MODULE LexTrace ------------------------------
(* Conformance of recorded token streams with the token grammar: the tokens    *)
(* reported for a text must be the ones TshLexer splits off, in order.         *)
EXTENDS TshLexer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, i, p, k, operand, verdict
vars == <<cs, i, p, k, operand, verdict>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ i = 1 /\ p = <<1, 1, 1>> /\ k = 1 /\ operand = FALSE /\ verdict = "none"
Say(v, x) == PrintT("@@" \o ToJson([id |-> C.id, v |-> v, at |-> i, k |-> k, lex |-> x, p |-> p]))
Nothing == [type |-> "", end |-> 0, val |-> << >>]
\* r: recorded token <<type, value, row, column>>
Same(r, x) == r[1] = x.type /\ r[2] = x.val /\ r[3] = p[1] /\ (r[4] = p[2] \/ r[4] = p[3])
Next ==
  /\ verdict = "none" /\ cs' = cs
  /\ IF i > Len(C.t) THEN
       /\ UNCHANGED <<i, p, k, operand>>
       /\ verdict' = IF C.err THEN "error" ELSE IF k <= Len(C.toks) THEN "extra" ELSE "accept"
       /\ verdict' # "accept" => Say(verdict', Nothing)
     ELSE LET x == Lexeme(C.t, i, operand) IN
       CASE x.type = "ERROR" -> /\ UNCHANGED <<i, p, k, operand>>
                                /\ verdict' = IF C.err THEN "accept" ELSE "no-error"
                                /\ verdict' # "accept" => Say(verdict', x)
         [] x.type = "UNSPEC" -> UNCHANGED <<i, p, k, operand>> /\ verdict' = "unspec" /\ Say("unspec", x)
         [] x.type \in {"SPACE", "COMMENT"} -> i' = x.end /\ p' = Advance(C.t, i, x.end, p) /\ UNCHANGED <<k, operand, verdict>>
         [] OTHER -> IF C.err THEN    \* tokens in front of an error are not judged
                          i' = x.end /\ p' = p /\ k' = k /\ operand' = (x.type \in OperandEnd) /\ UNCHANGED verdict
                     ELSE IF k > Len(C.toks) \/ ~Same(C.toks[k], x) THEN
                          UNCHANGED <<i, p, k, operand>> /\ verdict' = "token" /\ Say("token", x)
                     ELSE i' = x.end /\ p' = Advance(C.t, i, x.end, p) /\ k' = k + 1 /\ operand' = (x.type \in OperandEnd) /\ UNCHANGED verdict
Spec == Init /\ [][Next]_vars
\* Every step consumes at least one character: each character belongs to exactly one lexeme.
Progress == [][verdict' = "none" => i' > i]_vars
=============================================================================
