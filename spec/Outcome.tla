------------------------------ MODULE Outcome ------------------------------
(* The life of a transpilation request.  The files are read, split into lexemes *)
(* and linked, the program is checked, a script is emitted.  Every phase may     *)
(* refuse; where the input prescribes what a phase does, it must do that:        *)
(*   C.missing  the main file or a file it imports cannot be read                *)
(*   C.graph    imports: "" (not prescribed), "linked" or "error" (Modules)      *)
(*   C.lex      C.t is the text of the main file; TshLexer decides whether it    *)
(*              can be split into lexemes                                        *)
(*   C.static   "" or the verdict "ok"/"bad" of TshStatic                        *)
(* The only terminal states are a script without an error and an error with a    *)
(* message and without a script, within the time bound.  The observed outcome    *)
(* C.obs (S script, E error, anything else: crash, hang, both, empty message)    *)
(* is accepted iff it is a terminal state that is reachable for this input.      *)
EXTENDS TshLexer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, phase, i, operand
vars == <<cs, phase, i, operand>>
C == Cases[cs]
Terminal == {"script", "error"}
Init == cs \in 1..Len(Cases) /\ phase = "read" /\ i = 1 /\ operand = FALSE
Keep == UNCHANGED <<cs, i, operand>>
Read == phase = "read" /\ Keep /\ (IF C.missing THEN phase' = "error" ELSE phase' = "lex")
Lex == /\ phase = "lex" /\ UNCHANGED cs
       /\ IF ~C.lex THEN phase' \in {"link", "error"} /\ UNCHANGED <<i, operand>>
          ELSE IF i > Len(C.t) THEN phase' = "link" /\ UNCHANGED <<i, operand>>
          ELSE LET x == Lexeme(C.t, i, operand) IN
            CASE x.type = "ERROR" -> phase' = "error" /\ UNCHANGED <<i, operand>>
              [] x.type = "UNSPEC" -> phase' \in {"link", "error"} /\ UNCHANGED <<i, operand>>
              [] OTHER -> /\ i' = x.end /\ UNCHANGED phase
                          /\ operand' = IF x.type \in {"SPACE", "COMMENT"} THEN operand ELSE IF x.type = "NEWLINE" THEN FALSE ELSE x.type \in OperandEnd
Link == phase = "link" /\ Keep /\ CASE C.graph = "linked" -> phase' = "check" [] C.graph = "error" -> phase' = "error" [] OTHER -> phase' \in {"check", "error"}
Chk == phase = "check" /\ Keep /\ CASE C.static = "ok" -> phase' = "emit" [] C.static = "bad" -> phase' = "error" [] OTHER -> phase' \in {"emit", "error"}
Emit == phase = "emit" /\ Keep /\ phase' = "script"
Observe == /\ phase \in Terminal /\ Keep /\ phase' = "end"
           /\ (C.obs = (IF phase = "script" THEN "S" ELSE "E") => PrintT("@@" \o ToJson([id |-> C.id])))
Next == Read \/ Lex \/ Link \/ Chk \/ Emit \/ Observe
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every request ends: each step either reaches a later phase or consumes at least one character of a finite text
Rank == [read |-> 7, lex |-> 6, link |-> 5, check |-> 4, emit |-> 3, script |-> 2, error |-> 2, end |-> 1]
Progress == [][Rank[phase'] < Rank[phase] \/ (phase' = phase /\ i' > i)]_vars
=============================================================================
