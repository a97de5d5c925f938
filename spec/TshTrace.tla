------------------------------ MODULE TshTrace ------------------------------
(* Conformance: the execution observed from an emitted script must be a       *)
(* behaviour of TshMachine.  The observed standard output is the trace; every *)
(* text the machine emits must be the next part of it; at the end the whole   *)
(* trace must be consumed, and exit status, standard error, files and argv    *)
(* log must agree.                                                           *)
EXTENDS TshMachine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxSteps == 60000

VARIABLES cs, s, pos, n, verdict
vars == <<cs, s, pos, n, verdict>>

Init == /\ cs \in 1..Len(Cases)
        /\ s = Start(Cases[cs])
        /\ pos = 0 /\ n = 0 /\ verdict = "none"

C == Cases[cs]
Accepts(txt) == pos + Len(txt) <= Len(C.out) /\ SubSeq(C.out, pos + 1, pos + Len(txt)) = txt
Say(v, what, exp) == PrintT("@@" \o ToJson([v |-> v, id |-> C.id, what |-> what, exp |-> exp, pos |-> pos, n |-> n]))

Conclude(st) ==
  IF st.st = "unspec" THEN "unspec"
  ELSE IF pos' # Len(C.out) THEN "extra-output"
  ELSE IF C.code # (IF st.st = "panic" THEN 1 ELSE 0) THEN "exit-status"
  ELSE IF C.err # "" /\ ~st.noisy THEN "stderr"
  ELSE IF C.ckfs /\ st.fs # C.fsout THEN "files"
  ELSE IF C.ckargv /\ st.argv # C.argv THEN "argv"
  ELSE "accept"

Next ==
  /\ verdict = "none"
  /\ LET t == Step(C, s) IN
     /\ s' = t /\ cs' = cs /\ n' = n + 1
     /\ IF ~Accepts(t.out) THEN
          /\ pos' = pos /\ verdict' = "output" /\ Say("reject", "output", t.out)
        ELSE
          /\ pos' = pos + Len(t.out)
          /\ IF t.st # "run" \/ t.K = << >> THEN
               /\ verdict' = Conclude(t)
               /\ CASE verdict' = "accept" -> Say("accept", "", "")
                    [] verdict' = "unspec" -> Say("unspec", "", "")
                    [] verdict' = "files"  -> Say("reject", "files", ToString(t.fs))
                    [] verdict' = "argv"   -> Say("reject", "argv", ToString(t.argv))
                    [] verdict' = "exit-status" -> Say("reject", "exit-status", ToString(IF t.st = "panic" THEN 1 ELSE 0))
                    [] OTHER -> Say("reject", verdict', "")
             ELSE IF n > MaxSteps THEN verdict' = "limit" /\ Say("unspec", "limit", "")
             ELSE verdict' = "none"

Spec == Init /\ [][Next]_vars

\* Sanity of the machine itself, checked in every state reached.
WellFormed == /\ Len(s.F) >= 1
              /\ \A i \in 2..Len(s.F) : s.F[i].b <= Len(s.V)
              /\ Len(s.F) - 1 = Cardinality({i \in DOMAIN s.K : s.K[i][1] = "R"}) \/ s.st = "panic"
\* Only the innermost call's frame, the heap and globals may change in a step that neither calls nor returns.
FrameIsolation == [][ \A i \in 1..(Len(s.F) - 1) : i <= Len(s'.F) - 1 => s'.F[i].loc = s.F[i].loc ]_vars
=============================================================================
