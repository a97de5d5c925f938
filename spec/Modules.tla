------------------------------ MODULE Modules ------------------------------
(* Import graphs and their linking.  First a graph is chosen, file by file     *)
(* (main is file N); then main is loaded: a file is loaded after everything    *)
(* it imports, in the order of its import list, and only once; importing a      *)
(* file that is being loaded, or file 0 (missing), is an error.                *)
(* Every terminal state is printed: the import lists, the outcome and the order *)
(* in which the files' code appears.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MAXIMP, CYCLES     \* files, longest import list, whether any file may import any file (or a missing one)
VARIABLES imp, phase, stack, order
vars == <<imp, phase, stack, order>>
\* the files that file i may import
Cands(i) == IF CYCLES THEN 0..N ELSE 1..(i - 1)
Lists(i) == UNION {[1..k -> Cands(i)] : k \in 0..MAXIMP}
In(x, q) == \E i \in DOMAIN q : q[i] = x
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

Init == imp = << >> /\ phase = "choose" /\ stack = << >> /\ order = << >>
Choose == /\ phase = "choose" /\ Len(imp) < N
          /\ \E l \in Lists(Len(imp) + 1) : imp' = Append(imp, l)
          /\ UNCHANGED <<stack, order>>
          /\ phase' = phase
Start == /\ phase = "choose" /\ Len(imp) = N
         /\ phase' = "load" /\ stack' = << <<N, 1>> >> /\ UNCHANGED <<imp, order>>
Load == /\ phase = "load" /\ stack # << >>
        /\ LET f == Last(stack)[1]  k == Last(stack)[2] IN
           IF k > Len(imp[f]) THEN stack' = Front(stack) /\ order' = Append(order, f) /\ phase' = phase
           ELSE LET g == imp[f][k]
                    s1 == [stack EXCEPT ![Len(stack)] = <<f, k + 1>>]
                IN  IF g = 0 \/ (\E i \in DOMAIN stack : stack[i][1] = g) THEN phase' = "error" /\ stack' = << >> /\ order' = << >>
                    ELSE IF In(g, order) THEN stack' = s1 /\ UNCHANGED <<order, phase>>
                    ELSE stack' = Append(s1, <<g, 1>>) /\ UNCHANGED <<order, phase>>
        /\ imp' = imp
Finish == phase = "load" /\ stack = << >> /\ phase' = "linked" /\ UNCHANGED <<imp, stack, order>>
Report == /\ phase \in {"linked", "error"} /\ PrintT("@@" \o ToJson([imp |-> imp, v |-> phase, order |-> order]))
          /\ phase' = "end" /\ UNCHANGED <<imp, stack, order>>
Next == Choose \/ Start \/ Load \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

OnceEach == \A i, j \in DOMAIN order : order[i] = order[j] => i = j
ImportsFirst == \A i \in DOMAIN order : \A k \in DOMAIN imp[order[i]] : \E j \in 1..(i - 1) : order[j] = imp[order[i]][k]
MainLast == phase = "linked" => order[Len(order)] = N
\* the loading is bounded: no file is ever twice on the stack
Bounded == \A i, j \in DOMAIN stack : stack[i][1] = stack[j][1] => i = j
=============================================================================
