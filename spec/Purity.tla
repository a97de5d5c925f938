------------------------------- MODULE Purity -------------------------------
(* Histories of transpilations.  A world has program trees (each in one of two  *)
(* versions), copies of the trees in two places, transpiler objects that live    *)
(* for the whole history, and fresh processes.  The result of a transpilation is *)
(* a function of the tree's current content and the target only.                *)
(*   T  object o transpiles program p to target t in the current place           *)
(*   F  a fresh process does so                                                  *)
(*   E  program p gets its other version                                         *)
(*   M  the other place becomes the current one                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN, OBJS, PROGS
VARIABLES ver, place, hist
vars == <<ver, place, hist>>
Targets == {"bash", "batch"}
Ev(a, o, p, t) == [a |-> a, o |-> o, p |-> p, t |-> t, v |-> IF p = 0 THEN 0 ELSE ver[p], w |-> place]
Init == ver = [p \in 1..PROGS |-> 1] /\ place = 1 /\ hist = << >>
\* objects and programs are interchangeable: a new one is the next one
Used(f) == {0} \cup {hist[i][f] : i \in DOMAIN hist}
Next1(f, x, n) == \A y \in 1..(x - 1) : y \in Used(f)
Grow(e) == hist' = Append(hist, e)
Transpile == \E o \in 1..OBJS, p \in 1..PROGS, t \in Targets : Next1("o", o, OBJS) /\ Next1("p", p, PROGS) /\ Grow(Ev("T", o, p, t)) /\ UNCHANGED <<ver, place>>
Fresh == \E p \in 1..PROGS, t \in Targets : Next1("p", p, PROGS) /\ Grow(Ev("F", 0, p, t)) /\ UNCHANGED <<ver, place>>
Edit == \E p \in 1..PROGS : p \in Used("p") /\ Grow(Ev("E", 0, p, "")) /\ ver' = [ver EXCEPT ![p] = 3 - @] /\ UNCHANGED place
Move == Grow(Ev("M", 0, 0, "")) /\ place' = 3 - place /\ UNCHANGED ver
Done == Len(hist) = LEN /\ PrintT("@@" \o ToJson([h |-> hist])) /\ hist' = Append(hist, Ev("end", 0, 0, "")) /\ UNCHANGED <<ver, place>>
Next == (Len(hist) < LEN /\ (Transpile \/ Fresh \/ Edit \/ Move)) \/ Done
Spec == Init /\ [][Next]_vars
\* what an ideal transpiler answers in the i-th step
Answer(i) == <<hist[i].p, hist[i].v, hist[i].t>>
\* equal questions have equal answers, whatever lies between them and wherever, by whomever they are asked
Functional == \A i, j \in DOMAIN hist : (hist[i].a \in {"T", "F"} /\ hist[j].a \in {"T", "F"} /\ hist[i].p = hist[j].p /\ hist[i].v = hist[j].v /\ hist[i].t = hist[j].t) => Answer(i) = Answer(j)
=============================================================================
