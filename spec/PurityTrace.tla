---------------------------- MODULE PurityTrace ----------------------------
(* Conformance of recorded histories with Purity: every recorded answer must be *)
(* the one that was given before to the same question (content, target).        *)
(* event: [q |-> content and target, r |-> answer, bad |-> neither script nor error] *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, k, known, verdict
vars == <<cs, k, known, verdict>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ k = 1 /\ known = << >> /\ verdict = "none"
Find(q) == {i \in DOMAIN known : known[i].q = q}
Stop(v, at) == verdict' = v /\ UNCHANGED <<k, known>> /\ (v # "accept" => PrintT("@@" \o ToJson([id |-> C.id, v |-> v, k |-> k, at |-> at])))
Next ==
  /\ verdict = "none" /\ cs' = cs
  /\ IF k > Len(C.ev) THEN Stop("accept", 0)
     ELSE LET e == C.ev[k]  f == Find(e.q) IN
          IF e.bad THEN Stop("bad", 0)
          ELSE IF f = {} THEN k' = k + 1 /\ known' = Append(known, [q |-> e.q, r |-> e.r, k |-> k]) /\ UNCHANGED verdict
          ELSE LET i == CHOOSE x \in f : TRUE IN
               IF known[i].r = e.r THEN k' = k + 1 /\ UNCHANGED <<known, verdict>> ELSE Stop("differs", known[i].k)
Spec == Init /\ [][Next]_vars
\* the answers recorded so far are a function of the question
Function == \A i, j \in DOMAIN known : known[i].q = known[j].q => i = j
=============================================================================
