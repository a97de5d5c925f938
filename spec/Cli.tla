--------------------------------- MODULE Cli ---------------------------------
(* The tsh command: options are read in pairs, then one target after the     *)
(* other is translated and written.                                          *)
(*                                                                           *)
(* A case: args, a sequence of [o, v] with o in i, o, t, bad (unknown        *)
(* option), lone (an option without a value) and v the kind of its value     *)
(* ("ok", "missing", "wrong" (a directory as input, a file as output         *)
(* directory), a target, "bad"); prog[t]: whether the library accepts the    *)
(* input for target t; pre[t]: what is at the place of t's output ("none",   *)
(* "old", "dir": not writable); self[t]: that place is the input file.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Targets == {"bash", "batch"}
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, i, opt, todo, fs, err, st
vars == <<cs, i, opt, todo, fs, err, st>>
C == Cases[cs]
NoOpt == [i |-> 0, o |-> 0, t |-> 0]

Init == /\ cs \in 1..Len(Cases) /\ i = 1 /\ opt = NoOpt /\ todo = << >>
        /\ fs = [in |-> "src", bash |-> Cases[cs].pre.bash, batch |-> Cases[cs].pre.batch, other |-> "none"]
        /\ err = FALSE /\ st = "options"

\* a value which is not usable is an error; it is left open if a usable value for the same option is given too
Usable(a) == a.v \in {"ok"} \cup Targets /\ a.o \in {"i", "o", "t"}
Open(a) == a.o \in {"i", "o"} /\ ~Usable(a) /\ \E k \in 1..Len(C.args) : C.args[k].o = a.o /\ Usable(C.args[k])

Pair == /\ st = "options" /\ i <= Len(C.args)
        /\ LET a == C.args[i] IN
           \/ /\ Usable(a) /\ opt' = [opt EXCEPT ![a.o] = 1] /\ todo' = (IF a.o = "t" THEN Append(todo, a.v) ELSE todo) /\ UNCHANGED <<err, st>>
           \/ /\ ~Usable(a) /\ err' = TRUE /\ st' = "end" /\ UNCHANGED <<opt, todo>>
           \/ /\ Open(a) /\ UNCHANGED <<opt, todo, err, st>>
        /\ i' = i + 1 /\ UNCHANGED <<cs, fs>>
Options == /\ st = "options" /\ i > Len(C.args)
           /\ IF opt.i = 1 /\ opt.o = 1 /\ opt.t = 1 THEN st' = "targets" /\ UNCHANGED err ELSE st' = "end" /\ err' = TRUE
           /\ UNCHANGED <<cs, i, opt, todo, fs>>

Good(t) == C.prog[t] /\ ~C.self[t] /\ C.pre[t] # "dir"
\* a target that succeeds is written in full; a target that fails is not touched and the command may stop or go on
Target == /\ st = "targets" /\ todo # << >>
          /\ LET t == Head(todo) IN
             IF Good(t) THEN fs' = [fs EXCEPT ![t] = "lib"] /\ todo' = Tail(todo) /\ UNCHANGED <<err, st>>
             ELSE /\ err' = TRUE /\ fs' = fs /\ (todo' = Tail(todo) \/ todo' = << >>) /\ UNCHANGED st
          /\ UNCHANGED <<cs, i, opt>>
\* the targets can also be checked before anything is written
Refuse == /\ st = "targets" /\ ~err /\ (\E k \in 1..Len(todo) : ~Good(todo[k])) /\ err' = TRUE /\ todo' = << >> /\ UNCHANGED <<cs, i, opt, fs, st>>
End == st = "targets" /\ todo = << >> /\ st' = "end" /\ UNCHANGED <<cs, i, opt, todo, fs, err>>

\* what was seen after the real command ended
Seen == /\ st = "end" /\ st' = "seen" /\ UNCHANGED <<cs, i, opt, todo, fs, err>>
        /\ IF "obs" \in DOMAIN C THEN (IF C.obs.fs = fs /\ C.obs.err = err THEN PrintT("@@" \o ToJson([id |-> C.id])) ELSE TRUE) ELSE TRUE
Next == Pair \/ Options \/ Target \/ Refuse \/ End \/ Seen
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Asked == {C.args[k].v : k \in {k \in 1..Len(C.args) : C.args[k].o = "t"}} \cap Targets
Ended == st \in {"end", "seen"}
InputUntouched == fs.in = "src" /\ fs.other = "none"
OnlyAsked == \A t \in Targets : fs[t] # C.pre[t] => t \in Asked
FailingUntouched == \A t \in Targets : ~Good(t) => fs[t] = C.pre[t]
NothingBeforeOptions == st = "options" => fs.bash = C.pre.bash /\ fs.batch = C.pre.batch
\* without an error the outcome depends on the set of targets only
Complete == Ended /\ ~err => Asked # {} /\ \A t \in Targets : fs[t] = IF t \in Asked THEN "lib" ELSE C.pre[t]
ErrorKnown == Ended /\ err => (\E k \in 1..Len(C.args) : ~Usable(C.args[k])) \/ (\E o \in {"i", "o", "t"} : opt[o] = 0) \/ \E t \in Asked : ~Good(t)
=============================================================================
