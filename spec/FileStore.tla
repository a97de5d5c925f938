----------------------------- MODULE FileStore -----------------------------
(* write, read and exists as a line store: a path is absent or holds a        *)
(* sequence of written texts.  Contents and paths are abstract here (numbers); *)
(* the driver gives them concrete spellings.  Every history of length K is a   *)
(* behaviour; each is printed with the observations the store prescribes and   *)
(* is replayed by a compiled program.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Paths, Contents, K
Absent == << -1 >>
VARIABLES fs, hist, init
vars == <<fs, hist, init>>

\* A path may be an empty file from the start.
Init == init \in SUBSET Paths /\ fs = [p \in Paths |-> IF p \in init THEN << >> ELSE Absent] /\ hist = << >>

Note(op, p, c, obs) == hist' = Append(hist, [op |-> op, p |-> p, c |-> c, obs |-> obs])
Write(p, c)  == fs' = [fs EXCEPT ![p] = << c >>] /\ Note("write", p, c, << >>)
Append_(p, c) == fs' = [fs EXCEPT ![p] = IF @ = Absent THEN << c >> ELSE Append(@, c)] /\ Note("append", p, c, << >>)
Read(p)      == fs[p] # Absent /\ UNCHANGED fs /\ Note("read", p, 0, fs[p])
Exists(p)    == UNCHANGED fs /\ Note("exists", p, 0, << IF fs[p] = Absent THEN 0 ELSE 1 >>)

Next == /\ Len(hist) < K /\ UNCHANGED init
        /\ \E p \in Paths : \/ \E c \in Contents : Write(p, c) \/ Append_(p, c)
                            \/ Read(p) \/ Exists(p)
Spec == Init /\ [][Next]_vars

\* Every complete history, with the final store.
Report == Len(hist) = K => PrintT("@@" \o ToJson([h |-> hist, init |-> init, fs |-> [p \in Paths |-> fs[p]]]))

\* What the property says, on the abstract store.
Last_(q) == q[Len(q)]
ReadYourWrite ==
  [][ \A p \in Paths :
        /\ (Last_(hist').op = "write" /\ Last_(hist').p = p) => fs'[p] = << Last_(hist').c >>
        /\ (Last_(hist').op = "append" /\ Last_(hist').p = p /\ fs[p] # Absent) => fs'[p] = Append(fs[p], Last_(hist').c)
        /\ (Last_(hist').p # p \/ Last_(hist').op \in {"read", "exists"}) => fs'[p] = fs[p] ]_vars
=============================================================================
