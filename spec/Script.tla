------------------------------- MODULE Script -------------------------------
(* Well-formed scripts.                                                      *)
(*                                                                           *)
(* Text: a machine reads the events of a Batch script from top to bottom --  *)
(* parentheses that open and close, labels, jumps, calls -- with the stack   *)
(* of open blocks as its state, and says what is wrong (Text).               *)
(*                                                                           *)
(* Flow: the control-flow graph that cmd.exe follows is compared with the    *)
(* control flow of the source program.  Both are reduced to the relation     *)
(* "site b can be executed next after site a", a site being a statement of   *)
(* the program that can be recognised in the script: everything the source   *)
(* requires (Must) has to be there and nothing it excludes (May).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

---------------------------------------------------------------------------
\* reading
Read0 == [d |-> << >>, nb |-> 0, lab |-> << >>, goto |-> << >>, call |-> << >>, bad |-> << >>, err |-> << >>]

Read(s, e) ==
  CASE e.k = "open" -> [s EXCEPT !.d = Append(@, s.nb + 1), !.nb = @ + 1]
    [] e.k = "close" -> IF s.d = << >> THEN [s EXCEPT !.bad = Append(@, "a parenthesis is closed that is not open")] ELSE [s EXCEPT !.d = SubSeq(@, 1, Len(@) - 1)]
    [] e.k = "label" -> [s EXCEPT !.lab = Append(@, [n |-> e.n, d |-> s.d])]
    [] e.k = "goto" -> [s EXCEPT !.goto = Append(@, [n |-> e.n, d |-> s.d])]
    [] e.k = "call" -> [s EXCEPT !.call = Append(@, e.n)]
    [] OTHER -> [s EXCEPT !.bad = Append(@, e.n)]

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Names(s) == {s.lab[i].n : i \in 1..Len(s.lab)}

\* what is wrong with a script that was read completely
Text(s) ==
  s.bad
  \o (IF s.d # << >> THEN <<"a parenthesis is not closed">> ELSE << >>)
  \o (IF Cardinality(Names(s)) # Len(s.lab) THEN <<"label defined twice: " \o (CHOOSE n \in Names(s) : \E i, j \in 1..Len(s.lab) : i # j /\ s.lab[i].n = n /\ s.lab[j].n = n)>> ELSE << >>)
  \o (LET u == {s.goto[i].n : i \in 1..Len(s.goto)} \ (Names(s) \cup {"eof"}) IN IF u # {} THEN <<"jump to a missing label: " \o (CHOOSE n \in u : TRUE)>> ELSE << >>)
  \o (LET u == {s.call[i] : i \in 1..Len(s.call)} \ Names(s) IN IF u # {} THEN <<"call of a missing routine: " \o (CHOOSE n \in u : TRUE)>> ELSE << >>)
  \o (LET bad == {i \in 1..Len(s.goto) : \E j \in 1..Len(s.lab) : s.lab[j].n = s.goto[i].n /\ ~Prefix(s.lab[j].d, s.goto[i].d)}
      IN IF bad # {} THEN <<"jump into a block it does not belong to: " \o s.goto[CHOOSE i \in bad : TRUE].n>> ELSE << >>)

\* a Bash script: functions defined (in order), words used as commands which are neither of the shell nor programs, syntax errors
BashText(defs, uses, syntax, all) ==
  LET D == {defs[j] : j \in 1..Len(defs)}
      U == {uses[j] : j \in 1..Len(uses)}
  IN (IF syntax # "" THEN <<"Bash rejects the script: " \o syntax>> ELSE << >>)
     \o (IF Cardinality(D) # Len(defs) THEN <<"Bash function defined twice">> ELSE << >>)
     \o (IF U \ D # {} THEN <<"Bash function missing: " \o (CHOOSE n \in U \ D : TRUE)>> ELSE << >>)
     \o (IF all /\ D \ U # {} THEN <<"Bash function which is never used: " \o (CHOOSE n \in D \ U : TRUE)>> ELSE << >>)

---------------------------------------------------------------------------
\* flow of a script: nodes [k, s, m, r]; sites are integers: Enter, m > 0 (a marked statement), Call + m, Leave
Enter == 0
Call == 100000
Leave == 900000

Succ(N, n) == {N[n].s[i] : i \in 1..Len(N[n].s)}

RECURSIVE Close(_, _, _, _)
\* nodes reached from the nodes f through nodes that are not in stop (the members of stop are included)
Close(N, stop, f, seen) ==
  IF f = {} THEN seen
  ELSE LET nx == UNION {Succ(N, n) : n \in f \ stop} \ seen IN Close(N, stop, nx, seen \cup nx)

From(N, stop, n) == LET f == Succ(N, n) IN Close(N, stop, f, f)

\* all relations of one script: routines (entries) -> {<<site, site>>}
Flow(N, start) ==
  LET marks == {n \in 1..Len(N) : N[n].k = "site"}
      exits == {n \in 1..Len(N) : N[n].k = "exit"}
      calls == {n \in 1..Len(N) : N[n].k = "call" /\ N[n].r > 0}
      entries == {N[n].r : n \in calls}
      hard == marks \cup exits
      \* the first sites of a routine; a routine without any marked statement is transparent
      firsts == [e \in entries |-> {N[n].m : n \in (Close(N, hard, {e}, {e}) \cap marks)}]
      user == {e \in entries : firsts[e] # {}}
      ucalls == {n \in calls : N[n].r \in user}
      stop == hard \cup ucalls
      site(n) == CASE N[n].k = "site" -> N[n].m [] N[n].k = "exit" -> Leave [] OTHER -> Call + (CHOOSE k \in firsts[N[n].r] : TRUE)
      body(e) == Close(N, exits, {e}, {e})
      roots == {start} \cup user
      rel(e) == LET b == body(e)
                    r == {<<Enter, site(n)>> : n \in (Close(N, stop, {e}, {e}) \cap stop)}
                         \cup UNION {{<<site(m), site(n)>> : n \in (From(N, stop, m) \cap stop)} : m \in (b \cap stop) \ exits}
                IN {x \in r : x[1] # x[2]}
      all == {start} \cup entries
  IN [main |-> rel(start),
      fns |-> {[n |-> firsts[e], r |-> rel(e)] : e \in user},
      \* code that belongs to two routines: a jump leaves its routine
      shared |-> \E a, b \in all : a # b /\ body(a) \cap body(b) # {}]

---------------------------------------------------------------------------
\* flow of the source: T[i] = [k, m | b (blocks), e (last block is an else)] with k in
\*   m (statement), call, if, loop (b[1] the body, e: it has no condition),
\*   one (a switch with a default clause only, whose test is constant), brk, cont, ret, panic
\* result: out, brk, cont: sites after which control is at the end / break / continue of the block; e: edges
NoFlow(in) == [out |-> in, brk |-> {}, cont |-> {}, e |-> {}]
Edge(in, m) == {<<a, m>> : a \in in}

RECURSIVE Blk(_, _, _, _), Stm(_, _, _, _), Loop(_, _, _, _, _)
Blk(T, b, in, may) ==
  IF b = << >> THEN NoFlow(in)
  ELSE LET x == Stm(T, b[1], in, may)
           y == Blk(T, Tail(b), x.out, may)
       IN [out |-> y.out, brk |-> x.brk \cup y.brk, cont |-> x.cont \cup y.cont, e |-> x.e \cup y.e]
Stm(T, i, in, may) ==
  LET x == T[i] IN
  CASE x.k = "m" -> [NoFlow({x.m}) EXCEPT !.e = Edge(in, x.m), !.out = IF in = {} THEN {} ELSE {x.m}]
    [] x.k = "call" -> [NoFlow({Call + x.m}) EXCEPT !.e = Edge(in, Call + x.m) \cup (IF may /\ in # {} THEN {<<Call + x.m, Leave>>} ELSE {}), !.out = IF in = {} THEN {} ELSE {Call + x.m}]
    [] x.k = "brk" -> [NoFlow({}) EXCEPT !.brk = in]
    [] x.k = "cont" -> [NoFlow({}) EXCEPT !.cont = in]
    [] x.k \in {"ret", "panic"} -> [NoFlow({}) EXCEPT !.e = Edge(in, Leave)]
    [] x.k \in {"if", "one"} -> LET rs == {Blk(T, x.b[j], in, may) : j \in 1..Len(x.b)}
                     IN [out |-> UNION {r.out : r \in rs} \cup (IF x.e /\ ~(x.k = "one" /\ may) THEN {} ELSE in), brk |-> UNION {r.brk : r \in rs}, cont |-> UNION {r.cont : r \in rs}, e |-> UNION {r.e : r \in rs}]
    [] OTHER -> Loop(T, x, in, may, in)
\* all: the sites after which the condition can be evaluated
Loop(T, x, in, may, all) ==
  LET r == Blk(T, x.b[1], all, may)
      n == all \cup r.out \cup r.cont
  IN IF n # all THEN Loop(T, x, in, may, n)
     ELSE [out |-> (IF x.e /\ ~may THEN {} ELSE all) \cup r.brk, brk |-> {}, cont |-> {}, e |-> r.e]

Source(T, b, may) == LET r == Blk(T, b, {Enter}, may) IN {x \in r.e \cup Edge(r.out, Leave) : x[1] # x[2]}

Show(e) == ToString(e[1]) \o " -> " \o ToString(e[2])
Diff(got, T, b, what) ==
  LET must == Source(T, b, FALSE)
      may == Source(T, b, TRUE)
  IN (IF got \ may # {} THEN <<what \o ": the script has a way the program does not have: " \o Show(CHOOSE x \in got \ may : TRUE)>> ELSE << >>)
     \o (IF must \ got # {} THEN <<what \o ": the script lacks a way of the program: " \o Show(CHOOSE x \in must \ got : TRUE)>> ELSE << >>)

\* fs: functions of the source [m (the marker its body starts with), b]
FlowBad(N, start, T, b, fs) ==
  LET g == Flow(N, start)
      Fn(m) == {f \in g.fns : f.n = {m}}
      RECURSIVE Each(_)
      Each(j) == IF j > Len(fs) THEN << >>
                 ELSE (IF Cardinality(Fn(fs[j].m)) # 1 THEN <<"function not found in the script: " \o ToString(fs[j].m)>>
                       ELSE Diff((CHOOSE f \in Fn(fs[j].m) : TRUE).r, T, fs[j].b, "function " \o ToString(fs[j].m))) \o Each(j + 1)
  IN (IF g.shared THEN <<"a jump leaves its routine">> ELSE << >>) \o Diff(g.main, T, b, "main") \o Each(1)
Shared(N, start) == Flow(N, start).shared
=============================================================================
