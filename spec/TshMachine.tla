----------------------------- MODULE TshMachine -----------------------------
(* The TypeShell abstract machine: Go's meaning of the language's constructs  *)
(* with the README's deviations (eager && and ||, all conditions of a chain   *)
(* evaluated before the first branch, growable reference slices, panic prints *)
(* a line and ends the program with status 1).                               *)
(*                                                                           *)
(* A program ("case") is a record                                            *)
(*   N     flat table of syntax nodes, children referenced by index          *)
(*   mods  modules: [blk |-> top-level block, imp |-> alias -> module,        *)
(*                   fn |-> name -> function node]                           *)
(*   main  index of the main module                                          *)
(*   bits  width of int                                                      *)
(* A machine state is a record                                               *)
(*   K    control stack   (top at the end)                                   *)
(*   V    operand stack                                                      *)
(*   F    frames: [m |-> module, loc |-> locals, b |-> operand stack base]    *)
(*   G    globals, per module                                                *)
(*   H    heap of slices: [t |-> element type, e |-> elements]                *)
(*   fs   file system (path -> content), inp  unread lines of standard input *)
(*   argv log of delivered command argument vectors                          *)
(*   noisy whether a command wrote to standard error                         *)
(*   out  text produced by the step just taken                               *)
(*   st   "run", "exit", "panic", "unspec"                                   *)
(* Values: <<"i",Int64>> <<"b",BOOLEAN>> <<"s",STRING>> <<"r",heap index>>     *)
(*         <<"m",values>> (several returned values), <<"v">> (none)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Int64

Emp == [x \in {} |-> 0]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
FrontN(q, n) == SubSeq(q, 1, Len(q) - n)
LastN(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
RECURSIVE RevSeq(_)
RevSeq(q) == IF q = << >> THEN << >> ELSE Append(RevSeq(Tail(q)), Head(q))
RECURSIVE JoinStr(_, _)
JoinStr(q, sep) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinStr(Tail(q), sep)
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE (x :> v) @@ f

-----------------------------------------------------------------------------
(* Values *)
VI(n) == <<"i", n>>
VB(b) == <<"b", b>>
VS(x) == <<"s", x>>
VR(r) == <<"r", r>>
VVoid == <<"v">>
Unspec == <<"u">>          \* no meaning prescribed (out of range, division by zero, ...)
IsU(v) == v[1] = "u"
Zero(t) == CASE t = "i" -> VI(<<0>>) [] t = "b" -> VB(FALSE) [] t = "s" -> VS("")
Text(v) == CASE v[1] = "s" -> v[2] [] v[1] = "i" -> Decimal(v[2]) [] v[1] = "b" -> (IF v[2] THEN "1" ELSE "0")

\* 32 bits: cmd.exe cannot read -2^31 back as a number, nothing is prescribed for it.
Min32 == <<0, 0, 0, 128, 255, 255, 255, 255>>
In32(v, bits) == IF bits = 32 /\ v[1] = "i" /\ v[2] = Min32 THEN Unspec ELSE v
ArithI(o, a, b, bits) == In32(
  CASE o = "+" -> VI(Add(a, b, bits))
    [] o = "-" -> VI(Sub(a, b, bits))
    [] o = "*" -> VI(Mul(a, b, bits))
    [] o = "/" -> IF IsZero(b) THEN Unspec ELSE VI(Div(a, b, bits))
    [] o = "%" -> IF IsZero(b) THEN Unspec ELSE VI(Rem(a, b, bits)), bits)
Arith(o, x, y, bits) ==
  IF x[1] = "s" THEN VS(x[2] \o y[2]) ELSE ArithI(o, x[2], y[2], bits)
Cmp(o, x, y) ==
  CASE o = "==" -> x[2] = y[2]
    [] o = "!=" -> x[2] # y[2]
    [] o = "<"  -> Less(x[2], y[2])
    [] o = "<=" -> ~Less(y[2], x[2])
    [] o = ">"  -> Less(y[2], x[2])
    [] o = ">=" -> ~Less(x[2], y[2])

-----------------------------------------------------------------------------
(* Slices and strings *)
InR(i, lo, hi) == IsSmall(i) /\ i[1] >= lo /\ i[1] <= hi
ElemAt(H, v, i) ==
  IF v[1] = "s" THEN (IF InR(i, 0, Len(v[2]) - 1) THEN VS(SubSeq(v[2], i[1] + 1, i[1] + 1)) ELSE Unspec)
  ELSE (IF InR(i, 0, Len(H[v[2]].e) - 1) THEN H[v[2]].e[i[1] + 1] ELSE Unspec)
LenOf(H, v) == IF v[1] = "s" THEN Len(v[2]) ELSE Len(H[v[2]].e)
SubStr(x, a, b) == IF InR(a, 0, Len(x)) /\ InR(b, a[1], Len(x)) THEN VS(SubSeq(x, a[1] + 1, b[1])) ELSE Unspec
\* Assignment at index i (0-based): extend and fill the gap with the zero value.
StoreAt(sl, i, v) ==
  [sl EXCEPT !.e = [j \in 1..(IF i + 1 > Len(@) THEN i + 1 ELSE Len(@)) |->
                      IF j = i + 1 THEN v ELSE IF j <= Len(@) THEN @[j] ELSE Zero(sl.t)]]
CopyInto(dst, src) ==
  [dst EXCEPT !.e = [j \in 1..(IF Len(src.e) > Len(@) THEN Len(src.e) ELSE Len(@)) |->
                       IF j <= Len(src.e) THEN src.e[j] ELSE @[j]]]

-----------------------------------------------------------------------------
(* Files: a path holds text; write stores a line, read drops one newline.    *)
Chomp(x) == IF Len(x) > 0 /\ SubSeq(x, Len(x), Len(x)) = "\n" THEN SubSeq(x, 1, Len(x) - 1) ELSE x
FWrite(fs, p, d, app) == Put(fs, p, (IF app /\ Has(fs, p) THEN fs[p] ELSE "") \o d \o "\n")

(* Commands: the probe programs the harness installs.                        *)
\* run: <<stdout, status>>
RECURSIVE Brackets(_)
Brackets(as) == IF as = << >> THEN "" ELSE "<" \o Head(as) \o ">" \o Brackets(Tail(as))
RunProg(prog, as, inp) ==
  CASE prog = "pshow" -> << Brackets(as) \o "\n", 0 >>
    [] prog = "pecho" -> << (IF as = << >> THEN "" ELSE as[1]), 0 >>
    [] prog = "pfilt" -> << (IF as = << >> THEN "" ELSE as[1]) \o "(" \o inp \o ")\n", 0 >>
    [] prog = "pcat"  -> << inp, 0 >>
    [] prog = "pfail" -> << (IF Len(as) > 1 THEN as[2] ELSE ""), (CHOOSE n \in 0..255 : ToString(n) = as[1]) >>
    [] prog = "perr"  -> << as[1], 0 >>       \* its other arguments go to standard error, which no pipe and no capture sees
Noisy(st) == \E j \in DOMAIN st : st[j].p = "perr"
\* st: sequence of [p |-> program, n |-> number of arguments]; as: all arguments, flattened
RECURSIVE Lines(_)
Lines(q) == IF q = << >> THEN "" ELSE Head(q) \o "\n" \o Lines(Tail(q))
RECURSIVE RunPipe(_, _, _, _, _)
RunPipe(st, as, inp, code, log) ==
  IF st = << >> THEN [out |-> inp, code |-> code, log |-> log]
  ELSE LET a == SubSeq(as, 1, st[1].n)
           r == RunProg(st[1].p, a, inp)
       IN  RunPipe(Tail(st), SubSeq(as, st[1].n + 1, Len(as)), r[1], r[2], Append(log, <<st[1].p>> \o a))

-----------------------------------------------------------------------------
(* Names: a function's own variables first, then its module's globals.       *)
Top(s) == Last(s.F)
InFn(s) == Len(s.F) > 1
Read(s, x) == IF Has(Top(s).loc, x) THEN Top(s).loc[x] ELSE s.G[Top(s).m][x]
SetG(s, x, v) == [s EXCEPT !.G[Top(s).m] = Put(@, x, v)]
SetL(s, x, v) == [s EXCEPT !.F[Len(s.F)].loc = Put(@, x, v)]
Assign(s, x, v) == IF Has(Top(s).loc, x) THEN SetL(s, x, v) ELSE SetG(s, x, v)
Define(s, x, v) == IF InFn(s) THEN SetL(s, x, v) ELSE SetG(s, x, v)
RECURSIVE BindAll(_, _, _, _)
BindAll(s, xs, vs, op) ==
  IF xs = << >> THEN s
  ELSE BindAll(IF op = "def" THEN Define(s, Head(xs), Head(vs)) ELSE Assign(s, Head(xs), Head(vs)), Tail(xs), Tail(vs), op)

-----------------------------------------------------------------------------
(* Operators on already evaluated operands, without side effects.            *)
Prim(c, s, nd, a) ==
  CASE nd.k = "lit" -> nd.v
    [] nd.k = "var" -> Read(s, nd.n)
    [] nd.k = "grp" -> a[1]
    [] nd.k = "bin" -> Arith(nd.o, a[1], a[2], c.bits)
    [] nd.k = "cmp" -> VB(Cmp(nd.o, a[1], a[2]))
    [] nd.k = "log" -> VB(IF nd.o = "&&" THEN a[1][2] /\ a[2][2] ELSE a[1][2] \/ a[2][2])
    [] nd.k = "not" -> VB(~a[1][2])
    [] nd.k = "idx" -> ElemAt(s.H, a[1], a[2][2])
    [] nd.k = "sub" -> LET x == a[1][2]
                           lo == IF nd.o = "a" \/ nd.o = "ab" THEN a[2][2] ELSE <<0>>
                           hi == IF nd.o = "ab" THEN a[3][2] ELSE IF nd.o = "b" THEN a[2][2] ELSE <<Len(x)>>
                       IN  SubStr(x, lo, hi)
    [] nd.k = "len" -> VI(<<LenOf(s.H, a[1])>>)
    [] nd.k = "itoa" -> VS(Decimal(a[1][2]))
    [] nd.k = "exists" -> VB(Has(s.fs, a[1][2]) \/ a[1][2] \in {c.dirs[i] : i \in DOMAIN c.dirs})
    [] nd.k = "read" -> IF Has(s.fs, a[1][2]) THEN VS(Chomp(s.fs[a[1][2]])) ELSE Unspec

RECURSIVE Ev(_, _, _)
\* (tuples, because TLC would evaluate a function expression again at each application)
EvAll(c, s, cs) ==
  CASE Len(cs) = 0 -> << >>
    [] Len(cs) = 1 -> << Ev(c, s, cs[1]) >>
    [] Len(cs) = 2 -> << Ev(c, s, cs[1]), Ev(c, s, cs[2]) >>
    [] Len(cs) = 3 -> << Ev(c, s, cs[1]), Ev(c, s, cs[2]), Ev(c, s, cs[3]) >>
Ev(c, s, n) ==
  LET nd == c.N[n]
      a  == EvAll(c, s, nd.c)
  IN  IF \E j \in DOMAIN a : IsU(a[j]) THEN Unspec ELSE Prim(c, s, nd, a)

-----------------------------------------------------------------------------
(* Control *)
PushK(s, items) == [s EXCEPT !.K = @ \o items]
PopK(s) == [s EXCEPT !.K = Front(@)]
PushV(s, v) == IF IsU(v) THEN [s EXCEPT !.st = "unspec"] ELSE [s EXCEPT !.V = Append(@, v)]
EvalItems(cs) == [j \in 1..Len(cs) |-> <<"E", cs[Len(cs) + 1 - j]>>]
BlockItems(b) == << <<"B", b, 1>> >>
OptStmt(n) == IF n = 0 THEN << >> ELSE << <<"S", n>> >>
LastIdx(K, tag) == CHOOSE i \in 1..Len(K) : K[i][1] = tag /\ \A j \in (i+1)..Len(K) : K[j][1] # tag
Emit(s, txt) == [s EXCEPT !.out = txt]

ModOf(c, s, al) == IF al = "" THEN Top(s).m ELSE c.mods[Top(s).m].imp[al]

\* Expression n on top of K.
StepE(c, s, n) ==
  LET nd == c.N[n] IN
  IF nd.p THEN PushV(s, Ev(c, s, n))
  ELSE PushK(s, << <<"A", n>> >> \o EvalItems(nd.c))

\* Statement n on top of K.
StepS(c, s, n) ==
  LET nd == c.N[n] IN
  CASE nd.k = "expr" -> PushK(s, << <<"P">> >> \o EvalItems(nd.c))
    [] nd.k = "for" -> PushK(s, << <<"L", n>>, <<"N", n>>, <<"C", n>> >> \o OptStmt(nd.i))
    [] nd.k = "rng" -> PushK(s, << <<"L", n>>, <<"Q", n>> >> \o EvalItems(nd.c))
    [] nd.k = "break" -> [s EXCEPT !.K = SubSeq(@, 1, LastIdx(@, "L") - 1)]
    [] nd.k = "continue" -> [s EXCEPT !.K = SubSeq(@, 1, LastIdx(@, "L") + 1)]
    [] nd.k = "nop" -> s
    [] OTHER -> PushK(s, << <<"A", n>> >> \o EvalItems(nd.c))

FirstTrue(bs) == IF \E i \in DOMAIN bs : bs[i] THEN CHOOSE i \in DOMAIN bs : bs[i] /\ \A j \in 1..(i-1) : ~bs[j] ELSE 0
Branch(s, nd, i) == IF i > 0 THEN PushK(s, BlockItems(nd.b[i]))
                    ELSE IF nd.e > 0 THEN PushK(s, BlockItems(nd.e)) ELSE s
Spread(a) == IF Len(a) = 1 /\ a[1][1] = "m" THEN a[1][2] ELSE a

\* All operands of n evaluated (on V); K without the <<"A", n>> item.
StepA(c, s0, n) ==
  LET nd == c.N[n]
      m  == Len(nd.c)
      a  == LastN(s0.V, m)
      s  == [s0 EXCEPT !.V = FrontN(@, m)]
  IN
  CASE \* ---- expressions with effects
       nd.k = "call" ->
         LET md == ModOf(c, s, nd.a)
             fd == c.N[c.mods[md].fn[nd.f]]
             as == Spread(a)
         IN  [s EXCEPT !.K = @ \o << <<"R">> >> \o BlockItems(fd.b),
                       !.F = Append(@, [m |-> md, b |-> Len(s.V),
                                        loc |-> [x \in {fd.ps[i] : i \in DOMAIN fd.ps} |->
                                                   as[CHOOSE i \in DOMAIN fd.ps : fd.ps[i] = x]]])]
    [] nd.k = "sl" -> [s EXCEPT !.H = Append(@, [t |-> nd.t, e |-> a]), !.V = Append(@, VR(Len(s.H) + 1))]
    [] nd.k = "copy" ->
         LET d == a[1][2]  src == s.H[a[2][2]]
         IN  [s EXCEPT !.H[d] = CopyInto(@, src), !.V = Append(@, VI(<<Len(src.e)>>))]
    [] nd.k = "input" -> IF s.inp = << >> THEN [s EXCEPT !.V = Append(@, VS(""))]
                         ELSE [s EXCEPT !.V = Append(@, VS(Head(s.inp))), !.inp = Tail(@)]
    [] nd.k = "app" ->
         \* the first command reads (all of) what is left of standard input
         LET r == RunPipe(nd.st, [j \in DOMAIN a |-> Text(a[j])], Lines(s.inp), 0, << >>) IN
         IF nd.u THEN [s EXCEPT !.V = Append(@, <<"m", <<VS(Chomp(r.out)), VS(""), VI(<<r.code>>)>> >>), !.argv = @ \o r.log, !.inp = << >>, !.noisy = @ \/ Noisy(nd.st)]
         ELSE [s EXCEPT !.V = Append(@, VVoid), !.out = r.out, !.argv = @ \o r.log, !.inp = << >>, !.noisy = @ \/ Noisy(nd.st)]
    \* ---- statements
    [] nd.k = "vdef" -> IF nd.t = "" THEN BindAll(s, nd.ns, Spread(a), "def")
                        ELSE IF Len(nd.t) = 1 THEN BindAll(s, nd.ns, [j \in DOMAIN nd.ns |-> Zero(nd.t)], "def")
                        ELSE LET et == SubSeq(nd.t, 2, 2)  h == Len(s.H) IN
                             BindAll([s EXCEPT !.H = @ \o [j \in DOMAIN nd.ns |-> [t |-> et, e |-> << >>]]],
                                     nd.ns, [j \in DOMAIN nd.ns |-> VR(h + j)], "def")
    [] nd.k = "asg" -> BindAll(s, nd.ns, Spread(a), "asg")
    [] nd.k = "inc" -> LET v == Arith(nd.o, Read(s, nd.n), VI(<<1>>), c.bits) IN
                       IF IsU(v) THEN [s EXCEPT !.st = "unspec"] ELSE Assign(s, nd.n, v)
    [] nd.k = "sas" -> IF IsSmall(a[2][2]) /\ a[2][2][1] >= 0 /\ a[2][2][1] < 2000
                       THEN [s EXCEPT !.H[a[1][2]] = StoreAt(@, a[2][2][1], a[3])]
                       ELSE [s EXCEPT !.st = "unspec"]
    [] nd.k = "print" -> Emit(s, JoinStr([j \in DOMAIN Spread(a) |-> Text(Spread(a)[j])], " ") \o "\n")
    [] nd.k = "panic" -> [s EXCEPT !.out = "panic: " \o Text(a[1]) \o "\n", !.st = "panic", !.K = << >>]
    [] nd.k = "write" -> [s EXCEPT !.fs = FWrite(@, a[1][2], a[2][2], Len(a) = 3 /\ a[3][2])]
    [] nd.k = "if" -> Branch(s, nd, FirstTrue([j \in DOMAIN a |-> a[j][2]]))
    [] nd.k = "sw" -> LET t  == IF nd.g THEN a[1] ELSE VB(TRUE)
                          cs == IF nd.g THEN Tail(a) ELSE a
                      IN  Branch(s, nd, FirstTrue([j \in DOMAIN cs |-> cs[j][2] = t[2]]))
    [] nd.k = "return" ->
         LET fr == Top(s)
             v  == IF a = << >> THEN VVoid ELSE IF Len(a) = 1 THEN a[1] ELSE <<"m", a>>   \* return f(): passed on as is
         IN  [s EXCEPT !.K = SubSeq(@, 1, LastIdx(@, "R") - 1), !.F = Front(@), !.V = Append(SubSeq(@, 1, fr.b), v)]
    \* ---- operators one of whose operands has effects
    [] OTHER -> PushV(s, Prim(c, s, nd, a))

\* One transition.
Step(c, s1) ==
  LET it == Last(s1.K)
      s  == [PopK(s1) EXCEPT !.out = ""]
  IN
  CASE it[1] = "E" -> StepE(c, s, it[2])
    [] it[1] = "A" -> StepA(c, s, it[2])
    [] it[1] = "S" -> StepS(c, s, it[2])
    [] it[1] = "B" -> LET q == c.N[it[2]].c IN
                      IF it[3] > Len(q) THEN s
                      ELSE StepS(c, IF it[3] = Len(q) THEN s ELSE PushK(s, << <<"B", it[2], it[3] + 1>> >>), q[it[3]])
    [] it[1] = "P" -> [s EXCEPT !.V = Front(@)]
    [] it[1] = "L" -> s
    [] it[1] = "N" -> PushK(s, << <<"N", it[2]>>, <<"C", it[2]>> >> \o OptStmt(c.N[it[2]].u))
    [] it[1] = "C" -> IF c.N[it[2]].d = 0 THEN PushK(s, BlockItems(c.N[it[2]].b))
                      ELSE PushK(s, << <<"T", it[2]>>, <<"E", c.N[it[2]].d>> >>)
    [] it[1] = "T" -> IF Last(s.V)[2] THEN PushK([s EXCEPT !.V = Front(@)], BlockItems(c.N[it[2]].b))
                      ELSE [s EXCEPT !.V = Front(@), !.K = SubSeq(@, 1, LastIdx(@, "L") - 1)]
    [] it[1] = "Q" -> LET v == Last(s.V) IN
                      PushK([s EXCEPT !.V = Front(@)], << <<"X", it[2], 0, LenOf(s.H, v), v>> >>)
    [] it[1] = "X" -> LET nd == c.N[it[2]]  i == it[3] IN
                      IF i >= it[4] THEN [s EXCEPT !.K = SubSeq(@, 1, LastIdx(@, "L") - 1)]
                      ELSE LET s2 == IF nd.iv = "" THEN s ELSE Define(s, nd.iv, VI(<<i>>))
                               ev == ElemAt(s.H, it[5], <<i>>)
                               s3 == IF nd.vv = "" THEN s2 ELSE Define(s2, nd.vv, ev)
                           IN  IF IsU(ev) \/ LenOf(s.H, it[5]) # it[4] THEN [s EXCEPT !.st = "unspec"]   \* resized while ranging
                               ELSE PushK(s3, << <<"X", it[2], i + 1, it[4], it[5]>> >> \o BlockItems(nd.b))
    [] it[1] = "R" -> [s EXCEPT !.V = Append(@, VVoid), !.F = Front(@)]
    [] it[1] = "M" -> PushK([s EXCEPT !.F[1].m = it[2]], BlockItems(c.mods[it[2]].blk))

Finished(s) == s.K = << >> /\ s.st = "run"

-----------------------------------------------------------------------------
(* Linking: every module once, imports before importers, in import order.    *)
RECURSIVE PostOrder(_, _, _)
RECURSIVE PostAll(_, _, _, _)
PostAll(c, ms, i, seen) == IF i > Len(ms) THEN seen ELSE PostAll(c, ms, i + 1, PostOrder(c, ms[i], seen))
PostOrder(c, m, seen) == IF \E j \in DOMAIN seen : seen[j] = m THEN seen
                         ELSE Append(PostAll(c, c.mods[m].ims, 1, seen), m)

Start(c) ==
  LET ord == PostOrder(c, c.main, << >>) IN
  [ K |-> [j \in 1..Len(ord) |-> <<"M", ord[Len(ord) + 1 - j]>>], V |-> << >>,
    F |-> << [m |-> c.main, loc |-> Emp, b |-> 0] >>,
    G |-> [m \in DOMAIN c.mods |-> Emp], H |-> << >>,
    fs |-> c.files, inp |-> c.stdin, argv |-> << >>, noisy |-> FALSE, out |-> "", st |-> "run" ]
=============================================================================
