------------------------------ MODULE TshStatic ------------------------------
(* The static semantics of TypeShell: names resolve lexically (definition      *)
(* before use, block scope, functions see the globals and functions defined    *)
(* before them) and every position of the grammar requires a type (Go's rules  *)
(* for the shared syntax, the README's signatures for the builtins; error is a  *)
(* string, nil the empty string).                                              *)
(* The checker is a machine: it walks over the program statement by statement   *)
(* with a stack of scopes and ends in "ok", "bad" (must be rejected) or         *)
(* "unspec" (nothing is prescribed).                                           *)
(* case: N node table, mods modules [blk, imp: alias -> module], main           *)
(* Types: "i" "b" "s" and slices "Si" "Sb" "Ss".  The type of an expression is   *)
(* the sequence of the types of its values: <<>> for a call without result.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BAD == <<"BAD">>
UNS == <<"UNS">>
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE (x :> v) @@ f
Emp == [x \in {} |-> 0]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
IsSlice(t) == Len(t) = 2
Elem(t) == SubSeq(t, 2, 2)
Single(ts) == Len(ts) = 1
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Public(x) == SubSeq(x, 1, 1) \in Upper

\* the innermost scope which defines x, 0 if there is none
RECURSIVE Where(_, _, _)
Where(sc, x, i) == IF i = 0 THEN 0 ELSE IF Has(sc[i], x) THEN i ELSE Where(sc, x, i - 1)
Visible(s, x) == Where(s.sc, x, Len(s.sc)) > 0
TypeOf(s, x) == IF x = "_" THEN UNS ELSE LET i == Where(s.sc, x, Len(s.sc)) IN IF i = 0 THEN BAD ELSE IF s.sc[i][x] = "?" THEN UNS ELSE <<s.sc[i][x]>>

-----------------------------------------------------------------------------
(* What one required type accepts *)
\* nil has the type "n": it is the empty string; what it is for a slice is left open
Fits(req, off) == IF off = req \/ (off = "n" /\ req = "s") THEN "ok" ELSE IF off = "n" /\ IsSlice(req) THEN "uns" ELSE "bad"
Worst(vs) == IF "bad" \in vs THEN "bad" ELSE IF "uns" \in vs THEN "uns" ELSE "ok"
\* every value of ts fits the corresponding type of req
FitAll(req, ts) == IF Len(req) # Len(ts) THEN "bad" ELSE Worst({Fits(req[i], ts[i]) : i \in DOMAIN req})
If(v, t) == IF v = "bad" THEN BAD ELSE IF v = "uns" THEN UNS ELSE t

ArithOps == {"+", "-", "*", "/", "%"}
BinTy(o, l, r) ==
  IF l = "n" \/ r = "n" THEN UNS
  ELSE IF l # r THEN BAD
  ELSE IF l = "i" THEN (IF o \in ArithOps THEN <<"i">> ELSE BAD)
  ELSE IF l = "s" THEN (IF o = "+" THEN <<"s">> ELSE BAD)
  ELSE BAD
CmpTy(o, l, r) ==
  IF l = "n" \/ r = "n" THEN (IF {l, r} \cap {"i", "b"} # {} THEN BAD ELSE IF o \in {"==", "!="} /\ {l, r} = {"n", "s"} THEN <<"b">> ELSE UNS)
  ELSE IF l # r THEN BAD
  ELSE IF IsSlice(l) THEN UNS
  ELSE IF o \in {"==", "!="} THEN <<"b">>
  ELSE IF l = "i" THEN <<"b">>
  ELSE IF l = "s" THEN UNS          \* ordering of strings
  ELSE BAD
Req(cond, t) == IF cond THEN t ELSE BAD

RECURSIVE Ty(_, _, _)
RECURSIVE TyList(_, _, _, _)
TyList(c, s, cs, i) == IF i > Len(cs) THEN << >> ELSE << Ty(c, s, cs[i]) >> \o TyList(c, s, cs, i + 1)
\* the values of an argument or value list: a single call may supply several
Values(a) == IF Len(a) = 1 THEN a[1] ELSE IF \E i \in DOMAIN a : ~Single(a[i]) THEN BAD ELSE [i \in DOMAIN a |-> a[i][1]]

\* nd.k, types of the single-valued operands
Ty1(nd, ts) ==
  CASE nd.k = "bin" -> BinTy(nd.o, ts[1], ts[2])
    [] nd.k = "cmp" -> CmpTy(nd.o, ts[1], ts[2])
    [] nd.k = "log" -> Req(ts[1] = "b" /\ ts[2] = "b", <<"b">>)
    [] nd.k = "not" -> Req(ts[1] = "b", <<"b">>)
    [] nd.k = "grp" -> <<ts[1]>>
    [] nd.k = "sl" -> If(Worst({Fits(nd.t, ts[i]) : i \in DOMAIN ts}), <<"S" \o nd.t>>)
    [] nd.k = "idx" -> Req((ts[1] = "s" \/ IsSlice(ts[1])) /\ ts[2] = "i", IF IsSlice(ts[1]) THEN <<Elem(ts[1])>> ELSE <<"s">>)
    [] nd.k = "sub" -> IF \E i \in 2..Len(ts) : ts[i] # "i" THEN BAD ELSE IF IsSlice(ts[1]) THEN UNS ELSE Req(ts[1] = "s", <<"s">>)
    [] nd.k = "len" -> IF ts = <<"n">> THEN UNS ELSE Req(Len(ts) = 1 /\ (ts[1] = "s" \/ IsSlice(ts[1])), <<"i">>)
    [] nd.k = "itoa" -> Req(ts = <<"i">>, <<"s">>)
    [] nd.k = "exists" -> If(FitAll(<<"s">>, ts), <<"b">>)
    [] nd.k = "read" -> If(FitAll(<<"s">>, ts), <<"s">>)
    [] nd.k = "input" -> IF ts = << >> THEN <<"s">> ELSE If(FitAll(<<"s">>, ts), <<"s">>)
    [] nd.k = "copy" -> Req(Len(ts) = 2 /\ IsSlice(ts[1]) /\ (ts[1] = ts[2] \/ ts[2] = "n"), IF ts[2] = "n" THEN UNS ELSE <<"i">>)
    [] nd.k = "app" -> IF \E i \in DOMAIN ts : ts[i] # "s" THEN UNS ELSE <<"s", "s", "i">>

CallTy(c, s, nd, a) ==
  LET md == IF nd.a = "" THEN s.m ELSE IF Has(c.mods[s.m].imp, nd.a) THEN c.mods[s.m].imp[nd.a] ELSE 0
  IN  IF md = 0 \/ ~Has(s.fn[md], nd.f) THEN BAD
      ELSE IF nd.a # "" /\ ~Public(nd.f) THEN BAD
      ELSE LET fd == c.N[s.fn[md][nd.f]]
               vs == IF a = << >> THEN << >> ELSE Values(a)
           IN  IF vs = BAD \/ (a # << >> /\ vs = << >>) THEN BAD
               ELSE If(FitAll(fd.pt, vs), fd.rt)

Ty(c, s, n) ==
  LET nd == c.N[n] IN
  IF nd.k = "lit" THEN <<nd.t>>     \* "n" for nil
  ELSE IF nd.k = "var" THEN TypeOf(s, nd.n)
  ELSE LET a == TyList(c, s, nd.c, 1) IN
    IF \E i \in DOMAIN a : a[i] = BAD THEN BAD
    ELSE IF \E i \in DOMAIN a : a[i] = UNS THEN UNS
    ELSE IF nd.k = "call" THEN CallTy(c, s, nd, a)
    ELSE IF \E i \in DOMAIN a : ~Single(a[i]) THEN BAD
    ELSE LET r == Ty1(nd, [i \in DOMAIN a |-> a[i][1]]) IN
         IF r # BAD /\ nd.k \in {"idx", "sub"} /\ c.N[nd.c[1]].k # "var" THEN UNS     \* subscripts of anything but a variable
         ELSE r

-----------------------------------------------------------------------------
(* Statements.  s: [K work list, sc scopes, fn functions per module, m module,   *)
(* f current function node or 0, lp what encloses: sequence of "L" and "W",      *)
(* st]                                                                          *)
Fail(s) == [s EXCEPT !.st = "bad", !.K = << >>]
Doubt(s) == [s EXCEPT !.u = TRUE]
Judge(s, t) == IF t = BAD THEN Fail(s) ELSE IF t = UNS THEN Doubt(s) ELSE s
Verdict(s, v) == IF v = "bad" THEN Fail(s) ELSE IF v = "uns" THEN Doubt(s) ELSE s
Push(s, items) == [s EXCEPT !.K = @ \o items]
Scope(s) == [s EXCEPT !.sc = Append(@, Emp)]
DefIn(s, x, t) == IF x = "_" THEN s ELSE [s EXCEPT !.sc[Len(s.sc)] = Put(@, x, t)]
RECURSIVE DefAll(_, _, _)
DefAll(s, xs, ts) == IF xs = << >> THEN s ELSE DefAll(DefIn(s, Head(xs), Head(ts)), Tail(xs), Tail(ts))
Repeated(xs) == \E i, j \in DOMAIN xs : i < j /\ xs[i] = xs[j] /\ xs[i] # "_"
IsFn(s, x) == Has(s.fn[s.m], x)
Unknown(xs) == [i \in DOMAIN xs |-> "?"]
\* a block in a scope of its own; enclosing construct w ("" none, "L" loop, "W" switch)
Block(s, b, w) == Push(Scope([s EXCEPT !.lp = IF w = "" THEN @ ELSE Append(@, w)]), << <<"pop", w>>, <<"B", b, 1>> >>)
RECURSIVE BlockItems(_, _, _)
BlockItems(bs, i, w) == IF i = 0 THEN << >> ELSE << <<"blk", bs[i], w>> >> \o BlockItems(bs, i - 1, w)

\* types of the values of a definition, assignment or return
ValTypes(c, s, cs) ==
  LET a == TyList(c, s, cs, 1) IN
  IF \E i \in DOMAIN a : a[i] = BAD THEN BAD ELSE IF \E i \in DOMAIN a : a[i] = UNS THEN UNS
  ELSE IF a = << >> THEN << >> ELSE IF Len(a) = 1 /\ a[1] = << >> THEN BAD ELSE Values(a)

StepDef(c, s, nd) ==
  LET xs == nd.ns
      ts == IF nd.c = << >> THEN [i \in DOMAIN xs |-> nd.t] ELSE ValTypes(c, s, nd.c)
      old == {i \in DOMAIN xs : xs[i] # "_" /\ Visible(s, xs[i])}
      new == {i \in DOMAIN xs : xs[i] # "_" /\ ~Visible(s, xs[i])}
      outer == {i \in old : Where(s.sc, xs[i], Len(s.sc)) # Len(s.sc)}
  IN
  IF ts = BAD THEN Fail(s)
  ELSE IF Repeated(xs) THEN Fail(s)
  ELSE IF (nd.form # ":=" \/ Len(xs) = 1) /\ old # {} THEN Fail(s)
  ELSE IF ts = UNS THEN DefAll(Doubt(s), xs, Unknown(xs))
  ELSE IF Len(ts) # Len(xs) THEN Fail(s)
  ELSE IF nd.form # ":=" /\ nd.t # "" /\ (\E i \in DOMAIN ts : Fits(nd.t, ts[i]) = "bad") THEN Fail(s)
  ELSE IF nd.form = ":=" /\ old # {} /\ new = {} THEN (IF \E i \in DOMAIN xs : xs[i] = "_" THEN Doubt(s) ELSE Fail(s))
  ELSE IF old = {} /\ new = {} /\ nd.form = ":=" THEN Doubt(s)            \* nothing but blank identifiers
  ELSE IF outer # {} THEN DefAll(Doubt(s), xs, Unknown(xs))               \* := with a variable of an outer scope
  ELSE IF \E i \in old : TypeOf(s, xs[i]) = UNS THEN DefAll(Doubt(s), xs, ts)
  ELSE IF \E i \in old : Fits(TypeOf(s, xs[i])[1], ts[i]) = "bad" THEN Fail(s)
  ELSE IF \E i \in new : IsFn(s, xs[i]) THEN DefAll(Doubt(s), xs, ts)
  ELSE IF nd.form # ":=" /\ nd.t # "" THEN DefAll(IF \E i \in DOMAIN ts : Fits(nd.t, ts[i]) # "ok" THEN Doubt(s) ELSE s, xs, [i \in DOMAIN xs |-> nd.t])
  ELSE IF \E i \in DOMAIN ts : ts[i] = "n" THEN DefAll(Doubt(s), xs, Unknown(xs))
  ELSE DefAll(s, xs, ts)

StepAsg(c, s, nd) ==
  LET xs == nd.ns  ts == ValTypes(c, s, nd.c) IN
  IF ts = BAD \/ (\E i \in DOMAIN xs : xs[i] # "_" /\ ~Visible(s, xs[i])) THEN Fail(s)
  ELSE IF ts = UNS \/ (\E i \in DOMAIN xs : xs[i] # "_" /\ TypeOf(s, xs[i]) = UNS) THEN Doubt(s)
  ELSE IF Len(ts) # Len(xs) THEN Fail(s)
  ELSE IF Repeated(xs) \/ (\E i \in DOMAIN xs : xs[i] = "_" /\ ts[i] = "n") THEN Doubt(s)
  ELSE Verdict(s, FitAll([i \in DOMAIN xs |-> IF xs[i] = "_" THEN ts[i] ELSE TypeOf(s, xs[i])[1]], ts))

\* an expression in a position which requires the type t
Needs(c, s, n, t) == LET x == Ty(c, s, n) IN IF x = BAD THEN Fail(s) ELSE IF x = UNS THEN Doubt(s) ELSE Verdict(s, FitAll(<<t>>, x))
RECURSIVE NeedAll(_, _, _, _)
NeedAll(c, s, ns, t) == IF ns = << >> \/ s.st = "bad" THEN s ELSE NeedAll(c, Needs(c, s, Head(ns), t), Tail(ns), t)

\* a break in the block b leaves the loop around it (one in a nested loop does not; what one in a switch does is left open)
RECURSIVE Leaves(_, _)
Leaves(c, b) ==
  \E i \in DOMAIN c.N[b].c :
    LET l == c.N[c.N[b].c[i]] IN
    \/ l.k = "break"
    \/ /\ l.k = "if"
       /\ (\E j \in DOMAIN l.b : Leaves(c, l.b[j])) \/ (l.e > 0 /\ Leaves(c, l.e))

\* how a function body may end: "yes" returns, "no" can fall off its end, "?" not prescribed: it ends with a statement
\* after which nothing is reached, but which is no return
RECURSIVE Ends(_, _)
Ends(c, b) ==
  LET q == c.N[b].c IN
  IF q = << >> THEN "no"
  ELSE LET l == c.N[Last(q)] IN
    IF l.k = "return" THEN "yes"
    ELSE IF l.k = "panic" THEN "?"
    ELSE IF l.k \in {"if", "sw"} /\ l.e > 0 THEN (IF Ends(c, l.e) = "no" \/ (\E i \in DOMAIN l.b : Ends(c, l.b[i]) = "no") THEN "no" ELSE "?")
    ELSE IF l.k = "for" /\ l.d = 0 THEN (IF Leaves(c, l.b) THEN "no" ELSE "?")
    ELSE "no"

StepS(c, s, n) ==
  LET nd == c.N[n] IN
  CASE nd.k = "vdef" -> StepDef(c, s, nd)
    [] nd.k = "asg" -> StepAsg(c, s, nd)
    [] nd.k = "op" ->
         LET x == TypeOf(s, nd.n)  y == Ty(c, s, nd.c[1]) IN
         IF x = BAD \/ y = BAD THEN Fail(s) ELSE IF x = UNS \/ y = UNS THEN Doubt(s)
         ELSE IF ~Single(y) THEN Fail(s) ELSE Judge(s, BinTy(nd.o, x[1], y[1]))
    [] nd.k = "inc" -> LET x == TypeOf(s, nd.n) IN IF x = UNS THEN Doubt(s) ELSE IF x = <<"i">> THEN s ELSE Fail(s)
    [] nd.k = "sas" ->
         LET x == TypeOf(s, nd.n)  i == Ty(c, s, nd.c[1])  v == Ty(c, s, nd.c[2]) IN
         IF x = BAD \/ i = BAD \/ v = BAD THEN Fail(s) ELSE IF x = UNS \/ i = UNS \/ v = UNS THEN Doubt(s)
         ELSE IF i # <<"i">> \/ ~Single(v) THEN Fail(s)
         ELSE IF ~IsSlice(x[1]) THEN Fail(s)
         ELSE Verdict(s, Fits(Elem(x[1]), v[1]))
    [] nd.k = "print" ->
         LET a == TyList(c, s, nd.c, 1) IN
         IF \E i \in DOMAIN a : a[i] = BAD \/ a[i] = << >> THEN Fail(s)
         ELSE IF \E i \in DOMAIN a : a[i] = UNS THEN Doubt(s)
         ELSE IF Len(a) > 1 /\ \E i \in DOMAIN a : ~Single(a[i]) THEN Fail(s)
         ELSE IF Len(a) = 1 /\ c.N[nd.c[1]].k = "app" THEN Doubt(s)
         ELSE IF \E i \in DOMAIN a : \E j \in DOMAIN a[i] : IsSlice(a[i][j]) THEN Doubt(s)
         ELSE s
    [] nd.k = "panic" -> IF Len(nd.c) # 1 THEN Fail(s) ELSE LET x == Ty(c, s, nd.c[1]) IN IF x = BAD \/ (x # UNS /\ ~Single(x)) THEN Fail(s) ELSE IF x = <<"s">> THEN s ELSE Doubt(s)
    [] nd.k = "write" ->
         IF Len(nd.c) < 2 \/ Len(nd.c) > 3 THEN Fail(s)
         ELSE LET t == NeedAll(c, s, SubSeq(nd.c, 1, 2), "s") IN IF t.st = "bad" \/ Len(nd.c) = 2 THEN t ELSE Needs(c, t, nd.c[3], "b")
    [] nd.k = "expr" -> LET x == Ty(c, s, nd.c[1])  k == c.N[nd.c[1]].k IN
                        IF x = BAD THEN Fail(s) ELSE IF x = UNS THEN Doubt(s) ELSE IF k \in {"call", "app", "copy", "input"} THEN s
                        ELSE Doubt(s)
    [] nd.k = "if" -> LET t == NeedAll(c, s, nd.c, "b") IN
                      IF t.st = "bad" THEN t ELSE Push(t, BlockItems(nd.b \o (IF nd.e > 0 THEN <<nd.e>> ELSE << >>), Len(nd.b) + (IF nd.e > 0 THEN 1 ELSE 0), ""))
    [] nd.k = "sw" ->
         LET g  == IF nd.g THEN Ty(c, s, nd.c[1]) ELSE <<"b">>
             cs == IF nd.g THEN Tail(nd.c) ELSE nd.c
         IN  IF g = BAD \/ (g # UNS /\ ~Single(g)) THEN Fail(s)
             ELSE LET t == IF g = UNS \/ g = <<"n">> \/ IsSlice(g[1]) THEN Doubt(s) ELSE NeedAll(c, s, cs, g[1]) IN
                  IF t.st = "bad" THEN t
                  ELSE Push(t, BlockItems(nd.b \o (IF nd.e > 0 THEN <<nd.e>> ELSE << >>), Len(nd.b) + (IF nd.e > 0 THEN 1 ELSE 0), "W"))
    [] nd.k = "for" -> Push(Scope(s), << <<"pop", "">>, <<"F", n>> >> \o (IF nd.i = 0 THEN << >> ELSE << <<"S", nd.i>> >>))
    [] nd.k = "rng" ->
         LET x == Ty(c, s, nd.c[1])
             vs == (IF nd.iv = "" THEN << >> ELSE <<nd.iv>>) \o (IF nd.vv = "" THEN << >> ELSE <<nd.vv>>)
         IN  IF x = BAD \/ (x # UNS /\ ~Single(x)) THEN Fail(s)
             ELSE IF x = <<"n">> THEN DefAll(Doubt(Push(Scope(s), << <<"pop", "">>, <<"blk", nd.b, "L">> >>)), vs, Unknown(vs))
             ELSE IF x # UNS /\ ~(x[1] = "s" \/ IsSlice(x[1])) THEN Fail(s)
             ELSE IF Repeated(vs) \/ (\E i \in DOMAIN vs : vs[i] # "_" /\ Visible(s, vs[i])) THEN Fail(s)
             ELSE LET et == IF x = UNS THEN "?" ELSE IF x[1] = "s" THEN "s" ELSE Elem(x[1])
                      s1 == Push(Scope(IF x = UNS THEN Doubt(s) ELSE s), << <<"pop", "">>, <<"blk", nd.b, "L">> >>)
                      s2 == IF nd.iv = "" THEN s1 ELSE DefIn(s1, nd.iv, "i")
                  IN  IF \E i \in DOMAIN vs : IsFn(s, vs[i]) THEN Doubt(s) ELSE IF nd.vv = "" THEN s2 ELSE DefIn(s2, nd.vv, et)
    [] nd.k = "break" -> IF ~(\E i \in DOMAIN s.lp : TRUE) THEN Fail(s) ELSE IF Last(s.lp) = "W" THEN Doubt(s) ELSE s
    [] nd.k = "continue" -> IF \E i \in DOMAIN s.lp : s.lp[i] = "L" THEN s ELSE Fail(s)
    [] nd.k = "return" ->
         IF s.f = 0 THEN Fail(s)
         ELSE LET rt == c.N[s.f].rt  ts == ValTypes(c, s, nd.c) IN
              IF ts = BAD THEN Fail(s)
              ELSE IF ts = UNS THEN Doubt(s)
              ELSE IF nd.c = << >> /\ rt = << >> THEN Doubt(s)          \* a bare return
              ELSE Verdict(s, FitAll(rt, ts))
    [] nd.k = "func" ->
         IF s.f # 0 \/ Len(s.sc) > 1 THEN Fail(s)
         ELSE IF IsFn(s, nd.name) THEN Fail(s)
         ELSE IF Repeated(nd.ps) \/ (\E i \in DOMAIN nd.ps : nd.ps[i] # "_" /\ Visible(s, nd.ps[i])) THEN Fail(s)
         ELSE IF nd.rt # << >> /\ Ends(c, nd.b) = "no" THEN Fail(s)
         ELSE LET odd == \/ nd.rt # << >> /\ Ends(c, nd.b) = "?"
                         \/ Visible(s, nd.name)                       \* a function named like a variable, a parameter named like a function
                         \/ \E i \in DOMAIN nd.ps : IsFn(s, nd.ps[i]) \/ nd.ps[i] = nd.name
                  s0 == IF odd THEN Doubt(s) ELSE s
                  s1 == Push(Scope([s0 EXCEPT !.f = n]), << <<"fend", n>>, <<"B", nd.b, 1>> >>)
              IN  DefAll(s1, nd.ps, nd.pt)

Step(c, s1) ==
  LET it == Last(s1.K)
      s  == [s1 EXCEPT !.K = Front(@)]
  IN
  CASE it[1] = "S" -> StepS(c, s, it[2])
    [] it[1] = "B" -> LET q == c.N[it[2]].c IN
                      IF it[3] > Len(q) THEN s ELSE StepS(c, Push(s, << <<"B", it[2], it[3] + 1>> >>), q[it[3]])
    [] it[1] = "blk" -> Block(s, it[2], it[3])
    [] it[1] = "pop" -> [s EXCEPT !.sc = Front(@), !.lp = IF it[2] = "" THEN @ ELSE Front(@)]
    [] it[1] = "F" -> LET nd == c.N[it[2]]
                          t  == IF nd.d = 0 THEN s ELSE Needs(c, s, nd.d, "b")
                      IN  IF t.st = "bad" THEN t
                          ELSE Push(t, << <<"blk", nd.b, "L">> >> \o (IF nd.u = 0 THEN << >> ELSE << <<"S", nd.u>> >>))
    [] it[1] = "fend" -> [s EXCEPT !.sc = Front(@), !.f = 0, !.fn[s.m] = Put(@, c.N[it[2]].name, it[2])]
    [] it[1] = "M" -> Push([s EXCEPT !.m = it[2], !.sc = <<Emp>>], << <<"B", c.mods[it[2]].blk, 1>> >>)

\* modules are given in dependency order, the main module last
Start(c) == [ K |-> [i \in 1..Len(c.mods) |-> <<"M", Len(c.mods) + 1 - i>>], sc |-> <<Emp>>, fn |-> [m \in DOMAIN c.mods |-> Emp], m |-> 1,
              f |-> 0, lp |-> << >>, st |-> "run", u |-> FALSE ]
Done(s) == s.K = << >>
Result(s) == IF s.st = "bad" THEN "bad" ELSE IF s.u THEN "unspec" ELSE "ok"
=============================================================================
