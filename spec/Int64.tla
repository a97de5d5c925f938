------------------------------- MODULE Int64 -------------------------------
(* Go's fixed-width two's-complement integers, for an interpreter (TLC)     *)
(* whose own integers have 32 bits.                                          *)
(*                                                                           *)
(* An integer is a sequence in normal form:                                  *)
(*   <<n>>              when -2^30 <= n < 2^30                                *)
(*   <<l0,...,l7>>      otherwise: little-endian base-256 two's complement   *)
(* so equality of integers is equality of sequences.                         *)
EXTENDS Integers, Sequences, TLC

B30 == 1073741824

IsSmall(a) == Len(a) = 1

RECURSIVE NatLimbs(_, _)
NatLimbs(n, k) == IF k = 0 THEN << >> ELSE <<n % 256>> \o NatLimbs(n \div 256, k - 1)

\* (a tuple, because TLC would evaluate a function expression again at each application)
NotL(a) == <<255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4], 255 - a[5], 255 - a[6], 255 - a[7], 255 - a[8]>>
Limbs(a) == IF ~IsSmall(a) THEN a
            ELSE IF a[1] >= 0 THEN NatLimbs(a[1], 8)
            ELSE NotL(NatLimbs(-(a[1] + 1), 8))

Norm(l) ==
  IF l[8] = 0 /\ l[7] = 0 /\ l[6] = 0 /\ l[5] = 0 /\ l[4] < 64
    THEN << l[1] + 256 * l[2] + 65536 * l[3] + 16777216 * l[4] >>
  ELSE IF l[8] = 255 /\ l[7] = 255 /\ l[6] = 255 /\ l[5] = 255 /\ l[4] >= 192
    THEN << -((255 - l[1]) + 256 * (255 - l[2]) + 65536 * (255 - l[3]) + 16777216 * (255 - l[4])) - 1 >>
  ELSE l

OfInt(n) == IF -B30 <= n /\ n < B30 THEN <<n>>
            ELSE LET c == IF n >= 0 THEN NatLimbs(n, 8) ELSE NatLimbs(-(n + 1), 8)
                 IN  IF n >= 0 THEN c ELSE NotL(c)

\* Wrap to the given width (64 or 32 bits).
Wrap(l, bits) ==
  IF bits = 64 THEN Norm(l)
  ELSE LET s == IF l[4] >= 128 THEN 255 ELSE 0
       IN  Norm(<<l[1], l[2], l[3], l[4], s, s, s, s>>)

RECURSIVE AddL(_, _, _, _)
AddL(a, b, i, c) == IF i > 8 THEN << >>
                    ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddL(a, b, i + 1, s \div 256)

One8 == <<1, 0, 0, 0, 0, 0, 0, 0>>
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
NegL(a) == AddL(NotL(a), One8, 1, 0)
IsNegL(a) == a[8] >= 128

Add(a, b, bits) ==
  IF IsSmall(a) /\ IsSmall(b) THEN
     LET s == a[1] + b[1] IN IF -B30 <= s /\ s < B30 THEN <<s>> ELSE Wrap(OfInt(s), bits)
  ELSE Wrap(AddL(Limbs(a), Limbs(b), 1, 0), bits)

Neg(a, bits) == IF IsSmall(a) /\ a[1] > -B30 THEN <<-a[1]>> ELSE Wrap(NegL(Limbs(a)), bits)

Sub(a, b, bits) ==
  IF IsSmall(a) /\ IsSmall(b) /\ a[1] - b[1] >= -B30 /\ a[1] - b[1] < B30
  THEN <<a[1] - b[1]>>
  ELSE Wrap(AddL(Limbs(a), NegL(Limbs(b)), 1, 0), bits)

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1)
RECURSIVE MulL(_, _, _, _)
MulL(a, b, k, c) == IF k > 8 THEN << >>
                    ELSE LET s == ColSum(a, b, k, 1) + c IN <<s % 256>> \o MulL(a, b, k + 1, s \div 256)

Abs(n) == IF n < 0 THEN -n ELSE n

Mul(a, b, bits) ==
  IF IsSmall(a) /\ IsSmall(b) /\ Abs(a[1]) < 32768 /\ Abs(b[1]) < 32768 THEN <<a[1] * b[1]>>
  ELSE Wrap(MulL(Limbs(a), Limbs(b), 1, 0), bits)

\* Unsigned comparison of limb sequences.
RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE
                ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtU(a, b, i - 1)

\* Unsigned shift-and-subtract division; acc = <<quotient, remainder>>.
Bit(l, n) == (l[(n \div 8) + 1] \div (CASE n % 8 = 0 -> 1 [] n % 8 = 1 -> 2 [] n % 8 = 2 -> 4 [] n % 8 = 3 -> 8
                                      [] n % 8 = 4 -> 16 [] n % 8 = 5 -> 32 [] n % 8 = 6 -> 64 [] OTHER -> 128)) % 2
Shl1(l, b) == AddL(l, l, 1, b)
RECURSIVE DivU(_, _, _, _, _)
DivU(a, b, n, q, r) ==
  IF n < 0 THEN <<q, r>>
  ELSE LET r1 == Shl1(r, Bit(a, n))
           \* r < b <= 2^63 always, so r1 never wraps
           ge == ~LtU(r1, b, 8)
       IN  DivU(a, b, n - 1, Shl1(q, IF ge THEN 1 ELSE 0), IF ge THEN AddL(r1, NegL(b), 1, 0) ELSE r1)

\* Division of magnitudes: by limbs when the divisor is small enough for TLC's integers; otherwise bit by bit, starting with
\* as many whole leading limbs of a as certainly stay below b.
RECURSIVE ShortDiv(_, _, _, _)
ShortDiv(a, b, i, r) == IF i = 0 THEN << << >>, r >>
                        ELSE LET v == r * 256 + a[i]
                                 t == ShortDiv(a, b, i - 1, v % b)
                             IN  << t[1] \o <<v \div b>>, t[2] >>
RECURSIVE Sig(_, _)
Sig(b, i) == IF i > 1 /\ b[i] = 0 THEN Sig(b, i - 1) ELSE i
Div8(a, b) ==
  IF Sig(b, 8) <= 2 THEN LET d == b[1] + 256 * b[2]
                             t == ShortDiv(a, d, 8, 0)
                         IN  <<t[1], NatLimbs(t[2], 8)>>
  ELSE LET k == Sig(b, 8) - 1
           r == SubSeq(a, 9 - k, 8) \o SubSeq(Zero8, 1, 8 - k)
       IN  DivU(a, b, 63 - 8 * k, Zero8, r)

AbsL(l) == IF IsNegL(l) THEN NegL(l) ELSE l

\* Truncated division and remainder (Go, bash and cmd agree); b # 0.
Div(a, b, bits) ==
  IF IsSmall(a) /\ IsSmall(b) THEN
     LET q == Abs(a[1]) \div Abs(b[1]) IN OfInt(IF (a[1] < 0) # (b[1] < 0) THEN -q ELSE q)
  ELSE LET la == Limbs(a)  lb == Limbs(b)
           q  == Div8(AbsL(la), AbsL(lb))[1]
       IN  Wrap(IF IsNegL(la) # IsNegL(lb) THEN NegL(q) ELSE q, bits)

Rem(a, b, bits) ==
  IF IsSmall(a) /\ IsSmall(b) THEN
     LET r == Abs(a[1]) % Abs(b[1]) IN <<IF a[1] < 0 THEN -r ELSE r>>
  ELSE LET la == Limbs(a)  lb == Limbs(b)
           r  == Div8(AbsL(la), AbsL(lb))[2]
       IN  Wrap(IF IsNegL(la) THEN NegL(r) ELSE r, bits)

IsZero(a) == a = <<0>>

Less(a, b) ==
  IF IsSmall(a) /\ IsSmall(b) THEN a[1] < b[1]
  ELSE LET la == Limbs(a)  lb == Limbs(b)
       IN  IF IsNegL(la) # IsNegL(lb) THEN IsNegL(la) ELSE LtU(la, lb, 8)

\* Short division by 10, most significant limb first: <<quotient limbs, remainder>>.
RECURSIVE Div10(_, _, _)
Div10(l, i, r) == IF i = 0 THEN << << >>, r >>
                  ELSE LET v == r * 256 + l[i]
                           t == Div10(l, i - 1, v % 10)
                       IN  << t[1] \o <<v \div 10>>, t[2] >>
RECURSIVE DecU(_)
DecU(l) == IF l = Zero8 THEN "" ELSE LET d == Div10(l, 8, 0) IN DecU(d[1]) \o ToString(d[2])

Decimal(a) == IF IsSmall(a) THEN ToString(a[1])
              ELSE IF IsNegL(a) THEN "-" \o DecU(NegL(a)) ELSE DecU(a)

\* Machine-sized index (only small integers are ever in range of a slice or string).
ToNat(a) == a[1]
=============================================================================
