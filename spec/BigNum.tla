------------------------------ MODULE BigNum ------------------------------
(* Unbounded integers.  TLC integers have 32 bits, assembler values do not:  *)
(* a number is [n |-> negative?, m |-> magnitude], the magnitude in base 256 *)
(* with the least significant digit first and no leading zeros.              *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

RECURSIVE Norm(_)
Norm(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN Norm(SubSeq(m, 1, Len(m) - 1)) ELSE m

MkBig(n, m) == LET k == Norm(m) IN [n |-> (n /\ k # <<>>), m |-> k]
Zero == [n |-> FALSE, m |-> <<>>]

RECURSIVE MagOf(_)
MagOf(i) == IF i = 0 THEN <<>> ELSE <<i % 256>> \o MagOf(i \div 256)
B(i) == IF i < 0 THEN [n |-> TRUE, m |-> MagOf(-i)] ELSE [n |-> FALSE, m |-> MagOf(i)]

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE MAdd(_, _, _, _)
MAdd(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % 256>> \o MAdd(a, b, i + 1, s \div 256)

\* requires a >= b
RECURSIVE MSub(_, _, _, _)
MSub(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN IF s < 0 THEN <<s + 256>> \o MSub(a, b, i + 1, 1) ELSE <<s>> \o MSub(a, b, i + 1, 0)

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpAt(a, b, Len(a))

RECURSIVE MMulS(_, _, _, _)          \* a * k + c for a small k
MMulS(a, k, i, c) ==
  IF i > Len(a) THEN MagOf(c)
  ELSE LET s == a[i] * k + c IN <<s % 256>> \o MMulS(a, k, i + 1, s \div 256)

RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> THEN <<>>
              ELSE Norm(MAdd(MMulS(a, b[1], 1, 0),
                             LET r == MMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r, 1, 0))

Neg(a) == MkBig(~a.n, a.m)
Cmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1)
             ELSE IF a.n THEN MCmp(b.m, a.m) ELSE MCmp(a.m, b.m)
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
Add(a, b) ==
  IF a.n = b.n THEN MkBig(a.n, MAdd(a.m, b.m, 1, 0))
  ELSE IF MCmp(a.m, b.m) >= 0 THEN MkBig(a.n, MSub(a.m, b.m, 1, 0))
       ELSE MkBig(b.n, MSub(b.m, a.m, 1, 0))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == MkBig(a.n # b.n, MMul(a.m, b.m))

\* quotient digit by bisection: the largest q in lo..hi with q * d <= r
RECURSIVE QDig(_, _, _, _)
QDig(r, d, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(Norm(MMulS(d, mid, 1, 0)), r) <= 0 THEN QDig(r, d, mid, hi) ELSE QDig(r, d, lo, mid - 1)

RECURSIVE MDivAt(_, _, _, _, _)      \* long division from the top digit
MDivAt(a, d, i, q, r) ==
  IF i = 0 THEN [q |-> Norm(q), r |-> r]
  ELSE LET r1 == Norm(<<a[i]>> \o r)
           k  == QDig(r1, d, 0, 255)
       IN MDivAt(a, d, i - 1, <<k>> \o q, Norm(MSub(r1, MMulS(d, k, 1, 0), 1, 0)))
MDiv(a, d) == MDivAt(a, d, Len(a), <<>>, <<>>)

\* floor division and modulus (b # 0)
FloorDiv(a, b) ==
  LET d == MDiv(a.m, b.m)
  IN IF a.n = b.n THEN MkBig(FALSE, d.q)
     ELSE IF d.r = <<>> THEN MkBig(TRUE, d.q) ELSE MkBig(TRUE, MAdd(d.q, <<1>>, 1, 0))
Mod(a, b) == Sub(a, Mul(FloorDiv(a, b), b))

Pow2(k) == MkBig(FALSE, [i \in 1..(k \div 8) |-> 0] \o <<2 ^ (k % 8)>>)
Shl(a, k) == MkBig(a.n, MMul(a.m, Pow2(k).m))
Shr(a, k) == FloorDiv(a, Pow2(k))            \* arithmetic shift right

\* the w lowest bytes of the two's complement representation, least significant first
BytesOf(a, w) ==
  IF ~a.n THEN [i \in 1..w |-> Dig(a.m, i)]
  ELSE LET t == Sub(Neg(a), B(1)).m           \* ~a = -a - 1
       IN [i \in 1..w |-> 255 - Dig(t, i)]
UOfBytes(bs) == MkBig(FALSE, bs)
SOfBytes(bs) == IF bs # <<>> /\ bs[Len(bs)] >= 128
                THEN Sub(UOfBytes(bs), Pow2(8 * Len(bs))) ELSE UOfBytes(bs)

AndB(x, y) == x & y                           \* bytes only
OrB(x, y)  == x + y - AndB(x, y)
XorB(x, y) == x + y - 2 * AndB(x, y)
BitAnd(a, b) == LET w == Max2(Len(a.m), Len(b.m)) + 1
                    x == BytesOf(a, w)
                    y == BytesOf(b, w)
                IN SOfBytes([i \in 1..w |-> AndB(x[i], y[i])])
BitOr(a, b)  == LET w == Max2(Len(a.m), Len(b.m)) + 1
                    x == BytesOf(a, w)
                    y == BytesOf(b, w)
                IN SOfBytes([i \in 1..w |-> OrB(x[i], y[i])])

\* value modulo 2^k, as a non-negative number
LowBits(a, k) == Mod(a, Pow2(k))

IsSmall(a) == Len(a.m) <= 3                   \* safe as a TLC integer
RECURSIVE MInt(_, _)
MInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + 256 * MInt(m, i + 1)
ToInt(a) == IF a.n THEN -MInt(a.m, 1) ELSE MInt(a.m, 1)
===========================================================================
