----------------------------- MODULE BigNumMC -----------------------------
(* BigNum agrees with TLC's own integers where those suffice, and satisfies  *)
(* the ring and division laws beyond.                                        *)
EXTENDS BigNum, TLC
VARIABLES a, b
Small == {-70000, -65536, -32769, -257, -256, -255, -129, -128, -17, -2, -1, 0, 1, 2, 3, 7, 127, 128, 255, 256, 257, 4095, 32767, 65535, 65536, 70001}
Huge  == {Mul(B(x), Pow2(k)) : x \in {-3, 1, 255}, k \in {31, 63, 64}} 
Init == a \in {B(x) : x \in Small} \cup Huge /\ b \in {B(x) : x \in Small} \cup Huge
Next == UNCHANGED <<a, b>>
SmallOK == IsSmall(a) /\ IsSmall(b) => LET x == ToInt(a) y == ToInt(b) IN
  /\ B(x) = a /\ Add(a, b) = B(x + y) /\ Sub(a, b) = B(x - y)
  /\ (x < 30000 /\ y < 30000 /\ x > -30000 /\ y > -30000 => Mul(a, b) = B(x * y))
  /\ (Cmp(a, b) < 0) = (x < y)
  /\ (y > 0 => FloorDiv(a, b) = B(x \div y) /\ Mod(a, b) = B(x % y))
Laws ==
  /\ Sub(Add(a, b), b) = a
  /\ Mul(a, b) = Mul(b, a)
  /\ (b # Zero => LET q == FloorDiv(a, b) r == Mod(a, b) IN
        /\ Add(Mul(q, b), r) = a
        /\ (IF b.n THEN Le(r, Zero) /\ Lt(b, r) ELSE Le(Zero, r) /\ Lt(r, b)))
  /\ Add(BitAnd(a, b), BitOr(a, b)) = Add(a, b)
  /\ BitAnd(a, b) = BitAnd(b, a)
  /\ SOfBytes(BytesOf(a, 12)) = a
  /\ Shr(Shl(a, 13), 13) = a
===========================================================================
