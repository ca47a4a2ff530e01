------------------------------- MODULE Reach -------------------------------
(* What the processors do with the displacements of branches and of loads      *)
(* relative to the program counter, decoded from the bytes of an instruction   *)
(* and its address - independently of how the assembler encodes them.           *)
EXTENDS Session

ByteR(bs, i) == bs[i]
SignedR(v, bits) == IF v >= 2^(bits - 1) THEN v - 2^bits ELSE v
S8R(b) == SignedR(b, 8)
LeR(bs, i) == bs[i] + 256 * bs[i + 1]
BeR(bs, i) == 256 * bs[i] + bs[i + 1]
Unknown == [t |-> "none", v |-> Zero]
To(addr, d) == [t |-> "at", v |-> Add(addr, B(d))]
Even(addr) == Mul(FloorDiv(addr, B(4)), B(4))

\* bs: the output from the instruction on; addr: its address; off, narrow: position of the reference and whether it is a byte
Target(cpu, bs, addr, off, narrow) ==
  LET b == bs[1] IN
  CASE cpu = "6502" -> IF b % 32 = 16 THEN To(addr, 2 + S8R(bs[2])) ELSE Unknown
    [] cpu = "z80" -> IF b \in {16, 24, 32, 40, 48, 56} THEN To(addr, 2 + S8R(bs[2])) ELSE Unknown
    [] cpu = "lr35902" -> IF b \in {24, 32, 40, 48, 56} THEN To(addr, 2 + S8R(bs[2])) ELSE Unknown
    [] cpu = "mips32" ->
         LET op == b \div 4 IN
         IF op \in 4..7 THEN To(addr, 4 + 4 * SignedR(BeR(bs, 3), 16))
         ELSE IF op \in {2, 3, 26} THEN [t |-> "at", v |-> Add(Shl(Shr(Add(addr, B(4)), 28), 28), B(4 * ((b % 4) * 16777216 + bs[2] * 65536 + BeR(bs, 3))))]
         ELSE Unknown
    [] cpu = "thumb" ->
         LET h == LeR(bs, 1)
             op == h \div 256
         IN IF op \in 208..221 THEN To(addr, 4 + 2 * S8R(h % 256))
            ELSE IF op \in 224..231 THEN To(addr, 4 + 2 * SignedR(h % 2048, 11))
            ELSE IF op \in 240..247 /\ Len(bs) >= 4 /\ LeR(bs, 3) \div 2048 \in {31, 29}
                 THEN To(addr, 4 + 4096 * SignedR(h % 2048, 11) + 2 * (LeR(bs, 3) % 2048))
            ELSE IF op \in 72..79 \/ op \in 160..167 THEN To(Even(Add(addr, B(4))), 4 * (h % 256))
            ELSE Unknown
    [] cpu = "68000" ->
         IF b \div 16 = 6 THEN To(addr, 2 + (IF bs[2] # 0 THEN S8R(bs[2]) ELSE SignedR(BeR(bs, 3), 16)))
         ELSE IF off < 2 THEN Unknown                       \* the extension word counts from its own address
         ELSE To(addr, off + (IF narrow THEN S8R(bs[off + 2]) ELSE SignedR(BeR(bs, off + 1), 16)))
    [] cpu = "8086" ->
         IF b \in 112..127 \cup 224..227 \cup {235} THEN To(addr, 2 + S8R(bs[2]))
         ELSE IF b \in {232, 233} THEN To(addr, 3 + SignedR(LeR(bs, 2), 16))
         ELSE Unknown
    [] cpu = "ppc" ->
         LET op == b \div 4
             lo == BeR(bs, 3)
             abs == (lo \div 2) % 2 = 1
             base == IF abs THEN Zero ELSE addr
         IN CASE op = 18 -> To(base, SignedR((b % 4) * 16777216 + bs[2] * 65536 + 4 * (lo \div 4), 26))
              [] op = 16 -> To(base, SignedR(4 * (lo \div 4), 16))
              [] OTHER -> Unknown
    [] OTHER -> Unknown

IsBranchRef(cpu, r) == r.rel # <<>> \/ (cpu = "mips32" /\ r.region # <<>>) \/ (cpu = "ppc" /\ r.step = 4)
\* the reference is to a label as such, and nothing else was put into the bytes of the instruction
PlainRef(A, r) == r.label \in DOMAIN A.labels
Misses(A) == LET bytes == A.bytes IN
  { i \in 1..Len(A.fix) : LET r == A.fix[i] IN
      /\ IsBranchRef(A.cfg.cpu, r) /\ PlainRef(A, r)
      /\ LET t == Target(A.cfg.cpu, SubSeq(bytes, r.ins + 1, Len(bytes)), r.addr, r.idx - r.ins, r.rng = <<7, 0>>)
         IN t.t = "none" \/ t.v # A.labels[r.label] }
\* C31: every linked relative reference reaches its label
Reached == asm.phase = "idle" /\ asm.err = "" /\ asm.image # <<>> /\ asm.cfg.cpu # "" => Misses(asm) = {}
=============================================================================
