------------------------------ MODULE PowerPc ------------------------------
(* 32-bit PowerPC: words of a primary opcode, three 5-bit fields and the lower *)
(* eleven bits (extended opcode and record bit).  Big endian.                   *)
EXTENDS IsaBase
RegsP(l) == TLCEval([i \in 1..32 |-> l \o Dec(i - 1)])
GRegP == TLCEval(RegsP("R"))
FRegP == TLCEval(RegsP("F"))
GP(tok) == IndexOf(GRegP, Up(tok)) - 1
G0P(tok) == IF tok = "0" THEN 0 ELSE GP(tok)
FP(tok) == IndexOf(FRegP, Up(tok)) - 1
ValP(tok) == GP(tok) < 0 /\ FP(tok) < 0
DotP(k) == Len(k) > 1 /\ From(k, Len(k)) = "."
CutP(k) == SubSeq(k, 1, Len(k) - 1)
\* primary opcode, fields of bits 6-10, 11-15, 16-20, and bits 21-31
W(op, d, a, b, x) == << op * 4 + (d \div 8), (d % 8) * 32 + a, b * 8 + (x \div 256), x % 256 >>
\* fields of the word, by their lowest bit counted from the least significant one
Bits(n, lo) == [F(4, n, 0) EXCEPT !.rng = <<lo + n - 1, lo>>]
SImmP == [Bits(16, 0) EXCEPT !.signed = TRUE]
UImmP == Bits(16, 0)
CrP == Bits(3, 23)

\* extended opcodes of primary opcode 31
ArithP  == [ADD |-> 266, ADDC |-> 10, ADDE |-> 138, DIVW |-> 491, DIVWU |-> 459, MULLW |-> 235, SUBF |-> 40, SUBFC |-> 8, SUBFE |-> 136,
            DOZ |-> 264, MUL |-> 107, DIV |-> 331, DIVS |-> 363]
SubP    == [SUB |-> 40, SUBC |-> 8]
HighP   == [MULHW |-> 75, MULHWU |-> 11]
UnaryP  == [ADDME |-> 234, ADDZE |-> 202, NEG |-> 104, SUBFME |-> 232, SUBFZE |-> 200, ABS |-> 360, NABS |-> 488]
LogicP  == [AND |-> 28, ANDC |-> 60, EQV |-> 284, NAND |-> 476, NOR |-> 124, OR |-> 444, ORC |-> 412, SLW |-> 24, SRW |-> 536, SRAW |-> 792, XOR |-> 316,
            RRIB |-> 537, MASKG |-> 29, MASKIR |-> 541, SLQ |-> 152, SRQ |-> 664, SLLQ |-> 216, SRLQ |-> 728, SLE |-> 153, SRE |-> 665,
            SLEQ |-> 217, SREQ |-> 729, SRAQ |-> 920, SREA |-> 921]
Logic2P == [CNTLZW |-> 26, EXTSB |-> 954, EXTSH |-> 922]
ShiftP  == [SRAWI |-> 824, SLIQ |-> 184, SRIQ |-> 696, SLLIQ |-> 248, SRLIQ |-> 760, SRAIQ |-> 952]
IndexP  == [LBZX |-> 87, LHZX |-> 279, LHAX |-> 343, LWZX |-> 23, LHBRX |-> 790, LWBRX |-> 534, LSWX |-> 533, LWARX |-> 20, LSCBX |-> 277,
            STBX |-> 215, STHX |-> 407, STWX |-> 151, STHBRX |-> 918, STWBRX |-> 662, STSWX |-> 661, ECIWX |-> 310, ECOWX |-> 438]
UpdateP == [LBZUX |-> 119, LHZUX |-> 311, LHAUX |-> 375, LWZUX |-> 55, STBUX |-> 247, STHUX |-> 439, STWUX |-> 183]
FIndexP == [LFSX |-> 535, LFDX |-> 599, STFIWX |-> 983, STFSX |-> 663, STFDX |-> 727]
FUpdP   == [LFSUX |-> 567, LFDUX |-> 631, STFSUX |-> 695, STFDUX |-> 759]
StringP == [LSWI |-> 597, STSWI |-> 725]
CacheP  == [ICBI |-> 982, DCBT |-> 278, DCBTST |-> 246, DCBZ |-> 1014, DCBST |-> 54, DCBF |-> 86, DCBA |-> 758, DCBI |-> 470, DCBZL |-> 1014]
RegBP   == [TLBLD |-> 978, TLBLI |-> 1010]
SegP    == [MTSRIN |-> 242, MFSRIN |-> 659]
OneP    == [MFCR |-> 19, MFMSR |-> 83, MTMSR |-> 146]
StreamP == [DST |-> <<342, 0>>, DSTT |-> <<342, 16>>, DSTST |-> <<374, 0>>, DSTSTT |-> <<374, 16>>]
\* special purpose registers: extended opcode and number
SprP    == [MFXER |-> <<339, 1>>, MFLR |-> <<339, 8>>, MFCTR |-> <<339, 9>>, MFMQ |-> <<339, 0>>, MFRTCL |-> <<339, 5>>, MFRTCU |-> <<339, 4>>,
            MTXER |-> <<467, 1>>, MTLR |-> <<467, 8>>, MTCTR |-> <<467, 9>>, MTMQ |-> <<467, 0>>, MTRTCL |-> <<467, 21>>, MTRTCU |-> <<467, 20>>,
            MTTBL |-> <<467, 284>>, MTTBU |-> <<467, 285>>, MFTB |-> <<371, 268>>, MFTBU |-> <<371, 269>>]
\* primary opcodes with a 16-bit immediate
ImmP    == [SUBFIC |-> 8, MULLI |-> 7, DOZI |-> 9, ADDIC |-> 12]
LImmP   == [ORI |-> 24, ORIS |-> 25, XORI |-> 26, XORIS |-> 27]
LImmDP  == [ANDI |-> 28, ANDIS |-> 29]                     \* always with the record bit
\* condition register operations, primary opcode 19
CrOpP   == [CRAND |-> 257, CRANDC |-> 129, CREQV |-> 289, CRNAND |-> 225, CRNOR |-> 33, CROR |-> 449, CRORC |-> 417, CRXOR |-> 193]
\* floating point: primary opcode, extended opcode
FAbP    == [FADD |-> <<63, 21>>, FADDS |-> <<59, 21>>, FSUB |-> <<63, 20>>, FSUBS |-> <<59, 20>>, FDIV |-> <<63, 18>>, FDIVS |-> <<59, 18>>]
FAcP    == [FMUL |-> <<63, 25>>, FMULS |-> <<59, 25>>]
FAcbP   == [FMADD |-> <<63, 29>>, FMADDS |-> <<59, 29>>, FMSUB |-> <<63, 28>>, FMSUBS |-> <<59, 28>>, FNMADD |-> <<63, 31>>, FNMADDS |-> <<59, 31>>,
            FNMSUB |-> <<63, 30>>, FNMSUBS |-> <<59, 30>>, FSEL |-> <<63, 23>>]
FBP     == [FMR |-> <<63, 72>>, FABS |-> <<63, 264>>, FNEG |-> <<63, 40>>, FNABS |-> <<63, 136>>, FRES |-> <<59, 24>>, FRSP |-> <<63, 12>>,
            FRSQRTE |-> <<63, 26>>, FSQRT |-> <<63, 22>>, FSQRTS |-> <<59, 22>>, FCTIW |-> <<63, 14>>, FCTIWZ |-> <<63, 15>>]
FCmpP   == [FCMPU |-> 0, FCMPO |-> 32]
FBitP   == [MTFSB0 |-> 70, MTFSB1 |-> 38]
DottedP == DOMAIN HighP \cup DOMAIN UnaryP \cup DOMAIN LogicP \cup DOMAIN Logic2P \cup DOMAIN ShiftP \cup {"LSCBX", "STWCX"} \cup DOMAIN ArithP \cup DOMAIN SubP
           \cup DOMAIN FAbP \cup DOMAIN FAcP \cup DOMAIN FAcbP \cup DOMAIN FBP \cup DOMAIN FBitP \cup {"MFFS", "MTFSFI", "MTFSF"}
OverP   == DOMAIN ArithP \cup DOMAIN SubP \cup DOMAIN UnaryP

\* conditions of the branches (BO, BI) and of the traps (TO)
CondP == [LT |-> <<12, 0>>, LE |-> <<4, 1>>, EQ |-> <<12, 2>>, GE |-> <<4, 0>>, GT |-> <<12, 1>>, NL |-> <<4, 0>>, NE |-> <<4, 2>>, NG |-> <<4, 1>>,
          SO |-> <<12, 3>>, NS |-> <<4, 3>>, UN |-> <<12, 3>>, NU |-> <<4, 3>>, DNZ |-> <<16, 0>>, DZ |-> <<18, 0>>]
TrapP == [LT |-> 16, LE |-> 20, EQ |-> 4, GE |-> 12, GT |-> 8, NL |-> 12, NE |-> 24, NG |-> 20, LLT |-> 2, LLE |-> 6, LGE |-> 5, LGT |-> 1, LNL |-> 5, LNG |-> 6]
\* how a branch ends: relative or absolute (aa) or through a register (the extended opcode of primary opcode 19), and whether it links (lk)
EndP(k, aa, lk, xo) == [kind |-> k, aa |-> aa, lk |-> lk, xo |-> xo]
EndsP == [L |-> EndP("to", 0, 1, 0), A |-> EndP("to", 1, 0, 0), LA |-> EndP("to", 1, 1, 0),
          LR |-> EndP("by", 0, 0, 16), LRL |-> EndP("by", 0, 1, 16), CTR |-> EndP("by", 0, 0, 528), CTRL |-> EndP("by", 0, 1, 528)]
EndOfP(s) == IF s = "" THEN EndP("to", 0, 0, 0) ELSE EndsP[s]
BranchesP == TLCEval({ <<"B" \o c \o e, CondP[c], EndOfP(e)>> : c \in DOMAIN CondP, e \in DOMAIN EndsP \cup {""} }
                     \ { <<"BDNZ" \o e, CondP["DNZ"], EndOfP(e)>> : e \in {"CTR", "CTRL"} })
BranchP == TLCEval([n \in { b[1] : b \in BranchesP } |-> CHOOSE b \in BranchesP : b[1] = n])
AlwaysP == [BLR |-> EndsP.LR, BLRL |-> EndsP.LRL, BCTR |-> EndsP.CTR, BCTRL |-> EndsP.CTRL]
TrapRP == TLCEval([n \in { "TW" \o c : c \in DOMAIN TrapP } |-> TrapP[From(n, 3)]])
TrapIP == TLCEval([n \in { "TW" \o c \o "I" : c \in DOMAIN TrapP } |-> TrapP[SubSeq(n, 3, Len(n) - 1)]])

\* the displacement or address in n bits from bit 2; a target is a multiple of four within reach
ToP(n, aa) ==
  LET f == [Bits(n + 2, 0) EXCEPT !.rng = <<n + 1, 2>>, !.filt = "shr2", !.step = 4, !.signed = TRUE, !.lim = << -(2^(n + 1)), 2^(n + 1) - 1 >>]
  IN IF aa = 1 THEN f ELSE [f EXCEPT !.rel = <<0>>]
LowP(aa, lk) == 2 * aa + lk
AloneP == [NOP |-> W(24, 0, 0, 0, 0), SC |-> W(17, 0, 0, 0, 2), LWSYNC |-> W(31, 1, 0, 0, 1196), PTESYNC |-> W(31, 2, 0, 0, 1196), TRAP |-> W(31, 31, 0, 0, 8),
           ISYNC |-> W(19, 0, 0, 0, 300), EIEIO |-> W(31, 0, 0, 0, 1708), RFI |-> W(19, 0, 0, 0, 100), TLBIA |-> W(31, 0, 0, 0, 740), TLBSYNC |-> W(31, 0, 0, 0, 1132),
           DSSALL |-> W(31, 16, 0, 0, 1644)]

InsPpc(A, k, t) ==
  LET n == Len(t) - 1
      rc == IF DotP(k) THEN 1 ELSE 0
      b == IF DotP(k) THEN CutP(k) ELSE k                                    \* without the record dot
      oe == b \notin DottedP /\ Len(b) > 1 /\ From(b, Len(b)) = "O" /\ CutP(b) \in OverP
      m == IF oe THEN CutP(b) ELSE b                                         \* ... and the overflow letter
      x(xo) == 2 * xo + rc + (IF oe THEN 1024 ELSE 0)
      g(i) == GP(t[i + 1])
      f(i) == FP(t[i + 1])
      isg(i) == i <= n /\ g(i) >= 0
      is0(i) == i <= n /\ G0P(t[i + 1]) >= 0
      isf(i) == i <= n /\ f(i) >= 0
      val(i) == i <= n /\ ValP(t[i + 1])
      g0(i) == G0P(t[i + 1])
      g3 == n = 3 /\ isg(1) /\ isg(2) /\ isg(3)
      f3 == n = 3 /\ isf(1) /\ isf(2) /\ isf(3)
      is(names) == m \in names /\ (~oe \/ m \in OverP) /\ (rc = 0 \/ m \in DottedP)
      put(w, ops) == Ins(A, w, ops)
      op(i, fld) == <<t[i + 1], fld>>
      \* comparisons: [field] [L] rA, value; long is the L bit of the mnemonic, or -1 when it is an operand
      cmp(prim, xo, long, last) ==
        LET r == n - 1
            lastok == IF last = "r" THEN isg(n) ELSE val(n)
            w == W(prim, IF long = 1 THEN 1 ELSE 0, g(r), IF last = "r" THEN g(n) ELSE 0, 2 * xo)
            ops == IF last = "r" THEN <<>> ELSE << op(n, IF last = "s" THEN SImmP ELSE UImmP) >>
        IN IF ~(n >= 2 /\ isg(r) /\ lastok) THEN Reject(A)
           ELSE CASE n = 2 /\ long >= 0 -> put(w, ops)
                  [] n = 3 /\ val(1) -> put(w, << op(1, CrP) >> \o ops)
                  [] n = 4 /\ long < 0 /\ val(1) /\ val(2) -> put(w, << op(1, CrP), op(2, Bits(1, 21)) >> \o ops)
                  [] OTHER -> Reject(A)
      no == Reject(A)
  IN CASE is(DOMAIN ArithP) -> IF g3 THEN Emit(A, W(31, g(1), g(2), g(3), x(ArithP[m]))) ELSE no
       [] is(DOMAIN SubP) -> IF g3 THEN Emit(A, W(31, g(1), g(3), g(2), x(SubP[m]))) ELSE no
       [] is(DOMAIN HighP) -> IF g3 THEN Emit(A, W(31, g(1), g(2), g(3), x(HighP[m]))) ELSE no
       [] is(DOMAIN UnaryP) -> IF n = 2 /\ isg(1) /\ isg(2) THEN Emit(A, W(31, g(1), g(2), 0, x(UnaryP[m]))) ELSE no
       [] k = "CLCS" -> IF n = 2 /\ isg(1) /\ isg(2) THEN Emit(A, W(31, g(1), g(2), 0, 1062)) ELSE no
       [] is(DOMAIN LogicP) -> IF g3 THEN Emit(A, W(31, g(2), g(1), g(3), x(LogicP[m]))) ELSE no
       [] is(DOMAIN Logic2P) -> IF n = 2 /\ isg(1) /\ isg(2) THEN Emit(A, W(31, g(2), g(1), 0, x(Logic2P[m]))) ELSE no
       [] is(DOMAIN ShiftP) -> IF n = 3 /\ isg(1) /\ isg(2) /\ val(3) THEN put(W(31, g(2), g(1), 0, x(ShiftP[m])), << op(3, Bits(5, 11)) >>) ELSE no
       [] is(DOMAIN IndexP) -> IF n = 3 /\ isg(1) /\ is0(2) /\ isg(3) THEN Emit(A, W(31, g(1), g0(2), g(3), x(IndexP[m]))) ELSE no
       [] k = "STWCX." -> IF n = 3 /\ isg(1) /\ is0(2) /\ isg(3) THEN Emit(A, W(31, g(1), g0(2), g(3), 301)) ELSE no
       [] is(DOMAIN UpdateP) -> IF g3 /\ g(2) # 0 THEN Emit(A, W(31, g(1), g(2), g(3), x(UpdateP[m]))) ELSE no
       [] is(DOMAIN FIndexP) -> IF n = 3 /\ isf(1) /\ is0(2) /\ isg(3) THEN Emit(A, W(31, f(1), g0(2), g(3), x(FIndexP[m]))) ELSE no
       [] is(DOMAIN FUpdP) -> IF n = 3 /\ isf(1) /\ isg(2) /\ g(2) # 0 /\ isg(3) THEN Emit(A, W(31, f(1), g(2), g(3), x(FUpdP[m]))) ELSE no
       [] is(DOMAIN StringP) -> IF n = 3 /\ isg(1) /\ is0(2) /\ val(3) THEN put(W(31, g(1), g0(2), 0, x(StringP[m])), << op(3, Bits(5, 11)) >>) ELSE no
       [] is(DOMAIN CacheP) -> IF n = 2 /\ is0(1) /\ isg(2) THEN Emit(A, W(31, IF k = "DCBZL" THEN 1 ELSE 0, g0(1), g(2), x(CacheP[m])))
                               ELSE IF k = "DCBT" /\ n = 3 /\ is0(1) /\ isg(2) /\ val(3) THEN put(W(31, 0, g0(1), g(2), 556), << op(3, Bits(4, 21)) >>) ELSE no
       [] is(DOMAIN RegBP) -> IF n = 1 /\ isg(1) THEN Emit(A, W(31, 0, 0, g(1), x(RegBP[m]))) ELSE no
       [] is(DOMAIN SegP) -> IF n = 2 /\ isg(1) /\ isg(2) THEN Emit(A, W(31, g(1), 0, g(2), x(SegP[m]))) ELSE no
       [] is(DOMAIN OneP) -> IF n = 1 /\ isg(1) THEN Emit(A, W(31, g(1), 0, 0, x(OneP[m]))) ELSE no
       [] is(DOMAIN SprP) -> IF n = 1 /\ isg(1) THEN Emit(A, W(31, g(1), SprP[m][2] % 32, SprP[m][2] \div 32, x(SprP[m][1]))) ELSE no
       [] is(DOMAIN StreamP) -> IF n = 3 /\ isg(1) /\ isg(2) /\ val(3) THEN put(W(31, StreamP[m][2], g(1), g(2), x(StreamP[m][1])), << op(3, Bits(2, 21)) >>) ELSE no
       [] k = "DSS" -> IF n = 1 /\ val(1) THEN put(W(31, 0, 0, 0, 1644), << op(1, Bits(2, 21)) >>) ELSE no
       [] k = "SYNC" -> IF n = 0 THEN Emit(A, W(31, 0, 0, 0, 1196)) ELSE IF n = 1 /\ val(1) THEN put(W(31, 0, 0, 0, 1196), << op(1, Bits(2, 21)) >>) ELSE no
       [] k \in DOMAIN AloneP -> IF n = 0 THEN Emit(A, AloneP[k]) ELSE no
       [] k = "ATTN" -> IF n = 1 /\ val(1) THEN put(W(0, 0, 0, 0, 512), << op(1, Bits(15, 11)) >>) ELSE no
       [] k \in {"ADDI", "ADDIS"} -> IF n = 3 /\ isg(1) /\ is0(2) /\ val(3)
             THEN put(W(IF k = "ADDI" THEN 14 ELSE 15, g(1), g0(2), 0, 0), << op(3, IF k = "ADDI" THEN SImmP ELSE UImmP) >>) ELSE no
       [] k \in {"LI", "LIS"} -> IF n = 2 /\ isg(1) /\ val(2)
             THEN put(W(IF k = "LI" THEN 14 ELSE 15, g(1), 0, 0, 0), << op(2, IF k = "LI" THEN SImmP ELSE UImmP) >>) ELSE no
       [] k \in DOMAIN ImmP \/ k = "ADDIC." -> IF n = 3 /\ isg(1) /\ isg(2) /\ val(3)
             THEN put(W(IF k = "ADDIC." THEN 13 ELSE ImmP[k], g(1), g(2), 0, 0), << op(3, SImmP) >>) ELSE no
       [] k \in DOMAIN LImmP \/ (rc = 1 /\ b \in DOMAIN LImmDP) -> IF n = 3 /\ isg(1) /\ isg(2) /\ val(3)
             THEN put(W(IF rc = 1 THEN LImmDP[b] ELSE LImmP[k], g(2), g(1), 0, 0), << op(3, UImmP) >>) ELSE no
       [] k = "CMPI" -> cmp(11, 0, -1, "s")
       [] k = "CMPLI" -> cmp(10, 0, -1, "u")
       [] k = "CMP" -> cmp(31, 0, -1, "r")
       [] k = "CMPL" -> cmp(31, 32, -1, "r")
       [] k \in {"CMPWI", "CMPDI"} -> cmp(11, 0, IF k = "CMPDI" THEN 1 ELSE 0, "s")
       [] k \in {"CMPLWI", "CMPLDI"} -> cmp(10, 0, IF k = "CMPLDI" THEN 1 ELSE 0, "u")
       [] k \in {"CMPW", "CMPD"} -> cmp(31, 0, IF k = "CMPD" THEN 1 ELSE 0, "r")
       [] k \in {"CMPLW", "CMPLD"} -> cmp(31, 32, IF k = "CMPLD" THEN 1 ELSE 0, "r")
       [] k = "TWI" -> IF n = 3 /\ val(1) /\ isg(2) /\ val(3) THEN put(W(3, 0, g(2), 0, 0), << op(1, Bits(5, 21)), op(3, SImmP) >>) ELSE no
       [] k = "TW" -> IF n = 3 /\ val(1) /\ isg(2) /\ isg(3) THEN put(W(31, 0, g(2), g(3), 8), << op(1, Bits(5, 21)) >>) ELSE no
       [] k \in DOMAIN TrapRP -> IF n = 2 /\ isg(1) /\ isg(2) THEN Emit(A, W(31, TrapRP[k], g(1), g(2), 8)) ELSE no
       [] k \in DOMAIN TrapIP -> IF n = 2 /\ isg(1) /\ val(2) THEN put(W(3, TrapIP[k], g(1), 0, 0), << op(2, SImmP) >>) ELSE no
       \* branches
       [] k \in {"B", "BL", "BA", "BLA"} -> LET e == EndOfP(From(k, 2)) IN IF n = 1 /\ val(1) THEN put(W(18, 0, 0, 0, LowP(e.aa, e.lk)), << op(1, ToP(24, e.aa)) >>) ELSE no
       [] k \in {"BC", "BCL", "BCA", "BCLA"} -> LET e == EndOfP(From(k, 3)) IN IF n = 3 /\ val(1) /\ val(2) /\ val(3)
             THEN put(W(16, 0, 0, 0, LowP(e.aa, e.lk)), << op(1, Bits(5, 21)), op(2, Bits(5, 16)), op(3, ToP(14, e.aa)) >>) ELSE no
       [] k \in {"BCLR", "BCLRL", "BCCTR", "BCCTRL"} -> LET e == EndsP[From(k, 3)] IN IF n \in {2, 3} /\ \A i \in 1..n : val(i)
             THEN put(W(19, 0, 0, 0, 2 * e.xo + e.lk), << op(1, Bits(5, 21)), op(2, Bits(5, 16)) >> \o (IF n = 3 THEN << op(3, Bits(2, 11)) >> ELSE <<>>)) ELSE no
       [] k \in DOMAIN AlwaysP \cup {"BDNZLR", "BDNZLRL", "BDZLR", "BDZLRL"} ->
             LET e == IF k \in DOMAIN AlwaysP THEN AlwaysP[k] ELSE BranchP[k][3]
                 bo == IF k \in DOMAIN AlwaysP THEN 20 ELSE BranchP[k][2][1]
             IN IF n <= 1 /\ (n = 0 \/ val(1)) THEN put(W(19, bo, 0, 0, 2 * e.xo + e.lk), IF n = 1 THEN << op(1, Bits(2, 11)) >> ELSE <<>>) ELSE no
       [] k \in DOMAIN BranchP ->
             LET e == BranchP[k][3]
                 c == BranchP[k][2]
             IN IF e.kind = "by" THEN IF n = 0 THEN Emit(A, W(19, c[1], c[2], 0, 2 * e.xo + e.lk)) ELSE no
                ELSE IF n = 1 /\ val(1) THEN put(W(16, c[1], c[2], 0, LowP(e.aa, e.lk)), << op(1, ToP(14, e.aa)) >>) ELSE no
       \* condition register
       [] k \in DOMAIN CrOpP -> IF n = 3 /\ val(1) /\ val(2) /\ val(3) THEN put(W(19, 0, 0, 0, 2 * CrOpP[k]), << op(1, Bits(5, 21)), op(2, Bits(5, 16)), op(3, Bits(5, 11)) >>) ELSE no
       [] k = "MCRF" -> IF n = 2 /\ val(1) /\ val(2) THEN put(W(19, 0, 0, 0, 0), << op(1, CrP), op(2, Bits(3, 18)) >>) ELSE no
       [] k = "MCRFS" -> IF n = 2 /\ val(1) /\ val(2) THEN put(W(63, 0, 0, 0, 128), << op(1, CrP), op(2, Bits(3, 18)) >>) ELSE no
       [] k = "MCRXR" -> IF n = 1 /\ val(1) THEN put(W(31, 0, 0, 0, 1024), << op(1, CrP) >>) ELSE no
       \* floating point
       [] is(DOMAIN FAbP) -> IF f3 THEN Emit(A, W(FAbP[m][1], f(1), f(2), f(3), x(FAbP[m][2]))) ELSE no
       [] is(DOMAIN FAcP) -> IF f3 THEN Emit(A, W(FAcP[m][1], f(1), f(2), 0, 64 * f(3) + x(FAcP[m][2]))) ELSE no
       [] is(DOMAIN FAcbP) -> IF n = 4 /\ isf(1) /\ isf(2) /\ isf(3) /\ isf(4) THEN Emit(A, W(FAcbP[m][1], f(1), f(2), f(4), 64 * f(3) + x(FAcbP[m][2]))) ELSE no
       [] is(DOMAIN FBP) -> IF n = 2 /\ isf(1) /\ isf(2) THEN Emit(A, W(FBP[m][1], f(1), 0, f(2), x(FBP[m][2]))) ELSE no
       [] k \in DOMAIN FCmpP -> IF n = 3 /\ val(1) /\ isf(2) /\ isf(3) THEN put(W(63, 0, f(2), f(3), 2 * FCmpP[k]), << op(1, CrP) >>) ELSE no
       [] is({"MFFS"}) -> IF n = 1 /\ isf(1) THEN Emit(A, W(63, f(1), 0, 0, x(583))) ELSE no
       [] is({"MTFSFI"}) -> IF n = 2 /\ val(1) /\ val(2) THEN put(W(63, 0, 0, 0, x(134)), << op(1, CrP), op(2, Bits(4, 12)) >>) ELSE no
       [] is({"MTFSF"}) -> IF n = 2 /\ val(1) /\ isf(2) THEN put(W(63, 0, 0, f(2), x(711)), << op(1, Bits(8, 17)) >>) ELSE no
       [] is(DOMAIN FBitP) -> IF n = 1 /\ val(1) THEN put(W(63, 0, 0, 0, x(FBitP[m])), << op(1, Bits(5, 21)) >>) ELSE no
       [] OTHER -> Fail(A, "UnknownInstruction")
=============================================================================
