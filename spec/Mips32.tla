------------------------------- MODULE Mips32 -------------------------------
(* MIPS I: R, I and J formats.  Registers are numbered or named.                *)
(* lui, lhi and llo take a 32-bit value and keep its upper or lower half.        *)
EXTENDS IsaBase
RegAliasM == <<"$ZERO", "$AT", "$V0", "$V1", "$A0", "$A1", "$A2", "$A3", "$T0", "$T1", "$T2", "$T3", "$T4", "$T5", "$T6", "$T7",
               "$S0", "$S1", "$S2", "$S3", "$S4", "$S5", "$S6", "$S7", "$T8", "$T9", "$K0", "$K1", "$GP", "$SP", "$FP", "$RA">>
RegNumM == TLCEval([i \in 1..32 |-> "$" \o Dec(i - 1)])
RegM(tok) == LET a == IndexOf(RegAliasM, Up(tok)) IN (IF a > 0 THEN a ELSE IndexOf(RegNumM, tok)) - 1
IsRegM(tok) == RegM(tok) >= 0
\* function codes of the SPECIAL opcode
ThreeM  == [ADD |-> 32, ADDU |-> 33, SUB |-> 34, SUBU |-> 35, AND |-> 36, OR |-> 37, XOR |-> 38, NOR |-> 39, SLT |-> 42, SLTU |-> 43]
ShiftM  == [SLL |-> 0, SRL |-> 2, SRA |-> 3]
ShiftVM == [SLLV |-> 4, SRLV |-> 6, SRAV |-> 7]
TwoM    == [MULT |-> 24, MULTU |-> 25, DIV |-> 26, DIVU |-> 27]
FromM   == [MFHI |-> 16, MFLO |-> 18]
ToM     == [MTHI |-> 17, MTLO |-> 19, JR |-> 8]
AloneM  == [SYSCALL |-> 12, BREAK |-> 13]
\* primary opcodes
SImmM   == [ADDI |-> 8, SLTI |-> 10]                             \* immediates read as signed numbers
UImmM   == [ADDIU |-> 9, SLTIU |-> 11, ANDI |-> 12, ORI |-> 13, XORI |-> 14]
LoadSt  == [LB |-> 32, LH |-> 33, LW |-> 35, LBU |-> 36, LHU |-> 37, SB |-> 40, SH |-> 41, SW |-> 43]
BranchM == [BEQ |-> 4, BNE |-> 5]
BranchZ == [BLEZ |-> 6, BGTZ |-> 7]
JumpM   == [J |-> 2, JAL |-> 3, TRAP |-> 26]
HalfM   == [LUI |-> 15, LHI |-> 25, LLO |-> 24]

\* a word from its fields (op, rs, rt, rd, shamt, funct)
WordR(op, rs, rt, rd, sh, fn) == << op * 4 + (rs \div 8), (rs % 8) * 32 + rt, rd * 8 + (sh \div 4), (sh % 4) * 64 + fn >>
\* in the byte order of the assembler (the PlayStation is little endian)
WordM(A, op, rs, rt, rd, sh, fn) == Order(A, Reverse(WordR(op, rs, rt, rd, sh, fn)))
WordI(A, op, rs, rt) == WordM(A, op, rs, rt, 0, 0, 0)
Imm16M == [F(4, 16, 0) EXCEPT !.rng = <<15, 0>>]
ImmS16M == [Imm16M EXCEPT !.signed = TRUE]
DispM  == [Rel(F(4, 18, 0), 4) EXCEPT !.rng = <<15, 0>>, !.filt = "shr2", !.step = 4]
JumpF(A) == [F(4, 32, 0) EXCEPT !.rng = <<25, 0>>, !.filt = "shr2low26", !.step = 4, !.region = <<28, Shr(Add(Pc(A), B(4)), 28)>>]

InsMips(A, k, t) ==
  LET n == Len(t) - 1
      r(i) == RegM(t[i + 1])
      g(i) == i <= n /\ r(i) >= 0
      reg3 == n = 3 /\ g(1) /\ g(2) /\ g(3)
      imm(i) == First(t[i + 1]) # "$"
  IN CASE k \in DOMAIN ThreeM -> IF reg3 THEN Emit(A, WordM(A, 0, r(2), r(3), r(1), 0, ThreeM[k])) ELSE Reject(A)
       [] k \in DOMAIN ShiftVM -> IF reg3 THEN Emit(A, WordM(A, 0, r(3), r(2), r(1), 0, ShiftVM[k])) ELSE Reject(A)
       [] k \in DOMAIN ShiftM -> IF n = 3 /\ g(1) /\ g(2) /\ imm(3)
             THEN Ins(A, WordM(A, 0, 0, r(2), r(1), 0, ShiftM[k]), << <<t[4], [F(4, 5, 0) EXCEPT !.rng = <<10, 6>>]>> >>) ELSE Reject(A)
       [] k \in DOMAIN TwoM -> IF n = 2 /\ g(1) /\ g(2) THEN Emit(A, WordM(A, 0, r(1), r(2), 0, 0, TwoM[k])) ELSE Reject(A)
       [] k \in DOMAIN FromM -> IF n = 1 /\ g(1) THEN Emit(A, WordM(A, 0, 0, 0, r(1), 0, FromM[k])) ELSE Reject(A)
       [] k \in DOMAIN ToM -> IF n = 1 /\ g(1) THEN Emit(A, WordM(A, 0, r(1), 0, 0, 0, ToM[k])) ELSE Reject(A)
       [] k = "JALR" -> IF n = 1 /\ g(1) THEN Emit(A, WordM(A, 0, r(1), 0, 31, 0, 9))
                        ELSE IF n = 2 /\ g(1) /\ g(2) THEN Emit(A, WordM(A, 0, r(2), 0, r(1), 0, 9)) ELSE Reject(A)
       [] k \in DOMAIN AloneM -> Plain(A, WordM(A, 0, 0, 0, 0, 0, AloneM[k]), t)
       [] k \in DOMAIN SImmM \cup DOMAIN UImmM ->
             LET s == k \in DOMAIN SImmM IN
             IF n = 3 /\ g(1) /\ g(2) /\ imm(3)
             THEN Ins(A, WordI(A, IF s THEN SImmM[k] ELSE UImmM[k], r(2), r(1)), << <<t[4], IF s THEN ImmS16M ELSE Imm16M>> >>) ELSE Reject(A)
       [] k \in DOMAIN HalfM -> IF n = 2 /\ g(1) /\ imm(2)
             THEN Ins(A, WordI(A, HalfM[k], 0, r(1)), << <<t[3], [F(4, 32, 0) EXCEPT !.rng = <<15, 0>>, !.filt = IF k = "LLO" THEN "and16" ELSE "shr16"]>> >>)
             ELSE Reject(A)
       [] k \in DOMAIN LoadSt -> IF n = 5 /\ g(1) /\ imm(2) /\ t[4] = "(" /\ g(4) /\ t[6] = ")" /\ IsLit(A, t[3])   \* no labels as offsets
             THEN Ins(A, WordI(A, LoadSt[k], r(4), r(1)), << <<t[3], ImmS16M>> >>) ELSE Reject(A)
       [] k \in DOMAIN BranchM -> IF n = 3 /\ g(1) /\ g(2) /\ imm(3) THEN Ins(A, WordI(A, BranchM[k], r(1), r(2)), << <<t[4], DispM>> >>) ELSE Reject(A)
       [] k \in DOMAIN BranchZ -> IF n = 2 /\ g(1) /\ imm(2) THEN Ins(A, WordI(A, BranchZ[k], r(1), 0), << <<t[3], DispM>> >>) ELSE Reject(A)
       [] k \in DOMAIN JumpM -> IF n = 1 /\ imm(1) THEN Ins(A, WordI(A, JumpM[k], 0, 0), << <<t[2], JumpF(A)>> >>) ELSE Reject(A)
KnownMips == DOMAIN ThreeM \cup DOMAIN ShiftM \cup DOMAIN ShiftVM \cup DOMAIN TwoM \cup DOMAIN FromM \cup DOMAIN ToM \cup DOMAIN AloneM \cup DOMAIN SImmM
             \cup DOMAIN UImmM \cup DOMAIN LoadSt \cup DOMAIN BranchM \cup DOMAIN BranchZ \cup DOMAIN JumpM \cup DOMAIN HalfM \cup {"JALR"}
=============================================================================
