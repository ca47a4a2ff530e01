------------------------------ MODULE Mos6502 ------------------------------
(* MOS 6502: opcodes follow the pattern aaabbbcc (operation, mode, group).      *)
EXTENDS IsaBase
G1 == <<"ORA", "AND", "EOR", "ADC", "STA", "LDA", "CMP", "SBC">>
G2 == <<"ASL", "ROL", "LSR", "ROR", "STX", "LDX", "DEC", "INC">>
G0 == <<"-", "BIT", "JMP", "-", "STY", "LDY", "CPY", "CPX">>
Branch == <<"BPL", "BMI", "BVC", "BVS", "BCC", "BCS", "BNE", "BEQ">>
Implied == [BRK |-> 0, PHP |-> 8, CLC |-> 24, PLP |-> 40, SEC |-> 56, RTI |-> 64, PHA |-> 72, CLI |-> 88, RTS |-> 96, PLA |-> 104, SEI |-> 120,
            DEY |-> 136, TXA |-> 138, TYA |-> 152, TXS |-> 154, TAY |-> 168, TAX |-> 170, CLV |-> 184, TSX |-> 186, INY |-> 200, DEX |-> 202,
            CLD |-> 216, INX |-> 232, NOP |-> 234, SED |-> 248]

\* addressing modes: number bbb of the mode within a group, or -1
ModeOf(k, m) ==
  IF k = "JSR" THEN (IF m = "abs" THEN 32 ELSE -1)
  ELSE IF k = "JMP" THEN (CASE m = "abs" -> 76 [] m = "ind" -> 108 [] OTHER -> -1)
  ELSE LET g1 == IndexOf(G1, k) g2 == IndexOf(G2, k) g0 == IndexOf(G0, k)
           op(i, b, c) == 32 * (i - 1) + 4 * b + c
       IN IF g1 > 0 THEN CASE m = "indx" -> op(g1, 0, 1) [] m = "zp" -> op(g1, 1, 1) [] m = "imm" -> (IF k = "STA" THEN -1 ELSE op(g1, 2, 1))
                           [] m = "abs" -> op(g1, 3, 1) [] m = "indy" -> op(g1, 4, 1) [] m = "zpx" -> op(g1, 5, 1)
                           [] m = "absy" -> op(g1, 6, 1) [] m = "absx" -> op(g1, 7, 1) [] OTHER -> -1
          ELSE IF g2 > 0 THEN LET x == k \in {"STX", "LDX"} IN
                         CASE m = "imm" -> (IF k = "LDX" THEN op(g2, 0, 2) ELSE -1) [] m = "zp" -> op(g2, 1, 2)
                           [] m = "acc" -> (IF g2 <= 4 THEN op(g2, 2, 2) ELSE -1) [] m = "abs" -> op(g2, 3, 2)
                           [] m = "zpx" -> (IF x THEN -1 ELSE op(g2, 5, 2)) [] m = "zpy" -> (IF x THEN op(g2, 5, 2) ELSE -1)
                           [] m = "absx" -> (IF x THEN -1 ELSE op(g2, 7, 2)) [] m = "absy" -> (IF k = "LDX" THEN op(g2, 7, 2) ELSE -1) [] OTHER -> -1
          ELSE IF g0 > 0 THEN CASE m = "imm" -> (IF g0 >= 6 \/ k = "LDY" THEN op(g0, 0, 0) ELSE -1)
                           [] m = "zp" -> op(g0, 1, 0) [] m = "abs" -> op(g0, 3, 0)
                           [] m = "zpx" -> (IF k \in {"STY", "LDY"} THEN op(g0, 5, 0) ELSE -1)
                           [] m = "absx" -> (IF k = "LDY" THEN op(g0, 7, 0) ELSE -1) [] OTHER -> -1
          ELSE -1
ImmOf(k) == ModeOf(k, "imm")

\* an address operand: page zero if the mode exists and the value is known to lie there
Address(A, zp, abs, tok) ==
  LET p == Parse(A, tok, 16, FALSE)
      l == LabelExpr(A.cfg.nt, A.labels, tok, Zero)
      v == IF p.t = "num" THEN p ELSE l
  IN IF p.t = "err" \/ (p.t = "none" /\ l.t = "err") THEN Reject(A)
     ELSE IF v.t = "num" /\ InUnsigned(v.v, 8) /\ zp # -1 THEN Emit(A, <<zp, ToInt(v.v)>>)
     ELSE IF abs = -1 THEN Reject(A)
     ELSE Ins(A, <<abs, 0, 0>>, << <<tok, F(2, 16, 1)>> >>)
Mem(tok) == First(tok) # "#"

Ins6502(A, k, t) ==
  IF k \in DOMAIN Implied THEN Plain(A, <<Implied[k]>>, t)
  ELSE IF IndexOf(Branch, k) > 0
    THEN IF Len(t) # 2 THEN Reject(A) ELSE Ins(A, <<32 * (IndexOf(Branch, k) - 1) + 16, 0>>, << <<t[2], Rel(F(1, 8, 1), 2)>> >>)
  ELSE IF Like(t, <<"A">>) THEN (IF ModeOf(k, "acc") = -1 THEN Reject(A) ELSE Emit(A, <<ModeOf(k, "acc")>>))
  ELSE IF Len(t) = 2 /\ ~Mem(t[2])
    THEN IF Len(t[2]) < 2 \/ ImmOf(k) = -1 THEN Reject(A) ELSE Ins(A, <<ImmOf(k), 0>>, << <<From(t[2], 2), F(1, 8, 1)>> >>)
  ELSE IF Len(t) = 2 THEN Address(A, ModeOf(k, "zp"), ModeOf(k, "abs"), t[2])
  ELSE IF Like(t, <<"", "X">>) /\ Mem(t[2]) THEN Address(A, ModeOf(k, "zpx"), ModeOf(k, "absx"), t[2])
  ELSE IF Like(t, <<"", "Y">>) /\ Mem(t[2]) THEN Address(A, ModeOf(k, "zpy"), ModeOf(k, "absy"), t[2])
  ELSE IF Like(t, <<"(", "", ")">>) /\ Mem(t[3]) THEN Address(A, -1, ModeOf(k, "ind"), t[3])
  ELSE IF Like(t, <<"(", "", "X", ")">>) /\ Mem(t[3]) THEN Address(A, ModeOf(k, "indx"), -1, t[3])
  ELSE IF Like(t, <<"(", "", ")", "Y">>) /\ Mem(t[3]) THEN Address(A, ModeOf(k, "indy"), -1, t[3])
  ELSE Reject(A)
Known6502 == DOMAIN Implied \cup {Branch[i] : i \in 1..8} \cup {G1[i] : i \in 1..8} \cup {G2[i] : i \in 1..8} \cup ({G0[i] : i \in 1..8} \ {"-"}) \cup {"JSR"}
=============================================================================
