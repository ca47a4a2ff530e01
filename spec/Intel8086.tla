----------------------------- MODULE Intel8086 -----------------------------
(* Intel 8086: ModRM operands and the instructions the assembler knows.         *)
(* Memory operands are written with their parts apart: [ BX + SI - 4 ].          *)
(* Displacements always take sixteen bits; a memory operand with an immediate,   *)
(* or alone with a shift, is a byte.                                             *)
EXTENDS IsaBase
R8X  == <<"AL", "CL", "DL", "BL", "AH", "CH", "DH", "BH">>
R16X == <<"AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI">>
SegX == <<"ES", "CS", "SS", "DS">>
RegX(tok) == LET u == Up(tok) IN IndexOf(R8X, u) > 0 \/ IndexOf(R16X, u) > 0 \/ IndexOf(SegX, u) > 0
W16(v) == << v % 256, v \div 256 >>
\* the eight bases of a memory operand, in the order of the r/m field
BaseX == << <<"BX", "+", "SI">>, <<"BX", "+", "DI">>, <<"BP", "+", "SI">>, <<"BP", "+", "DI">>, <<"SI">>, <<"DI">>, <<"BP">>, <<"BX">> >>
NoOp == [kind |-> "none", n |-> 0, mod |-> 0, tok |-> "", next |-> 0]
OperX(kind, n, mod, tok, next) == [kind |-> kind, n |-> n, mod |-> mod, tok |-> tok, next |-> next]
\* what stands between the brackets
InnerX(in, next) ==
  LET up == [i \in 1..Len(in) |-> Up(in[i])]
      bare == {i \in 1..8 : up = BaseX[i]}
      far == {i \in 1..8 : Len(in) = Len(BaseX[i]) + 2 /\ SubSeq(up, 1, Len(BaseX[i])) = BaseX[i] /\ in[Len(in) - 1] \in {"+", "-"} /\ ~RegX(in[Len(in)])}
  IN IF bare # {}                                      \* [BP] alone has no encoding without displacement
     THEN LET i == CHOOSE i \in bare : TRUE IN IF i = 7 THEN OperX("mem", 6, 2, "0", next) ELSE OperX("mem", i - 1, 0, "", next)
     ELSE IF far # {}
     THEN LET i == CHOOSE i \in far : TRUE IN OperX("mem", i - 1, 2, (IF in[Len(in) - 1] = "-" THEN "-" ELSE "") \o in[Len(in)], next)
     ELSE IF Len(in) = 1 /\ ~RegX(in[1]) THEN OperX("dir", 0, 0, in[1], next) ELSE NoOp
OpX(t, i) ==
  IF i > Len(t) THEN NoOp
  ELSE LET u == Up(t[i])
           close == {j \in (i + 1)..Len(t) : t[j] = "]"}
       IN CASE IndexOf(R8X, u) > 0 -> OperX("r8", IndexOf(R8X, u) - 1, 3, u, i + 1)
            [] IndexOf(R16X, u) > 0 -> OperX("r16", IndexOf(R16X, u) - 1, 3, u, i + 1)
            [] IndexOf(SegX, u) > 0 -> OperX("seg", IndexOf(SegX, u) - 1, 0, u, i + 1)
            [] u = "[" -> IF close = {} THEN NoOp ELSE LET j == Min(close) IN InnerX(SubSeq(t, i + 1, j - 1), j + 1)
            [] u = "]" -> NoOp
            [] OTHER -> OperX("imm", 0, 0, t[i], i + 1)
RECURSIVE OpsX(_, _)
OpsX(t, i) == IF i > Len(t) THEN <<>> ELSE LET o == OpX(t, i) IN IF o.kind = "none" THEN <<NoOp>> ELSE <<o>> \o OpsX(t, o.next)

\* opcode, ModRM byte, displacement; then more fields
ModX(op, e, reg) == << op, 64 * e.mod + 8 * reg + e.n >> \o (IF e.kind = "mem" /\ e.mod = 2 THEN <<0, 0>> ELSE <<>>)
DispX(e) == IF e.kind = "mem" /\ e.mod = 2 THEN << <<e.tok, [F(2, 16, 2) EXCEPT !.signed = TRUE]>> >> ELSE <<>>
EmitX(A, op, e, reg) == Ins(A, ModX(op, e, reg), DispX(e))
ByteX(off) == F(1, 8, off)
WordX(off) == F(2, 16, off)
ShortX == Rel(F(1, 8, 1), 2)
NearX  == Rel(F(2, 16, 1), 3)

AluX == <<"ADD", "OR", "ADC", "SBB", "AND", "SUB", "XOR", "CMP">>
JccX == <<"JO", "JNO", "JB", "JNB", "JZ", "JNZ", "JBE", "JA", "JS", "JNS", "JPE", "JPO", "JL", "JGE", "JLE", "JG">>
LoopX == <<"LOOPNZ", "LOOPZ", "LOOP", "JCXZ">>
AloneX == [DAA |-> 39, DAS |-> 47, AAA |-> 55, AAS |-> 63, NOP |-> 144, CBW |-> 152, CWD |-> 153, WAIT |-> 155, PUSHF |-> 156, POPF |-> 157, SAHF |-> 158, LAHF |-> 159,
           MOVSB |-> 164, MOVSW |-> 165, CMPSB |-> 166, CMPSW |-> 167, STOSB |-> 170, STOSW |-> 171, LODSB |-> 172, LODSW |-> 173, SCASB |-> 174, SCASW |-> 175,
           INTO |-> 206, IRET |-> 207, XLAT |-> 215, LOCK |-> 240, REPNZ |-> 242, REPZ |-> 243, HLT |-> 244, CMC |-> 245,
           CLC |-> 248, STC |-> 249, CLI |-> 250, STI |-> 251, CLD |-> 252, STD |-> 253]
SplitAt(tok) == LET i == IndexOf(Chars(tok), ":") IN << SubSeq(tok, 1, i - 1), From(tok, i + 1) >>
FarX(tok) == IndexOf(Chars(tok), ":") > 0

InsX86(A, k, t) ==
  LET o == OpsX(t, 2)
      n == Len(o)
      is(i, kind) == i <= n /\ o[i].kind = kind
      reg(i, name) == i <= n /\ o[i].kind \in {"r8", "r16", "seg"} /\ o[i].tok = name
      rm8(i) == is(i, "r8") \/ is(i, "mem")
      rm16(i) == is(i, "r16") \/ is(i, "mem")
      bare == n = 1 /\ is(1, "imm")
      \* E,G and G,E pairs with the opcodes of both directions and widths
      pair(eg8, eg16, ge8, ge16) ==
        CASE n # 2 -> Reject(A)
          [] rm8(1) /\ is(2, "r8") /\ eg8 >= 0 -> EmitX(A, eg8, o[1], o[2].n)
          [] rm16(1) /\ is(2, "r16") /\ eg16 >= 0 -> EmitX(A, eg16, o[1], o[2].n)
          [] is(1, "r8") /\ rm8(2) -> EmitX(A, ge8, o[2], o[1].n)
          [] is(1, "r16") /\ rm16(2) -> EmitX(A, ge16, o[2], o[1].n)
          [] OTHER -> Reject(A)
      imm8(op) == Ins(A, <<op, 0>>, << <<o[n].tok, ByteX(1)>> >>)
      imm16(op) == Ins(A, <<op, 0, 0>>, << <<o[n].tok, WordX(1)>> >>)
      at(op, i) == Ins(A, <<op, 0, 0>>, << <<o[i].tok, WordX(1)>> >>)
      near(op) == Ins(A, <<op, 0, 0>>, << <<o[1].tok, NearX>> >>)
      far(op) == Ins(A, <<op, 0, 0, 0, 0>>, << <<SplitAt(o[1].tok)[2], WordX(1)>>, <<SplitAt(o[1].tok)[1], WordX(3)>> >>)
      acc == n = 2 /\ is(2, "imm") /\ (reg(1, "AL") \/ reg(1, "AX"))
      short(op) == IF bare /\ ~FarX(o[1].tok) THEN Ins(A, <<op, 0>>, << <<o[1].tok, ShortX>> >>) ELSE Reject(A)
  IN IF \E i \in 1..n : o[i].kind = "none" THEN Reject(A)
     ELSE CASE IndexOf(AluX, k) > 0 ->
            LET b == 8 * (IndexOf(AluX, k) - 1) IN
            IF acc THEN (IF reg(1, "AL") THEN imm8(b + 4) ELSE imm16(b + 5)) ELSE pair(b, b + 1, b + 2, b + 3)
       [] k = "MOV" ->
            CASE n # 2 -> Reject(A)
              [] is(1, "r8") /\ is(2, "imm") -> imm8(176 + o[1].n)
              [] is(1, "r16") /\ is(2, "imm") -> imm16(184 + o[1].n)
              [] reg(1, "AL") /\ is(2, "dir") -> at(160, 2)
              [] reg(1, "AX") /\ is(2, "dir") -> at(161, 2)
              [] is(1, "dir") /\ reg(2, "AL") -> at(162, 1)
              [] is(1, "dir") /\ reg(2, "AX") -> at(163, 1)
              [] rm16(1) /\ is(2, "seg") -> EmitX(A, 140, o[1], o[2].n)
              [] is(1, "seg") /\ rm16(2) -> EmitX(A, 142, o[2], o[1].n)
              [] is(1, "mem") /\ is(2, "imm") -> LET m == ModX(198, o[1], 0)
                                                 IN Ins(A, m \o <<0>>, DispX(o[1]) \o << <<o[2].tok, ByteX(Len(m))>> >>)
              [] OTHER -> pair(136, 137, 138, 139)
       [] k = "TEST" -> IF acc THEN (IF reg(1, "AL") THEN imm8(168) ELSE imm16(169)) ELSE pair(-1, -1, 132, 133)
       [] k = "XCHG" -> pair(-1, -1, 134, 135)
       [] k = "LEA" -> IF n = 2 /\ is(1, "r16") /\ is(2, "mem") THEN EmitX(A, 141, o[2], o[1].n) ELSE Reject(A)
       [] k \in {"LES", "LDS"} -> IF n = 2 /\ is(1, "r16") /\ is(2, "dir")
            THEN Ins(A, <<IF k = "LES" THEN 196 ELSE 197, 8 * o[1].n + 6, 0, 0>>, << <<o[2].tok, WordX(2)>> >>) ELSE Reject(A)
       [] k \in {"INC", "DEC"} -> IF n = 1 /\ is(1, "r16") THEN Emit(A, <<(IF k = "INC" THEN 64 ELSE 72) + o[1].n>>) ELSE Reject(A)
       [] k \in {"PUSH", "POP"} -> CASE n # 1 -> Reject(A)
            [] is(1, "r16") -> Emit(A, <<(IF k = "PUSH" THEN 80 ELSE 88) + o[1].n>>)
            [] is(1, "seg") /\ (k = "PUSH" \/ o[1].tok # "CS") -> Emit(A, <<(IF k = "PUSH" THEN 6 ELSE 7) + 8 * o[1].n>>)
            [] is(1, "mem") /\ k = "POP" -> EmitX(A, 143, o[1], 0)
            [] OTHER -> Reject(A)
       [] IndexOf(JccX, k) > 0 -> short(111 + IndexOf(JccX, k))
       [] IndexOf(LoopX, k) > 0 -> short(223 + IndexOf(LoopX, k))
       [] k \in {"CALL", "JMP"} -> IF ~bare THEN Reject(A)
            ELSE IF FarX(o[1].tok) THEN far(IF k = "CALL" THEN 154 ELSE 234) ELSE near(IF k = "CALL" THEN 232 ELSE 233)
       [] k \in {"RET", "RETF"} -> IF n = 0 THEN Emit(A, <<IF k = "RET" THEN 195 ELSE 203>>)
                                   ELSE IF bare THEN imm16(IF k = "RET" THEN 194 ELSE 202) ELSE Reject(A)
       [] k = "INT" -> IF ~bare THEN Reject(A) ELSE IF o[1].tok = "3" THEN Emit(A, <<204>>) ELSE imm8(205)
       [] k \in {"AAM", "AAD"} -> LET op == IF k = "AAM" THEN 212 ELSE 213
                                  IN IF n = 0 THEN Emit(A, <<op, 10>>) ELSE IF bare /\ IsLit(A, o[1].tok) THEN imm8(op) ELSE Reject(A)
       [] k = "IN" -> CASE acc -> imm8(IF reg(1, "AL") THEN 228 ELSE 229)
                        [] n = 2 /\ reg(1, "AL") /\ reg(2, "DX") -> Emit(A, <<236>>)
                        [] n = 2 /\ reg(1, "AX") /\ reg(2, "DX") -> Emit(A, <<237>>)
                        [] OTHER -> Reject(A)
       [] k = "OUT" -> CASE n = 2 /\ is(1, "imm") /\ (reg(2, "AL") \/ reg(2, "AX")) -> Ins(A, <<IF reg(2, "AL") THEN 230 ELSE 231, 0>>, << <<o[1].tok, ByteX(1)>> >>)
                        [] n = 2 /\ reg(1, "DX") /\ reg(2, "AL") -> Emit(A, <<238>>)
                        [] n = 2 /\ reg(1, "DX") /\ reg(2, "AX") -> Emit(A, <<239>>)
                        [] OTHER -> Reject(A)
       [] k \in {"MUL", "DIV"} -> IF n = 1 /\ rm16(1) THEN EmitX(A, 247, o[1], IF k = "MUL" THEN 4 ELSE 6) ELSE Reject(A)
       [] k \in {"SHL", "SHR"} -> IF n \in {1, 2} /\ (rm8(1) \/ is(1, "r16")) /\ (n = 2 => is(2, "imm") /\ o[2].tok = "1")
            THEN EmitX(A, IF is(1, "r16") THEN 209 ELSE 208, o[1], IF k = "SHL" THEN 4 ELSE 5) ELSE Reject(A)
       [] OTHER -> Plain(A, <<AloneX[k]>>, t)
KnownX86 == {AluX[i] : i \in 1..8} \cup {JccX[i] : i \in 1..16} \cup {LoopX[i] : i \in 1..4} \cup DOMAIN AloneX \cup
            {"MOV", "TEST", "XCHG", "LEA", "LES", "LDS", "INC", "DEC", "PUSH", "POP", "CALL", "JMP", "RET", "RETF", "INT", "AAM", "AAD", "IN", "OUT", "MUL", "DIV", "SHL", "SHR"}
=============================================================================
