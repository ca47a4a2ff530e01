-------------------------------- MODULE Thumb --------------------------------
(* ARM7TDMI Thumb: the nineteen formats of the architecture, as far as the        *)
(* assembler knows them.                                                          *)
EXTENDS IsaBase
AluT  == <<"AND", "EOR", "LSL", "LSR", "ASR", "ADC", "SBC", "ROR", "TST", "NEG", "CMP", "CMN", "ORR", "MUL", "BIC", "MVN">>
CondT == <<"BEQ", "BNE", "BCS", "BCC", "BMI", "BPL", "BVS", "BVC", "BHI", "BLS", "BGE", "BLT", "BGT", "BLE">>
RegsT == TLCEval([i \in 1..16 |-> "R" \o Dec(i - 1)])
AliasT == <<"FP", "IP", "SP", "LR", "PC">>                                     \* r11 to r15
RegT(tok) == LET a == IndexOf(AliasT, Up(tok)) b == IndexOf(RegsT, Up(tok)) IN IF a > 0 THEN a + 10 ELSE b - 1
LowT(tok)  == RegT(tok) \in 0..7
HighT(tok) == RegT(tok) >= 8
ImmT(tok)  == Len(tok) > 1 /\ First(tok) = "#"
Hw(v) == << v % 256, v \div 256 >>                                                \* a halfword, low byte first
\* an immediate: number of bits, position, scale; a number only
ScaledT(bits, at, scale) ==
  [F(2, 16, 0) EXCEPT !.signed = TRUE, !.rng = <<at + bits - 1, at>>, !.lim = <<0, (2 ^ bits - 1) * scale>>, !.step = scale,
                      !.filt = CASE scale = 1 -> "" [] scale = 2 -> "shr1" [] scale = 4 -> "shr2"]
ByteT(bits, at) == [F(2, 8, 0) EXCEPT !.rng = <<at + bits - 1, at>>, !.lim = <<0, 2 ^ bits - 1>>]
WithT(A, op, tok, f) == IF IsLit(A, From(tok, 2)) THEN Ins(A, Hw(op), << <<From(tok, 2), f>> >>) ELSE Reject(A)
\* displacements from the address of the instruction plus 4, in halfwords
DispT(bits, size) == [Rel(F(size, bits + 1, 0), 4) EXCEPT !.rng = <<bits - 1, 0>>, !.align = 2, !.step = 2, !.filt = "shr1"]
\* literal loads: from the word the pipelined pc lies in, forward only
LiteralT == [F(2, 11, 0) EXCEPT !.rng = <<7, 0>>, !.step = 4, !.filt = "shr2", !.lim = <<0, 1020>>]
\* of a label: counted from the pipelined pc itself, two bytes before or at the next word
LabelT == [Rel(LiteralT, 4) EXCEPT !.align = 4, !.step = 2, !.filt = "up4", !.lim = <<-2, 1020>>]
\* {a, b-c, lr}: bits of the registers, bit 8 for lr, or -1
RECURSIVE OrT(_, _)
SplitDash(s) == LET i == IndexOf(Chars(s), "-") IN IF i = 0 THEN <<s>> ELSE << SubSeq(s, 1, i - 1), From(s, i + 1) >>
RangeT(tok) == LET p == SplitDash(tok) IN
               IF Len(p) = 1 THEN (IF LowT(tok) THEN {RegT(tok)} ELSE {99})
               ELSE IF LowT(p[1]) /\ LowT(p[2]) /\ RegT(p[1]) <= RegT(p[2]) THEN RegT(p[1])..RegT(p[2]) ELSE {99}
OrT(s, i) == IF i > 7 THEN 0 ELSE (IF i \in s THEN 2 ^ i ELSE 0) + OrT(s, i + 1)
ListT(toks) == LET lr == Up(toks[Len(toks)]) \in {"LR", "R14"}
                   rest == IF lr THEN SubSeq(toks, 1, Len(toks) - 1) ELSE toks
                   s == UNION {RangeT(rest[i]) : i \in 1..Len(rest)}
               IN IF 99 \in s THEN -1 ELSE OrT(s, 0) + (IF lr THEN 256 ELSE 0)

InsThumb(A, k, t) ==
  LET n == Len(t) - 1
      r(i) == RegT(t[i + 1])
      lo(i) == i <= n /\ LowT(t[i + 1])
      hi(i) == i <= n /\ HighT(t[i + 1])
      im(i) == i <= n /\ ImmT(t[i + 1])
      is(i, s) == i <= n /\ Up(t[i + 1]) = s
      reg2 == n = 2 /\ lo(1) /\ lo(2)
      reg3 == n = 3 /\ lo(1) /\ lo(2) /\ lo(3)
      imm3 == n = 3 /\ lo(1) /\ lo(2) /\ im(3)
      imm2 == n = 2 /\ lo(1) /\ im(2)
      mem == n = 5 /\ lo(1) /\ is(2, "[") /\ is(5, "]")
      alu == IF reg2 /\ IndexOf(AluT, k) > 0 THEN Emit(A, Hw(16384 + 64 * (IndexOf(AluT, k) - 1) + 8 * r(2) + r(1))) ELSE Reject(A)
      hiop(op) == IF n = 2 /\ (hi(1) \/ hi(2)) /\ r(1) >= 0 /\ r(2) >= 0
                  THEN Emit(A, Hw(17408 + 256 * op + 128 * (r(1) \div 8) + 8 * r(2) + (r(1) % 8))) ELSE Reject(A)
      imm8(op) == WithT(A, 8192 + 2048 * op + 256 * r(1), t[3], ByteT(8, 0))
      memr(op) == Emit(A, Hw(20480 + 512 * op + 64 * r(4) + 8 * r(3) + r(1)))
      memi(op, scale) == WithT(A, op + 8 * r(3) + r(1), t[5], ScaledT(5, 6, scale))
      isSp(i) == r(i) = 13
      isPc(i) == r(i) = 15
  IN CASE k = "LSL" /\ n = 3 -> IF imm3 THEN WithT(A, 8 * r(2) + r(1), t[4], ByteT(5, 6)) ELSE Reject(A)
       [] k \in {"LSR", "ASR"} /\ n = 3 ->
            IF ~imm3 \/ ~IsLit(A, From(t[4], 2)) THEN Reject(A)
            ELSE LET v == Parse(A, From(t[4], 2), 8, FALSE)       \* a shift by 32 is stored as 0
                 IN IF v.t # "num" \/ ~Lt(Zero, v.v) \/ ~Le(v.v, B(32)) THEN Reject(A)
                    ELSE Emit(A, Hw((IF k = "LSR" THEN 2048 ELSE 4096) + 64 * (ToInt(v.v) % 32) + 8 * r(2) + r(1)))
       [] k \in {"ADD", "SUB"} /\ reg3 -> Emit(A, Hw((IF k = "ADD" THEN 6144 ELSE 6656) + 64 * r(3) + 8 * r(2) + r(1)))
       [] k \in {"ADD", "SUB"} /\ imm3 -> WithT(A, (IF k = "ADD" THEN 7168 ELSE 7680) + 8 * r(2) + r(1), t[4], ByteT(3, 6))
       [] k = "ADD" /\ n = 3 /\ lo(1) /\ isPc(2) /\ im(3) -> WithT(A, 40960 + 256 * r(1), t[4], ScaledT(8, 0, 4))
       [] k = "ADD" /\ n = 3 /\ lo(1) /\ isSp(2) /\ im(3) -> WithT(A, 43008 + 256 * r(1), t[4], ScaledT(8, 0, 4))
       [] k = "ADD" /\ n = 2 /\ isSp(1) /\ im(2) -> WithT(A, 45056, t[3], ScaledT(7, 0, 4))
       [] k \in {"MOV", "CMP", "ADD", "SUB"} /\ imm2 -> imm8(IndexOf(<<"MOV", "CMP", "ADD", "SUB">>, k) - 1)
       [] k \in {"ADD", "CMP", "MOV"} /\ ~reg2 -> hiop(IndexOf(<<"ADD", "CMP", "MOV">>, k) - 1)
       [] k = "BX" -> IF n = 1 /\ r(1) >= 0 THEN Emit(A, Hw(18176 + 8 * r(1))) ELSE Reject(A)
       [] k = "LDR" /\ mem /\ isPc(3) /\ im(4) -> Ins(A, Hw(18432 + 256 * r(1)), << <<From(t[5], 2), IF IsLit(A, From(t[5], 2)) THEN LiteralT ELSE LabelT>> >>)
       [] k \in {"LDR", "STR"} /\ mem /\ isSp(3) /\ im(4) -> WithT(A, (IF k = "LDR" THEN 38912 ELSE 36864) + 256 * r(1), t[5], ScaledT(8, 0, 4))
       [] k \in {"STR", "STRH", "STRB", "LDSB", "LDR", "LDRH", "LDRB", "LDSH"} /\ mem /\ lo(3) /\ lo(4) ->
            memr(IndexOf(<<"STR", "STRH", "STRB", "LDSB", "LDR", "LDRH", "LDRB", "LDSH">>, k) - 1)
       [] k \in {"STR", "LDR"} /\ mem /\ lo(3) /\ im(4) -> memi(IF k = "STR" THEN 24576 ELSE 26624, 4)
       [] k \in {"STRB", "LDRB"} /\ mem /\ lo(3) /\ im(4) -> memi(IF k = "STRB" THEN 28672 ELSE 30720, 1)
       [] k \in {"STRH", "LDRH"} /\ mem /\ lo(3) /\ im(4) -> memi(IF k = "STRH" THEN 32768 ELSE 34816, 2)
       [] k = "PUSH" -> IF n < 3 \/ ~is(1, "{") \/ ~is(n, "}") THEN Reject(A)
                        ELSE LET l == ListT(SubSeq(t, 3, n)) IN IF l < 0 THEN Reject(A) ELSE Emit(A, Hw(46080 + l))
       [] IndexOf(CondT, k) > 0 -> IF n = 1 /\ First(t[2]) # "#" THEN Ins(A, Hw(53248 + 256 * (IndexOf(CondT, k) - 1)), << <<t[2], DispT(8, 2)>> >>) ELSE Reject(A)
       [] k = "SWI" -> IF n = 1 /\ IsLit(A, t[2]) THEN Ins(A, Hw(57088), << <<t[2], ByteT(8, 0)>> >>) ELSE Reject(A)
       [] k = "B" -> IF n = 1 /\ First(t[2]) # "#" THEN Ins(A, Hw(57344), << <<t[2], DispT(11, 2)>> >>) ELSE Reject(A)
       [] k = "BL" -> IF n = 1 /\ First(t[2]) # "#"
            THEN Ins(A, Hw(61440) \o Hw(63488), << <<t[2], [DispT(11, 2) EXCEPT !.bits = 23, !.filt = "shr12"]>>,
                                                   <<t[2], [DispT(11, 2) EXCEPT !.bits = 23, !.filt = "shr1and11", !.off = 2]>> >>) ELSE Reject(A)
       [] OTHER -> alu
KnownThumb == {AluT[i] : i \in 1..16} \cup {CondT[i] : i \in 1..14} \cup
              {"ADD", "SUB", "MOV", "BX", "LDR", "STR", "LDRB", "STRB", "LDRH", "STRH", "LDSB", "LDSH", "PUSH", "SWI", "B", "BL"}
=============================================================================
