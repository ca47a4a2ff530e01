-------------------------------- MODULE Z80 --------------------------------
(* Zilog Z80: the regular structure of the opcode map (xxyyyzzz), its CB and ED  *)
(* pages, and the IX/IY prefixes.                                                *)
EXTENDS IsaBase
R8Z   == <<"B", "C", "D", "E", "H", "L", "-", "A">>                 \* 6 is (HL)
RpZ    == <<"BC", "DE", "HL", "SP">>
RpAfZ  == <<"BC", "DE", "HL", "AF">>
CcZ    == <<"NZ", "Z", "NC", "C", "PO", "PE", "P", "M">>
AluNamesZ == <<"ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP">>
RotZ   == <<"RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL">>
RegNamesZ == {"A", "B", "C", "D", "E", "F", "H", "L", "I", "R", "IXH", "IXL", "IYH", "IYL", "AF", "BC", "DE", "HL", "PC", "SP", "IX", "IY"}
ImpliedZ == [NOP |-> <<0>>, RLCA |-> <<7>>, RRCA |-> <<15>>, RLA |-> <<23>>, RRA |-> <<31>>, DAA |-> <<39>>, CPL |-> <<47>>, SCF |-> <<55>>, CCF |-> <<63>>,
             HALT |-> <<118>>, EXX |-> <<217>>, DI |-> <<243>>, EI |-> <<251>>, NEG |-> <<237, 68>>, RETN |-> <<237, 69>>, RETI |-> <<237, 77>>,
             RRD |-> <<237, 103>>, RLD |-> <<237, 111>>, LDI |-> <<237, 160>>, CPI |-> <<237, 161>>, INI |-> <<237, 162>>, OUTI |-> <<237, 163>>,
             LDD |-> <<237, 168>>, CPD |-> <<237, 169>>, IND |-> <<237, 170>>, OUTD |-> <<237, 171>>, LDIR |-> <<237, 176>>, CPIR |-> <<237, 177>>,
             INIR |-> <<237, 178>>, OTIR |-> <<237, 179>>, LDDR |-> <<237, 184>>, CPDR |-> <<237, 185>>, INDR |-> <<237, 186>>, OTDR |-> <<237, 187>>]

\* operands: x or (x); FALSE-par operand with token "?" marks a malformed list
RECURSIVE OpsOf(_, _)
OpsOf(t, i) == IF i > Len(t) THEN <<>>
               ELSE IF t[i] = "(" THEN (IF i + 2 <= Len(t) /\ t[i + 2] = ")" THEN << [par |-> TRUE, tok |-> t[i + 1]] >> \o OpsOf(t, i + 3)
                                        ELSE << [par |-> TRUE, tok |-> ")"] >>)
               ELSE << [par |-> FALSE, tok |-> t[i]] >> \o OpsOf(t, i + 1)
RegZ(o)   == IF o.par THEN "" ELSE Up(o.tok)                          \* register name of a bare operand
IndZ(o)   == IF o.par THEN Up(o.tok) ELSE ""                          \* register name of (x)
RZ(o)     == IF o.par THEN (IF Up(o.tok) = "HL" THEN 6 ELSE -1) ELSE IndexOf(R8Z, Up(o.tok)) - 1
PrefixOfZ(s) == IF SubSeq(s, 1, 2) = "IX" THEN 221 ELSE 253
HalfZ(o)  == LET s == RegZ(o) IN IF s \in {"IXH", "IYH"} THEN 4 ELSE IF s \in {"IXL", "IYL"} THEN 5 ELSE -1
XYZ(s)    == s \in {"IX", "IY"}
IndexedZ(o) == o.par /\ Len(o.tok) > 2 /\ SubSeq(Up(o.tok), 1, 2) \in {"IX", "IY"} /\ ChAt(o.tok, 3) \in {"+", "-"}
DispZ(o)  == IF ChAt(o.tok, 3) = "+" THEN From(o.tok, 4) ELSE From(o.tok, 3)
IsValZ(o) == Up(o.tok) \notin RegNamesZ /\ ~IndexedZ(o)
ImmZ(o)   == ~o.par /\ IsValZ(o)
MemAtZ(o) == o.par /\ IsValZ(o)
NZ(off)   == F(1, 8, off)
NNZ(off)  == F(2, 16, off)
DDZ(off)  == [F(1, 8, off) EXCEPT !.signed = TRUE, !.slab = TRUE]                    \* displacement of an index register
BitNoZ(o) == IF o.par THEN -1 ELSE IndexOf(<<"0", "1", "2", "3", "4", "5", "6", "7">>, o.tok) - 1

\* opcode op applied to register code, half register or indexed memory
OnR8Z(A, op, step, o) ==
  IF RZ(o) >= 0 THEN Emit(A, <<op + step * RZ(o)>>)
  ELSE IF HalfZ(o) >= 0 THEN Emit(A, <<PrefixOfZ(RegZ(o)), op + step * HalfZ(o)>>)
  ELSE IF IndexedZ(o) THEN Ins(A, <<PrefixOfZ(Up(o.tok)), op + step * 6, 0>>, << <<DispZ(o), DDZ(2)>> >>)
  ELSE Reject(A)
\* the CB page has no half registers; the displacement comes before the opcode
OnCBZ(A, op, o) ==
  IF RZ(o) >= 0 THEN Emit(A, <<203, op + RZ(o)>>)
  ELSE IF IndexedZ(o) THEN Ins(A, <<PrefixOfZ(Up(o.tok)), 203, 0, op + 6>>, << <<DispZ(o), DDZ(2)>> >>)
  ELSE Reject(A)

LoadZ(A, d, s) ==
  LET rd == RZ(d) rs == RZ(s) hd == HalfZ(d) hs == HalfZ(s) rpd == IndexOf(RpZ, RegZ(d)) - 1 rps == IndexOf(RpZ, RegZ(s)) - 1
      hl(r) == r \in {4, 5, 6}
  IN IF rd >= 0 /\ rs >= 0 THEN (IF rd = 6 /\ rs = 6 THEN Reject(A) ELSE Emit(A, <<64 + 8 * rd + rs>>))
     ELSE IF hd >= 0 /\ hs >= 0 THEN (IF PrefixOfZ(RegZ(d)) # PrefixOfZ(RegZ(s)) THEN Reject(A) ELSE Emit(A, <<PrefixOfZ(RegZ(d)), 64 + 8 * hd + hs>>))
     ELSE IF hd >= 0 /\ rs >= 0 THEN (IF hl(rs) THEN Reject(A) ELSE Emit(A, <<PrefixOfZ(RegZ(d)), 64 + 8 * hd + rs>>))
     ELSE IF rd >= 0 /\ hs >= 0 THEN (IF hl(rd) THEN Reject(A) ELSE Emit(A, <<PrefixOfZ(RegZ(s)), 64 + 8 * rd + hs>>))
     ELSE IF rd >= 0 /\ IndexedZ(s) THEN (IF rd = 6 THEN Reject(A) ELSE Ins(A, <<PrefixOfZ(Up(s.tok)), 70 + 8 * rd, 0>>, << <<DispZ(s), DDZ(2)>> >>))
     ELSE IF IndexedZ(d) /\ rs >= 0 THEN (IF rs = 6 THEN Reject(A) ELSE Ins(A, <<PrefixOfZ(Up(d.tok)), 112 + rs, 0>>, << <<DispZ(d), DDZ(2)>> >>))
     ELSE IF IndexedZ(d) /\ ImmZ(s) THEN Ins(A, <<PrefixOfZ(Up(d.tok)), 54, 0, 0>>, << <<DispZ(d), DDZ(2)>>, <<s.tok, NZ(3)>> >>)
     ELSE IF RegZ(d) = "A" /\ IndZ(s) \in {"BC", "DE"} THEN Emit(A, <<IF IndZ(s) = "BC" THEN 10 ELSE 26>>)
     ELSE IF RegZ(s) = "A" /\ IndZ(d) \in {"BC", "DE"} THEN Emit(A, <<IF IndZ(d) = "BC" THEN 2 ELSE 18>>)
     ELSE IF RegZ(d) = "A" /\ MemAtZ(s) THEN Ins(A, <<58, 0, 0>>, << <<s.tok, NNZ(1)>> >>)
     ELSE IF RegZ(s) = "A" /\ MemAtZ(d) THEN Ins(A, <<50, 0, 0>>, << <<d.tok, NNZ(1)>> >>)
     ELSE IF rd >= 0 /\ ImmZ(s) THEN Ins(A, <<6 + 8 * rd, 0>>, << <<s.tok, NZ(1)>> >>)
     ELSE IF hd >= 0 /\ ImmZ(s) THEN Ins(A, <<PrefixOfZ(RegZ(d)), 6 + 8 * hd, 0>>, << <<s.tok, NZ(2)>> >>)
     ELSE IF RegZ(d) = "HL" /\ MemAtZ(s) THEN Ins(A, <<42, 0, 0>>, << <<s.tok, NNZ(1)>> >>)
     ELSE IF RegZ(s) = "HL" /\ MemAtZ(d) THEN Ins(A, <<34, 0, 0>>, << <<d.tok, NNZ(1)>> >>)
     ELSE IF rpd >= 0 /\ ImmZ(s) THEN Ins(A, <<1 + 16 * rpd, 0, 0>>, << <<s.tok, NNZ(1)>> >>)
     ELSE IF rpd >= 0 /\ MemAtZ(s) THEN Ins(A, <<237, 75 + 16 * rpd, 0, 0>>, << <<s.tok, NNZ(2)>> >>)
     ELSE IF rps >= 0 /\ MemAtZ(d) THEN Ins(A, <<237, 67 + 16 * rps, 0, 0>>, << <<d.tok, NNZ(2)>> >>)
     ELSE IF XYZ(RegZ(d)) /\ ImmZ(s) THEN Ins(A, <<PrefixOfZ(RegZ(d)), 33, 0, 0>>, << <<s.tok, NNZ(2)>> >>)
     ELSE IF XYZ(RegZ(d)) /\ MemAtZ(s) THEN Ins(A, <<PrefixOfZ(RegZ(d)), 42, 0, 0>>, << <<s.tok, NNZ(2)>> >>)
     ELSE IF XYZ(RegZ(s)) /\ MemAtZ(d) THEN Ins(A, <<PrefixOfZ(RegZ(s)), 34, 0, 0>>, << <<d.tok, NNZ(2)>> >>)
     ELSE IF RegZ(d) = "SP" /\ RegZ(s) = "HL" THEN Emit(A, <<249>>)
     ELSE IF RegZ(d) = "SP" /\ XYZ(RegZ(s)) THEN Emit(A, <<PrefixOfZ(RegZ(s)), 249>>)
     ELSE IF RegZ(d) = "I" /\ RegZ(s) = "A" THEN Emit(A, <<237, 71>>)
     ELSE IF RegZ(d) = "R" /\ RegZ(s) = "A" THEN Emit(A, <<237, 79>>)
     ELSE IF RegZ(d) = "A" /\ RegZ(s) = "I" THEN Emit(A, <<237, 87>>)
     ELSE IF RegZ(d) = "A" /\ RegZ(s) = "R" THEN Emit(A, <<237, 95>>)
     ELSE Reject(A)

\* 16-bit additions
AddZ(A, k, d, s) ==
  LET i == IndexOf(RpZ, RegZ(s)) - 1
      j == IF RegZ(s) = RegZ(d) THEN 2 ELSE IF RegZ(s) = "HL" THEN -1 ELSE i
  IN IF RegZ(d) = "HL" /\ i >= 0
       THEN CASE k = "ADD" -> Emit(A, <<9 + 16 * i>>) [] k = "ADC" -> Emit(A, <<237, 74 + 16 * i>>) [] k = "SBC" -> Emit(A, <<237, 66 + 16 * i>>) [] OTHER -> Reject(A)
     ELSE IF XYZ(RegZ(d)) /\ k = "ADD" /\ j >= 0 THEN Emit(A, <<PrefixOfZ(RegZ(d)), 9 + 16 * j>>)
     ELSE Reject(A)
AluZ(A, k, o) ==     \* o: the operand sequence
  LET i == IndexOf(AluNamesZ, k) - 1
      two == k \in {"ADD", "ADC", "SBC"}
      x == o[Len(o)]
  IN IF Len(o) # (IF two THEN 2 ELSE 1) THEN Reject(A)
     ELSE IF two /\ RegZ(o[1]) # "A" THEN AddZ(A, k, o[1], o[2])
     ELSE IF ImmZ(x) THEN Ins(A, <<198 + 8 * i, 0>>, << <<x.tok, NZ(1)>> >>)
     ELSE OnR8Z(A, 128 + 8 * i, 1, x)
IncZ(A, op8, op16, o) ==
  IF IndexOf(RpZ, RegZ(o)) > 0 THEN Emit(A, <<op16 + 16 * (IndexOf(RpZ, RegZ(o)) - 1)>>)
  ELSE IF XYZ(RegZ(o)) THEN Emit(A, <<PrefixOfZ(RegZ(o)), op16 + 32>>)
  ELSE OnR8Z(A, op8, 8, o)
\* jumps and calls: [cond,] target
CondZ(o) == IF o.par THEN 0 ELSE IndexOf(CcZ, Up(o.tok))
FlowZ(A, k, o, uncond, cond, ncc, f) ==
  IF Len(o) = 1 /\ ImmZ(o[1]) THEN Ins(A, <<uncond>> \o Pad(f.size, 0), << <<o[1].tok, f>> >>)
  ELSE IF Len(o) = 2 /\ CondZ(o[1]) \in 1..ncc /\ ImmZ(o[2]) THEN Ins(A, <<cond + 8 * (CondZ(o[1]) - 1)>> \o Pad(f.size, 0), << <<o[2].tok, f>> >>)
  ELSE Reject(A)

InsZ80(A, k, t) ==
  LET o == OpsOf(t, 2)
      n == Len(o)
      i == IndexOf(RotZ, k) - 1
  IN CASE k \in DOMAIN ImpliedZ -> Plain(A, ImpliedZ[k], t)
       [] k = "LD" -> IF n = 2 THEN LoadZ(A, o[1], o[2]) ELSE Reject(A)
       [] IndexOf(AluNamesZ, k) > 0 -> AluZ(A, k, o)
       [] i >= 0 -> IF n = 1 THEN OnCBZ(A, 8 * i, o[1]) ELSE Reject(A)
       [] k \in {"BIT", "RES", "SET"} -> IF n = 2 /\ BitNoZ(o[1]) >= 0
            THEN OnCBZ(A, (CASE k = "BIT" -> 64 [] k = "RES" -> 128 [] k = "SET" -> 192) + 8 * BitNoZ(o[1]), o[2]) ELSE Reject(A)
       [] k = "INC" -> IF n = 1 THEN IncZ(A, 4, 3, o[1]) ELSE Reject(A)
       [] k = "DEC" -> IF n = 1 THEN IncZ(A, 5, 11, o[1]) ELSE Reject(A)
       [] k \in {"PUSH", "POP"} -> LET op == IF k = "PUSH" THEN 197 ELSE 193 IN
            IF n # 1 THEN Reject(A)
            ELSE IF IndexOf(RpAfZ, RegZ(o[1])) > 0 THEN Emit(A, <<op + 16 * (IndexOf(RpAfZ, RegZ(o[1])) - 1)>>)
            ELSE IF XYZ(RegZ(o[1])) THEN Emit(A, <<PrefixOfZ(RegZ(o[1])), op + 32>>) ELSE Reject(A)
       [] k = "EX" -> IF n # 2 THEN Reject(A)
            ELSE IF RegZ(o[1]) = "DE" /\ RegZ(o[2]) = "HL" THEN Emit(A, <<235>>)
            ELSE IF IndZ(o[1]) = "SP" /\ RegZ(o[2]) = "HL" THEN Emit(A, <<227>>)
            ELSE IF IndZ(o[1]) = "SP" /\ XYZ(RegZ(o[2])) THEN Emit(A, <<PrefixOfZ(RegZ(o[2])), 227>>) ELSE Reject(A)
       [] k = "JP" -> IF n = 1 /\ IndZ(o[1]) = "HL" THEN Emit(A, <<233>>)
            ELSE IF n = 1 /\ XYZ(IndZ(o[1])) THEN Emit(A, <<PrefixOfZ(IndZ(o[1])), 233>>)
            ELSE FlowZ(A, k, o, 195, 194, 8, NNZ(1))
       [] k = "CALL" -> FlowZ(A, k, o, 205, 196, 8, NNZ(1))
       [] k = "JR" -> FlowZ(A, k, o, 24, 32, 4, Rel(NZ(1), 2))
       [] k = "DJNZ" -> IF n = 1 /\ ImmZ(o[1]) THEN Ins(A, <<16, 0>>, << <<o[1].tok, Rel(NZ(1), 2)>> >>) ELSE Reject(A)
       [] k = "RET" -> IF n = 0 THEN Emit(A, <<201>>) ELSE IF n = 1 /\ CondZ(o[1]) > 0 THEN Emit(A, <<192 + 8 * (CondZ(o[1]) - 1)>>) ELSE Reject(A)
       [] k = "RST" -> LET j == IF n = 1 /\ ~o[1].par THEN IndexOf(<<"0H", "8H", "10H", "18H", "20H", "28H", "30H", "38H">>, Up(o[1].tok)) ELSE 0
                       IN IF j > 0 THEN Emit(A, <<199 + 8 * (j - 1)>>) ELSE Reject(A)
       [] k = "IM" -> LET j == IF n = 1 /\ ~o[1].par THEN IndexOf(<<"0", "-", "1", "2">>, o[1].tok) ELSE 0
                      IN IF j > 0 THEN Emit(A, <<237, 70 + 8 * (j - 1)>>) ELSE Reject(A)
       [] k = "IN" -> IF n # 2 THEN Reject(A)
            ELSE IF RegZ(o[1]) = "A" /\ MemAtZ(o[2]) THEN Ins(A, <<219, 0>>, << <<o[2].tok, NZ(1)>> >>)
            ELSE IF IndZ(o[2]) = "C" /\ RZ(o[1]) >= 0 /\ RZ(o[1]) # 6 THEN Emit(A, <<237, 64 + 8 * RZ(o[1])>>) ELSE Reject(A)
       [] k = "OUT" -> IF n # 2 THEN Reject(A)
            ELSE IF RegZ(o[2]) = "A" /\ MemAtZ(o[1]) THEN Ins(A, <<211, 0>>, << <<o[1].tok, NZ(1)>> >>)
            ELSE IF IndZ(o[1]) = "C" /\ RZ(o[2]) >= 0 /\ RZ(o[2]) # 6 THEN Emit(A, <<237, 65 + 8 * RZ(o[2])>>) ELSE Reject(A)
KnownZ80 == DOMAIN ImpliedZ \cup {AluNamesZ[i] : i \in 1..8} \cup {RotZ[i] : i \in 1..8} \cup
            {"LD", "BIT", "RES", "SET", "INC", "DEC", "PUSH", "POP", "EX", "JP", "CALL", "JR", "DJNZ", "RET", "RST", "IM", "IN", "OUT"}
=============================================================================
