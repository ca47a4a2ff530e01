------------------------------ MODULE Lr35902 ------------------------------
(* Sharp LR35902 (Game Boy): the Z80's opcode map without the prefixes, with its *)
(* own loads, stack offsets and high memory.                                     *)
EXTENDS Z80
CcG      == <<"NZ", "Z", "NC", "C">>
RotG     == <<"RLC", "RRC", "RL", "RR", "SLA", "SRA", "SWAP", "SRL">>
RegsG    == {"A", "F", "B", "C", "D", "E", "H", "L", "AF", "BC", "DE", "HL", "HL+", "HL-", "SP", "Z", "NZ", "NC"}
ImpliedG == [NOP |-> <<0>>, RLCA |-> <<7>>, RRCA |-> <<15>>, RLA |-> <<23>>, RRA |-> <<31>>, DAA |-> <<39>>, CPL |-> <<47>>, SCF |-> <<55>>, CCF |-> <<63>>,
             HALT |-> <<118>>, RETI |-> <<217>>, DI |-> <<243>>, EI |-> <<251>>]
\* operands: x, (x) or [x]
RECURSIVE OpsG(_, _)
OpsG(t, i) == IF i > Len(t) THEN <<>>
              ELSE IF t[i] \in {"(", "["} THEN (IF i + 2 <= Len(t) /\ t[i + 2] = (IF t[i] = "(" THEN ")" ELSE "]")
                                                  THEN << [par |-> TRUE, tok |-> t[i + 1]] >> \o OpsG(t, i + 3)
                                                ELSE << [par |-> TRUE, tok |-> ")"] >>)
              ELSE << [par |-> FALSE, tok |-> t[i]] >> \o OpsG(t, i + 1)
ValG(tok) == Up(tok) \notin RegsG \cup {"(", ")", "[", "]"}
ImmG(o)   == ~o.par /\ ValG(o.tok)
MemG(o)   == o.par /\ ValG(o.tok)
CondG(o)  == IF o.par THEN 0 ELSE IndexOf(CcG, Up(o.tok))
\* (BC) (DE) (HL+) (HL-): rows of the accumulator loads
AccG(o)   == IF o.par THEN IndexOf(<<"BC", "DE", "HL+", "HL-">>, Up(o.tok)) - 1 ELSE -1
HighC(o)  == o.par /\ Up(o.tok) \in {"C", "$FF00+C"}
High(o)   == o.par /\ Len(o.tok) > 6 /\ SubSeq(o.tok, 1, 6) = "$FF00+"
StackG(s) == Len(s) >= 3 /\ SubSeq(s, 1, 3) \in {"SP+", "SP-"}
StackOff(s) == IF ChAt(s, 3) = "+" THEN From(s, 4) ELSE From(s, 3)

OnR8G(A, op, step, o) == IF RZ(o) >= 0 THEN Emit(A, <<op + step * RZ(o)>>) ELSE Reject(A)
LoadG(A, d, s) ==
  LET rd == RZ(d) rs == RZ(s) IN
  IF rd >= 0 /\ rs >= 0 THEN (IF rd = 6 /\ rs = 6 THEN Reject(A) ELSE Emit(A, <<64 + 8 * rd + rs>>))
  ELSE IF RegZ(d) = "A" /\ AccG(s) >= 0 THEN Emit(A, <<10 + 16 * AccG(s)>>)
  ELSE IF RegZ(s) = "A" /\ AccG(d) >= 0 THEN Emit(A, <<2 + 16 * AccG(d)>>)
  ELSE IF RegZ(d) = "A" /\ HighC(s) THEN Emit(A, <<242>>)
  ELSE IF RegZ(s) = "A" /\ HighC(d) THEN Emit(A, <<226>>)
  ELSE IF RegZ(d) = "A" /\ High(s) THEN Ins(A, <<240, 0>>, << <<From(s.tok, 7), NZ(1)>> >>)
  ELSE IF RegZ(s) = "A" /\ High(d) THEN Ins(A, <<224, 0>>, << <<From(d.tok, 7), NZ(1)>> >>)
  ELSE IF RegZ(d) = "A" /\ MemG(s) THEN Ins(A, <<250, 0, 0>>, << <<s.tok, NNZ(1)>> >>)
  ELSE IF RegZ(s) = "A" /\ MemG(d) THEN Ins(A, <<234, 0, 0>>, << <<d.tok, NNZ(1)>> >>)
  ELSE IF RegZ(s) = "SP" /\ MemG(d) THEN Ins(A, <<8, 0, 0>>, << <<d.tok, NNZ(1)>> >>)
  ELSE IF RegZ(d) = "HL" /\ ~s.par /\ StackG(s.tok) THEN Ins(A, <<248, 0>>, << <<StackOff(s.tok), DDZ(1)>> >>)
  ELSE IF RegZ(d) = "SP" /\ RegZ(s) = "HL" THEN Emit(A, <<249>>)
  ELSE IF rd >= 0 /\ ImmG(s) THEN Ins(A, <<6 + 8 * rd, 0>>, << <<s.tok, NZ(1)>> >>)
  ELSE IF IndexOf(RpZ, RegZ(d)) > 0 /\ ImmG(s) THEN Ins(A, <<16 * IndexOf(RpZ, RegZ(d)) - 15, 0, 0>>, << <<s.tok, NNZ(1)>> >>)
  ELSE Reject(A)
\* arithmetic: the accumulator may be spelled out
AluG(A, k, o) ==
  LET i == IndexOf(AluNamesZ, k) - 1
      x == o[Len(o)]
  IN IF Len(o) = 2 /\ k = "ADD" /\ RegZ(o[1]) = "HL" /\ IndexOf(RpZ, RegZ(x)) > 0 THEN Emit(A, <<16 * IndexOf(RpZ, RegZ(x)) - 7>>)
     ELSE IF Len(o) = 2 /\ k = "ADD" /\ RegZ(o[1]) = "SP" /\ ImmG(x) THEN Ins(A, <<232, 0>>, << <<x.tok, DDZ(1)>> >>)
     ELSE IF Len(o) \notin {1, 2} \/ (Len(o) = 2 /\ RegZ(o[1]) # "A") THEN Reject(A)
     ELSE IF ImmG(x) THEN Ins(A, <<198 + 8 * i, 0>>, << <<x.tok, NZ(1)>> >>)
     ELSE OnR8G(A, 128 + 8 * i, 1, x)
IncG(A, op8, op16, o) == IF IndexOf(RpZ, RegZ(o)) > 0 THEN Emit(A, <<op16 + 16 * (IndexOf(RpZ, RegZ(o)) - 1)>>) ELSE OnR8G(A, op8, 8, o)
FlowG(A, o, uncond, cond, f) ==
  IF Len(o) = 1 /\ ImmG(o[1]) THEN Ins(A, <<uncond>> \o Pad(f.size, 0), << <<o[1].tok, f>> >>)
  ELSE IF Len(o) = 2 /\ CondG(o[1]) > 0 /\ ImmG(o[2]) THEN Ins(A, <<cond + 8 * (CondG(o[1]) - 1)>> \o Pad(f.size, 0), << <<o[2].tok, f>> >>)
  ELSE Reject(A)
CbG(A, op, o) == IF RZ(o) >= 0 THEN Emit(A, <<203, op + RZ(o)>>) ELSE Reject(A)

InsLr(A, k, t) ==
  LET o == OpsG(t, 2)
      n == Len(o)
      i == IndexOf(RotG, k) - 1
  IN CASE k \in DOMAIN ImpliedG -> Plain(A, ImpliedG[k], t)
       [] k = "STOP" -> IF n = 0 \/ (n = 1 /\ ~o[1].par /\ o[1].tok = "0") THEN Emit(A, <<16, 0>>) ELSE Reject(A)
       [] k = "LD" -> IF n = 2 THEN LoadG(A, o[1], o[2]) ELSE Reject(A)
       [] k = "LDH" -> IF n # 2 THEN Reject(A)
            ELSE IF RegZ(o[2]) = "A" /\ MemG(o[1]) THEN Ins(A, <<224, 0>>, << <<o[1].tok, NZ(1)>> >>)
            ELSE IF RegZ(o[1]) = "A" /\ MemG(o[2]) THEN Ins(A, <<240, 0>>, << <<o[2].tok, NZ(1)>> >>)
            ELSE Reject(A)
       [] IndexOf(AluNamesZ, k) > 0 -> AluG(A, k, o)
       [] i >= 0 -> IF n = 1 THEN CbG(A, 8 * i, o[1]) ELSE Reject(A)
       [] k \in {"BIT", "RES", "SET"} -> IF n = 2 /\ BitNoZ(o[1]) >= 0
            THEN CbG(A, (CASE k = "BIT" -> 64 [] k = "RES" -> 128 [] k = "SET" -> 192) + 8 * BitNoZ(o[1]), o[2]) ELSE Reject(A)
       [] k = "INC" -> IF n = 1 THEN IncG(A, 4, 3, o[1]) ELSE Reject(A)
       [] k = "DEC" -> IF n = 1 THEN IncG(A, 5, 11, o[1]) ELSE Reject(A)
       [] k \in {"PUSH", "POP"} -> LET j == IF n = 1 THEN IndexOf(RpAfZ, RegZ(o[1])) - 1 ELSE -1
                                   IN IF j < 0 THEN Reject(A) ELSE Emit(A, <<(IF k = "PUSH" THEN 197 ELSE 193) + 16 * j>>)
       [] k = "JP" -> IF n = 1 /\ IndZ(o[1]) = "HL" THEN Emit(A, <<233>>) ELSE FlowG(A, o, 195, 194, NNZ(1))
       [] k = "CALL" -> FlowG(A, o, 205, 196, NNZ(1))
       [] k = "JR" -> FlowG(A, o, 24, 32, Rel(NZ(1), 2))
       [] k = "RET" -> IF n = 0 THEN Emit(A, <<201>>) ELSE IF n = 1 /\ CondG(o[1]) > 0 THEN Emit(A, <<192 + 8 * (CondG(o[1]) - 1)>>) ELSE Reject(A)
       [] k = "RST" -> LET j == IF n = 1 /\ ~o[1].par THEN IndexOf(<<"00H", "08H", "10H", "18H", "20H", "28H", "30H", "38H">>, Up(o[1].tok)) ELSE 0
                       IN IF j > 0 THEN Emit(A, <<199 + 8 * (j - 1)>>) ELSE Reject(A)
KnownLr == DOMAIN ImpliedG \cup {AluNamesZ[i] : i \in 1..8} \cup {RotG[i] : i \in 1..8} \cup
           {"STOP", "LD", "LDH", "BIT", "RES", "SET", "INC", "DEC", "PUSH", "POP", "JP", "CALL", "JR", "RET", "RST"}
=============================================================================
