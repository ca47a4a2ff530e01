------------------------------ MODULE Mc68000 ------------------------------
(* Motorola 68000: the twelve addressing modes and the instructions the        *)
(* assembler knows.                                                            *)
EXTENDS IsaBase
RegsK(l) == [i \in 1..8 |-> l \o Dec(i - 1)]
DRegK == TLCEval(RegsK("D"))
ARegK == TLCEval(RegsK("A"))
DnK(tok) == IndexOf(DRegK, Up(tok)) - 1
AnK(tok) == IndexOf(ARegK, Up(tok)) - 1
EndsK(tok, s) == Len(tok) > 2 /\ Up(From(tok, Len(tok) - 1)) = s
HeadK(tok) == SubSeq(tok, 1, Len(tok) - 2)
BaseK(tok) == IF EndsK(tok, ".W") \/ EndsK(tok, ".L") THEN HeadK(tok) ELSE tok
IndexK(tok) == LET b == BaseK(tok) IN IF DnK(b) >= 0 THEN DnK(b) ELSE IF AnK(b) >= 0 THEN 8 + AnK(b) ELSE -1
ImmK(tok) == Len(tok) > 1 /\ First(tok) = "#"
AddrK(tok) == DnK(tok) < 0 /\ AnK(tok) < 0 /\ First(tok) \notin {"#", "(", ")"}
BeW(v) == << v \div 256, v % 256 >>
CondK == <<"T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE">>
\* sizes in bytes by suffix; the default is a word
SizeK(k) == CASE EndsK(k, ".B") -> 1 [] EndsK(k, ".L") -> 4 [] OTHER -> 2
NameK(k) == IF EndsK(k, ".B") \/ EndsK(k, ".W") \/ EndsK(k, ".L") THEN HeadK(k) ELSE k
\* the two size codes: 0, 1, 2 for byte, word, long of the immediate group; 1, 3, 2 of the moves
LightK(s) == CASE s = 1 -> 0 [] s = 2 -> 1 [] s = 4 -> 2
DarkK(s)  == CASE s = 1 -> 1 [] s = 2 -> 3 [] s = 4 -> 2

\* an effective address: name of the mode, mode and register numbers, extension bytes, operand fields, next token
NoEa == [name |-> "none", m |-> 0, x |-> 0, ext |-> <<>>, ops |-> <<>>, next |-> 0]
ImmFieldK(size, off) == F(IF size = 4 THEN 4 ELSE 2, 8 * size, off)
EaK(t, i, off, size) ==
  LET n == Len(t)
      is(j, s) == j <= n /\ Up(t[j]) = s
      an(j) == j <= n /\ AnK(t[j]) >= 0
      ad(j) == j <= n /\ AddrK(t[j])
      ix(j) == j <= n /\ IndexK(t[j]) >= 0
      ea(name, m, x, ext, ops, next) == [name |-> name, m |-> m, x |-> x, ext |-> ext, ops |-> ops, next |-> next]
      brief(j) == BeW(4096 * IndexK(t[j]) + (IF EndsK(t[j], ".L") THEN 2048 ELSE 0))
      s16 == [F(2, 16, off) EXCEPT !.signed = TRUE]
      s8 == [F(2, 8, off) EXCEPT !.signed = TRUE, !.rng = <<7, 0>>]
      r16 == Rel(F(2, 16, off), off)
      r8 == [Rel(F(2, 8, off), off) EXCEPT !.rng = <<7, 0>>]
      w == <<0, 0>>
      l == <<0, 0, 0, 0>>
  IN IF i > n THEN NoEa
     ELSE CASE DnK(t[i]) >= 0 -> ea("Dn", 0, DnK(t[i]), <<>>, <<>>, i + 1)
       [] an(i) -> ea("An", 1, AnK(t[i]), <<>>, <<>>, i + 1)
       [] is(i, "(") /\ an(i + 1) /\ is(i + 2, ")") /\ is(i + 3, "+") -> ea("(An)+", 3, AnK(t[i + 1]), <<>>, <<>>, i + 4)
       [] is(i, "(") /\ an(i + 1) /\ is(i + 2, ")") -> ea("(An)", 2, AnK(t[i + 1]), <<>>, <<>>, i + 3)
       [] is(i, "-") /\ is(i + 1, "(") /\ an(i + 2) /\ is(i + 3, ")") -> ea("-(An)", 4, AnK(t[i + 2]), <<>>, <<>>, i + 4)
       [] is(i, "(") /\ ad(i + 1) /\ an(i + 2) /\ is(i + 3, ")") -> ea("(d16,An)", 5, AnK(t[i + 2]), w, << <<t[i + 1], s16>> >>, i + 4)
       [] is(i, "(") /\ ad(i + 1) /\ an(i + 2) /\ ix(i + 3) /\ is(i + 4, ")") -> ea("(d8,An,Xn)", 6, AnK(t[i + 2]), brief(i + 3), << <<t[i + 1], s8>> >>, i + 5)
       [] is(i, "(") /\ ad(i + 1) /\ is(i + 2, "PC") /\ is(i + 3, ")") -> ea("(d16,PC)", 7, 2, w, << <<t[i + 1], r16>> >>, i + 4)
       [] is(i, "(") /\ ad(i + 1) /\ is(i + 2, "PC") /\ ix(i + 3) /\ is(i + 4, ")") -> ea("(d8,PC,Xn)", 7, 3, brief(i + 3), << <<t[i + 1], r8>> >>, i + 5)
       [] is(i, "(") /\ ad(i + 1) /\ is(i + 2, ")") /\ is(i + 3, ".W") -> ea("abs.W", 7, 0, w, << <<t[i + 1], F(2, 16, off)>> >>, i + 4)
       [] is(i, "(") /\ ad(i + 1) /\ is(i + 2, ")") /\ is(i + 3, ".L") -> ea("abs.L", 7, 1, l, << <<t[i + 1], F(4, 32, off)>> >>, i + 4)
       [] ImmK(t[i]) /\ size > 0 -> ea("#", 7, 4, IF size = 4 THEN l ELSE w, << <<From(t[i], 2), ImmFieldK(size, off)>> >>, i + 1)
       [] ad(i) /\ EndsK(t[i], ".W") -> ea("abs.W", 7, 0, w, << <<HeadK(t[i]), F(2, 16, off)>> >>, i + 1)
       [] ad(i) -> ea("abs.L", 7, 1, l, << <<IF EndsK(t[i], ".L") THEN HeadK(t[i]) ELSE t[i], F(4, 32, off)>> >>, i + 1)
       [] OTHER -> NoEa
ControlK == {"(An)", "(d16,An)", "(d8,An,Xn)", "abs.W", "abs.L", "(d16,PC)", "(d8,PC,Xn)"}
AlterK   == {"Dn", "(An)", "(An)+", "-(An)", "(d16,An)", "(d8,An,Xn)", "abs.W", "abs.L"}      \* data alterable
AnyK     == ControlK \cup AlterK \cup {"An", "#"}

ImmediateK == [ORI |-> 0, ANDI |-> 2, SUBI |-> 4, ADDI |-> 6, EORI |-> 10, CMPI |-> 12]
InsMc68000(A, kk, t) ==
  LET k == NameK(kk)
      size == SizeK(kk)
      n == Len(t)
      done(e) == e.next = n + 1
      src(s, allowed, sz) == LET e == EaK(t, 2, 2, sz) IN IF e.name \in allowed /\ s THEN e ELSE NoEa
  IN CASE k \in {"MOVE", "MOVEA"} ->
            LET e == EaK(t, 2, 2, size)
            IN IF e.name \notin AnyK \/ (e.name = "An" /\ size = 1) THEN Reject(A)
               ELSE LET d == EaK(t, e.next, 2 + Len(e.ext), size)
                    IN IF ~done(d) THEN Reject(A)
                       ELSE IF (d.name = "An" /\ size # 1) \/ (k = "MOVE" /\ d.name \in AlterK)
                       THEN Ins(A, BeW(4096 * DarkK(size) + 512 * d.x + 64 * d.m + 8 * e.m + e.x) \o e.ext \o d.ext, e.ops \o d.ops)
                       ELSE Reject(A)
       [] k \in DOMAIN ImmediateK ->
            IF n < 3 \/ ~ImmK(t[2]) THEN Reject(A)
            ELSE IF n = 3 /\ k \in {"ORI", "ANDI", "EORI"} /\ Up(t[3]) \in {"CCR", "SR"}
            THEN Ins(A, BeW(256 * ImmediateK[k] + (IF Up(t[3]) = "SR" THEN 124 ELSE 60)) \o <<0, 0>>,
                     << <<From(t[2], 2), ImmFieldK(IF Up(t[3]) = "SR" THEN 2 ELSE 1, 2)>> >>)
            ELSE LET w == IF size = 4 THEN 4 ELSE 2
                     d == EaK(t, 3, 2 + w, size)
                 IN IF d.name \in AlterK /\ done(d)
                    THEN Ins(A, BeW(256 * ImmediateK[k] + 64 * LightK(size) + 8 * d.m + d.x) \o [j \in 1..w |-> 0] \o d.ext,
                             << <<From(t[2], 2), ImmFieldK(size, 2)>> >> \o d.ops)
                    ELSE Reject(A)
       [] k \in {"JMP", "JSR"} ->
            LET e == EaK(t, 2, 2, 0)
            IN IF e.name \in ControlK /\ done(e) THEN Ins(A, BeW((IF k = "JMP" THEN 20160 ELSE 20096) + 8 * e.m + e.x) \o e.ext, e.ops) ELSE Reject(A)
       [] k = "LEA" ->
            LET e == EaK(t, 2, 2, 0)
            IN IF e.name \in ControlK /\ e.next = n /\ AnK(t[n]) >= 0 THEN Ins(A, BeW(16832 + 512 * AnK(t[n]) + 8 * e.m + e.x) \o e.ext, e.ops) ELSE Reject(A)
       [] First(k) = "B" ->
            IF n # 2 \/ ~AddrK(t[2]) THEN Reject(A)
            ELSE LET op == BeW(24576 + 256 * (IndexOf(CondK, From(k, 2)) - 1))
                 IN IF size = 1 THEN Ins(A, op, << <<t[2], [Rel(F(2, 8, 0), 2) EXCEPT !.rng = <<7, 0>>, !.align = 2, !.step = 2, !.nz = TRUE]>> >>)
                    ELSE Ins(A, op \o <<0, 0>>, << <<t[2], [Rel(F(2, 16, 2), 2) EXCEPT !.align = 2, !.step = 2]>> >>)
       [] SubSeq(k, 1, 2) = "DB" ->
            IF n # 3 \/ DnK(t[2]) < 0 \/ ~AddrK(t[3]) THEN Reject(A)
            ELSE LET c == From(k, 3)
                 IN Ins(A, BeW(20680 + 256 * (IF c = "RA" THEN 1 ELSE IndexOf(CondK, c) - 1) + DnK(t[2])) \o <<0, 0>>,
                        << <<t[3], [Rel(F(2, 16, 2), 2) EXCEPT !.align = 2, !.step = 2]>> >>)
       [] k = "RTS" -> Plain(A, <<78, 117>>, t)
       [] k = "NOP" -> Plain(A, <<78, 113>>, t)
SuffixK(s, x) == {a \o b : a \in s, b \in x}
KnownMc68000 ==
  SuffixK({"MOVE"} \cup DOMAIN ImmediateK, {"", ".B", ".W", ".L"}) \cup SuffixK({"MOVEA"}, {"", ".W", ".L"}) \cup {"JMP", "JSR", "LEA", "LEA.L", "RTS", "NOP"} \cup
  SuffixK({"B" \o CondK[i] : i \in 3..16}, {"", ".B", ".W"}) \cup SuffixK({"DB" \o CondK[i] : i \in 1..16} \cup {"DBRA"}, {"", ".W"})
=============================================================================
