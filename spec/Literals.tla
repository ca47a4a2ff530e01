------------------------------ MODULE Literals ------------------------------
(* Integer literals, operand expressions and the ranges of fields.            *)
(* A notation table nt has the fields hexp, binp, octp, decp (prefixes) and    *)
(* hexs, bins, octs, decs (suffixes), each a sequence of strings.              *)
EXTENDS Text, BigNum

None       == [t |-> "none"]                          \* not a number (a name)
Num(v, d)  == [t |-> "num", v |-> v, dec |-> d]       \* dec: written in decimal
Err(e)     == [t |-> "err", e |-> e]

\* digits of a base with optional single underscores between them
RECURSIVE DigitsOK(_, _, _, _)
DigitsOK(s, i, base, prevDigit) ==
  IF i > Len(s) THEN prevDigit
  ELSE LET c == ChAt(s, i)
       IN IF c = "_" THEN prevDigit /\ DigitsOK(s, i + 1, base, FALSE)
          ELSE c \in DOMAIN DigitTab /\ DigitTab[c] < base /\ DigitsOK(s, i + 1, base, TRUE)
ValOf(s, base) ==
  FoldLeft(LAMBDA v, c : IF c = "_" THEN v ELSE MkBig(FALSE, MMulS(v.m, base, 1, DigitTab[c])), Zero, Chars(s))

RECURSIVE StripWs(_)
StripWs(s) == IF First(s) \in {" ", "\t", "\n", "\r"} THEN StripWs(From(s, 2))
              ELSE IF Last1(s) \in {" ", "\t", "\n", "\r"} THEN StripWs(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* the number a digit string denotes in a base: optional sign, optional radix mark
ReadInt(s0, base) ==
  LET s1  == StripWs(s0)
      neg == First(s1) = "-"
      s2  == IF First(s1) \in {"+", "-"} THEN From(s1, 2) ELSE s1
      mk  == CASE base = 16 -> {"0x", "0X"} [] base = 2 -> {"0b", "0B"} [] base = 8 -> {"0o", "0O"} [] OTHER -> {}
      rad == Len(s2) > 2 /\ SubSeq(s2, 1, 2) \in mk
      s3  == IF rad THEN From(s2, 3) ELSE s2
      s4  == IF rad /\ First(s3) = "_" THEN From(s3, 2) ELSE s3
  IN IF DigitsOK(s4, 1, base, FALSE)
     THEN [ok |-> TRUE, v |-> MkBig(neg, ValOf(s4, base).m)]
     ELSE [ok |-> FALSE]

FirstMatch(seq, P(_)) == SelectInSeq(seq, P)          \* index of the first match, or 0

\* digits before a suffix: the first one, a decimal digit, tells a number from a name
AllDigits(s, base) == /\ s # ""
                      /\ First(s) \in Digit
                      /\ base # 16 => \A i \in 1..Len(s) : ChAt(s, i) \in Digit
                      /\ base = 16 => \A i \in 1..Len(s) : ChAt(s, i) \in DOMAIN DigitTab /\ DigitTab[ChAt(s, i)] < 16

RECURSIVE TryPrefix(_, _)
\* list: sequence of <<prefixes, base>>; the first notation whose prefix matches decides
TryPrefix(list, tok) ==
  IF list = <<>> THEN None
  ELSE LET ps == Head(list)[1]
           base == Head(list)[2]
           k == FirstMatch(ps, LAMBDA p : StartsWith(tok, p))
       IN IF k # 0
          THEN LET r == ReadInt(From(tok, Len(ps[k]) + 1), base)
               IN IF r.ok THEN Num(r.v, base = 10) ELSE Err("Raw")
          ELSE TryPrefix(Tail(list), tok)

RECURSIVE TrySuffix(_, _)
TrySuffix(list, tok) ==
  IF list = <<>> THEN None
  ELSE LET ss == Head(list)[1]
           base == Head(list)[2]
           k == FirstMatch(ss, LAMBDA p : EndsWith(tok, p) /\ AllDigits(SubSeq(tok, 1, Len(tok) - Len(p)), base))
       IN IF k # 0
          THEN LET r == ReadInt(SubSeq(tok, 1, Len(tok) - Len(ss[k])), base)
               IN IF r.ok THEN Num(r.v, base = 10) ELSE Err("Raw")
          ELSE TrySuffix(Tail(list), tok)

Literal(nt, tok) ==
  IF tok = "" THEN Err("Raw")
  ELSE IF First(tok) = "'" /\ Len(tok) < 3 THEN Err("Raw")
  ELSE IF First(tok) = "'" /\ ChAt(tok, 3) = "'"
    THEN Num(B(CodeOf[ChAt(tok, 2)]), FALSE)
  ELSE LET p == TryPrefix(<< <<nt.hexp, 16>>, <<nt.binp, 2>>, <<nt.octp, 8>>, <<nt.decp, 10>> >>, tok)
       IN IF p.t # "none" THEN p
          ELSE LET s == TrySuffix(<< <<nt.hexs, 16>>, <<nt.bins, 2>>, <<nt.octs, 8>>, <<nt.decs, 10>> >>, tok)
               IN IF s.t # "none" THEN s
                  ELSE LET r == ReadInt(tok, 10) IN IF r.ok THEN Num(r.v, TRUE) ELSE None

---------------------------------------------------------------------------
(* Expressions:  [<>]* term (op [term])*  without precedence.                 *)
OpChar == {"+", "-", "*", "/", "&", "|"}

RECURSIVE SelLen(_, _)
SelLen(s, i) == IF i <= Len(s) /\ ChAt(s, i) \in {"<", ">"} THEN SelLen(s, i + 1) ELSE i - 1
RECURSIVE FirstOp(_, _)
FirstOp(s, i) == IF i > Len(s) THEN 0 ELSE IF ChAt(s, i) \in OpChar THEN i ELSE FirstOp(s, i + 1)

\* [sel: selectors, term: first term, ops: rest]; the first term has at least one
\* character, so a leading sign belongs to it; a character literal is one unit
Split(tok) ==
  LET k == SelLen(tok, 1)
      s == From(tok, k + 1)
      lit == Len(s) >= 3 /\ First(s) = "'" /\ ChAt(s, 3) = "'"
      i == IF lit THEN FirstOp(s, 4) ELSE IF First(s) \in OpChar THEN 0 ELSE FirstOp(s, 2)
  IN IF i = 0 THEN [sel |-> SubSeq(tok, 1, k), term |-> s, ops |-> ""]
     ELSE [sel |-> SubSeq(tok, 1, k), term |-> SubSeq(s, 1, i - 1), ops |-> From(s, i)]

\* "+a-b" -> << <<"+","a">>, <<"-","b">> >>
OpList(ops) ==
  FoldLeft(LAMBDA l, c : IF c \in OpChar THEN Append(l, <<c, "">>)
                         ELSE [l EXCEPT ![Len(l)] = <<@[1], @[2] \o c>>], <<>>, Chars(ops))

\* > shifts right by a byte, the n-th < keeps byte n-1 of what is left by then
Select(sel, v) ==
  LET step(a, c) == IF c = ">" THEN [a EXCEPT !.v = Shr(@, 8)]
                    ELSE [a EXCEPT !.acc = Add(@, Shl(LowBits(Shr(a.v, 8 * a.n), 8), 8 * a.n)), !.n = @ + 1]
      r == FoldLeft(step, [v |-> v, acc |-> Zero, n |-> 0], Chars(sel))
  IN IF r.n > 0 THEN r.acc ELSE r.v

InUnsigned(v, bits) == ~v.n /\ Lt(v, Pow2(bits))
InSigned(v, bits)   == Le(Neg(Pow2(bits - 1)), v) /\ Lt(v, Pow2(bits - 1))
\* the range of a label value: signed fields for displacements
InLabelRange(v, bits, signed) ==
  IF v.n \/ signed THEN InSigned(v, bits) ELSE InUnsigned(v, bits)

\* what a literal operand stores: unsigned fields take decimal negatives as two's complement
Fit(num, bits, signed) ==
  LET v == num.v IN
  IF ~num.dec /\ v.n THEN Err("NegativeSignNotAllowed")
  ELSE IF num.dec /\ signed THEN (IF InSigned(v, bits) THEN num ELSE Err("NotInBitRange"))
  ELSE IF v.n THEN (IF InSigned(v, bits) THEN Num(Add(v, Pow2(bits)), num.dec) ELSE Err("NotInBitRange"))
  ELSE IF InUnsigned(v, bits) THEN num ELSE Err("NotInBitRange")

\* labels: a function from label names to their addresses
RECURSIVE Apply(_, _, _, _), ParseNum(_, _, _, _, _)
RECURSIVE ApplyOps(_, _, _, _)
ApplyOps(nt, labels, ops, v) ==
  IF ops = <<>> THEN Num(v, TRUE)
  ELSE LET op  == Head(ops)[1]
           arg == Head(ops)[2]
           a   == IF arg = "" THEN Num(B(1), TRUE)
                  ELSE LET p == ParseNum(nt, labels, arg, 64, FALSE)
                       IN IF p.t # "none" THEN p
                          ELSE LET f == Split(arg)
                               IN IF f.term \in DOMAIN labels
                                  THEN Apply(nt, labels, f, labels[f.term])
                                  ELSE Err("UnknownLabel")
       IN IF a.t = "err" THEN a
          ELSE IF op = "/" /\ a.v = Zero THEN Err("Raw")
          ELSE ApplyOps(nt, labels, Tail(ops),
                 CASE op = "+" -> Add(v, a.v) [] op = "-" -> Sub(v, a.v) [] op = "*" -> Mul(v, a.v)
                   [] op = "/" -> FloorDiv(v, a.v) [] op = "&" -> BitAnd(v, a.v) [] op = "|" -> BitOr(v, a.v))
Apply(nt, labels, f, v) == ApplyOps(nt, labels, OpList(f.ops), Select(f.sel, v))

\* an operand read as a number for a field of so many bits; "none" if its first term is a name
ParseNum(nt, labels, tok, bits, signed) ==
  LET f == Split(tok)
      l == Literal(nt, f.term)
  IN IF l.t # "num" THEN l
     ELSE LET v == Apply(nt, labels, f, l.v)
          IN IF v.t = "err" THEN v ELSE Fit(Num(v.v, l.dec), bits, signed)

\* value of an expression whose first term is a label; base is what the displacement is
\* relative to (Zero for absolute); "none" if the first term is not a known label
LabelExpr(nt, labels, tok, base) ==
  LET f == Split(tok)
  IN IF f.term \in DOMAIN labels THEN Apply(nt, labels, f, Sub(labels[f.term], base)) ELSE None
=============================================================================
