------------------------------- MODULE Text -------------------------------
(* Text is represented by TLC strings, characters by strings of length 1. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

ChAt(s, i) == SubSeq(s, i, i)
Chars(s)   == [i \in 1..Len(s) |-> ChAt(s, i)]
From(s, i) == SubSeq(s, i, Len(s))              \* the suffix starting at position i
First(s)   == IF s = "" THEN "" ELSE ChAt(s, 1)
Last1(s)   == IF s = "" THEN "" ELSE ChAt(s, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Cat(seq)   == FoldLeft(LAMBDA a, b : a \o b, "", seq)   \* concatenation of a sequence of strings

Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* character -> code point (ASCII, and two others as examples)
CodeOf == TLCEval(
  [c \in {ChAt(Printable, i) : i \in 1..95} \cup {"\n", "\t", "\r", "é", "€"} |->
     CASE c = "\n" -> 10 [] c = "\t" -> 9 [] c = "\r" -> 13 [] c = "é" -> 233 [] c = "€" -> 8364
       [] OTHER -> 31 + (CHOOSE i \in 1..95 : ChAt(Printable, i) = c)])
IsAscii(s) == \A i \in 1..Len(s) : CodeOf[ChAt(s, i)] < 128
Codes(s)   == [i \in 1..Len(s) |-> CodeOf[ChAt(s, i)]]
CharOf     == TLCEval([n \in 32..126 |-> ChAt(Printable, n - 31)])

Lower == TLCEval({CharOf[n] : n \in 97..122})
Upper == TLCEval({CharOf[n] : n \in 65..90})
Digit == TLCEval({CharOf[n] : n \in 48..57})
WordChar == TLCEval(Lower \cup Upper \cup Digit \cup {"_", "."})

UpMap == TLCEval([c \in DOMAIN CodeOf |-> IF c \in Lower THEN CharOf[CodeOf[c] - 32] ELSE c])
UpC(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c
Up(s)  == Cat([i \in 1..Len(s) |-> UpC(ChAt(s, i))])

\* value of a digit in bases up to 16, or 99
DigitVal(c) == IF c \in Digit THEN CodeOf[c] - 48
               ELSE IF c \in {"a","b","c","d","e","f"} THEN CodeOf[c] - 87
               ELSE IF c \in {"A","B","C","D","E","F"} THEN CodeOf[c] - 55
               ELSE 99
DigitTab == TLCEval([c \in DOMAIN CodeOf |-> DigitVal(c)])

IsWord(s) == \A i \in 1..Len(s) : ChAt(s, i) \in WordChar

\* decimal text of a natural number
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN CharOf[48 + n] ELSE Dec(n \div 10) \o CharOf[48 + (n % 10)]
===========================================================================
