---------------------------- MODULE TokenizerGen ----------------------------
(* Explores the lexer on every vText over Alphabet up to length MaxLen, checks *)
(* its invariants and prints, for every vText, the statements it denotes.      *)
EXTENDS Tokenizer, Json, IOUtils
CONSTANTS MaxLen, AlphaId
VARIABLES vText, vLex, vDone

Alphabet == CASE AlphaId = 1 -> {"a", ".", ":", ";", "\"", "'", "\\", "(", ",", " ", "\n"}
              [] AlphaId = 2 -> {"a", "B", "7", "\t", "\r", "\n", "[", "}", "'", ":", "+"}
              [] AlphaId = 3 -> {"x", "\n", "\"", ";", " "}
vars == <<vText, vLex, vDone>>

Init == vText = "" /\ vLex = LexInit /\ vDone = FALSE
Read(m) == /\ ~vDone /\ vLex.err = "" /\ vLex.mode = m /\ Len(vText) < MaxLen
           /\ \E c \in Alphabet : vText' = vText \o c /\ vLex' = LexChar(vLex, c)
           /\ UNCHANGED vDone
ReadToken == Read("token")
ReadString == Read("str")
ReadStringEscape == Read("stresc")
ReadChar == Read("chr")
ReadCharEscape == Read("chresc")
ReadComment == Read("comment")
Finish == ~vDone /\ vDone' = TRUE /\ vLex' = LexEnd(vLex) /\ UNCHANGED vText
Next == ReadToken \/ ReadString \/ ReadStringEscape \/ ReadChar \/ ReadCharEscape \/ ReadComment \/ Finish
Spec == Init /\ [][Next]_vars

Emit == vDone => PrintT("@@" \o ToJson([text |-> vText, err |-> vLex.err, out |-> vLex.out]))

\* ---- invariants of the design
CountNl(s) == Cardinality({i \in 1..Len(s) : ChAt(s, i) = "\n"})
TypeOK == vLex.mode \in {"token", "str", "stresc", "chr", "chresc", "comment"}
LinesGrow == \A i, j \in 1..Len(vLex.out) : i < j => vLex.out[i].line <= vLex.out[j].line
LinesTrue == \A i \in 1..Len(vLex.out) : vLex.out[i].line \in 1..(CountNl(vText) + 1)
LineNo == ~vDone /\ vLex.err = "" => vLex.line = 1 + CountNl(vText)
\* no statement without tokens except a bare colon, no token is empty or holds a separator outside quotes
TokensOK == \A i \in 1..Len(vLex.out) :
  /\ vLex.out[i].k # "label" => vLex.out[i].toks # <<>>
  /\ \A j \in 1..Len(vLex.out[i].toks) :
       LET w == vLex.out[i].toks[j] IN
       /\ w # ""
       /\ First(w) \notin {"\"", "'"} =>
            /\ \A n \in 1..Len(w) : ChAt(w, n) \notin (Blank \cup Eol \cup {";", ":", "\"", "'"})
            /\ Len(w) > 1 => \A n \in 1..Len(w) : ChAt(w, n) \notin Bracket
\* finished statements never change
AppendOnly == [][IsPrefix(vLex.out, vLex'.out)]_vars
\* nothing outside comments, quotes and rejected texts is lost: every word character ends up in a token
Lost == vDone /\ vLex.err = "" =>
  LET kept == FoldLeft(LAMBDA s, st : s \o Cat(st.toks), "", vLex.out)
      noq == \A i \in 1..Len(vText) : ChAt(vText, i) \notin {";", "\"", "'"}
  IN noq => \A c \in Alphabet \ (Blank \cup Eol \cup {":"}) :
       Cardinality({i \in 1..Len(vText) : ChAt(vText, i) = c}) = Cardinality({i \in 1..Len(kept) : ChAt(kept, i) = c})
=============================================================================
