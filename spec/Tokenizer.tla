----------------------------- MODULE Tokenizer -----------------------------
(* The lexer as a character-level state machine.                            *)
(*   mode  one of "token", "str", "stresc", "chr", "chresc", "comment"       *)
(*   cur   the token being read        toks  tokens of the open statement    *)
(*   out   finished statements [k: "label"/"dir"/"ins", toks, line]          *)
(*   err   "" or the reason the text is rejected                             *)
EXTENDS Text

LexInit == [mode |-> "token", cur |-> "", toks |-> <<>>, line |-> 1, out |-> <<>>, err |-> ""]

Eol     == {"\n", "\r"}
Blank   == {" ", "\t", ","}
Bracket == {"(", ")", "[", "]", "{", "}"}

PushCur(t) == IF t.cur = "" THEN t ELSE [t EXCEPT !.toks = Append(@, t.cur), !.cur = ""]

EndStmt(t) ==
  IF t.toks = <<>> THEN t
  ELSE [t EXCEPT !.out = Append(@, [k |-> IF StartsWith(t.toks[1], ".") THEN "dir" ELSE "ins",
                                    toks |-> t.toks, line |-> t.line]),
                 !.toks = <<>>]

\* quoted text is kept together with its quotes; an empty quoted text vanishes
EndQuote(t, q) == [t EXCEPT !.mode = "token", !.cur = "",
                            !.toks = IF t.cur = "" THEN @ ELSE Append(@, q \o t.cur \o q)]

InToken(t, c) ==
  CASE c \in Blank   -> PushCur(t)
    [] c \in Eol     -> EndStmt(PushCur(t))
    [] c = ";"       -> [EndStmt(PushCur(t)) EXCEPT !.mode = "comment"]
    [] c \in Bracket -> LET u == PushCur(t) IN [u EXCEPT !.toks = Append(@, c)]
    [] c = ":"       -> IF t.toks # <<>> THEN [t EXCEPT !.err = "LabelPosition"]
                        ELSE LET u == PushCur(t)
                             IN [u EXCEPT !.out = Append(@, [k |-> "label", toks |-> u.toks, line |-> u.line]),
                                          !.toks = <<>>]
    [] c = "\""      -> [PushCur(t) EXCEPT !.mode = "str"]
    [] c = "'"       -> [PushCur(t) EXCEPT !.mode = "chr"]
    [] OTHER         -> [t EXCEPT !.cur = @ \o c]

InQuote(t, c, q, esc) ==
  CASE c = "\\" -> [t EXCEPT !.mode = esc]
    [] c = q    -> EndQuote(t, q)
    [] OTHER    -> [t EXCEPT !.cur = @ \o c]

LexChar(t, c) ==
  IF t.err # "" THEN t
  ELSE LET u == CASE t.mode = "token"   -> InToken(t, c)
                  [] t.mode = "str"     -> InQuote(t, c, "\"", "stresc")
                  [] t.mode = "chr"     -> InQuote(t, c, "'", "chresc")
                  [] t.mode = "stresc"  -> [t EXCEPT !.cur = @ \o c, !.mode = "str"]
                  [] t.mode = "chresc"  -> [t EXCEPT !.cur = @ \o c, !.mode = "chr"]
                  [] t.mode = "comment" -> IF c \in Eol THEN [t EXCEPT !.mode = "token"] ELSE t
       IN IF c = "\n" /\ u.err = "" THEN [u EXCEPT !.line = @ + 1] ELSE u

\* end of the text: an implicit end of line; a quote still open is an error
LexEnd(t) == LET u == LexChar(t, "\n")
             IN IF u.err = "" /\ u.mode \notin {"token", "comment"} THEN [u EXCEPT !.err = "OpenQuote"] ELSE u

Lex(text) == LexEnd(FoldLeft(LexChar, LexInit, Chars(text)))
============================================================================
