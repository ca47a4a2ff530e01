------------------------------ MODULE Session ------------------------------
(* The assembler driven through its public interface.  asm is the assembler   *)
(* state of module Asm; every action below is one step the program takes:     *)
(* one statement, one macro call, one label reference, one link pass.          *)
EXTENDS Asm, Cpus, Platforms
VARIABLE asm

Top(A)      == A.stack[Len(A.stack)]
HasStmt(A)  == A.stack # <<>> /\ Top(A).i <= Len(Top(A).stmts)
Stmt(A)     == Top(A).stmts[Top(A).i]
Running(A)  == A.phase = "run" /\ A.err = ""
Advance(A)  == [A EXCEPT !.stack[Len(A.stack)].i = @ + 1]

\* what the next statement is
Toks(A)  == Subst(Stmt(A).toks, A.defs, 1)
Class(A) ==
  LET st == Stmt(A) IN
  CASE st.k = "label" -> "label"
    [] st.k = "dir"   -> "dir"
    [] A.rec # ""     -> "record"
    [] Key(A, Toks(A)[1]) \in DOMAIN A.macros -> "macro"
    [] OTHER -> "ins"

\* a failing statement stops the run; it is reported with its position and tokens
Guarded(A, R, toks) ==
  IF R.err = "" \/ A.err # "" THEN R
  ELSE [R EXCEPT !.phase = "failed",
                 !.at = [line |-> Stmt(A).line, toks |-> toks, kind |-> Stmt(A).k,
                         file |-> IF "file" \in DOMAIN Stmt(A) THEN Stmt(A).file ELSE Top(A).file]]

\* ------------------------------------------------------------ single statements
StepLabel(A)  == Guarded(A, DefineLabel(Advance(A), Stmt(A)), Stmt(A).toks)
StepDir(A)    == LET t == DirToks(A, Stmt(A)) k == DirKey(A, Stmt(A))
                 IN Guarded(A, IF k \in CoreDirs THEN DoDirective(Advance(A), k, t)
                               ELSE PlatDirective(Advance(A), k, t), t)
\* a recorded instruction remembers where it was written
StepRecord(A) == [Advance(A) EXCEPT !.macros[A.rec].body =
                    Append(@, [k |-> Stmt(A).k, toks |-> Stmt(A).toks, line |-> Stmt(A).line, file |-> Top(A).file])]
\* the arguments are passed as written; the defines in them are applied in the body
StepMacro(A)  == LET t == <<Toks(A)[1]>> \o Tail(Stmt(A).toks) IN Guarded(A, CallMacro(Advance(A), t, Stmt(A)), t)
StepIns(A)    == LET t == Toks(A) k == Key(A, t[1])
                     R == IF A.cfg.cpu # "" THEN CpuInstruction(Advance(A), k, t)
                          ELSE IF k \in DOMAIN A.cfg.insts THEN DoInst(Advance(A), A.cfg.insts[k], t)
                          ELSE Fail(Advance(A), "UnknownInstruction")
                 IN Guarded(A, R, t)

\* ------------------------------------------------------------ named actions
On(c) == Running(asm) /\ HasStmt(asm) /\ Class(asm) = c
OnDir(keys) == On("dir") /\ DirKey(asm, Stmt(asm)) \in keys

LabelStatement    == On("label")  /\ asm' = StepLabel(asm)
RecordInstruction == On("record") /\ asm' = StepRecord(asm)
InvokeMacro       == On("macro")  /\ asm' = StepMacro(asm)
Instruction       == On("ins")    /\ asm' = StepIns(asm)
OriginDirective   == OnDir({"ORG", "SECTION"}) /\ asm' = StepDir(asm)
DataDirective     == OnDir({"DB", "BYTE", "DW", "WORD", "DD", "DL", "DWORD", "DB_TO_ASCII", "DW_TO_ASCII",
                            "DB_TO_ASCIIZ", "DW_TO_ASCIIZ"}) /\ asm' = StepDir(asm)
MoveDirective     == OnDir({"FILL", "GOTO", "UPTO", "RAM", "ALIGN"}) /\ asm' = StepDir(asm)
MacroDirective    == OnDir({"MACRO", "ENDMACRO"}) /\ asm' = StepDir(asm)
RepeatDirective   == OnDir({"REPEAT", "ENDREPEAT"}) /\ asm' = StepDir(asm)
IncludeDirective  == OnDir({"INCLUDE", "INCBIN", "INCCSV", "INCCSV_LE16", "INCJSON"}) /\ asm' = StepDir(asm)
DefineDirective   == OnDir({"DEFINE"}) /\ asm' = StepDir(asm)
OtherDirective    == On("dir") /\ DirKey(asm, Stmt(asm)) \notin
                       {"ORG", "SECTION", "DB", "BYTE", "DW", "WORD", "DD", "DL", "DWORD", "DB_TO_ASCII",
                        "DW_TO_ASCII", "DB_TO_ASCIIZ", "DW_TO_ASCIIZ", "FILL", "GOTO", "UPTO", "RAM", "ALIGN",
                        "MACRO", "ENDMACRO", "REPEAT", "ENDREPEAT", "INCLUDE", "INCBIN", "INCCSV", "INCCSV_LE16",
                        "INCJSON", "DEFINE"}
                     /\ asm' = StepDir(asm)
\* an included source or a macro expansion is exhausted
ReturnTo          == Running(asm) /\ ~HasStmt(asm) /\ Len(asm.stack) > 1
                     /\ asm' = [asm EXCEPT !.stack = Front(@)]
\* the outermost source is exhausted: regions and sections are completed
EndOfSource       == Running(asm) /\ ~HasStmt(asm) /\ Len(asm.stack) = 1
                     /\ asm' = LET E == EndSource(asm) IN [E EXCEPT !.stack = <<>>, !.phase = IF E.err = "" THEN "idle" ELSE "failed"]

StatementStep == \/ LabelStatement \/ RecordInstruction \/ InvokeMacro \/ Instruction \/ OriginDirective
                 \/ DataDirective \/ MoveDirective \/ MacroDirective \/ RepeatDirective \/ IncludeDirective
                 \/ DefineDirective \/ OtherDirective \/ ReturnTo

\* ------------------------------------------------------------ linking
\* link passes of the harness note the phase they run in and the bytes they see
RunPasses(A, list) == [A EXCEPT !.calls = @ \o [i \in 1..Len(list) |-> <<list[i], Len(A.bytes), A.bytes>>]]
LinkStart(A) == [RunPasses(A, A.cfg.pre) EXCEPT !.phase = "link", !.pend = A.fix, !.undef = <<>>]
LinkOne(A)   == LET R == Resolve(A, Head(A.pend))
                IN IF R.err = "" THEN [R EXCEPT !.pend = Tail(@)] ELSE [R EXCEPT !.phase = "failed"]
LinkEnd(A)   == LET P == PostLink(A)
                    Q == IF P.err = "" THEN RunPasses(P, A.cfg.post) ELSE P
                IN IF Q.err = "" THEN [Q EXCEPT !.phase = "idle", !.image = Q.bytes] ELSE [Q EXCEPT !.phase = "failed"]

ResolveReference == asm.phase = "link" /\ asm.err = "" /\ asm.pend # <<>> /\ asm' = LinkOne(asm)
FinishLink       == asm.phase = "link" /\ asm.err = "" /\ asm.pend = <<>> /\ asm' = LinkEnd(asm)
LinkStep == ResolveReference \/ FinishLink

\* ------------------------------------------------------------ interface calls
CallAssemble(A, src, file) ==
  LET l == Lex(src)
  IN IF l.err # "" THEN [A EXCEPT !.err = "Raw", !.phase = "failed"]
     ELSE [A EXCEPT !.stack = << [kind |-> "src", stmts |-> l.out, i |-> 1, file |-> file] >>, !.phase = "run"]
CallAssembleFile(A, name) ==
  IF name \in DOMAIN A.cfg.files /\ A.cfg.files[name].t = "text" THEN CallAssemble(A, A.cfg.files[name].src, name)
  ELSE [A EXCEPT !.err = "Raw", !.phase = "failed"]
CallLink(A) == LinkStart(A)

\* ------------------------------------------------------------ projection compared with the real code
Result(A) == [err |-> A.err, at |-> A.at, bytes |-> A.bytes, pc |-> Pc(A),
              labels |-> [i \in 1..Len(A.lorder) |-> <<A.lorder[i], A.labels[A.lorder[i]]>>], obs |-> A.obs,
              calls |-> A.calls]
=============================================================================
