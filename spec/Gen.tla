-------------------------------- MODULE Gen --------------------------------
(* Exhaustive exploration of all programs of at most maxlen pieces over an    *)
(* alphabet of source pieces.  Every state is checked against the invariants;  *)
(* every complete behaviour (assemble, link) is printed with the projection    *)
(* the real code has to show when it is given the same program.               *)
EXTENDS Session, Props, Json, IOUtils
Model == TLCEval(JsonDeserialize(IOEnv.MODEL))      \* [cfg, pieces, maxlen, minlen, links, cut]
VARIABLES vProg, vLines, vDone, vGhost
gvars == <<asm, vProg, vLines, vDone, vGhost>>

Lexed == TLCEval([i \in 1..Len(Model.pieces) |-> TLCEval(Lex(Model.pieces[i]).out)])
NlOf  == TLCEval([i \in 1..Len(Model.pieces) |-> Cardinality({k \in 1..Len(Model.pieces[i]) : ChAt(Model.pieces[i], k) = "\n"}) + 1])
Shift(stmts, d) == [i \in 1..Len(stmts) |-> [stmts[i] EXCEPT !.line = @ + d]]

GenInit == /\ asm = [InitAsm(Model.cfg) EXCEPT !.phase = "run",
                     !.stack = << [kind |-> "src", stmts |-> <<>>, i |-> 1, file |-> ""] >>]
           /\ vProg = <<>> /\ vLines = 0 /\ vDone = FALSE /\ vGhost = Ghost0

Quiet == UNCHANGED <<vProg, vLines, vDone>>
Extend == /\ Running(asm) /\ ~HasStmt(asm) /\ Len(asm.stack) = 1 /\ Len(vProg) < Model.maxlen
          /\ \E i \in 1..Len(Model.pieces) :
               /\ vProg' = Append(vProg, i) /\ vLines' = vLines + NlOf[i]
               /\ asm' = [asm EXCEPT !.stack[1].stmts = @ \o Shift(Lexed[i], vLines)]
          /\ UNCHANGED vDone /\ vGhost' = vGhost
\* the source ends here and the program continues in another one
Cut == /\ Model.cut /\ Running(asm) /\ ~HasStmt(asm) /\ Len(asm.stack) = 1 /\ Len(vProg) < Model.maxlen /\ vProg # <<>> /\ Last(vProg) # 0
       /\ vProg' = Append(vProg, 0) /\ vLines' = 0
       /\ asm' = LET E == EndSource(asm) IN IF E.err # "" THEN [E EXCEPT !.phase = "failed"] ELSE [E EXCEPT !.stack[1].stmts = <<>>, !.stack[1].i = 1]
       /\ UNCHANGED vDone /\ vGhost' = GhostStep(vGhost, asm, asm')
\* macros (or sources) which call themselves for ever are refused; programs this short nest no deeper otherwise
MaxDepth == 24
Run == Len(asm.stack) <= MaxDepth /\ StatementStep /\ Quiet /\ vGhost' = GhostStep(vGhost, asm, asm')
Endless == Running(asm) /\ Len(asm.stack) > MaxDepth /\ asm' = [asm EXCEPT !.err = "Raw", !.phase = "failed"] /\ Quiet /\ vGhost' = vGhost
Finish == /\ Running(asm) /\ ~HasStmt(asm) /\ Len(asm.stack) = 1 /\ Len(vProg) >= Model.minlen
          /\ EndOfSource /\ Quiet /\ vGhost' = GhostStep(vGhost, asm, asm')
Link == asm.phase = "idle" /\ ~vDone /\ vGhost.nlinks < Model.links /\ asm' = CallLink(asm)
          /\ Quiet /\ vGhost' = [GhostStep(vGhost, asm, asm') EXCEPT !.linked = TRUE, !.nlinks = @ + 1,
                                         !.unlinked = IF vGhost.linked THEN @ ELSE asm.bytes, !.endpc = Pc(asm)]
Resolving == LinkStep /\ Quiet /\ vGhost' = GhostStep(vGhost, asm, asm')
Complete == /\ ~vDone /\ (asm.phase = "failed" \/ (asm.phase = "idle" /\ vGhost.nlinks = Model.links))
            /\ vDone' = TRUE /\ UNCHANGED <<asm, vProg, vLines, vGhost>>
GenNext == Extend \/ Cut \/ Run \/ Endless \/ Finish \/ Link \/ Resolving \/ Complete
GenSpec == GenInit /\ [][GenNext]_gvars

Report == vDone =>
  PrintT("@@" \o ToJson([p |-> vProg, err |-> asm.err, at |-> asm.at, linked |-> vGhost.linked, ub |-> vGhost.unlinked, calls |-> asm.calls,
                         pc |-> vGhost.endpc, bytes |-> asm.bytes,
                         labels |-> [i \in 1..Len(asm.lorder) |-> <<asm.lorder[i], asm.labels[asm.lorder[i]]>>],
                         obs |-> asm.obs]))

\* C18: linking again changes nothing
PRelink    == [][vGhost.nlinks > 1 /\ FinishLink /\ asm'.err = "" => asm'.image = asm.image]_gvars
PLabels    == [][LabelsStable]_gvars
PAppend    == [][AppendOnly]_gvars
PTiles     == [][TileStep]_gvars
PCounter   == [][CounterStep]_gvars
PLinkLocal == [][LinkLocal]_gvars
=============================================================================
