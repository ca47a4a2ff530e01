-------------------------------- MODULE Equiv --------------------------------
(* Pairs of histories that have to mean the same (macro and substituted body,  *)
(* repeat and copies, include and inline text, one call and several ...).      *)
(* Both are run through the specification; Same demands equal outcomes.        *)
EXTENDS Session, Json, IOUtils
Data  == TLCEval(JsonDeserialize(IOEnv.CASES))      \* [cfgs, pairs, fields]
Pairs == Data.pairs
VARIABLES vPair, vSide, vPos, vFirst, vDone
evars == <<asm, vPair, vSide, vPos, vFirst, vDone>>

Busy == asm.phase \in {"run", "link"}
Side == Pairs[vPair][vSide]
Fields2 == {Data.fields[i] : i \in 1..Len(Data.fields)}
Outcome(A) == [ok |-> A.err = "",
               bytes |-> IF A.err = "" /\ "bytes" \in Fields2 THEN A.bytes ELSE <<>>,
               pc |-> IF A.err = "" /\ "pc" \in Fields2 THEN Pc(A) ELSE Zero,
               labels |-> IF A.err = "" /\ "labels" \in Fields2 THEN A.labels ELSE EmptyFn]

EqInit == /\ vPair \in 1..Len(Pairs) /\ vSide = 1 /\ vPos = 1 /\ vFirst = <<>> /\ vDone = FALSE
          /\ asm = InitAsm(Data.cfgs[Pairs[vPair][1].cfg])
Inside == ~vDone /\ Busy /\ (StatementStep \/ EndOfSource \/ LinkStep) /\ UNCHANGED <<vPair, vSide, vPos, vFirst, vDone>>
Over   == asm.err # "" \/ vPos > Len(Side.ops)
Call   == /\ ~vDone /\ ~Busy /\ ~Over
          /\ LET op == Side.ops[vPos] IN
             asm' = CASE op.op = "asm"  -> CallAssemble(asm, op.src, op.file)
                      [] op.op = "file" -> CallAssembleFile(asm, op.name)
                      [] op.op = "link" -> CallLink(asm)
          /\ vPos' = vPos + 1 /\ UNCHANGED <<vPair, vSide, vFirst, vDone>>
Second == /\ ~vDone /\ ~Busy /\ Over /\ vSide = 1
          /\ vFirst' = << Outcome(asm) >> /\ vSide' = 2 /\ vPos' = 1
          /\ asm' = InitAsm(Data.cfgs[Pairs[vPair][2].cfg]) /\ UNCHANGED <<vPair, vDone>>
Done   == ~vDone /\ ~Busy /\ Over /\ vSide = 2 /\ vDone' = TRUE /\ UNCHANGED <<asm, vPair, vSide, vPos, vFirst>>
EqNext == Inside \/ Call \/ Second \/ Done
EqSpec == EqInit /\ [][EqNext]_evars

Same   == vDone => vFirst[1] = Outcome(asm)
Report == vDone => PrintT("@@" \o ToJson([p |-> vPair]))
=============================================================================
