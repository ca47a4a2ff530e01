-------------------------------- MODULE Tools --------------------------------
(* The command line tools.  A run takes its arguments, assembles the sources in  *)
(* order, links, completes the image and writes it; a failure ends it before     *)
(* anything is written.  Recorded runs (arguments, files before and after, exit) *)
(* are checked against this machine.                                             *)
EXTENDS Session, Elf, Json, IOUtils
Data  == TLCEval(JsonDeserialize(IOEnv.CASES))        \* [cfgs, cases]
Cases == Data.cases
VARIABLES vCase, vArg, vStage, vFs, vVerdict
wvars == <<asm, vCase, vArg, vStage, vFs, vVerdict>>
Case == Cases[vCase]
Args == Case.args
Single == Case.tool \in {"nes", "gba", "genesis", "psx"}      \* one source, then the destination

Min2(a, b) == IF a < b THEN a ELSE b
Sources == IF Single THEN SubSeq(Args, 1, Min2(1, Len(Args))) ELSE IF Args = <<>> THEN <<>> ELSE Front(Args)
HasDest == IF Single THEN Len(Args) >= 2 ELSE Len(Args) >= 2
Dest    == IF Single THEN Args[2] ELSE Last(Args)

ToolInit == /\ vCase \in 1..Len(Cases) /\ vArg = 1 /\ vVerdict = ""
            /\ vStage = "start" /\ vFs = Case.before
            /\ asm = InitAsm(Data.cfgs[Cases[vCase].cfg])
Stop(st) == vStage' = st /\ UNCHANGED <<asm, vCase, vArg, vFs, vVerdict>>
Active == vVerdict = "" /\ vStage \notin {"done", "failed", "usage"}
Busy == asm.phase \in {"run", "link"} /\ asm.err = ""

Start  == Active /\ vStage = "start" /\ Stop(IF ~Single /\ ~HasDest THEN "usage" ELSE IF Args = <<>> THEN "failed" ELSE "sources")
\* the file as it is now (a source may be the destination of an earlier run)
Assemble == /\ Active /\ vStage = "sources" /\ ~Busy /\ asm.err = "" /\ vArg <= Len(Sources)
            /\ asm' = CallAssembleFile(asm, Sources[vArg]) /\ vArg' = vArg + 1
            /\ UNCHANGED <<vCase, vStage, vFs, vVerdict>>
Step   == Active /\ Busy /\ (StatementStep \/ EndOfSource \/ LinkStep) /\ UNCHANGED <<vCase, vArg, vStage, vFs, vVerdict>>
Broken == Active /\ asm.err # "" /\ Stop("failed")
Link   == /\ Active /\ vStage = "sources" /\ ~Busy /\ asm.err = "" /\ vArg > Len(Sources)
          /\ asm' = CallLink(asm) /\ vStage' = "linking" /\ UNCHANGED <<vCase, vArg, vFs, vVerdict>>

\* ---------------------------------------------------------------- completing the image
\* Game Boy Advance: complement check of $A0..$BC in $BD
GbaImage(bs) == IF Len(bs) < 190 THEN [e |-> "Raw", bs |-> bs]
                ELSE [e |-> "", bs |-> [bs EXCEPT ![190] = (65536 * 2 - SumFrom(bs, 161, 189) - 25) % 256]]
\* Genesis: sum of the big-endian words from $200 on, in $18E/$18F
GenesisImage(bs) ==
  IF Len(bs) < 400 \/ (Len(bs) > 512 /\ Len(bs) % 2 = 1) THEN [e |-> "Raw", bs |-> bs]
  ELSE LET n == IF Len(bs) > 512 THEN (Len(bs) - 512) \div 2 ELSE 0
           s == FoldLeft(LAMBDA a, i : (a + 256 * bs[511 + 2 * i] + bs[512 + 2 * i]) % 65536, 0, [i \in 1..n |-> i])
       IN [e |-> "", bs |-> [bs EXCEPT ![399] = s \div 256, ![400] = s % 256]]
\* PlayStation: 2048-byte header, then the image padded to 2048-byte blocks
Sony == Codes("Sony Computer Entertainment Inc. for Europe area")
PsxHeader(size) == Codes("PS-X EXE") \o Zeros(8) \o <<0, 0, 1, 128>> \o <<255, 255, 255, 255>> \o <<0, 0, 1, 128>>
                     \o BytesOf(B(size), 4) \o Zeros(16) \o <<240, 255, 31, 128>> \o Zeros(24) \o Sony
PsxImage(bs) == LET p == (2048 - (Len(bs) % 2048)) % 2048
                    h == PsxHeader(Len(bs) + p)
                IN [e |-> "", bs |-> h \o Zeros(2048 - Len(h)) \o bs \o Zeros(p)]
\* NES: symbol files for debuggers
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN "" ELSE HexN(v \div 16, n - 1) \o ChAt("0123456789ABCDEF", (v % 16) + 1)
Symbols(lo, hi) ==
  LET in == SelectSeq(asm.lorder, LAMBDA l : ~asm.labels[l].n /\ Le(B(lo), asm.labels[l]) /\ Le(asm.labels[l], B(hi)))
  IN FlattenSeq([i \in 1..Len(in) |-> Codes("$" \o HexN(ToInt(asm.labels[in[i]]), 4) \o "#" \o in[i] \o "#") \o <<13, 10>>])

Complete(bs) == CASE Case.tool = "gba" -> GbaImage(bs)
                  [] Case.tool = "genesis" -> GenesisImage(bs)
                  [] Case.tool = "psx" -> PsxImage(bs)
                  [] OTHER -> [e |-> IF "elf" \in DOMAIN Case THEN ElfErr(asm, Case.elf) ELSE "", bs |-> bs]
Outputs(bs) == IF Case.tool = "nes"
               THEN (Dest :> bs) @@ ((Dest \o ".0.nl") :> Symbols(32768, 65535)) @@ ((Dest \o ".ram.nl") :> Symbols(0, 2047))
               ELSE (Dest :> bs)
Write == /\ Active /\ vStage = "linking" /\ ~Busy /\ asm.err = ""
         /\ LET c == Complete(asm.bytes)
            IN IF c.e # "" \/ ~HasDest \/ (\E i \in 1..Len(Case.nowrite) : Case.nowrite[i] = Dest) THEN Stop("failed")
               ELSE vFs' = Outputs(c.bs) @@ vFs /\ vStage' = "done" /\ UNCHANGED <<asm, vCase, vArg, vVerdict>>

\* ---------------------------------------------------------------- verdict on the recorded run
After == Case.after
FilesClause ==
  IF DOMAIN After # DOMAIN vFs THEN "files"
  ELSE IF "elf" \in DOMAIN Case /\ vStage = "done"
    THEN LET c == Clause(asm, Case.elf, After[Dest])
         IN IF c # "" THEN c ELSE IF \E f \in DOMAIN vFs \ {Dest} : After[f] # vFs[f] THEN "other file" ELSE ""
  ELSE LET bad == {f \in DOMAIN vFs : After[f] # vFs[f]} IN IF bad # {} THEN "contents of " \o (CHOOSE f \in bad : TRUE) ELSE ""
Judge == /\ vVerdict = "" /\ ~Active
         /\ vVerdict' = (IF HasDest /\ (vStage = "failed") # (Case.exit # 0) THEN "exit status"
                         ELSE IF "recs" \in DOMAIN Case /\ vStage = "done" /\ (Len(Case.recs) # Len(asm.undef) \/ Range(Case.recs) # Range(asm.undef)) THEN "relocations"
                         ELSE LET f == FilesClause IN IF f = "" THEN "ok" ELSE f)
         /\ UNCHANGED <<asm, vCase, vArg, vStage, vFs>>
ToolNext == Start \/ Assemble \/ Step \/ Broken \/ Link \/ Write \/ Judge
ToolSpec == ToolInit /\ [][ToolNext]_wvars

\* C16: nothing is written before everything succeeded, and only the outputs are
NothingEarly == vStage # "done" => vFs = Case.before
OnlyOutputs  == \A f \in DOMAIN vFs : (f \in DOMAIN Case.before /\ vFs[f] = Case.before[f]) \/ (HasDest /\ f \in DOMAIN Outputs(<<>>))
\* C22: the words the console adds up, the complement it checks, the blocks it loads
Sound == vStage = "done" =>
  LET bs == vFs[Dest] IN
  CASE Case.tool = "gba" -> (SumFrom(bs, 161, 190) + 25) % 256 = 0
                              /\ \A i \in 1..Len(bs) : i = 190 \/ bs[i] = asm.bytes[i]
    [] Case.tool = "genesis" -> \A i \in 1..Len(bs) : i \in {399, 400} \/ bs[i] = asm.bytes[i]
    [] Case.tool = "psx" -> Len(bs) % 2048 = 0 /\ IsPrefix(asm.bytes, SubSeq(bs, 2049, Len(bs)))
    [] OTHER -> TRUE
Report == vVerdict # "" => PrintT("@@" \o ToJson([c |-> vCase, v |-> vVerdict, stage |-> vStage, err |-> asm.err]))
=============================================================================
