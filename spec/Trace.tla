------------------------------- MODULE Trace -------------------------------
(* Conformance of recorded executions.  Each case is a configuration, a list  *)
(* of interface calls and what the real code was seen to do at the return of   *)
(* each call.  The actions of Session are replayed; at every return the       *)
(* recorded observation is compared with the state.  Verdicts are total: a     *)
(* case ends with verdict "ok" or with the name of the clause that failed.     *)
EXTENDS Session, Reach, Json, IOUtils
Data  == TLCEval(JsonDeserialize(IOEnv.CASES))   \* [cfgs, cases]; a case names its configuration by index
Cases == Data.cases
VARIABLES vCase, vPos, vVerdict, vGot, vIssued
tvars == <<asm, vCase, vPos, vVerdict, vGot, vIssued>>

Case == Cases[vCase]
NoGot == [x |-> 0]

TraceInit == /\ vCase \in 1..Len(Cases) /\ vPos = 1 /\ vVerdict = "" /\ vGot = NoGot
             /\ asm = InitAsm(Data.cfgs[Cases[vCase].cfg]) /\ vIssued = <<>>

Judge(clause, g) == vVerdict' = clause /\ vGot' = g
Busy == asm.phase \in {"run", "link"}

\* steps inside a call are not recorded: they are deterministic
Inner1 == vVerdict = "" /\ Busy /\ (StatementStep \/ EndOfSource \/ LinkStep) /\ UNCHANGED <<vCase, vPos, vVerdict, vGot, vIssued>>

\* the observation the model makes at the return of a call
View(A, op) ==
  CASE op.op \in {"asm", "file"} ->
         [err |-> A.err, pc |-> Pc(A), len |-> Len(A.bytes), obs |-> A.obs, at |-> A.at]
    [] op.op = "link" -> [err |-> A.err, bytes |-> A.bytes, calls |-> A.calls]
    [] op.op = "build" -> [err |-> A.err, bytes |-> A.bytes]
    [] op.op = "main" -> [err |-> A.err, bytes |-> A.bytes, calls |-> A.calls]
    [] op.op = "lex" -> LET l == Lex(op.src) IN [err |-> IF l.err # "" THEN "Raw" ELSE "", stmts |-> [i \in 1..Len(l.out) |-> l.out[i] @@ [file |-> op.file]]]
    [] op.op = "addr" -> LET r == LabelExpr(A.cfg.nt, A.labels, op.name, Zero)
                         IN [err |-> IF r.t = "err" THEN r.e ELSE "",
                             known |-> r.t = "num", v |-> IF r.t = "num" THEN r.v ELSE Zero]
    [] op.op = "int" -> LET r == Parse(A, op.tok, op.bits, op.signed)
                         IN [err |-> IF r.t = "err" THEN r.e ELSE "",
                             known |-> r.t = "num", v |-> IF r.t = "num" THEN r.v ELSE Zero]
    [] op.op = "bytes" -> [err |-> "", bytes |-> A.bytes]

\* an unspecific error of the model stands for any error of the code
ErrAgree(m, r) == m = r \/ (m = "Raw" /\ r # "") \/ (m # "" /\ r # "" /\ Case.loose)
\* the error text of a rejected instruction names line, source and tokens of the statement
Has(msg, sub) == sub = "" \/ \E i \in 1..(Len(msg) - Len(sub) + 1) : SubSeq(msg, i, i + Len(sub) - 1) = sub
Edge(msg, i)  == i < 1 \/ i > Len(msg) \/ ChAt(msg, i) \notin Digit
HasNumber(msg, n) == LET d == Dec(n) IN \E i \in 1..(Len(msg) - Len(d) + 1) :
                       SubSeq(msg, i, i + Len(d) - 1) = d /\ Edge(msg, i - 1) /\ Edge(msg, i + Len(d))
Named(at, msg) == at.kind = "ins" =>
  HasNumber(msg, at.line) /\ Has(msg, at.file) /\ \A i \in 1..Len(at.toks) : Has(msg, at.toks[i])
Clause(m, r) ==
  IF ~ErrAgree(m.err, r.err) THEN "error"
  ELSE IF "at" \in DOMAIN m /\ "msg" \in DOMAIN r /\ ~Named(m.at, r.msg) THEN "diagnostic"
  ELSE IF m.err # "" THEN ""
  ELSE IF "stmts" \in DOMAIN m THEN IF m.stmts # r.stmts THEN "statements" ELSE ""
  ELSE IF "calls" \in DOMAIN r /\ m.calls # r.calls THEN "passes"
  ELSE IF "bytes" \in DOMAIN m THEN
         IF Len(m.bytes) # Len(r.bytes) THEN "length" ELSE IF m.bytes # r.bytes THEN "bytes" ELSE ""
  ELSE IF "known" \in DOMAIN m THEN
         IF m.known # r.known THEN "known" ELSE IF m.known /\ m.v # r.v THEN "value" ELSE ""
  ELSE IF m.obs # r.obs THEN "probes"
  ELSE IF m.pc # r.pc THEN "pc"
  ELSE IF m.len # r.len THEN "length" ELSE ""

Op == Case.ops[vPos]
Return ==
  LET m == View(asm, Op)
      r == Op.got
      cl == Clause(m, r)
  IN IF cl # "" THEN Judge(cl, m) /\ UNCHANGED <<asm, vCase, vPos, vIssued>>
     ELSE IF Op.op \in {"link", "build"} /\ m.err = "" /\ asm.cfg.cpu # "" /\ asm.cfg.plat = "" /\ Misses(asm) # {}      \* the bytes are those of the code
       THEN Judge("reach", [refs |-> [i \in Misses(asm) |-> asm.fix[i].label]]) /\ UNCHANGED <<asm, vCase, vPos, vIssued>>
     ELSE IF m.err # "" /\ Op.op \in {"asm", "file"} /\ Case.keep    \* the session goes on after a rejected source
       THEN vPos' = vPos + 1 /\ vIssued' = <<>> /\ asm' = [asm EXCEPT !.err = "", !.phase = "idle", !.stack = <<>>]
            /\ UNCHANGED <<vCase, vVerdict, vGot>>
     ELSE IF m.err # "" /\ Op.op \in {"asm", "file", "link", "build", "main"} THEN Judge("ok", NoGot) /\ UNCHANGED <<asm, vCase, vPos, vIssued>>
     ELSE vPos' = vPos + 1 /\ vIssued' = <<>> /\ UNCHANGED <<asm, vCase, vVerdict, vGot>>

\* vIssued marks that the call of position vPos has been issued
Issue ==
  /\ vIssued' = <<vPos>>
  /\ asm' = CASE Op.op = "asm"  -> CallAssemble(asm, Op.src, Op.file)
            [] Op.op = "build" -> CallAssemble(asm, Op.src, Op.file)
            [] Op.op = "file" -> CallAssembleFile(asm, Op.name)
            [] Op.op = "main" -> CallAssembleFile(asm, Op.names[1])
            [] Op.op = "link" -> CallLink(asm)
            [] OTHER -> asm
  /\ UNCHANGED <<vCase, vPos, vVerdict, vGot>>

\* a build is an assembly and, if it succeeds, a link, observed as one call; the main entry assembles all its sources, then links
Sources == IF Op.op = "build" THEN 1 ELSE IF Op.op = "main" THEN Len(Op.names) ELSE 0
More == /\ vIssued' = Append(vIssued, vPos)
        /\ asm' = (IF Len(vIssued) < Sources THEN CallAssembleFile(asm, Op.names[Len(vIssued) + 1]) ELSE CallLink(asm))
        /\ UNCHANGED <<vCase, vPos, vVerdict, vGot>>
Calls == /\ vVerdict = "" /\ ~Busy /\ vPos <= Len(Case.ops)
         /\ IF vIssued = <<>> THEN Issue ELSE IF Len(vIssued) <= Sources /\ asm.err = "" THEN More ELSE Return
Accept == vVerdict = "" /\ ~Busy /\ vPos > Len(Case.ops) /\ Judge("ok", NoGot) /\ UNCHANGED <<asm, vCase, vPos, vIssued>>

TraceNext == Inner1 \/ Calls \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Report == vVerdict # "" =>
  PrintT("@@" \o (IF vVerdict = "ok" THEN ToJson([c |-> vCase, v |-> vVerdict])
                  ELSE ToJson([c |-> vCase, n |-> vPos, v |-> vVerdict, got |-> vGot])))
=============================================================================
