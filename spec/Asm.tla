-------------------------------- MODULE Asm --------------------------------
(* The assembler as a state machine over a record                            *)
(*   cfg    configuration (constant): notation table nt, big, fillv, cs,      *)
(*          insts (instruction table), cpu, files, plat                       *)
(*   bytes  output so far            org, oend, cnt  origin, region end,      *)
(*          bytes since the origin (numbers are BigNum)                       *)
(*   labels name -> address          linfo  name -> [base, sec], lorder       *)
(*   fix    pending label references, in the order they were made             *)
(*   defs   defines    macros  name -> [args, body]   rec  open macro or ""   *)
(*   rep    <<>> or <<count, start, reserved ram>> of the open repeat block   *)
(*   secs   sections (sequence)  cursec  name or ""   exports                 *)
(*   stack  open sources and macro expansions  [kind, stmts, i, file]         *)
(*   phase  "idle", "run", "link", "failed"     err  reason of the failure     *)
(*   at     [line, file, toks] of the statement that failed                   *)
(*   obs    observations made by probe directives                             *)
EXTENDS Literals, Tokenizer, Hardware

EmptyFn == [x \in {} |-> x]
Max3(a, b, c) == Max2(a, Max2(b, c))

InitAsm(cfg) ==
  [cfg |-> cfg, bytes |-> <<>>, org |-> Zero, oend |-> Zero, cnt |-> Zero,
   labels |-> EmptyFn, linfo |-> EmptyFn, lorder |-> <<>>, fix |-> <<>>,
   defs |-> Hardware(cfg.plat) @@ cfg.defines, macros |-> EmptyFn, rec |-> "", rep |-> <<>>,
   secs |-> <<>>, cursec |-> "", exports |-> <<>>, log |-> FALSE,
   stack |-> <<>>, phase |-> "idle", err |-> "",
   at |-> [line |-> 0, file |-> "", toks |-> <<>>, kind |-> ""],
   obs |-> <<>>, pend |-> <<>>, undef |-> <<>>, cart |-> FALSE, image |-> <<>>, calls |-> <<>>]

Pc(A)      == Add(A.org, A.cnt)
Fail(A, e) == IF A.err # "" THEN A ELSE [A EXCEPT !.err = e]
Emit(A, bs) == [A EXCEPT !.bytes = @ \o bs, !.cnt = Add(@, B(Len(bs)))]
Pad(n, v)  == [i \in 1..n |-> v]
TooBig     == 8388608
\* n (a BigNum) fill bytes; a non-positive count emits nothing
EmitPad(A, n, v) == IF ~IsSmall(n) /\ ~n.n THEN Fail(A, "Raw")
                    ELSE IF n.n THEN A
                    ELSE IF ToInt(n) > TooBig THEN Fail(A, "Raw") ELSE Emit(A, Pad(ToInt(n), v))
Key(A, s)  == IF A.cfg.cs THEN s ELSE Up(s)
Parse(A, tok, bits, signed) == ParseNum(A.cfg.nt, A.labels, tok, bits, signed)
IsQuoted(tok) == First(tok) \in {"\"", "'"}
Inner(tok) == SubSeq(tok, 2, Len(tok) - 1)
Strip(tok) == IF IsQuoted(tok) THEN Inner(tok) ELSE tok

----------------------------------------------------------------------------
(* Fields: how a value is stored.  size bytes at offset off of the            *)
(* instruction, holding a bits-wide value, possibly in bit range rng = <<hi,lo>> *)
Order(A, bs) == IF A.cfg.big THEN Reverse(bs) ELSE bs      \* bs: least significant first
OrAt(bytes, at, bs) ==                                     \* or bs into bytes from 0-based at on
  [i \in 1..Len(bytes) |-> IF i > at /\ i <= at + Len(bs) THEN OrB(bytes[i], bs[i - at]) ELSE bytes[i]]

PackRange(rng, v) ==       \* value placed in a bit range (two's complement), or error
  LET w == rng[1] - rng[2] + 1
  IN IF w < 1 THEN Err("InvalidBitRange")
     ELSE IF v.n /\ ~InSigned(v, w) THEN Err("InvalidBitRange")
     ELSE IF ~v.n /\ ~InUnsigned(v, w) THEN Err("InvalidBitRange")
     ELSE Num(Shl(LowBits(v, w), rng[2]), TRUE)

Filter(f, v) == CASE f = "" -> v
                  [] f = "shr1" -> Shr(v, 1)
                  [] f = "shr2" -> Shr(v, 2)
                  [] f = "up4" -> Shr(Add(v, B(2)), 2)
                  [] f = "shr8" -> Shr(v, 8)
                  [] f = "shr12" -> Shr(v, 12)
                  [] f = "shr16" -> Shr(v, 16)
                  [] f = "shr1and11" -> LowBits(Shr(v, 1), 11)
                  [] f = "and16" -> LowBits(v, 16)
                  [] f = "shr2low26" -> LowBits(Shr(v, 2), 26)
                  [] f = "neg" -> Neg(v)
                  [] f = "inc" -> Add(v, B(1))

NoRange == <<>>
\* a label reference: idx is the 0-based output position of the field, ins and addr are position and address of the
\* instruction; rel is <<>> or the address the value counts from
Ref(A, tok, fld, rel) == [fld EXCEPT !.rel = rel] @@ [idx |-> Len(A.bytes) + fld.off, label |-> tok, ins |-> Len(A.bytes), addr |-> Pc(A)]
RelOf(r) == IF r.rel = <<>> THEN Zero ELSE r.rel[1]
\* slab: labels too must lie in the signed range; step: the displacement is a multiple of it;
\* region: the upper bits of the address are those of this location; lim: bounds of the value; nz: not zero
Field == [size |-> 1, bits |-> 8, off |-> 0, align |-> 1, rng |-> NoRange, filt |-> "", rel |-> <<>>, signed |-> FALSE, hook |-> "",
          slab |-> FALSE, step |-> 1, region |-> <<>>, lim |-> <<>>, nz |-> FALSE]

\* references to the same field of the same bytes replace each other (first position kept)
AddRef(A, r) ==
  LET k == SelectInSeq(A.fix, LAMBDA x : x.idx = r.idx /\ x.rng = r.rng)
  IN IF k = 0 THEN [A EXCEPT !.fix = Append(@, r)] ELSE [A EXCEPT !.fix[k] = r]

RelBase(A, fld) == IF fld.rel = <<>> THEN <<>> ELSE <<Add(Pc(A), B(fld.rel[1]))>>

\* an operand for a field: [t: "num" literal value | "lab" a reference was added | "err"], plus A
Operand(A, tok, fld) ==
  LET relb == RelBase(A, fld)
      p == Parse(A, tok, fld.bits, fld.signed \/ relb # <<>>)
  IN CASE p.t = "err"  -> [t |-> "err", e |-> p.e, A |-> A, v |-> Zero]
       [] p.t = "num"  -> [t |-> "num", v |-> p.v, A |-> A]
       [] p.t = "none" -> [t |-> "lab", v |-> Zero, A |-> AddRef(A, Ref(A, tok, fld, relb))]

----------------------------------------------------------------------------
(* Substitution of whole words                                                *)
SubstTok(d, tok) ==
  IF tok \in DOMAIN d THEN d[tok]
  ELSE LET flush(a) == a.out \o (IF a.w \in DOMAIN d THEN d[a.w] ELSE a.w)
           step(a, c) == IF c \in WordChar THEN [a EXCEPT !.w = @ \o c]
                         ELSE [out |-> flush(a) \o c, w |-> ""]
       IN flush(FoldLeft(step, [out |-> "", w |-> ""], Chars(tok)))
Subst(toks, d, start) == [i \in 1..Len(toks) |-> IF i < start THEN toks[i] ELSE SubstTok(d, toks[i])]

----------------------------------------------------------------------------
(* Labels                                                                      *)
DefineLabel(A, st) ==
  IF A.rec # "" THEN Fail(A, "LabelNotAllowedInMacro")
  ELSE IF st.toks = <<>> THEN Fail(A, "Raw")
  ELSE LET n == st.toks[1] IN
    IF n \in DOMAIN A.labels THEN Fail(A, "LabelAlreadyDefined")
    ELSE IF ~IsWord(n) THEN Fail(A, "InvalidLabel")
    ELSE LET p == Parse(A, n, 64, FALSE) IN
      IF p.t = "err" THEN Fail(A, p.e)
      ELSE IF p.t = "num" THEN Fail(A, "InvalidLabel")
      ELSE [A EXCEPT !.labels = @ @@ (n :> Pc(A)), !.lorder = Append(@, n),
                     !.linfo = @ @@ (n :> [base |-> A.cnt, sec |-> A.cursec])]

----------------------------------------------------------------------------
(* Origins and regions: [org .. oend] is a bounded region if oend > 0          *)
SetOrg(A, start, end) ==
  LET pos == Pc(A)
      B0  == [A EXCEPT !.org = start, !.oend = end, !.cnt = Zero]
      raw(n) == IF n.n THEN B0 ELSE IF ~IsSmall(n) \/ ToInt(n) > TooBig THEN Fail(A, "Raw")
                ELSE [B0 EXCEPT !.bytes = @ \o Pad(ToInt(n), A.cfg.fillv)]
  IN IF ~end.n /\ end # Zero /\ Lt(end, start) THEN Fail(A, "AddressOverlap")
     ELSE IF A.oend = Zero THEN B0
     ELSE IF Lt(start, pos) THEN Fail(A, "AddressOverlap")
     ELSE IF Lt(A.oend, start) THEN raw(Sub(Add(A.oend, B(1)), pos))     \* pad to the end
     ELSE IF Lt(A.org, start) THEN raw(Sub(start, pos))                   \* pad to the new origin
     ELSE Fail(A, "AddressOverlap")

\* end of a source text: pad the open region, close the open section
CloseSection(A) ==
  IF A.cursec = "" THEN A
  ELSE LET k == SelectInSeq(A.secs, LAMBDA x : x.name = A.cursec)
       IN [A EXCEPT !.secs[k].size = Len(A.bytes) - A.secs[k].off, !.secs[k].end = Pc(A)]
EndSource(A) ==
  LET P == IF A.oend # Zero /\ Le(Pc(A), A.oend)
           THEN EmitPad(A, Sub(Add(A.oend, B(1)), Pc(A)), A.cfg.fillv) ELSE A
  IN CloseSection(P)

----------------------------------------------------------------------------
(* Directives; each takes the state and the tokens                             *)
BadArgs(A) == Fail(A, "InvalidArgumentsForDirective")
Need(A, tok, bits) == LET p == Parse(A, tok, bits, FALSE)
                      IN IF p.t = "none" THEN Err("InvalidArgumentsForDirective") ELSE p

DirOrg(A, t) ==
  IF Len(t) \notin {2, 3} THEN BadArgs(A)
  ELSE LET a == Need(A, t[2], 64) IN
    IF a.t = "err" THEN Fail(A, a.e)
    ELSE IF Len(t) = 2 THEN SetOrg(A, a.v, Zero)
    ELSE LET b == Need(A, t[3], 64) IN IF b.t = "err" THEN Fail(A, b.e) ELSE SetOrg(A, a.v, b.v)

DirDefine(A, t) == IF Len(t) # 3 THEN BadArgs(A) ELSE [A EXCEPT !.defs = (t[2] :> t[3]) @@ @]

Utf16(s) == <<255, 254>> \o FlattenSeq([i \in 1..Len(s) |-> LET n == CodeOf[ChAt(s, i)] IN <<n % 256, n \div 256>>])
Utf32(s) == <<255, 254, 0, 0>> \o FlattenSeq([i \in 1..Len(s) |-> LET n == CodeOf[ChAt(s, i)] IN <<n % 256, n \div 256, 0, 0>>])

\* one element of .db/.dw/.dd of w bytes
DataElem(A, tok, w) ==
  IF A.err # "" THEN A
  ELSE IF IsQuoted(tok)
    THEN IF w = 1 /\ ~IsAscii(Inner(tok)) THEN Fail(A, "Raw")
         ELSE Emit(A, CASE w = 1 -> Codes(Inner(tok)) [] w = 2 -> Utf16(Inner(tok)) [] w = 4 -> Utf32(Inner(tok)))
  ELSE LET o == Operand(A, tok, [Field EXCEPT !.size = w, !.bits = 8 * w])
       IN IF o.t = "err" THEN Fail(A, o.e) ELSE Emit(o.A, Order(A, BytesOf(o.v, w)))
DirData(A, t, w) == FoldLeft(LAMBDA a, tok : DataElem(a, tok, w), A, Tail(t))

\* decimal text
RECURSIVE BigDec(_)
BigDec(v) == IF v.n THEN "-" \o BigDec(Neg(v))
             ELSE IF Lt(v, B(10)) THEN CharOf[48 + ToInt(v)]
             ELSE BigDec(FloorDiv(v, B(10))) \o CharOf[48 + ToInt(Mod(v, B(10)))]
RECURSIVE ZPad(_, _)
ZPad(s, n) == IF Len(s) >= n THEN s ELSE ZPad("0" \o s, n)
AsciiElem(A, tok, w) ==
  IF A.err # "" THEN A
  ELSE IF IsQuoted(tok)
    THEN IF w = 2 THEN Fail(A, "Raw")
         ELSE LET r == ReadInt(Inner(tok), 10) IN IF r.ok THEN Emit(A, Codes(BigDec(r.v))) ELSE Fail(A, "Raw")
  ELSE LET p == Parse(A, tok, 8 * w, FALSE)
           n == IF w = 1 THEN 3 ELSE 5
       IN IF p.t = "err" THEN Fail(A, p.e)
          ELSE IF p.t = "num" THEN Emit(A, Codes(BigDec(p.v)))
          ELSE Emit(AddRef(A, Ref(A, tok,
                        [Field EXCEPT !.size = w, !.bits = 8 * w, !.hook = IF w = 1 THEN "dec3" ELSE "dec5"], <<>>)),
                    Pad(n, 0))
DirAscii(A, t, w, z) == LET R == FoldLeft(LAMBDA a, tok : AsciiElem(a, tok, w), A, Tail(t))
                        IN IF z /\ R.err = "" THEN Emit(R, <<0>>) ELSE R

FillArg(A, t, i) == IF Len(t) < i THEN Num(B(A.cfg.fillv), TRUE) ELSE Need(A, t[i], 8)
DirFill(A, t) ==
  IF Len(t) \notin {2, 3} THEN BadArgs(A)
  ELSE LET n == Need(A, t[2], 64) IN
    IF n.t = "err" THEN Fail(A, n.e)
    ELSE LET v == FillArg(A, t, 3) IN IF v.t = "err" THEN Fail(A, v.e) ELSE EmitPad(A, n.v, ToInt(v.v))
\* goto: to an address; upto: to a distance from the origin
DirMove(A, t, here) ==
  IF Len(t) \notin {2, 3} THEN BadArgs(A)
  ELSE LET n == Need(A, t[2], 64) IN
    IF n.t = "err" THEN Fail(A, n.e)
    ELSE IF Lt(n.v, here) THEN Fail(A, "AddressOverlap")
    ELSE LET v == FillArg(A, t, 3) IN IF v.t = "err" THEN Fail(A, v.e) ELSE EmitPad(A, Sub(n.v, here), ToInt(v.v))
DirRam(A, t) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET n == Need(A, t[2], 64) IN
    IF n.t = "err" THEN Fail(A, n.e) ELSE IF n.v = Zero THEN BadArgs(A)
    ELSE [A EXCEPT !.cnt = Add(@, n.v), !.rep = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![3] = Add(@, n.v)]]
DirAlign(A, t) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET n == Need(A, t[2], 64) IN
    IF n.t = "err" THEN Fail(A, n.e) ELSE IF n.v = Zero THEN Fail(A, "Raw")
    ELSE LET m == Mod(Pc(A), n.v) IN IF m = Zero THEN A ELSE EmitPad(A, Sub(n.v, m), A.cfg.fillv)

DirLog(A, t) == IF Len(t) = 1 \/ Up(t[2]) = "ON" THEN [A EXCEPT !.log = TRUE]
                ELSE IF Up(t[2]) = "OFF" THEN [A EXCEPT !.log = FALSE] ELSE BadArgs(A)

DirMacro(A, t) ==
  IF A.rec # "" THEN Fail(A, "UnsupportedNestedMacro")
  ELSE IF Len(t) < 2 THEN Fail(A, "Raw")
  ELSE [A EXCEPT !.rec = Key(A, t[2]),
                 !.macros = (Key(A, t[2]) :> [args |-> SubSeq(t, 3, Len(t)), body |-> <<>>]) @@ @]
DirEndMacro(A) == IF A.rec = "" THEN Fail(A, "NotInMacroRecordingMode") ELSE [A EXCEPT !.rec = ""]

DirRepeat(A, t) ==
  IF A.rep # <<>> THEN Fail(A, "UnsupportedNestedRepeat")
  ELSE IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET n == Need(A, t[2], 64) IN
    IF n.t = "err" THEN Fail(A, n.e) ELSE IF n.v = Zero THEN BadArgs(A)
    ELSE IF ~IsSmall(n.v) THEN [A EXCEPT !.rep = <<TooBig, Len(A.bytes), Zero>>]
    ELSE [A EXCEPT !.rep = <<ToInt(n.v), Len(A.bytes), Zero>>]
\* one more copy of the block: its bytes and its references, displaced by d bytes
\* and by p in the location counter (the bytes and the ram the block reserves)
Copies(A, blob, refs, ram, k) ==
  LET w == Add(B(Len(blob)), ram) IN
  FoldLeft(LAMBDA a, i :
    LET d == i * Len(blob)
        q == Mul(B(i), w)
        R == FoldLeft(LAMBDA x, r : AddRef(x, [r EXCEPT !.idx = @ + d, !.ins = @ + d, !.addr = Add(@, q),
                                                        !.rel = IF @ = <<>> THEN @ ELSE <<Add(@[1], q)>>]), a, refs)
        E == Emit(R, blob)
    IN [E EXCEPT !.cnt = Add(@, ram)], A, [i \in 1..k |-> i])
DirEndRepeat(A) ==
  IF A.rep = <<>> THEN Fail(A, "NotInRepeatMode")
  ELSE LET blob == SubSeq(A.bytes, A.rep[2] + 1, Len(A.bytes))
           refs == SelectSeq(A.fix, LAMBDA r : r.idx >= A.rep[2])
           A1   == [A EXCEPT !.rep = <<>>]
       IN IF A.rep[1] > TooBig \div Max2(1, Len(blob)) THEN (IF blob = <<>> /\ A.rep[3] = Zero THEN A1 ELSE Fail(A, "Raw"))
          ELSE Copies(A1, blob, refs, A.rep[3], A.rep[1] - 1)

DirSection(A, t) ==
  IF Len(t) \notin {3, 4} THEN BadArgs(A)
  ELSE LET n == Strip(t[2]) IN
    IF \E i \in 1..Len(A.secs) : A.secs[i].name = n THEN Fail(A, "SectionAlreadyDefined")
    ELSE IF \E i \in 1..Len(t[3]) : ChAt(t[3], i) \notin {"R", "W", "X", "E"} THEN BadArgs(A)
    ELSE LET a == IF Len(t) = 4 THEN Need(A, t[4], 64) ELSE None
             O == IF a.t = "num" THEN SetOrg(A, a.v, Zero) ELSE A
             C == CloseSection(O)
         IN IF a.t = "err" THEN Fail(A, a.e)
            ELSE IF O.err # "" THEN O
            ELSE [C EXCEPT !.cursec = n,
                           !.secs = Append(@, [name |-> n, start |-> Pc(C), off |-> Len(C.bytes), perm |-> t[3],
                                               size |-> 0, end |-> Pc(C)])]
DirExport(A, t) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE IF \E i \in 1..Len(A.exports) : A.exports[i] = Strip(t[2]) THEN Fail(A, "SymbolAlreadyExported")
  ELSE [A EXCEPT !.exports = Append(@, Strip(t[2]))]

\* files: name -> [t: "text", src] | [t: "bin", bytes] | [t: "vals", vals: sequence of strings]
FileOf(A, t) == IF Strip(t[2]) \in DOMAIN A.cfg.files THEN A.cfg.files[Strip(t[2])] ELSE [t |-> "missing"]
Push(A, kind, stmts, file) == [A EXCEPT !.stack = Append(@, [kind |-> kind, stmts |-> stmts, i |-> 1, file |-> file])]
DirInclude(A, t) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET f == FileOf(A, t) IN
    IF f.t # "text" THEN Fail(A, "Raw")
    ELSE LET l == Lex(f.src) IN IF l.err # "" THEN Fail(A, "Raw") ELSE Push(A, "include", l.out, Strip(t[2]))
DirIncbin(A, t) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET f == FileOf(A, t) IN IF f.t # "bin" THEN Fail(A, "Raw") ELSE Emit(A, f.bytes)
\* values of w bytes (always little endian), all or nothing
ValElem(A, acc, txt, w) ==
  IF acc.e # "" THEN acc
  ELSE LET p == Parse(A, txt, 8 * w, FALSE)
       IN IF p.t = "err" THEN [acc EXCEPT !.e = p.e]
          ELSE IF p.t = "none" THEN [acc EXCEPT !.e = "LabelNotAllowed"]
          ELSE [acc EXCEPT !.bs = @ \o BytesOf(p.v, w)]
DirVals(A, t, w, n) ==
  IF Len(t) # n THEN BadArgs(A)
  ELSE LET f == FileOf(A, t) IN
    IF f.t # "vals" THEN Fail(A, "Raw")
    ELSE LET vs == IF n = 3 THEN (IF Strip(t[3]) \in DOMAIN f.keys THEN f.keys[Strip(t[3])] ELSE <<"#missing#">>) ELSE f.vals
             r == FoldLeft(LAMBDA acc, v :
                             IF acc.e # "" THEN acc
                             ELSE IF v = "#missing#" THEN [acc EXCEPT !.e = "Raw"]
                             ELSE IF StartsWith(v, "#int:")     \* JSON integer
                               THEN LET x == ReadInt(From(v, 6), 10).v
                                    IN IF InUnsigned(x, 8) THEN [acc EXCEPT !.bs = Append(@, ToInt(x))]
                                       ELSE [acc EXCEPT !.e = "Raw"]
                             ELSE ValElem(A, acc, v, w), [e |-> "", bs |-> <<>>], vs)
         IN IF r.e # "" THEN Fail(A, r.e) ELSE Emit(A, r.bs)

\* observation point used by the conformance harness (a directive of the test CPU)
DirProbe(A) == [A EXCEPT !.obs = Append(@, <<Pc(A), Len(A.bytes)>>)]

CoreDirs == {"MACRO", "ENDMACRO", "ORG", "INCLUDE", "INCBIN", "INCCSV", "INCCSV_LE16", "INCJSON", "DEFINE",
  "DB", "BYTE", "DW", "WORD", "DD", "DL", "DWORD", "DB_TO_ASCII", "DW_TO_ASCII", "DB_TO_ASCIIZ", "DW_TO_ASCIIZ",
  "FILL", "RAM", "LOG", "ALIGN", "REPEAT", "ENDREPEAT", "GOTO", "UPTO", "SECTION", "EXPORT", "PROBE"}

\* canonical name of the directive a statement invokes
DirKey(A, st) == LET k == From(st.toks[1], 2)
                 IN IF A.cfg.cs THEN (IF Up(k) \in CoreDirs /\ k # Up(k) /\ (\A i \in 1..Len(k) : ChAt(k, i) \notin Upper)
                                      THEN Up(k) ELSE "?" \o k)
                    ELSE Up(k)
\* operands of a directive after defines; the name being defined is not an occurrence
DirToks(A, st) == Subst(st.toks, A.defs, IF DirKey(A, st) = "DEFINE" THEN 3 ELSE 2)

DoDirective(A, key, t) ==
  CASE key = "ORG" -> DirOrg(A, t)           [] key = "DEFINE" -> DirDefine(A, t)
    [] key \in {"DB", "BYTE"} -> DirData(A, t, 1)
    [] key \in {"DW", "WORD"} -> DirData(A, t, 2)
    [] key \in {"DD", "DL", "DWORD"} -> DirData(A, t, 4)
    [] key = "DB_TO_ASCII"  -> DirAscii(A, t, 1, FALSE) [] key = "DB_TO_ASCIIZ" -> DirAscii(A, t, 1, TRUE)
    [] key = "DW_TO_ASCII"  -> DirAscii(A, t, 2, FALSE) [] key = "DW_TO_ASCIIZ" -> DirAscii(A, t, 2, TRUE)
    [] key = "FILL" -> DirFill(A, t)         [] key = "GOTO" -> DirMove(A, t, Pc(A))
    [] key = "UPTO" -> DirMove(A, t, A.cnt)  [] key = "RAM" -> DirRam(A, t)
    [] key = "ALIGN" -> DirAlign(A, t)       [] key = "LOG" -> DirLog(A, t)
    [] key = "MACRO" -> DirMacro(A, t)       [] key = "ENDMACRO" -> DirEndMacro(A)
    [] key = "REPEAT" -> DirRepeat(A, t)     [] key = "ENDREPEAT" -> DirEndRepeat(A)
    [] key = "SECTION" -> DirSection(A, t)   [] key = "EXPORT" -> DirExport(A, t)
    [] key = "INCLUDE" -> DirInclude(A, t)   [] key = "INCBIN" -> DirIncbin(A, t)
    [] key = "INCCSV" -> DirVals(A, t, 1, 2) [] key = "INCCSV_LE16" -> DirVals(A, t, 2, 2)
    [] key = "INCJSON" -> DirVals(A, t, 1, 3)
    [] key = "PROBE" -> DirProbe(A)
    [] OTHER -> Fail(A, "UnknownDirective")

----------------------------------------------------------------------------
(* Instructions of the test CPU: cfg.insts[name] is                            *)
(*   [t |-> "const", b |-> bytes]         no operands                          *)
(*   [t |-> "field", b |-> bytes, f |-> fields]  one operand per field         *)
(*   [t |-> "none"] / [t |-> "raise"] / [t |-> "boom"]   rejecting instructions *)
StoreLit(A, bytes, fld, v) ==
  LET w == fld.size
      x == IF fld.rng = NoRange THEN v
           ELSE Shl(LowBits(v, fld.rng[1] - fld.rng[2] + 1), fld.rng[2])
  IN OrAt(bytes, fld.off, Order(A, BytesOf(x, w)))

RECURSIVE Fields(_, _, _, _, _)
Fields(A, fs, toks, i, bytes) ==
  IF i > Len(fs) THEN Emit(A, bytes)
  ELSE LET o == Operand(A, toks[i + 1], fs[i] @@ Field)
       IN IF o.t = "err" THEN Fail(A, o.e)
          ELSE Fields(o.A, fs, toks, i + 1, IF o.t = "num" THEN StoreLit(A, bytes, fs[i], o.v) ELSE bytes)

\* raw errors inside an instruction are reported as InvalidInstruction
InsErr(e) == IF e = "Raw" THEN "InvalidInstruction" ELSE e
DoInst(A, d, toks) ==
  CASE d.t = "const" -> IF Len(toks) # 1 THEN Fail(A, "InvalidOpCodeArguments") ELSE Emit(A, d.b)
    [] d.t = "field" -> IF Len(toks) # 1 + Len(d.f) THEN Fail(A, "InvalidInstruction")
                        ELSE LET R == Fields(A, d.f, toks, 1, d.b)
                             IN [R EXCEPT !.err = InsErr(@)]
    [] d.t = "none"  -> Fail(A, "InvalidInstruction")
    [] d.t = "boom"  -> Fail(A, "InvalidInstruction")
    [] d.t = "raise" -> Fail(A, "UnknownRegister")

CallMacro(A, toks, st) ==
  LET m == A.macros[Key(A, toks[1])]
      n == Len(m.args)
  IN IF m.body = <<>> THEN A
     ELSE IF Len(toks) - 1 < n THEN Fail(A, "Raw")
     ELSE LET d == [p \in {m.args[i] : i \in 1..n} |->
                      toks[1 + (CHOOSE i \in 1..n : m.args[i] = p /\ \A j \in 1..n : m.args[j] = p => j <= i)]]
          IN Push(A, "macro", [i \in 1..Len(m.body) |-> [m.body[i] EXCEPT !.toks = Subst(@, d, 1)]],
                  A.stack[Len(A.stack)].file)

----------------------------------------------------------------------------
(* Linking                                                                     *)
\* one label reference
Reaches(r, v) ==
  /\ r.slab => InSigned(v, r.bits)
  /\ r.step = 1 \/ Mod(v, B(r.step)) = Zero
  /\ r.lim = <<>> \/ (Le(B(r.lim[1]), v) /\ Le(v, B(r.lim[2])))
  /\ ~r.nz \/ v # Zero
  /\ r.region = <<>> \/ Shr(v, r.region[1]) = r.region[2]
\* linker objects that can relocate take the references to undefined symbols, their fields are zero
Relocates(A) == "undef" \in DOMAIN A.cfg
Resolve(A0, r) ==
  LET abs0 == LabelExpr(A0.cfg.nt, A0.labels, r.label, Zero)
      unk  == abs0.t = "none" /\ Relocates(A0)
      A   == IF unk THEN [A0 EXCEPT !.undef = Append(@, <<r.idx, r.label>>)] ELSE A0
      abs == IF unk THEN Num(Zero, TRUE) ELSE abs0
      val == IF unk THEN Num(Zero, TRUE) ELSE LabelExpr(A.cfg.nt, A.labels, r.label, RelOf(r))
      rel == r.rel # <<>>
  IN IF abs.t = "err" THEN Fail(A, abs.e)
     ELSE IF abs.t = "none" THEN Fail(A, "UnknownLabel")
     ELSE IF val.t = "err" THEN Fail(A, val.e)
     ELSE IF Mod(abs.v, B(r.align)) # Zero THEN Fail(A, "AlignmentError")
     ELSE IF ~rel /\ val.v.n THEN Fail(A, "OnlyForwardAddressesAllowed")
     ELSE IF ~InLabelRange(val.v, r.bits, rel) THEN Fail(A, "NotInBitRange")
     ELSE IF ~Reaches(r, val.v) THEN Fail(A, "NotInBitRange")
     ELSE IF r.hook # ""
       THEN LET n == IF r.hook = "dec3" THEN 3 ELSE 5
                s == Codes(ZPad(BigDec(val.v), n))
            IN [A EXCEPT !.bytes = [i \in 1..Len(@) |-> IF i > r.idx /\ i <= r.idx + n THEN s[i - r.idx] ELSE @[i]]]
     ELSE LET f == Filter(r.filt, val.v)
              p == IF r.rng = NoRange THEN Num(f, TRUE) ELSE PackRange(r.rng, f)
          IN IF p.t = "err" THEN Fail(A, p.e)
             ELSE IF r.idx + r.size > Len(A.bytes) THEN Fail(A, "Raw")
             ELSE [A EXCEPT !.bytes = OrAt(@, r.idx, Order(A, BytesOf(p.v, r.size)))]
=============================================================================
