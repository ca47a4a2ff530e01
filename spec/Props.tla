------------------------------- MODULE Props -------------------------------
(* Properties of the design, checked by TLC in every state of every explored  *)
(* behaviour.  The ghost remembers what the state alone does not show.         *)
EXTENDS Session, Reach

Ghost0 == [linked |-> FALSE, nlinks |-> 0, unlinked |-> <<>>, endpc |-> Zero, moved |-> FALSE]
GhostStep(g, a, b) == [g EXCEPT !.moved = @ \/ a.org # b.org]

\* C03: references lie inside the output
RefsInside == asm.err = "" /\ asm.rec = "" => \A i \in 1..Len(asm.fix) : asm.fix[i].idx + asm.fix[i].size <= Len(asm.bytes)
\* C02: a label address never changes, output is only appended to until linking
LabelsStable == \A l \in DOMAIN asm.labels : l \in DOMAIN asm'.labels /\ asm'.labels[l] = asm.labels[l]
Appends == asm.phase = "run" => IF asm.cart THEN TRUE ELSE IsPrefix(asm.bytes, asm'.bytes)
\* C19/C20: a header field directive writes its own field only, everything else still only appends
CurDir(A) == IF HasStmt(A) /\ Class(A) = "dir" THEN DirKey(A, Stmt(A)) ELSE ""
FieldsOf(A) == IF A.cfg.plat = "gb" THEN GbField ELSE NesField
HeaderStep == asm.phase = "run" /\ asm.cart =>
  LET k == CurDir(asm) IN
  IF k \in DOMAIN FieldsOf(asm)
    THEN LET f == FieldsOf(asm)[k]
         IN Len(asm'.bytes) = Len(asm.bytes) /\ Pc(asm') = Pc(asm)
            /\ \A i \in 1..Len(asm.bytes) : asm.bytes[i] # asm'.bytes[i] => i > f[1] /\ i <= f[1] + f[2]
    ELSE IsPrefix(asm.bytes, asm'.bytes)
AppendOnly == Appends /\ HeaderStep
\* C21: the pixels the hardware shows are those of the image, and there is nothing else
TileStep == asm.phase = "run" /\ CurDir(asm) \in {"TILES", "CHR_PATTERN_TABLE"} /\ asm'.err = "" =>
  LET planes == IF asm.cfg.plat = "sms" THEN 4 ELSE 2
      planar == asm.cfg.plat = "nes"
      f == FileOf(asm, DirToks(asm, Stmt(asm)))
  IN /\ Len(asm'.bytes) = Len(asm.bytes) + (f.w * f.h * planes) \div 8
     /\ \A x \in 0..(f.w - 1), y \in 0..(f.h - 1) : Shown(asm'.bytes, Len(asm.bytes), f.w, planes, planar, x, y) = Pixel(f, x, y)
\* C19: a linked Game Boy image passes the checks of the boot code
GbChecks == asm.phase = "idle" /\ asm.err = "" /\ asm.image # <<>> /\ asm.cfg.plat = "gb" => GbValid(asm.image)
\* C02: within an origin the counter advances at least by what is emitted, and by exactly that unless RAM is reserved
Reserving(A) == HasStmt(A) /\ Class(A) = "dir" /\ DirKey(A, Stmt(A)) = "RAM"
CounterStep  == asm.phase = "run" /\ asm'.err = "" /\ asm.org = asm'.org /\ asm.oend = asm'.oend
                 /\ ~(HasStmt(asm) /\ Class(asm) = "dir" /\ DirKey(asm, Stmt(asm)) \in {"ORG", "SECTION"})
                 => LET grown == Sub(Pc(asm'), Pc(asm)) IN
                    IF Reserving(asm) THEN Len(asm'.bytes) = Len(asm.bytes) /\ Le(Zero, grown)
                    ELSE IF CurDir(asm) = "ENDREPEAT" /\ asm.rep # <<>>     \* every copy reserves the ram of the block
                      THEN grown = Add(B(Len(asm'.bytes) - Len(asm.bytes)), Mul(B(asm.rep[1] - 1), asm.rep[3]))
                    ELSE grown = B(Len(asm'.bytes) - Len(asm.bytes))
\* C03: linking one reference changes nothing outside its field and keeps the length
LinkLocal == asm.phase = "link" /\ asm.pend # <<>> /\ asm'.err = "" =>
  LET r == Head(asm.pend) w == CASE r.hook = "dec3" -> 3 [] r.hook = "dec5" -> 5 [] OTHER -> r.size IN
  /\ Len(asm'.bytes) = Len(asm.bytes)
  /\ \A i \in 1..Len(asm.bytes) : (i <= r.idx \/ i > r.idx + w) => asm'.bytes[i] = asm.bytes[i]
\* C04: nothing is linked with a name that is not defined
NoDangling == asm.phase = "idle" /\ asm.err = "" /\ asm.image # <<>> =>
  \A i \in 1..Len(asm.fix) : Split(asm.fix[i].label).term \in DOMAIN asm.labels
\* C05/C03: after linking every plain field reads back as the label value (fields start as zero)
ReadBack == asm.phase = "idle" /\ asm.err = "" /\ asm.image # <<>> =>
  \A i \in 1..Len(asm.fix) : LET r == asm.fix[i] IN
    (r.hook = "" /\ r.rng = NoRange /\ r.filt = "" /\ \A j \in 1..Len(asm.fix) : j = i \/ asm.fix[j].idx + asm.fix[j].size <= r.idx
                                                   \/ asm.fix[j].idx >= r.idx + r.size)
    => LET v == LabelExpr(asm.cfg.nt, asm.labels, r.label, RelOf(r)).v
           f == UOfBytes(Order(asm, SubSeq(asm.image, r.idx + 1, r.idx + r.size)))
       IN v = f \/ (r.rel # <<>> /\ Add(v, Pow2(8 * r.size)) = f) \/ asm.cfg.dirty
\* C08: a bounded region is complete when the source ends
RegionFull == asm.phase = "idle" /\ asm.err = "" /\ asm.oend # Zero => Lt(asm.oend, Pc(asm))
\* C08: pad never shortens, errors are final
Final == asm.phase = "failed" => asm.err # ""
=============================================================================
