--------------------------------- MODULE Elf ---------------------------------
(* What a relocatable ELF object says.  ElfOk(A, d, img) holds if the image img  *)
(* is a well-formed object of description d = [bits, big, type, machine, align]   *)
(* that describes exactly the sections and exported labels of assembler state A.  *)
EXTENDS Asm

Word(d)      == d.bits \div 8                                   \* size of addresses and offsets
Raw(img, at, n)    == SubSeq(img, at + 1, at + n)
InFile(img, at, n) == at >= 0 /\ n >= 0 /\ at + n <= Len(img)
Num0(d, img, at, n) == UOfBytes(IF d.big THEN Reverse(Raw(img, at, n)) ELSE Raw(img, at, n))
Half(d, img, at) == ToInt(Num0(d, img, at, 2))
U32(d, img, at)  == Num0(d, img, at, 4)
Addr(d, img, at) == Num0(d, img, at, Word(d))
Small(v)     == IF IsSmall(v) THEN ToInt(v) ELSE -1             \* offsets and sizes of files are small

EhSize(d) == IF d.bits = 64 THEN 64 ELSE 52
ShSize(d) == IF d.bits = 64 THEN 64 ELSE 40
SymSize(d) == IF d.bits = 64 THEN 24 ELSE 16
ShOff(d, img)  == Small(Addr(d, img, 24 + 2 * Word(d)))
AfterOff(d)    == 24 + 3 * Word(d)                              \* flags, ehsize, phentsize, ...
ShNum(d, img)  == Half(d, img, AfterOff(d) + 12)
ShStr(d, img)  == Half(d, img, AfterOff(d) + 14)

HeaderOk(d, img) ==
  /\ Len(img) >= EhSize(d)
  /\ Raw(img, 0, 4) = <<127, 69, 76, 70>>
  /\ Raw(img, 4, 3) = <<IF d.bits = 64 THEN 2 ELSE 1, IF d.big THEN 2 ELSE 1, 1>>
  /\ \A i \in 8..16 : img[i] = 0
  /\ Half(d, img, 16) = d.type /\ Half(d, img, 18) = d.machine /\ U32(d, img, 20) = B(1)
  /\ Addr(d, img, 24) = Zero                                    \* relocatable: no entry point
  /\ Half(d, img, AfterOff(d) + 4) = EhSize(d)
  /\ Half(d, img, AfterOff(d) + 8) = 0                          \* no program headers
  /\ Addr(d, img, 24 + Word(d)) = Zero /\ U32(d, img, 24 + 3 * Word(d)) = Zero
  /\ Half(d, img, AfterOff(d) + 10) = ShSize(d)
  /\ ShNum(d, img) > 0 /\ InFile(img, ShOff(d, img), ShNum(d, img) * ShSize(d))
  /\ ShStr(d, img) < ShNum(d, img)

\* section header k (0-based)
Sh(d, img, k) ==
  LET o == ShOff(d, img) + k * ShSize(d)
      w == Word(d)
  IN [name |-> Small(U32(d, img, o)), type |-> Small(U32(d, img, o + 4)), flags |-> Addr(d, img, o + 8),
      addr |-> Addr(d, img, o + 8 + w), off |-> Small(Addr(d, img, o + 8 + 2 * w)), size |-> Small(Addr(d, img, o + 8 + 3 * w)),
      link |-> Small(U32(d, img, o + 8 + 4 * w)), info |-> Small(U32(d, img, o + 12 + 4 * w)),
      align |-> Addr(d, img, o + 16 + 4 * w), entsize |-> Small(Addr(d, img, o + 16 + 5 * w))]
NoBits == 8
ShInFile(img, s) == s.type \in {0, NoBits} \/ InFile(img, s.off, s.size)
\* text at offset i of string table s
RECURSIVE CStr(_, _)
CStr(img, at) == IF at >= Len(img) THEN "?" ELSE IF img[at + 1] = 0 THEN "" ELSE IF img[at + 1] \notin DOMAIN CharOf THEN "?" ELSE CharOf[img[at + 1]] \o CStr(img, at + 1)
StrAt(img, s, i) == IF s.type # 3 \/ i < 0 \/ i >= s.size \/ img[s.off + s.size] # 0 THEN "?" ELSE CStr(img, s.off + i)

\* contents do not overlap each other, nor the headers
Span(s) == IF s.type \in {0, NoBits} THEN <<0, 0>> ELSE <<s.off, s.off + s.size>>
Apart(a, b) == a[1] = a[2] \/ b[1] = b[2] \/ a[2] <= b[1] \/ b[2] <= a[1]
Disjoint(d, img, all, n) ==
  LET hd == {<<0, EhSize(d)>>, <<ShOff(d, img), ShOff(d, img) + n * ShSize(d)>>}
  IN /\ \A k \in 0..(n - 1) : \A h \in hd : Apart(Span(all[k]), h)
     /\ \A k, l \in 0..(n - 1) : k = l \/ Apart(Span(all[k]), Span(all[l]))

Perms(p) == LET has(c) == \E i \in 1..Len(p) : ChAt(p, i) = c
            IN B((IF has("R") THEN 2 ELSE 0) + (IF has("W") THEN 1 ELSE 0) + (IF has("X") \/ has("E") THEN 4 ELSE 0))

SectionOk(A, d, img, s, x, str) ==      \* header s describes section x of the source
  /\ StrAt(img, str, s.name) = x.name
  /\ s.type = (IF x.size > 0 THEN 1 ELSE NoBits)
  /\ s.link = 0 /\ s.info = 0 /\ s.entsize = 0
  /\ s.addr = x.start /\ s.flags = Perms(x.perm) /\ s.size = x.size /\ s.align = B(d.align)
  /\ (x.size > 0 => Raw(img, s.off, s.size) = SubSeq(A.bytes, x.off + 1, x.off + x.size))

Exported(A) == SelectSeq(A.lorder, LAMBDA l : \E i \in 1..Len(A.exports) : A.exports[i] = l)
SecOf(A, l)  == SelectInSeq(A.secs, LAMBDA x : x.name = A.linfo[l].sec)

Clause(A, d, img) ==
  IF ~HeaderOk(d, img) THEN "header"
  ELSE LET n   == ShNum(d, img)
           all == [k \in 0..(n - 1) |-> Sh(d, img, k)]
           src == SelectSeq([k \in 1..n |-> k - 1], LAMBDA k : all[k].type \in {1, NoBits})
           tab == SelectSeq([k \in 1..n |-> k - 1], LAMBDA k : all[k].type = 2)
           str == all[ShStr(d, img)]
       IN IF \E k \in 0..(n - 1) : ~ShInFile(img, all[k]) THEN "section outside of the file"
          ELSE IF ~Disjoint(d, img, all, n) THEN "overlapping contents"
          ELSE IF StrAt(img, str, str.name) # ".shstrtab" THEN "name of the section names"
          ELSE IF \E i \in 1..ShSize(d) : Raw(img, ShOff(d, img), ShSize(d))[i] # 0 THEN "null section"
          ELSE IF Len(src) # Len(A.secs) THEN "number of sections"
          ELSE IF \E i \in 1..Len(src) : ~SectionOk(A, d, img, all[src[i]], A.secs[i], str) THEN "section"
          ELSE IF Len(tab) # 1 THEN "symbol table"
          ELSE LET t    == all[tab[1]]
                   m    == t.size \div SymSize(d)
                   nam  == all[t.link]
                   o(j) == t.off + j * SymSize(d)
                   sym(j) == IF d.bits = 32
                             THEN [name |-> Small(U32(d, img, o(j))), value |-> U32(d, img, o(j) + 4), info |-> img[o(j) + 13], rest |-> <<img[o(j) + 14], U32(d, img, o(j) + 8)>>, shndx |-> Half(d, img, o(j) + 14)]
                             ELSE [name |-> Small(U32(d, img, o(j))), value |-> Num0(d, img, o(j) + 8, 8), info |-> img[o(j) + 5], rest |-> <<img[o(j) + 6], Num0(d, img, o(j) + 16, 8)>>, shndx |-> Half(d, img, o(j) + 6)]
                   exp  == Exported(A)
               IN IF t.entsize # SymSize(d) \/ t.size % SymSize(d) # 0 \/ m < 1 \/ t.link < 0 \/ t.link >= n THEN "symbol table"
                  ELSE IF StrAt(img, str, t.name) # ".symtab" \/ StrAt(img, str, nam.name) # ".strtab" THEN "names of the symbol tables"
                  ELSE IF \E i \in 1..SymSize(d) : img[t.off + i] # 0 THEN "null symbol"
                  ELSE IF t.info # 1 THEN "first global symbol"
                  ELSE IF m - 1 # Len(exp) THEN "number of symbols"
                  ELSE IF \E i \in 1..Len(exp) : ~\E j \in 1..(m - 1) :
                            LET s == sym(j) l == exp[i] x == SecOf(A, l)
                            IN /\ StrAt(img, nam, s.name) = l /\ s.info = 16 /\ s.rest = <<0, Zero>> /\ x > 0
                               /\ s.shndx = src[x] /\ s.value = Sub(A.labels[l], A.secs[x].start) THEN "symbol"
                  ELSE ""

\* what cannot be written down as an object is rejected
ElfErr(A, d) ==
  LET fits(v) == ~v.n /\ InUnsigned(v, d.bits)
      exp == Exported(A)
  IN IF \E i \in 1..Len(A.secs) : ~fits(A.secs[i].start) THEN "Raw"
     ELSE IF \E i \in 1..Len(exp) : SecOf(A, exp[i]) = 0 THEN "Raw"
     ELSE IF \E i \in 1..Len(exp) : ~fits(Sub(A.labels[exp[i]], A.secs[SecOf(A, exp[i])].start)) THEN "Raw"
     ELSE ""
=============================================================================
