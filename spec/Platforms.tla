------------------------------ MODULE Platforms ------------------------------
(* What the platforms add to their CPU: cartridge headers, header fields,       *)
(* tile conversion, and the link passes that complete the image.                *)
(* cfg.plat is "gb", "nes", "sms" or "" (plain CPU).                            *)
EXTENDS Asm

\* ---------------------------------------------------------------- headers
Logo == <<206, 237, 102, 102, 204, 13, 0, 11, 3, 115, 0, 131, 0, 12, 0, 13,
          0, 8, 17, 31, 136, 137, 0, 14, 220, 204, 110, 230, 221, 221, 217, 153,
          187, 187, 103, 99, 110, 14, 236, 204, 221, 220, 153, 159, 187, 185, 51, 62>>
Zeros(n) == [i \in 1..n |-> 0]
\* $100 entry: NOP, JP $150; $104 logo; $134 title .. $149; $14A destination, $14B licensee, $14C version, $14D checksums
GbHeader == <<0, 195, 80, 1>> \o Logo \o Zeros(22) \o <<1, 51, 0>> \o Zeros(3)
NesHeader == <<78, 69, 83, 26, 2, 0>> \o Zeros(10)

\* header fields: first address and size
GbField == [CARTRIDGE_TITLE |-> <<308, 16>>, CARTRIDGE_CGB |-> <<323, 1>>, CARTRIDGE_LICENSE |-> <<324, 2>>,
            CARTRIDGE_SGB |-> <<326, 1>>, CARTRIDGE_TYPE |-> <<327, 1>>, CARTRIDGE_DESTINATION |-> <<330, 1>>]
NesField == [CARTRIDGE_PRG_ROMS |-> <<4, 1>>, CARTRIDGE_CHR_ROMS |-> <<5, 1>>]

GbCartridge(A) ==
  IF Len(A.bytes) # 256 THEN Fail(A, "InvalidCartidgeHeaderOffset")
  ELSE LET O == SetOrg(A, B(256), A.oend)
       IN IF O.err # "" THEN O ELSE [Emit(O, GbHeader) EXCEPT !.cart = TRUE]
NesCartridge(A) ==
  IF Len(A.bytes) # 0 THEN Fail(A, "InvalidCartidgeHeaderOffset") ELSE [Emit(A, NesHeader) EXCEPT !.cart = TRUE]

\* numbers and quoted text, as bytes
RECURSIVE ByteList(_, _, _)
ByteList(A, toks, i) ==
  IF i > Len(toks) THEN [e |-> "", bs |-> <<>>]
  ELSE LET p == Parse(A, toks[i], 8, FALSE)
           one == IF IsQuoted(toks[i]) THEN (IF IsAscii(Inner(toks[i])) THEN [e |-> "", bs |-> Codes(Inner(toks[i]))] ELSE [e |-> "Raw", bs |-> <<>>])
                  ELSE IF p.t = "err" THEN [e |-> p.e, bs |-> <<>>]
                  ELSE IF p.t = "none" THEN [e |-> "InvalidArgumentsForDirective", bs |-> <<>>]
                  ELSE [e |-> "", bs |-> BytesOf(p.v, 1)]
       IN IF one.e # "" THEN one
          ELSE LET r == ByteList(A, toks, i + 1) IN IF r.e # "" THEN r ELSE [e |-> "", bs |-> one.bs \o r.bs]

SetField(A, f, t) ==
  IF ~A.cart THEN Fail(A, "CartidgeHeaderNotSet")
  ELSE IF Len(t) < 2 THEN BadArgs(A)
  ELSE LET r == ByteList(A, t, 2)
       IN IF r.e # "" THEN Fail(A, r.e)
          ELSE IF Len(r.bs) > f[2] THEN BadArgs(A)
          ELSE [A EXCEPT !.bytes = [i \in 1..Len(@) |-> IF i > f[1] /\ i <= f[1] + Len(r.bs) THEN r.bs[i - f[1]] ELSE @[i]]]

\* ---------------------------------------------------------------- tiles
\* an image file is [t |-> "image", mode, w, h, px], px row by row.  One 8x8 cell in planes of one bit per pixel,
\* leftmost pixel in bit 7; interleaved: the planes of a row follow each other; planar: the rows of a plane do.
Pixel(f, x, y) == f.px[y * f.w + x + 1]
PlaneByte(f, cx, cy, y, p) == FoldLeft(LAMBDA a, x : 2 * a + ((Pixel(f, 8 * cx + x, 8 * cy + y) \div 2 ^ p) % 2), 0, [i \in 1..8 |-> i - 1])
CellBytes(f, cx, cy, planes, planar) ==
  IF planar THEN [k \in 1..(8 * planes) |-> PlaneByte(f, cx, cy, (k - 1) % 8, (k - 1) \div 8)]
  ELSE [k \in 1..(8 * planes) |-> PlaneByte(f, cx, cy, (k - 1) \div planes, (k - 1) % planes)]
Cells(f, planes, planar) ==
  LET cw == f.w \div 8
  IN FlattenSeq([k \in 1..(cw * (f.h \div 8)) |-> CellBytes(f, (k - 1) % cw, (k - 1) \div cw, planes, planar)])
SizeOk(f, fixed) == IF fixed THEN f.w = 128 /\ f.h = 128 ELSE f.w % 8 = 0 /\ f.h % 8 = 0
DirTiles(A, t, planes, planar, fixed) ==
  IF Len(t) # 2 THEN BadArgs(A)
  ELSE LET f == FileOf(A, t) IN
    IF f.t # "image" THEN Fail(A, "Raw")
    ELSE IF f.mode # "P" THEN Fail(A, "OnlyIndexedImagesAreSupported")
    ELSE IF ~SizeOk(f, fixed) THEN Fail(A, "InvalidImageSize")
    ELSE IF \E i \in 1..Len(f.px) : f.px[i] >= 2 ^ planes THEN Fail(A, "InvalidPaletteEntry")
    ELSE Emit(A, Cells(f, planes, planar))

\* decoding what the hardware shows: the pixel at (x, y) of an image stored at 0-based offset o of the output
Shown(bytes, o, w, planes, planar, x, y) ==
  LET cell == (y \div 8) * (w \div 8) + x \div 8
      base == o + cell * 8 * planes
      at(p) == base + (IF planar THEN p * 8 + (y % 8) ELSE (y % 8) * planes + p) + 1
  IN FoldLeft(LAMBDA a, p : a + 2 ^ p * ((bytes[at(p)] \div 2 ^ (7 - (x % 8))) % 2), 0, [i \in 1..planes |-> i - 1])

\* ---------------------------------------------------------------- directives and link passes
PlatDirective(A, k, t) ==
  CASE A.cfg.plat = "gb"  /\ k = "CARTRIDGE" -> GbCartridge(A)
    [] A.cfg.plat = "gb"  /\ k \in DOMAIN GbField -> SetField(A, GbField[k], t)
    [] A.cfg.plat = "gb"  /\ k = "TILES" -> DirTiles(A, t, 2, FALSE, FALSE)
    [] A.cfg.plat = "nes" /\ k = "CARTRIDGE" -> NesCartridge(A)
    [] A.cfg.plat = "nes" /\ k \in DOMAIN NesField -> SetField(A, NesField[k], t)
    [] A.cfg.plat = "nes" /\ k = "CHR_PATTERN_TABLE" -> DirTiles(A, t, 2, TRUE, TRUE)
    [] A.cfg.plat = "sms" /\ k = "TILES" -> DirTiles(A, t, 4, FALSE, FALSE)
    [] OTHER -> Fail(A, "UnknownDirective")

SumFrom(bs, from, to) == FoldLeft(LAMBDA a, i : (a + bs[i]) % 65536, 0, [i \in 1..(to - from + 1) |-> from + i - 1])
\* $14D: complement check of $134..$14C; $14E/$14F: sum of all other bytes of the image, big endian
GbFix(A) ==
  IF Len(A.bytes) < 336 THEN Fail(A, "Raw")
  ELSE LET n == Len(A.bytes)
           head == (65536 * 2 - SumFrom(A.bytes, 309, 333) - 25) % 256
           b1   == [A.bytes EXCEPT ![334] = head]
           sum  == (SumFrom(b1, 1, 334) + SumFrom(b1, 337, n)) % 65536
       IN [A EXCEPT !.bytes = [b1 EXCEPT ![335] = sum \div 256, ![336] = sum % 256]]
PostLink(A) == IF A.cfg.plat = "gb" THEN GbFix(A) ELSE A

\* what the boot code of the Game Boy computes
GbValid(bs) ==
  /\ (FoldLeft(LAMBDA a, i : (a + 512 - bs[i] - 1) % 256, 0, [i \in 1..25 |-> 308 + i])) = bs[334]
  /\ LET s == (SumFrom(bs, 1, Len(bs)) + 131072 - bs[335] - bs[336]) % 65536 IN bs[335] = s \div 256 /\ bs[336] = s % 256
=============================================================================
