------------------------------ MODULE Hardware ------------------------------
(* The names a platform gives to its hardware: memory areas, registers and      *)
(* ports, and the values of their commands, where the console has them.         *)
GbNames  == [VRAM |-> "$8000", LCDC |-> "$FF40", STAT |-> "$FF41", SCY |-> "$FF42", SCX |-> "$FF43", LY |-> "$FF44", LYC |-> "$FF45",
             WY |-> "$FF4A", WX |-> "$FF4B", TMAP0 |-> "$9800", TMAP1 |-> "$9C00", WRAM |-> "$C000", WRAM0 |-> "$C000",
             WRAM1 |-> "$D000", HRAM |-> "$FF80"]
NesNames == [PPUCTRL |-> "$2000", PPUMASK |-> "$2001", PPUSTATUS |-> "$2002", OAMADDR |-> "$2003", OAMDATA |-> "$2004",
             PPUSCROLL |-> "$2005", PPUADDR |-> "$2006", PPUDATA |-> "$2007", OAMDMA |-> "$4014"]
SmsNames == [RAM |-> "$C000", JOY1 |-> "$DC", JOY2 |-> "$DD", PSG |-> "$7F", VDPDATA |-> "$BE", VDPADDR |-> "$BF",
             CMD_VRAM |-> "$40", CMD_REG |-> "$80", CMD_CRAM |-> "$C0"]
NoNames  == [x \in {} |-> ""]
Hardware(plat) == CASE plat = "gb" -> GbNames [] plat = "nes" -> NesNames [] plat = "sms" -> SmsNames [] OTHER -> NoNames
=============================================================================
