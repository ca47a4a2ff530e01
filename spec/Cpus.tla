-------------------------------- MODULE Cpus --------------------------------
(* The instruction sets of the processors, by name of the processor.            *)
EXTENDS Mos6502, Lr35902, Mips32, Thumb, Mc68000, Intel8086, PowerPc
CpuInstruction(A, k, t) ==
  CASE A.cfg.cpu = "6502" /\ k \in Known6502 -> Ins6502(A, k, t)
    [] A.cfg.cpu = "z80" /\ k \in KnownZ80 -> InsZ80(A, k, t)
    [] A.cfg.cpu = "lr35902" /\ k \in KnownLr -> InsLr(A, k, t)
    [] A.cfg.cpu = "mips32" /\ k \in KnownMips -> InsMips(A, k, t)
    [] A.cfg.cpu = "thumb" /\ k \in KnownThumb -> InsThumb(A, k, t)
    [] A.cfg.cpu = "68000" /\ k \in KnownMc68000 -> InsMc68000(A, k, t)
    [] A.cfg.cpu = "8086" /\ k \in KnownX86 -> InsX86(A, k, t)
    [] A.cfg.cpu = "ppc" -> InsPpc(A, k, t)
    [] OTHER -> Fail(A, "UnknownInstruction")
=============================================================================
