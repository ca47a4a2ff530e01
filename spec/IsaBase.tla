------------------------------ MODULE IsaBase ------------------------------
(* What the instruction sets share: matching operand tokens and building an    *)
(* instruction from opcode bytes and operand fields.                           *)
EXTENDS Asm

\* the operand tokens t[2..] spelled like the pattern p: a sequence of strings, "" stands for any token
Like(t, p) == Len(t) = Len(p) + 1 /\ \A i \in 1..Len(p) : p[i] = "" \/ Up(t[i + 1]) = p[i]
Reject(A)  == Fail(A, "Raw")
IsLit(A, tok) == Literal(A.cfg.nt, Split(tok).term).t = "num"

\* one operand field; val is what is stored for a literal (after the filter), or the reason to refuse it
F(size, bits, off) == [Field EXCEPT !.size = size, !.bits = bits, !.off = off]
Rel(f, base)       == [f EXCEPT !.rel = <<base>>, !.signed = TRUE]
Ranged(f, hi, lo)  == [f EXCEPT !.rng = <<hi, lo>>]
Filt(f, name)      == [f EXCEPT !.filt = name]
Aligned(f, n)      == [f EXCEPT !.align = n]

\* a literal is stored like the address of a label would be: aligned, filtered, in its bit range
StoreNum(A, bytes, f, v) ==
  LET x == Filter(f.filt, v)
      w == IF f.rng = NoRange THEN x ELSE Shl(LowBits(x, f.rng[1] - f.rng[2] + 1), f.rng[2])
  IN OrAt(bytes, f.off, Order(A, BytesOf(w, f.size)))
\* ops: sequence of <<token, field>>
RECURSIVE BuildIns(_, _, _, _)
BuildIns(A, bytes, ops, i) ==
  IF A.err # "" THEN A
  ELSE IF i > Len(ops) THEN Emit(A, bytes)
  ELSE LET f == ops[i][2]
           o == Operand(A, ops[i][1], f)
       IN CASE o.t = "err" -> Reject(A)
            [] o.t = "lab" -> BuildIns(o.A, bytes, ops, i + 1)
            [] Mod(o.v, B(f.align)) # Zero \/ Mod(o.v, B(f.step)) # Zero \/ (f.nz /\ o.v = Zero) \/ (f.lim # <<>> /\ ~(Le(B(f.lim[1]), o.v) /\ Le(o.v, B(f.lim[2])))) -> Reject(A)
            [] OTHER -> BuildIns(o.A, StoreNum(A, bytes, f, o.v), ops, i + 1)
Ins(A, bytes, ops) == BuildIns(A, bytes, ops, 1)
Plain(A, bytes, t) == IF Len(t) = 1 THEN Emit(A, bytes) ELSE Reject(A)
IndexOf(seq, x) == SelectInSeq(seq, LAMBDA y : y = x)
=============================================================================
