-------------------------------- MODULE Pack --------------------------------
(* Packing values into bit ranges of a word, one range per step, and the byte  *)
(* packers.  Cases come from two sources: all words of a small width with all   *)
(* pairs of ranges and values around them (Enum), and recorded calls (Calls).    *)
EXTENDS Asm, Json, IOUtils
Input == TLCEval(JsonDeserialize(IOEnv.CASES))     \* [w, vals, calls]
W     == Input.w
VARIABLES vWord, vTodo, vErr, vArgs, vBase, vCall
pvars == <<vWord, vTodo, vErr, vArgs, vBase, vCall>>

Bit(v, i) == (v \div 2 ^ i) % 2 = 1
Overlap(r, s) == r.lo <= s.hi /\ s.lo <= r.hi

Ranges == {[hi |-> h, lo |-> l] : h \in 0..(W - 1), l \in 0..(W - 1)}
Args1  == {[hi |-> r.hi, lo |-> r.lo, v |-> B(v)] : r \in Ranges, v \in Input.vals[1]..Input.vals[2]}
Free(base, a) == a.hi < a.lo \/ \A i \in a.lo..a.hi : ~Bit(base, i)

Enum == /\ W > 0 /\ vCall = 0
        /\ \E base \in 0..(2 ^ W - 1), a \in Args1 :
              /\ Free(base, a) /\ vBase = B(base)
              /\ \/ vArgs = <<a>>
                 \/ \E b \in Args1 : /\ ~Overlap(a, b) /\ Free(base, b) /\ b.hi >= b.lo /\ a.hi >= a.lo /\ vArgs = <<a, b>>
Called == vCall \in 1..Len(Input.calls) /\ vBase = Input.calls[vCall].base /\ vArgs = Input.calls[vCall].args
PackInit == (Enum \/ Called) /\ vWord = vBase /\ vTodo = vArgs /\ vErr = ""

\* the value fits in the range: as unsigned, or as two's complement when negative
PackOne == /\ vTodo # <<>> /\ vErr = ""
           /\ LET a == Head(vTodo)
                  p == PackRange(<<a.hi, a.lo>>, a.v)
              IN IF p.t = "err" THEN vErr' = p.e /\ UNCHANGED <<vWord, vTodo>>
                 ELSE vWord' = BitOr(vWord, p.v) /\ vTodo' = Tail(vTodo) /\ UNCHANGED vErr
           /\ UNCHANGED <<vArgs, vBase, vCall>>
PackSpec == PackInit /\ [][PackOne]_pvars

Done == vErr # "" \/ vTodo = <<>>
\* every range holds its value; without the ranges the word is the base
FieldOf(a) == LowBits(Shr(vWord, a.lo), a.hi - a.lo + 1)
Value(a) == IF a.v.n THEN Sub(FieldOf(a), Pow2(a.hi - a.lo + 1)) ELSE FieldOf(a)
Holds == (Done /\ vErr = "") =>
           /\ \A i \in 1..Len(vArgs) : Value(vArgs[i]) = vArgs[i].v
           /\ FoldLeft(LAMBDA w, a : Sub(w, Shl(FieldOf(a), a.lo)), vWord, vArgs) = vBase
Rejects == (Done /\ vErr # "") =>
             \E i \in 1..Len(vArgs) : LET a == vArgs[i] n == a.hi - a.lo + 1
               IN n < 1 \/ Le(Pow2(n), a.v) \/ Lt(a.v, Neg(Pow2(n - 1)))

\* the bytes a packer writes for a list of values
Packed(kind, vs) == FlattenSeq([i \in 1..Len(vs) |->
                      LET bs == BytesOf(vs[i], kind.size) IN IF kind.big THEN Reverse(bs) ELSE bs])
Report == Done =>
  PrintT("@@" \o ToJson(IF vCall = 0 THEN [c |-> 0, base |-> vBase, args |-> vArgs, err |-> vErr, v |-> vWord]
     ELSE [c |-> vCall, err |-> vErr, v |-> vWord,
           b |-> IF vErr # "" THEN <<>>
                 ELSE Packed(Input.calls[vCall].kind, IF vArgs = <<>> /\ Input.calls[vCall].vals # <<>>
                                                       THEN Input.calls[vCall].vals ELSE <<vWord>>)]))
=============================================================================
