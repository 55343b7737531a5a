-------------------------------- MODULE Bits --------------------------------
(* Bitwise operators on integers of any size, in two's complement.  An       *)
(* integer is a Rat with denominator 1; its bits are taken 12 at a time.     *)
EXTENDS Rat, Bitwise

CHUNK == 4096
(* the chunks of a natural, least significant first *)
Chunks(n) == IF n = <<>> THEN <<>> ELSE Reverse(BDigitsB(n, CHUNK, <<>>))
FromChunks(cs) == FoldLeft(LAMBDA acc, c : BAddN(BMulN(acc, CHUNK), c), <<>>, Reverse(cs))
(* chunk k (from 1) of integer a in two's complement: -x is ~(x - 1) *)
Magn(a) == IF a.s < 0 THEN Chunks(BSub(a.n, BOne)) ELSE Chunks(a.n)
ChunkAt(cs, neg, k) == LET c == IF k <= Len(cs) THEN cs[k] ELSE 0 IN IF neg THEN CHUNK - 1 - c ELSE c
BitOp(a, b, F(_, _)) ==
  LET ca == Magn(a)
      cb == Magn(b)
      n  == BMax(Len(ca), Len(cb)) + 1
      rs == TLCEval([k \in 1..n |-> F(ChunkAt(ca, a.s < 0, k), ChunkAt(cb, b.s < 0, k))])
  IN IF rs[n] = 0 THEN RRaw(1, BTrim(FromChunks(rs)), BOne)
     ELSE RRaw(-1, BAdd(BOne, BTrim(FromChunks(TLCEval([k \in 1..n |-> CHUNK - 1 - rs[k]])))), BOne)
BitAnd(a, b) == BitOp(a, b, LAMBDA x, y : x & y)
BitOr(a, b)  == BitOp(a, b, LAMBDA x, y : x | y)
BitXor(a, b) == BitOp(a, b, LAMBDA x, y : x ^^ y)
Pow2Big(n) == BPow(<<2>>, n)
ShiftL(a, n) == RMul(a, RBig(Pow2Big(n)))
ShiftR(a, n) == RFloor(RNew(a.s, a.n, Pow2Big(n)))
RECURSIVE NatBits(_)
NatBits(k) == IF k = 0 THEN 0 ELSE 1 + NatBits(k \div 2)
BitLen(n) == IF n = <<>> THEN 0 ELSE LET cs == Chunks(n) IN 12 * (Len(cs) - 1) + NatBits(cs[Len(cs)])
(* flip the lowest w bits of natural a (and drop the others) *)
Flip(a, w) == LET p == Pow2Big(w)
              IN RRaw(1, BSub(BSub(p, BOne), BMod(a.n, p)), BOne)
=============================================================================
