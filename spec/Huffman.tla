------------------------------- MODULE Huffman -------------------------------
(* Canonical Huffman codes: the operators that Decoder.tla uses (HuffLegal,   *)
(* MakeHuff, Sym) against annex C written out, for every vector of counts in  *)
(* a window of code lengths.  Each vector is printed and run on the decoder   *)
(* (C11: those that are not codes, C13: those that are).                      *)
EXTENDS JpegCore, FiniteSets, TLC, Json

CONSTANTS
  Wide,     \* windows of four lengths: first lengths
  Narrow,   \* windows of three lengths after one code of every length before
  Spare     \* how many codes more than there is room for

VARIABLES bits, todo
hvars == <<bits, todo>>

Zeroes == [i \in 1..16 |-> 0]
Chain(o) == [i \in 1..16 |-> IF i < o THEN 1 ELSE 0]

HInit ==
  \/ \E o \in Wide   : bits = [Zeroes EXCEPT ![o] = 0] /\ todo = <<o, o + 1, o + 2, o + 3>>
  \/ \E o \in Narrow : bits = Chain(o) /\ todo = <<o, o + 1, o + 2>>

(* room left at length l, in codes of that length *)
Room(l) == FoldLeft(LAMBDA a, i : a - bits[i] * P2(l - i), P2(l), [i \in 1..l |-> i])
Top(l) == IF Room(l) < 0 THEN 0 ELSE Room(l) + Spare
HNext == /\ todo # <<>>
         /\ \E n \in 0..Top(Head(todo)) : bits' = [bits EXCEPT ![Head(todo)] = n]
         /\ todo' = Tail(todo)
HSpec == HInit /\ [][HNext]_hvars

Total == FoldLeft(LAMBDA a, x : a + x, 0, bits)
Done == todo = <<>>

(* annex C: sizes, then codes counted up within a size and doubled between sizes *)
Sizes == FlattenSeq([l \in 1..16 |-> [i \in 1..bits[l] |-> l]])
Codes == FoldLeft(LAMBDA a, l : Append(a, [v |-> IF a = <<>> THEN 0 ELSE (a[Len(a)].v + 1) * P2(l - a[Len(a)].l), l |-> l]), <<>>, Sizes)
Fits == \A i \in 1..Len(Codes) : Codes[i].v < P2(Codes[i].l) - 1
Legal == Fits

SameVerdict == Done => (HuffLegal(bits) <=> Legal)

Vals == [i \in 1..Total |-> (i * 7) % 256]
T == MakeHuff(bits, Vals)
(* a code followed by zeroes or ones *)
Word(c, one) == LET v == c.v * P2(16 - c.l) + (IF one THEN P2(16 - c.l) - 1 ELSE 0) IN MkSegment(<<v \div 256, v % 256>>)
Decodes ==
  Done /\ Legal =>
    \A i \in 1..Len(Codes) : \A one \in BOOLEAN :
      LET y == Sym(Word(Codes[i], one), 0, T) IN y.s = Vals[i] /\ y.p = Codes[i].l
PrefixFree ==
  Done /\ Legal =>
    \A i, j \in 1..Len(Codes) : i # j /\ Codes[i].l <= Codes[j].l => Codes[j].v \div P2(Codes[j].l - Codes[i].l) # Codes[i].v
(* sixteen ones are never a code *)
OnesFree == Done /\ Legal => Sym(MkSegment(<<255, 255>>), 0, T).s = -1

EmitShape == Done => PrintT("SHAPE " \o ToJson([bits |-> bits, legal |-> Legal]))
=============================================================================
