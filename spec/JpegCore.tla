------------------------------ MODULE JpegCore ------------------------------
(* The arithmetic of a JPEG decoder (ITU T.81): canonical Huffman codes,     *)
(* bit fields, block decoding for sequential and progressive scans, the      *)
(* inverse DCT, chroma up-sampling and colour conversion.  Pure definitions; *)
(* the state machine that uses them is Decoder.tla.                          *)
(* Byte sequences are TLA+ sequences of 0..255, positions are 1-based.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
          131072, 262144, 524288, 1048576>>
P2(n) == Pow2[n + 1]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN 0 - a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 255 THEN 255 ELSE v

(* Figure A.6: ZZ[k + 1] is the natural (row major) index of zigzag position k *)
ZZ == << 0,  1,  8, 16,  9,  2,  3, 10, 17, 24, 32, 25, 18, 11,  4,  5,
        12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13,  6,  7, 14, 21, 28,
        35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
        58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63>>

(* zigzag position (0..63) of natural index n *)
ZigzagPos == [n \in 0..63 |-> CHOOSE k \in 0..63 : ZZ[k + 1] = n]

ASSUME ZigzagIsPermutation == { ZZ[k] : k \in 1..64 } = 0..63

Zero64 == [i \in 1..64 |-> 0]
Zero63 == [i \in 1..63 |-> 0]

U16(b, p) == b[p] * 256 + b[p + 1]

---------------------------------------------------------------------------
(* Huffman tables (annex C).  bits: 16 counts; vals: symbols.               *)
(* lim[l+1]: the first left-justified 16-bit value that is not the start of *)
(* a code of length <= l;  off[l]: index of the first symbol of length l    *)
(* minus its code.                                                          *)
HuffAcc(bits) ==
  FoldLeft(LAMBDA a, l :
             LET n == bits[l] code == a.code IN
             [code |-> (code + n) * 2,
              idx  |-> a.idx + n,
              lim  |-> Append(a.lim, (code + n) * P2(16 - l)),
              off  |-> Append(a.off, a.idx - code),
              (* no code may consist of ones only; lengths beyond the longest used do not count *)
              ok   |-> a.ok /\ (a.idx + n = a.total \/ code + n < P2(l)) /\ (n = 0 \/ code + n < P2(l)),
              total |-> a.total],
           [code |-> 0, idx |-> 0, lim |-> <<0>>, off |-> <<>>, ok |-> TRUE,
            total |-> FoldLeft(LAMBDA s, x : s + x, 0, bits)],
           <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)

(* A legal code: every prefix-free code count fits and the all-ones code of every length is unused *)
HuffLegal(bits) == HuffAcc(bits).ok

MakeHuff(bits, vals) ==
  LET a == HuffAcc(bits) IN [lim |-> a.lim, off |-> a.off, vals |-> vals]

(* length of the code at the head of the 16 bits v; 17 if there is none (binary search) *)
CodeLen(lim, v) ==
  IF v < lim[9] THEN
    IF v < lim[5] THEN
      IF v < lim[3] THEN (IF v < lim[2] THEN 1 ELSE 2)
      ELSE IF v < lim[4] THEN 3 ELSE 4
    ELSE
      IF v < lim[7] THEN (IF v < lim[6] THEN 5 ELSE 6)
      ELSE IF v < lim[8] THEN 7 ELSE 8
  ELSE
    IF v < lim[13] THEN
      IF v < lim[11] THEN (IF v < lim[10] THEN 9 ELSE 10)
      ELSE IF v < lim[12] THEN 11 ELSE 12
    ELSE
      IF v < lim[15] THEN (IF v < lim[14] THEN 13 ELSE 14)
      ELSE IF v < lim[16] THEN 15 ELSE IF v < lim[17] THEN 16 ELSE 17

---------------------------------------------------------------------------
(* Bits.  A segment is [b |-> un-stuffed bytes followed by three zeroes,    *)
(* n |-> number of real bits].  Bits past the end read as zeroes.           *)
MkSegment(bytes) == [b |-> bytes \o <<0, 0, 0>>, n |-> 8 * Len(bytes)]

ByteAt(s, i) == IF i <= Len(s.b) THEN s.b[i] ELSE 0

Peek16(s, p) ==
  LET i == (p \div 8) + 1 o == p % 8 IN
  IF i + 2 <= Len(s.b)
  THEN ((s.b[i] * 65536 + s.b[i + 1] * 256 + s.b[i + 2]) \div P2(8 - o)) % 65536
  ELSE ((ByteAt(s, i) * 65536 + ByteAt(s, i + 1) * 256 + ByteAt(s, i + 2)) \div P2(8 - o)) % 65536

GetBits(s, p, n) == IF n = 0 THEN 0 ELSE Peek16(s, p) \div P2(16 - n)

(* F.2.2.1 EXTEND *)
Extend(v, n) == IF n = 0 THEN 0 ELSE IF v < P2(n - 1) THEN v - P2(n) + 1 ELSE v

(* decode one symbol: [s |-> symbol (-1: not a code), p |-> new position] *)
Sym(seg, p, t) ==
  LET v == Peek16(seg, p) l == CodeLen(t.lim, v) IN
  IF l = 17 THEN [s |-> -1, p |-> p]
  ELSE [s |-> t.vals[(v \div P2(16 - l)) + t.off[l] + 1], p |-> p + l]

---------------------------------------------------------------------------
(* Blocks are 64-sequences in natural order.  Block decoders return         *)
(* [ok, p, blk, ...]; ok = FALSE: the bits are not a legal block.           *)
RECURSIVE SeqAC(_, _, _, _, _)
SeqAC(seg, p, t, blk, k) ==
  IF k > 63 THEN [ok |-> k = 64, p |-> p, blk |-> blk]
  ELSE LET y == Sym(seg, p, t) r == y.s \div 16 n == y.s % 16 IN
       IF y.s < 0 THEN [ok |-> FALSE, p |-> p, blk |-> blk]
       ELSE IF n = 0
            THEN IF r = 0 THEN [ok |-> TRUE, p |-> y.p, blk |-> blk]
                 ELSE IF r = 15 THEN SeqAC(seg, y.p, t, blk, k + 16)
                 ELSE [ok |-> FALSE, p |-> y.p, blk |-> blk]
            ELSE IF k + r > 63 THEN [ok |-> FALSE, p |-> y.p, blk |-> blk]
            ELSE SeqAC(seg, y.p + n, t,
                       [blk EXCEPT ![ZZ[k + r + 1] + 1] = Extend(GetBits(seg, y.p, n), n)],
                       k + r + 1)

(* F.2.2: one block of a sequential scan; dc is the new predictor *)
SeqBlock(seg, p, td, ta, pred) ==
  LET y == Sym(seg, p, td) IN
  IF y.s < 0 \/ y.s > 15 THEN [ok |-> FALSE, p |-> p, blk |-> Zero64, dc |-> pred]
  ELSE LET dc == pred + Extend(GetBits(seg, y.p, y.s), y.s)
           a  == SeqAC(seg, y.p + y.s, ta, [Zero64 EXCEPT ![1] = dc], 1)
       IN [ok |-> a.ok, p |-> a.p, blk |-> a.blk, dc |-> dc]

(* G.1.2.1 DC, first scan and refinement *)
DcFirst(seg, p, td, pred, blk, al) ==
  LET y == Sym(seg, p, td) IN
  IF y.s < 0 \/ y.s > 15 THEN [ok |-> FALSE, p |-> p, blk |-> blk, dc |-> pred]
  ELSE LET dc == pred + Extend(GetBits(seg, y.p, y.s), y.s)
       IN [ok |-> TRUE, p |-> y.p + y.s, blk |-> [blk EXCEPT ![1] = dc * P2(al)], dc |-> dc]

(* the coefficient is in two's complement: appending a one bit adds 2^al *)
DcRefine(seg, p, blk, al) ==
  [ok |-> TRUE, p |-> p + 1, blk |-> IF GetBits(seg, p, 1) = 1 THEN [blk EXCEPT ![1] = @ + P2(al)] ELSE blk]

(* G.1.2.2 AC, first scan of a band *)
RECURSIVE AcFirst(_, _, _, _, _, _, _)
AcFirst(seg, p, t, blk, k, se, al) ==
  IF k > se THEN [ok |-> k = se + 1, p |-> p, blk |-> blk, eob |-> 0]
  ELSE LET y == Sym(seg, p, t) r == y.s \div 16 n == y.s % 16 IN
       IF y.s < 0 THEN [ok |-> FALSE, p |-> p, blk |-> blk, eob |-> 0]
       ELSE IF n = 0
            THEN IF r = 15 THEN AcFirst(seg, y.p, t, blk, k + 16, se, al)
                 ELSE [ok |-> TRUE, p |-> y.p + r, blk |-> blk, eob |-> P2(r) + GetBits(seg, y.p, r) - 1]
            ELSE IF k + r > se THEN [ok |-> FALSE, p |-> y.p, blk |-> blk, eob |-> 0]
            ELSE AcFirst(seg, y.p + n, t,
                         [blk EXCEPT ![ZZ[k + r + 1] + 1] = Extend(GetBits(seg, y.p, n), n) * P2(al)],
                         k + r + 1, se, al)

(* G.1.2.3 AC refinement.  Correction(...): read the correction bit of a known coefficient *)
Corrected(c, bit, al) == IF bit = 0 THEN c ELSE IF c > 0 THEN c + P2(al) ELSE c - P2(al)

(* advance from k over known coefficients and `r` still-zero ones; stops on the (r+1)-th zero or after se *)
RECURSIVE Advance(_, _, _, _, _, _, _)
Advance(seg, p, blk, k, se, r, al) ==
  IF k > se THEN [p |-> p, blk |-> blk, k |-> k, r |-> r]
  ELSE LET n == ZZ[k + 1] + 1 c == blk[n] IN
       IF c # 0
       THEN Advance(seg, p + 1, [blk EXCEPT ![n] = Corrected(c, GetBits(seg, p, 1), al)], k + 1, se, r, al)
       ELSE IF r = 0 THEN [p |-> p, blk |-> blk, k |-> k, r |-> 0]
       ELSE Advance(seg, p, blk, k + 1, se, r - 1, al)

(* all remaining known coefficients get a correction bit (block inside an EOB run) *)
CorrectRest(seg, p, blk, k, se, al) ==
  LET a == Advance(seg, p, blk, k, se, 64, al) IN [ok |-> TRUE, p |-> a.p, blk |-> a.blk]

RECURSIVE AcRefine(_, _, _, _, _, _, _)
AcRefine(seg, p, t, blk, k, se, al) ==
  IF k > se THEN [ok |-> TRUE, p |-> p, blk |-> blk, eob |-> 0]
  ELSE LET y == Sym(seg, p, t) r == y.s \div 16 n == y.s % 16 IN
       IF y.s < 0 \/ n > 1 THEN [ok |-> FALSE, p |-> p, blk |-> blk, eob |-> 0]
       ELSE IF n = 0 /\ r # 15
            THEN LET c == CorrectRest(seg, y.p + r, blk, k, se, al) IN
                 [ok |-> TRUE, p |-> c.p, blk |-> c.blk, eob |-> P2(r) + GetBits(seg, y.p, r) - 1]
            ELSE LET a == Advance(seg, y.p + n, blk, k, se, r, al) IN
                 IF a.k > se THEN [ok |-> n = 0 /\ a.r = 0, p |-> a.p, blk |-> a.blk, eob |-> 0]
                 ELSE AcRefine(seg, a.p, t,
                               IF n = 0 THEN a.blk
                               ELSE [a.blk EXCEPT ![ZZ[a.k + 1] + 1] =
                                        IF GetBits(seg, y.p, 1) = 1 THEN P2(al) ELSE 0 - P2(al)],
                               a.k + 1, se, al)

---------------------------------------------------------------------------
(* Inverse DCT (A.3.3), 12-bit fixed point, accurate to within one.         *)
(* Idct1 maps 8 values to 8 values scaled by 2^12; rnd is added first.      *)
Idct1(c0, c1, c2, c3, c4, c5, c6, c7, rnd, sh) ==
  LET p1 == (c2 + c6) * 2217
      e2 == p1 - c6 * 7567
      e3 == p1 + c2 * 3135
      e0 == (c0 + c4) * 4096
      e1 == (c0 - c4) * 4096
      x0 == e0 + e3 + rnd
      x3 == e0 - e3 + rnd
      x1 == e1 + e2 + rnd
      x2 == e1 - e2 + rnd
      q3 == c7 + c3
      q4 == c5 + c1
      q5 == (q3 + q4) * 4816
      q1 == q5 - (c7 + c1) * 3685
      q2 == q5 - (c5 + c3) * 10497
      s3 == 0 - q3 * 8034
      s4 == 0 - q4 * 1597
      o3 == c1 * 6149 + q1 + s4
      o2 == c3 * 12586 + q2 + s3
      o1 == c5 * 8410 + q2 + s4
      o0 == c7 * 1223 + q1 + s3
  IN << (x0 + o3) \div sh, (x1 + o2) \div sh, (x2 + o1) \div sh, (x3 + o0) \div sh,
        (x3 - o0) \div sh, (x2 - o1) \div sh, (x1 - o2) \div sh, (x0 - o3) \div sh >>

ZeroCol == <<0, 0, 0, 0, 0, 0, 0, 0>>

(* blk, q: natural order; result: 64 samples 0..255 in natural order *)
Idct(blk, q) ==
  IF Tail(blk) = Zero63
  THEN LET v == Clamp((blk[1] * q[1] + 4) \div 8 + 128) IN [i \in 1..64 |-> v]
  ELSE LET d(i) == blk[i] * q[i]
           cols == [c \in 1..8 |->
                     IF /\ blk[c] = 0 /\ blk[c + 8] = 0 /\ blk[c + 16] = 0 /\ blk[c + 24] = 0
                        /\ blk[c + 32] = 0 /\ blk[c + 40] = 0 /\ blk[c + 48] = 0 /\ blk[c + 56] = 0
                     THEN ZeroCol
                     ELSE Idct1(d(c), d(c + 8), d(c + 16), d(c + 24), d(c + 32), d(c + 40), d(c + 48), d(c + 56),
                                512, 1024)]
           rows == [r \in 1..8 |->
                     Idct1(cols[1][r], cols[2][r], cols[3][r], cols[4][r], cols[5][r], cols[6][r], cols[7][r],
                           cols[8][r], 65536, 131072)]
       IN [i \in 1..64 |-> Clamp(rows[((i - 1) \div 8) + 1][((i - 1) % 8) + 1] + 128)]

(* What the samples are is defined as long as the dequantised coefficients of a block add up to no more than this.   *)
(* Blocks of 8-bit samples have at most 8192 (the transform is orthonormal but for a factor), plus rounding errors.  *)
Tame(blk, q) ==
  /\ \A i \in 1..64 : blk[i] <= 14000 /\ blk[i] >= -14000
  /\ FoldLeftDomain(LAMBDA a, i : a + AbsI(blk[i] * q[i]), 0, blk) <= 14000

---------------------------------------------------------------------------
(* Chroma up-sampling by 2: triangle filter, ends copied (any sequence of n >= 1 numbers) *)
Up2(s) ==
  LET n == Len(s) IN
  [i \in 1..(2 * n) |->
     LET k == (i + 1) \div 2 IN
     IF i = 1 \/ i = 2 * n THEN s[k]
     ELSE IF i % 2 = 1 THEN (3 * s[k] + s[k - 1] + 2) \div 4
     ELSE (3 * s[k] + s[k + 1] + 2) \div 4]

(* the same, between rows *)
UpRows(rows) ==
  LET n == Len(rows) w == Len(rows[1]) IN
  [i \in 1..(2 * n) |->
     LET k == (i + 1) \div 2 IN
     IF i = 1 \/ i = 2 * n THEN rows[k]
     ELSE LET o == IF i % 2 = 1 THEN rows[k - 1] ELSE rows[k + 1]
              m == rows[k]
          IN [x \in 1..w |-> (3 * m[x] + o[x] + 2) \div 4]]

---------------------------------------------------------------------------
(* JFIF conversion in 16-bit fixed point (within 1/2 of the real formula plus rounding) *)
ToR(y, cr) == Clamp(y + (91881 * (cr - 128) + 32768) \div 65536)
ToG(y, cb, cr) == Clamp(y + (0 - 22554 * (cb - 128) - 46802 * (cr - 128) + 32768) \div 65536)
ToB(y, cb) == Clamp(y + (116130 * (cb - 128) + 32768) \div 65536)
=============================================================================
