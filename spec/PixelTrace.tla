----------------------------- MODULE PixelTrace -----------------------------
(* Relations between the pixels of two decodes, checked pixel by pixel.      *)
(*  "color": the same stream to YCbCr, RGB, RGBA, RGBX and GRAYSCALE         *)
(*  "crop" : the same blocks with two declared sizes in the same MCU grid    *)
(*  "cells": very large images of constant blocks; minimum and maximum of     *)
(*           each channel in every 8 by 8 cell                               *)
(*  "tiles": a large and a small image of the same repeated tile; a digest   *)
(*           of each 8 by 8 cell.  Interpolation reaches the neighbouring    *)
(*           MCUs of the row and no further.                                 *)
EXTENDS JpegCore, TLC, Json, IOUtils

CONSTANTS Lanes, Chunk
Cases == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Cases)

VARIABLES lane, idx, at
vars == <<lane, idx, at>>
Case == Cases[idx]

Init == lane \in 1..Lanes /\ idx = lane - Lanes /\ at = 0

CellW == CeilDiv(Case.w, 8)
Size == CASE Case.t = "color" -> Case.w * Case.h
          [] Case.t \in {"cells", "tiles"} -> CellW * CeilDiv(Case.h, 8)
          [] OTHER -> Case.h
Busy == idx > 0 /\ at < Size

Say(what) == PrintT(<<"REJECT", Case.id, what>>)
Near(a, b, tol) == AbsI(a - b) <= tol

(* pixel p (from 0) of a "color" case *)
Yc(p) == Case.ycc[3 * p + 1]
Cb(p) == Case.ycc[3 * p + 2]
Cr(p) == Case.ycc[3 * p + 3]
RgbOk(s, n, p, tol) ==
  /\ Near(s[n * p + 1], ToR(Yc(p), Cr(p)), tol)
  /\ Near(s[n * p + 2], ToG(Yc(p), Cb(p), Cr(p)), tol)
  /\ Near(s[n * p + 3], ToB(Yc(p), Cb(p)), tol)
SameRgb(a, m, b, n, p) == \A k \in 1..3 : a[m * p + k] = b[n * p + k]

ColorBad(p) ==
  IF ~RgbOk(Case.rgb, 3, p, Case.tol) THEN "RGB is not the JFIF conversion of YCbCr"
  ELSE IF Case.rgba # <<>> /\ ~SameRgb(Case.rgb, 3, Case.rgba, 4, p) THEN "RGBA differs from RGB"
  ELSE IF Case.rgba # <<>> /\ Case.rgba[4 * p + 4] # 255 THEN "alpha is not 255"
  ELSE IF Case.rgbx # <<>> /\ ~SameRgb(Case.rgb, 3, Case.rgbx, 4, p) THEN "RGBX differs from RGB"
  ELSE IF Case.gray # <<>> /\ Case.gray[p + 1] # Yc(p) THEN "GRAYSCALE is not Y"
  ELSE "fine"

LengthsOk ==
  LET n == Case.w * Case.h IN
  /\ Len(Case.ycc) = 3 * n /\ Len(Case.rgb) = 3 * n
  /\ Len(Case.rgba) \in {0, 4 * n} /\ Len(Case.rgbx) \in {0, 4 * n} /\ Len(Case.gray) \in {0, n}

(* row y (from 0) of a "crop" case: big has width bw, small is w x h, n channels *)
CropBad(y) ==
  \E i \in 1..(Case.w * Case.n) : Case.small[y * Case.w * Case.n + i] # Case.big[y * Case.bw * Case.n + i]

(* cell p (from 0) of a "cells" case.  y, cb, cr: values of the blocks, row by row, of the coded (MCU padded) grid. *)
(* Chroma that is the same in a block and its neighbours to the left and right stays what it is when up-sampled.    *)
Lo(p, c) == Case.cells[(p * Case.n + c - 1) * 2 + 1]
Hi(p, c) == Case.cells[(p * Case.n + c - 1) * 2 + 2]
Within(p, c, a, b, tol) == Lo(p, c) >= a - tol /\ Hi(p, c) <= b + tol
ChromaAt(s, cx, cy) ==
  LET bw == CeilDiv(Case.w, 8 * Case.hm)
      row == (cy \div Case.vm) * bw
      x == cx \div Case.hm
      m == s[row + x + 1]
      l == IF Case.hm = 1 THEN m ELSE s[row + Max2(x - 1, 0) + 1]
      r == IF Case.hm = 1 THEN m ELSE s[row + Min2(x + 1, bw - 1) + 1]
  IN [lo |-> Min2(m, Min2(l, r)), hi |-> Max2(m, Max2(l, r))]
CellBad(p) ==
  LET cx == p % CellW
      cy == p \div CellW
      yv == Case.y[cy * Case.hm * CeilDiv(Case.w, 8 * Case.hm) + cx + 1]
  IN IF Case.n = 1 THEN IF Within(p, 1, yv, yv, 1) THEN "fine" ELSE "sample of a block"
     ELSE LET b == ChromaAt(Case.cb, cx, cy) r == ChromaAt(Case.cr, cx, cy) IN
          IF Case.cs = "YCC"
          THEN IF ~Within(p, 1, yv, yv, 1) THEN "luma of a block"
               ELSE IF ~Within(p, 2, b.lo, b.hi, 1) \/ ~Within(p, 3, r.lo, r.hi, 1) THEN "chroma of a block"
               ELSE "fine"
          ELSE IF b.lo = b.hi /\ r.lo = r.hi
               THEN LET R == ToR(yv, r.lo) G == ToG(yv, b.lo, r.lo) B == ToB(yv, b.lo) IN
                    IF Within(p, 1, R, R, 5) /\ Within(p, 2, G, G, 5) /\ Within(p, 3, B, B, 5) THEN "fine" ELSE "colour of a block"
               ELSE "fine"

(* unit u of n (from 0) in the small image, which has s of them; p: period.  The first unit and the last p keep their place. *)
SmallUnit(u, n, s, p) == IF n = s \/ u = 0 THEN u ELSE IF u >= n - p THEN u - (n - s) ELSE 1 + ((u - 1) % p)
SmallCell(c, m, n, s, p) == SmallUnit(c \div m, n, s, p) * m + (c % m)
TileBad(p) ==
  LET cx == SmallCell(p % CellW, Case.hm, Case.bx, Case.sx, Case.P)
      cy == SmallCell(p \div CellW, Case.vm, Case.by, Case.sy, Case.Q)
  IN Case.big[p + 1] # Case.small[cy * CeilDiv(Case.sw, 8) + cx + 1]

Bad(p) ==
  CASE Case.t = "tiles" -> IF TileBad(p) THEN "cell " \o ToString(p % CellW) \o "," \o ToString(p \div CellW) \o " of a large image differs from the same blocks in a small one" ELSE "fine"
    [] Case.t = "cells" -> LET bad == CellBad(p) IN
         IF bad = "fine" THEN bad ELSE bad \o ", cell " \o ToString(p % CellW) \o "," \o ToString(p \div CellW)
    [] Case.t = "color" -> LET bad == ColorBad(p) IN IF bad = "fine" THEN bad ELSE bad \o ", pixel " \o ToString(p)
    [] OTHER -> IF CropBad(p) THEN "not a crop, row " \o ToString(p) ELSE "fine"

LengthBad ==
  CASE Case.t = "color" -> ~LengthsOk
    [] Case.t = "cells" -> Len(Case.cells) # 2 * Case.n * Size
    [] Case.t = "tiles" -> Len(Case.big) # Size
    [] OTHER -> Len(Case.small) # Case.w * Case.h * Case.n

(* the first thing wrong in a case ends it *)
Work ==
  /\ Busy
  /\ IF at = 0 /\ LengthBad THEN Say("length of the output") /\ at' = Size
     ELSE LET e == Min2(Size, at + Chunk)
              bad == { p \in at..(e - 1) : Bad(p) # "fine" }
          IN IF bad = {} THEN at' = e
             ELSE Say(Bad(CHOOSE p \in bad : \A q \in bad : p <= q)) /\ at' = Size
  /\ UNCHANGED <<lane, idx>>

NextCase == ~Busy /\ idx + Lanes <= N /\ idx' = idx + Lanes /\ at' = 0 /\ UNCHANGED lane

Next == Work \/ NextCase
Spec == Init /\ [][Next]_vars
TypeOK == at >= 0 /\ idx <= N
=============================================================================
