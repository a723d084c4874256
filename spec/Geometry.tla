-------------------------------- MODULE Geometry --------------------------------
(* Geometry of frames as Decoder.tla computes it (FrameOf, ScanGeom, McuUnits),  *)
(* for every size up to a bound and every sampling: blocks cover the image,      *)
(* nothing is larger than it must be, and every block that holds samples of the  *)
(* image is visited exactly once by a scan, interleaved or not.                  *)
EXTENDS Decoder

CONSTANTS MaxW, MaxH

VARIABLE sos
gvars == <<phase, jobvars, pos, tabs, frame, cq, scanvars, res, sos>>

Big(x) == <<x \div 256, x % 256>>
Sampling == {<<17>>, <<17, 17, 17>>, <<33, 17, 17>>, <<18, 17, 17>>, <<34, 17, 17>>}
Header(w, h, s) ==
  <<255, 192, 0, 8 + 3 * Len(s), 8>> \o Big(h) \o Big(w) \o <<Len(s)>> \o FlattenSeq([i \in 1..Len(s) |-> <<i, s[i], 0>>])

GOpt == [maxw |-> 65535, maxh |-> 65535, maxs |-> 64, strict |-> FALSE, hdr |-> FALSE, gray |-> FALSE, nocs |-> FALSE]
Rest == <<opt, pos, marks, tabs, cq, scanvars, res>>
(* the width first: TLC computes initial states one after the other *)
GInit ==
  /\ \E w \in 1..MaxW : inp = <<w>>
  /\ opt = GOpt /\ pos = 1 /\ marks = <<1>> /\ phase = "idle" /\ frame = NoFrame
  /\ qt = None4 /\ hdc = None4 /\ hac = None4 /\ ri = 0 /\ cq = <<<<>>, <<>>, <<>>>>
  /\ scan = <<>> /\ nscan = 0 /\ segs = <<>> /\ ctl = <<>> /\ coef = <<>> /\ lvl = <<>> /\ mrow = 0 /\ good = 0 /\ band = <<>>
  /\ res = NoRes /\ sos = <<>>
PickFrame ==
  /\ phase = "idle" /\ phase' = "soi"
  /\ \E h \in 1..MaxH : \E s \in Sampling : inp' = Header(inp[1], h, s)
  /\ UNCHANGED <<Rest, frame, sos>>
PickScan ==
  /\ phase = "soi" /\ phase' = "marker"
  /\ frame' = FrameOf(3, FALSE)
  /\ sos' \in {<<c>> : c \in 1..Len(frame'.comps)} \cup {[i \in 1..Len(frame'.comps) |-> i]}
  /\ UNCHANGED <<Rest, inp>>
GSpec == GInit /\ [][PickFrame \/ PickScan]_gvars

Ready == phase = "marker"
Accepted == Ready => ~SofBad(3) /\ Supported(frame)

(* samples of component c that belong to the image *)
CW(c) == CeilDiv(frame.w * frame.comps[c].h, frame.hm)
CH(c) == CeilDiv(frame.h * frame.comps[c].v, frame.vm)
Minimal ==
  Ready =>
  /\ (frame.mx - 1) * 8 * frame.hm < frame.w /\ frame.w <= frame.mx * 8 * frame.hm
  /\ (frame.my - 1) * 8 * frame.vm < frame.h /\ frame.h <= frame.my * 8 * frame.vm
  /\ \A c \in 1..Len(frame.comps) :
       LET f == frame.comps[c] IN
       /\ 8 * f.bw >= CW(c) /\ 8 * f.bh >= CH(c) /\ f.nbw <= f.bw /\ f.nbh <= f.bh
       /\ 8 * (f.nbw - 1) < CW(c) /\ CW(c) <= 8 * f.nbw
       /\ 8 * (f.nbh - 1) < CH(c) /\ CH(c) <= 8 * f.nbh

(* blocks a scan visits, in order, as <<component, row, column>> *)
S == [cs |-> sos]
Geo == ScanGeom(S)
Units == McuUnits(S)
RowsOf(c) == IF Len(sos) = 1 THEN 1 ELSE frame.comps[c].v
ColsOf(c) == IF Len(sos) = 1 THEN 1 ELSE frame.comps[c].h
Visits ==
  FlattenSeq([k \in 1..(Geo.rows * Geo.cols) |->
    LET y == (k - 1) \div Geo.cols x == (k - 1) % Geo.cols IN
    [j \in 1..Len(Units) |-> <<Units[j][2], y * RowsOf(Units[j][2]) + Units[j][3], x * ColsOf(Units[j][2]) + Units[j][4]>>]])
Range2(s) == { s[i] : i \in 1..Len(s) }
Covers ==
  Ready =>
  LET v == Visits R == Range2(v) IN
  /\ Cardinality(R) = Len(v)                                         \* none twice
  /\ \A i \in 1..Len(sos) : LET c == sos[i] f == frame.comps[c] IN
       /\ \A y \in 1..f.nbh : \A x \in 1..f.nbw : <<c, y, x>> \in R  \* all that matter
       /\ \A e \in R : e[1] = c => e[2] <= f.bh /\ e[3] <= f.bw      \* inside the store
=============================================================================
