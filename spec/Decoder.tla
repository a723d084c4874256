------------------------------- MODULE Decoder -------------------------------
(* The decoder as a state machine over the bytes of one stream.  One action  *)
(* per thing the decoder does: read a marker segment of each kind, decode    *)
(* one row of MCUs of a scan, finish a scan, reconstruct one row of MCUs.    *)
(*                                                                           *)
(* The verdict `res` is                                                      *)
(*   "ok"   the stream must decode; the samples are those of the bands       *)
(*   "err"  the stream must be refused                                       *)
(*   "part" the entropy-coded data ends early and what is left of it is not   *)
(*          legal: Ok or Err; if Ok, the complete MCUs are as specified      *)
(*   "any"  outside the specified subset: Ok or Err, any samples             *)
(* With "err" comes the set of kinds of error that say what is wrong with     *)
(* the stream; it is empty where no kind is promised.                        *)
EXTENDS JpegCore, TLC

VARIABLES
  phase,   \* "soi" "marker" "scan" "recon" "result" "idle"
  inp,     \* bytes of the stream
  opt,     \* options: [maxw, maxh, maxs, strict, hdr (headers only), gray (only Y is wanted)]
  marks,   \* positions of markers (FF m, m # 0, FF) anywhere in inp
  pos,     \* next byte to read
  qt,      \* quantisation tables 0..3 (<<>> if undefined), natural order
  hdc, hac,\* Huffman tables 0..3 (<<>> if undefined)
  frame,   \* [prog, w, h, hm, vm, mx, my, comps] or NoFrame
  ri,      \* restart interval
  cq,      \* per component: quantisation table latched at its first scan (<<>> before)
  scan,    \* current scan [cs, td, ta, ss, se, ah, al, rows, cols, blocks]
  nscan,   \* scans seen so far
  segs,    \* restart segments of the current scan
  ctl,     \* decoding position inside the scan
  coef,    \* coefficients: component -> block row -> block
  lvl,     \* progressive: component -> zigzag position -> bit position reached (NoLvl: none)
  mrow,    \* MCU row in the current scan / reconstruction
  good,    \* MCUs of a baseline image up to the end of the data (those in ctl.lost were not complete)
  band,    \* reconstructed rows of the current MCU row: component -> row -> samples
  res      \* verdict

dvars == <<phase, inp, opt, marks, pos, qt, hdc, hac, frame, ri, cq, scan, nscan, segs, ctl, coef, lvl, mrow, good,
           band, res>>

NoFrame == [w |-> 0]
NoLvl == 99
None4 == <<<<>>, <<>>, <<>>, <<>>>>
NoRes == [k |-> "none", why |-> "", kinds |-> {}]

B(i) == inp[i]
End == Len(inp) + 1

Verdict(k, why) ==
  /\ res' = [k |-> k, why |-> why, kinds |-> {}]
  /\ phase' = "result"
Err(why) == Verdict("err", why)
ErrK(why, kinds) ==
  /\ res' = [k |-> "err", why |-> why, kinds |-> kinds]
  /\ phase' = "result"
Free(why) == Verdict("any", why)

MarkPositions(b) ==
  SelectSeq([i \in 1..(Len(b) - 1) |-> IF b[i] = 255 /\ b[i + 1] # 0 /\ b[i + 1] # 255 THEN i ELSE 0],
            LAMBDA x : x > 0)

StartJob(bytes, o) ==
  /\ phase' = "soi" /\ inp' = bytes /\ opt' = o /\ pos' = 1
  /\ marks' = IF Len(bytes) < 2 THEN <<>> ELSE MarkPositions(bytes)
  /\ qt' = None4 /\ hdc' = None4 /\ hac' = None4 /\ frame' = NoFrame /\ ri' = 0
  /\ cq' = <<<<>>, <<>>, <<>>>> /\ scan' = <<>> /\ nscan' = 0 /\ segs' = <<>> /\ ctl' = <<>>
  /\ coef' = <<>> /\ lvl' = <<>> /\ mrow' = 0 /\ good' = 0 /\ band' = <<>> /\ res' = NoRes

IdleInit ==
  /\ phase = "idle" /\ inp = <<>> /\ opt = <<>> /\ marks = <<>> /\ pos = 0 /\ qt = None4 /\ hdc = None4 /\ hac = None4
  /\ frame = NoFrame /\ ri = 0 /\ cq = <<>> /\ scan = <<>> /\ nscan = 0 /\ segs = <<>> /\ ctl = <<>>
  /\ coef = <<>> /\ lvl = <<>> /\ mrow = 0 /\ good = 0 /\ band = <<>> /\ res = NoRes

tabs == <<qt, hdc, hac, ri>>
scanvars == <<scan, nscan, segs, ctl, coef, lvl, mrow, good, band>>
jobvars == <<inp, opt, marks>>

ReadSOI ==
  /\ phase = "soi"
  /\ IF Len(inp) < 2 \/ B(1) # 255 \/ B(2) # 216
     THEN ErrK("magic", IF Len(inp) < 2 THEN {} ELSE {"IllegalMagicBytes=" \o ToString(U16(inp, 1))}) /\ UNCHANGED pos
     ELSE phase' = "marker" /\ pos' = 3 /\ UNCHANGED res
  /\ UNCHANGED <<jobvars, tabs, frame, cq, scanvars>>

---------------------------------------------------------------------------
(* The next marker at or after pos.  In headers anything that is not FF is  *)
(* skipped (strict mode: more than three bytes is an error, one to three is *)
(* not specified).                                                          *)
RECURSIVE SkipTo(_, _)
SkipTo(b, p) == IF p > Len(b) THEN p ELSE IF b[p] = 255 THEN p ELSE SkipTo(b, p + 1)
RECURSIVE SkipFF(_, _)
SkipFF(b, p) == IF p > Len(b) THEN p ELSE IF b[p] # 255 THEN p ELSE SkipFF(b, p + 1)

(* [m |-> marker code or -1, p |-> position after it, stray |-> bytes skipped incl. fill] *)
NextMark ==
  LET f == SkipTo(inp, pos) c == SkipFF(inp, f) IN
  IF c > Len(inp) THEN [m |-> -1, p |-> c, stray |-> 0]
  ELSE [m |-> B(c), p |-> c + 1, stray |-> c - pos - 1]

(* length of the segment at p; -1 if it does not lie inside the stream *)
SegLen(p) ==
  IF p + 1 > Len(inp) THEN -1 ELSE U16(inp, p)
Whole(p) == SegLen(p) >= 2 /\ p + SegLen(p) - 1 <= Len(inp)

---------------------------------------------------------------------------
(* DQT: sequence of (precision/destination, 64 values in zigzag order) *)
RECURSIVE DqtTables(_, _, _)
DqtTables(p, left, q) ==
  IF left = 0 THEN [ok |-> TRUE, q |-> q]
  ELSE LET d == B(p) IN
       IF d >= 16 \/ d % 16 > 3 \/ left < 65 THEN [ok |-> FALSE, q |-> q]
       ELSE DqtTables(p + 65, left - 65,
                      [q EXCEPT ![d + 1] = [n \in 1..64 |-> B(p + 1 + ZigzagPos[n - 1])]])

ReadDQT(p) ==
  LET r == DqtTables(p + 2, SegLen(p) - 2, qt) IN
  IF ~Whole(p) THEN Err("dqt length") /\ UNCHANGED <<pos, qt>>
  ELSE IF r.ok THEN qt' = r.q /\ pos' = p + SegLen(p) /\ UNCHANGED <<res, phase>>
  ELSE ErrK("dqt", {"DqtError"}) /\ UNCHANGED <<pos, qt>>

(* DHT: sequence of (class/destination, 16 counts, symbols) *)
RECURSIVE DhtTables(_, _, _, _)
DhtTables(p, left, dc, ac) ==
  IF left = 0 THEN [ok |-> TRUE, dc |-> dc, ac |-> ac]
  ELSE IF left < 17 THEN [ok |-> FALSE, dc |-> dc, ac |-> ac]
  ELSE LET cls  == B(p) \div 16
           dst  == B(p) % 16
           bits == SubSeq(inp, p + 1, p + 16)
           n    == FoldLeft(LAMBDA s, x : s + x, 0, bits)
           vals == SubSeq(inp, p + 17, p + 16 + n)
       IN IF cls > 1 \/ dst > 3 \/ n > left - 17 \/ n > 256 THEN [ok |-> FALSE, dc |-> dc, ac |-> ac]
          ELSE IF ~HuffLegal(bits) \/ (cls = 0 /\ \E i \in 1..n : vals[i] > 15)
               THEN [ok |-> FALSE, dc |-> dc, ac |-> ac]
          ELSE DhtTables(p + 17 + n, left - 17 - n,
                         IF cls = 0 THEN [dc EXCEPT ![dst + 1] = MakeHuff(bits, vals)] ELSE dc,
                         IF cls = 1 THEN [ac EXCEPT ![dst + 1] = MakeHuff(bits, vals)] ELSE ac)

ReadDHT(p) ==
  LET r == DhtTables(p + 2, SegLen(p) - 2, hdc, hac) IN
  IF ~Whole(p) THEN Err("dht length") /\ UNCHANGED <<pos, hdc, hac>>
  ELSE IF r.ok THEN hdc' = r.dc /\ hac' = r.ac /\ pos' = p + SegLen(p) /\ UNCHANGED <<res, phase>>
  ELSE ErrK("dht", {"HuffmanDecode"}) /\ UNCHANGED <<pos, hdc, hac>>

ReadDRI(p) ==
  IF ~Whole(p) \/ SegLen(p) # 4 THEN Err("dri") /\ UNCHANGED <<pos, ri>>
  ELSE ri' = U16(inp, p + 2) /\ pos' = p + 4 /\ UNCHANGED <<res, phase>>

(* a segment without meaning for decoding *)
SkipSegment(p) ==
  IF SegLen(p) < 2 \/ p + SegLen(p) - 1 > Len(inp) THEN Err("segment length") /\ UNCHANGED pos
  ELSE pos' = p + SegLen(p) /\ UNCHANGED <<res, phase>>

---------------------------------------------------------------------------
(* Frame header.  Frames that are legal but that cannot be decoded are      *)
(* accepted by a reading of the headers; `Supported` decides for a decode.  *)
Samplings3 == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>}

FrameOf(p, prog) ==
  LET h == U16(inp, p + 3) w == U16(inp, p + 5) n == B(p + 7)
      raw == [i \in 1..n |-> [id |-> B(p + 5 + 3 * i), h |-> B(p + 6 + 3 * i) \div 16, v |-> B(p + 6 + 3 * i) % 16,
                              tq |-> B(p + 7 + 3 * i)]]
      (* the only component of an image is never sub-sampled *)
      cps == IF n = 1 THEN [raw EXCEPT ![1].h = 1, ![1].v = 1] ELSE raw
      hm == cps[1].h
      vm == cps[1].v
      mx == CeilDiv(w, 8 * hm)
      my == CeilDiv(h, 8 * vm)
  IN [prog |-> prog, w |-> w, h |-> h, hm |-> hm, vm |-> vm, mx |-> mx, my |-> my, raw |-> raw,
      comps |-> [i \in 1..n |-> [h |-> cps[i].h, v |-> cps[i].v, tq |-> cps[i].tq,
                                 bw |-> mx * cps[i].h, bh |-> my * cps[i].v,
                                 nbw |-> CeilDiv(CeilDiv(w * cps[i].h, hm), 8),
                                 nbh |-> CeilDiv(CeilDiv(h * cps[i].v, vm), 8)]]]

SofBad(p) ==      \* must be refused, even by a reading of the headers
  \/ SegLen(p) < 8 \/ ~Whole(p)
  \/ B(p + 2) # 8
  \/ U16(inp, p + 3) = 0 \/ U16(inp, p + 5) = 0
  \/ U16(inp, p + 3) > opt.maxh \/ U16(inp, p + 5) > opt.maxw
  \/ B(p + 7) \notin {1, 3}
  \/ SegLen(p) # 8 + 3 * B(p + 7)
  \/ \E i \in 1..B(p + 7) : \/ B(p + 5 + 3 * i) # i
                            \/ B(p + 6 + 3 * i) \div 16 \notin {1, 2, 4, 8}
                            \/ B(p + 6 + 3 * i) % 16 \notin {1, 2, 4, 8}
                            \/ B(p + 7 + 3 * i) > 3

(* A fault of a header whose kind is not specified makes every kind possible. *)
KindsOf(known, unknown) == IF unknown THEN {} ELSE known

(* what is wrong with a frame header that SofBad refuses *)
SofKinds(p) ==
  IF SegLen(p) < 8 \/ ~Whole(p) THEN {}
  ELSE
  LET h == U16(inp, p + 3) w == U16(inp, p + 5) n == B(p + 7)
      shape == n \in {1, 3} /\ SegLen(p) = 8 + 3 * n
      ids == shape /\ \E i \in 1..n : B(p + 5 + 3 * i) # i
      other == shape /\ \E i \in 1..n : \/ B(p + 5 + 3 * i) \notin 1..3
                                       \/ B(p + 6 + 3 * i) \div 16 \notin {1, 2, 4, 8}
                                       \/ B(p + 6 + 3 * i) % 16 \notin {1, 2, 4, 8}
                                       \/ B(p + 7 + 3 * i) > 3
  IN KindsOf((IF B(p + 2) # 8 \/ ~shape \/ ids THEN {"SofError"} ELSE {}) \cup
             (IF h = 0 \/ w = 0 THEN {"ZeroError"} ELSE {}),
             other \/ h > opt.maxh \/ w > opt.maxw)

Supported(f) ==
  IF Len(f.raw) = 1 THEN <<f.raw[1].h, f.raw[1].v>> \in Samplings3
  ELSE /\ <<f.raw[1].h, f.raw[1].v>> \in Samplings3
       /\ \A i \in 2..3 : f.raw[i].h = 1 /\ f.raw[i].v = 1
GraySampled(f) == Len(f.raw) = 1 /\ <<f.raw[1].h, f.raw[1].v>> # <<1, 1>>

ReadSOF(p, prog) ==
  IF frame # NoFrame THEN ErrK("second frame", {"SofError"}) /\ UNCHANGED <<pos, frame>>
  ELSE IF SofBad(p) THEN ErrK("sof", SofKinds(p)) /\ UNCHANGED <<pos, frame>>
  ELSE frame' = FrameOf(p, prog) /\ pos' = p + SegLen(p) /\ UNCHANGED <<res, phase>>

---------------------------------------------------------------------------
(* Scan header *)
SosOf(p) ==
  LET n == B(p + 2) q == p + 2 + 2 * n IN
  [cs |-> [i \in 1..n |-> B(p + 1 + 2 * i)],
   td |-> [i \in 1..n |-> B(p + 2 + 2 * i) \div 16],
   ta |-> [i \in 1..n |-> B(p + 2 + 2 * i) % 16],
   ss |-> B(q + 1), se |-> B(q + 2), ah |-> B(q + 3) \div 16, al |-> B(q + 3) % 16]

SosBad(p) ==      \* must be refused by anybody
  \/ frame = NoFrame
  \/ ~Whole(p) \/ SegLen(p) < 6
  \/ B(p + 2) \notin 1..3
  \/ SegLen(p) # 6 + 2 * B(p + 2)
  \/ LET s == SosOf(p) IN
     \/ \E i \in 1..Len(s.cs) : s.cs[i] \notin 1..Len(frame.comps)
     \/ \E i, j \in 1..Len(s.cs) : i # j /\ s.cs[i] = s.cs[j]
     \/ \E i \in 1..Len(s.cs) : qt[frame.comps[s.cs[i]].tq + 1] = <<>> /\ cq[s.cs[i]] = <<>>
     \/ s.ah > 13 \/ s.al > 13

SosKinds(p) ==
  IF ~Whole(p) \/ SegLen(p) < 6 \/ frame = NoFrame THEN {}
  ELSE IF B(p + 2) \notin 1..3 \/ SegLen(p) # 6 + 2 * B(p + 2) THEN {"SosError"}
  ELSE LET s == SosOf(p) ids == \A i \in 1..Len(s.cs) : s.cs[i] \in 1..Len(frame.comps) IN
       KindsOf(IF ids /\ \E i \in 1..Len(s.cs) : qt[frame.comps[s.cs[i]].tq + 1] = <<>> /\ cq[s.cs[i]] = <<>>
               THEN {"DqtError"} ELSE {},
               ~ids \/ s.ah > 13 \/ s.al > 13 \/ \E i, j \in 1..Len(s.cs) : i # j /\ s.cs[i] = s.cs[j])

(* the four tables a scan needs *)
NeedDc(s) == ~frame.prog \/ (s.ss = 0 /\ s.ah = 0)
NeedAc(s) == ~frame.prog \/ s.ss > 0
MissingTable(s) ==
  \E i \in 1..Len(s.cs) :
    \/ NeedDc(s) /\ (s.td[i] > 3 \/ hdc[(s.td[i] % 4) + 1] = <<>>)
    \/ NeedAc(s) /\ (s.ta[i] > 3 \/ hac[(s.ta[i] % 4) + 1] = <<>>)

(* Progressive scans that are refused: DC and AC in one scan, AC of several components *)
ProgRefused(s) == s.se \in 1..63 /\ (s.ss = 0 \/ Len(s.cs) > 1)

(* G.1.1.1: a legal continuation of the progression *)
ProgLegal(s) ==
  /\ s.se <= 63 /\ s.ss <= s.se
  /\ Len(s.cs) > 1 => \A i \in 1..(Len(s.cs) - 1) : s.cs[i] < s.cs[i + 1]
  /\ \A i \in 1..Len(s.cs) :
       /\ s.ss > 0 => lvl[s.cs[i]][1] # NoLvl
       /\ \A k \in s.ss..s.se : IF s.ah = 0 THEN lvl[s.cs[i]][k + 1] = NoLvl
                                ELSE lvl[s.cs[i]][k + 1] = s.ah
  /\ s.ah > 0 => s.ah = s.al + 1

(* data units of one MCU, as <<index in scan, component, block row, block column>> *)
McuUnits(s) ==
  IF Len(s.cs) = 1 THEN <<<<1, s.cs[1], 1, 1>>>>
  ELSE FlattenSeq([i \in 1..Len(s.cs) |->
         LET c == frame.comps[s.cs[i]] IN
         [j \in 1..(c.h * c.v) |-> <<i, s.cs[i], ((j - 1) \div c.h) + 1, ((j - 1) % c.h) + 1>>]])

RECURSIVE BackFF(_, _)
BackFF(b, t) == IF b[t - 1] = 255 THEN BackFF(b, t - 1) ELSE t

(* un-stuffed bytes of inp[s .. t-1] *)
Unstuff(s, t) ==
  SelectSeq([k \in 1..(t - s) |-> LET i == s + k - 1 IN
               IF B(i) = 0 /\ i > s /\ B(i - 1) = 255 THEN -1 ELSE B(i)],
            LAMBDA x : x >= 0)

(* entropy-coded data starting at p: [segs, rst (marker numbers), e (position of the next marker or End)] *)
ScanData(p) ==
  LET ms  == SelectSeq(marks, LAMBDA i : i >= p)
      n   == SelectInSeq(ms, LAMBDA i : B(i + 1) \notin 208..215)
      rs  == IF n = 0 THEN ms ELSE SubSeq(ms, 1, n - 1)
      e   == IF n = 0 THEN End ELSE ms[n]
      sta == <<p>> \o [k \in 1..Len(rs) |-> rs[k] + 2]
      sto == rs \o <<e>>
      cut(s, t) == IF t <= Len(inp) THEN Max2(s, IF t > s THEN BackFF(inp, t) ELSE t) ELSE t
  IN [segs |-> [k \in 1..Len(sta) |-> MkSegment(Unstuff(sta[k], cut(sta[k], sto[k])))],
      rst |-> [k \in 1..Len(rs) |-> B(rs[k] + 1) - 208],
      e |-> e]

RstInOrder(r) == \A k \in 1..Len(r) : r[k] = (k - 1) % 8

ScanGeom(s) ==
  IF Len(s.cs) = 1
  THEN [rows |-> frame.comps[s.cs[1]].nbh, cols |-> frame.comps[s.cs[1]].nbw]
  ELSE [rows |-> frame.my, cols |-> frame.mx]

EmptyCoef ==
  [c \in 1..Len(frame.comps) |->
     LET row == [x \in 1..frame.comps[c].bw |-> Zero64] IN [y \in 1..frame.comps[c].bh |-> row]]

BeginScan(s, p) ==
  LET d == ScanData(p) g == ScanGeom(s)
      need == CeilDiv(g.rows * g.cols, IF ri = 0 THEN g.rows * g.cols ELSE ri) IN
  (* no marker follows, whatever the data is: the image has no end *)
  IF frame.prog /\ d.e = End /\ Len(d.segs) = 1
  THEN Err("no end of image") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE
  IF \/ ~RstInOrder(d.rst)
     \/ Len(d.segs) > need
     (* the damage would spread: what a refinement scan reads depends on the block *)
     \/ (s.ah > 0 /\ s.ss > 0 /\ nscan > 0 /\ \E l \in ctl.lost : l[1] = s.cs[1])
  THEN Free("restart markers") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE
    /\ phase' = "scan" /\ UNCHANGED res
    /\ pos' = d.e
    /\ scan' = s @@ [rows |-> g.rows, cols |-> g.cols, units |-> McuUnits(s)]
    /\ nscan' = nscan + 1
    /\ segs' = d.segs
    /\ ctl' = [sg |-> 1, p |-> 0, left |-> IF ri = 0 THEN -1 ELSE ri, pred |-> <<0, 0, 0>>, eob |-> 0, ok |-> TRUE,
               full |-> TRUE, tail |-> TRUE, skip |-> FALSE,
               lost |-> IF nscan = 0 THEN {} ELSE ctl.lost]
    /\ coef' = IF coef = <<>> THEN EmptyCoef ELSE coef
    /\ lvl' = IF ~frame.prog THEN lvl
              ELSE [c \in 1..Len(frame.comps) |->
                     IF \E i \in 1..Len(s.cs) : s.cs[i] = c
                     THEN [k \in 1..64 |-> IF k - 1 \in s.ss..s.se THEN s.al ELSE lvl[c][k]]
                     ELSE lvl[c]]
    /\ cq' = [c \in 1..3 |-> IF cq[c] = <<>> /\ (\E i \in 1..Len(s.cs) : s.cs[i] = c)
                             THEN qt[frame.comps[c].tq + 1] ELSE cq[c]]
    /\ mrow' = 1 /\ good' = 0 /\ UNCHANGED band

(* the first scan header ends a reading of the headers *)
ReadSOS(p) ==
  LET s == SosOf(p) q == p + SegLen(p) IN
  IF SosBad(p) THEN ErrK("sos", SosKinds(p)) /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF opt.hdr THEN Verdict("ok", "") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF ~Supported(frame) THEN Err("sampling") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF opt.strict /\ GraySampled(frame) THEN Err("strict: sampled gray") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF opt.nocs THEN Err("output colourspace") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF ~frame.prog /\ Len(s.cs) # Len(frame.comps) THEN Err("baseline scans") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF frame.prog /\ nscan + 1 > opt.maxs THEN Err("scan limit") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF frame.prog /\ ProgRefused(s) THEN Err("mixed scan") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF s.ss > s.se \/ s.se > 63 THEN Free("scan parameters") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF MissingTable(s) THEN ErrK("missing table", IF frame.prog THEN {} ELSE {"HuffmanDecode"}) /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF ~frame.prog /\ (s.ss # 0 \/ s.se # 63 \/ s.ah # 0 \/ s.al # 0 \/
                          \E i \in 1..Len(s.cs) : s.cs[i] # i)
       THEN Free("scan parameters") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE IF frame.prog /\ ~ProgLegal(s)
       THEN Free("scan script") /\ UNCHANGED <<pos, cq, scanvars>>
  ELSE BeginScan(s, q)

(* frames of a kind that is not decoded; the others have no name *)
Scheme == [m \in {193, 195, 201, 202, 203} |->
             CASE m = 193 -> "ExtendedSequentialHuffman" [] m = 195 -> "LosslessHuffman"
               [] m = 201 -> "ExtendedSequentialDctArithmetic" [] m = 202 -> "ProgressiveDctArithmetic"
               [] OTHER -> "LosslessArithmetic"]
SofMarks == {193, 195, 197, 198, 199, 201, 202, 203, 205, 206, 207}
Known == {192, 194, 196, 218, 219, 221}

(* One marker segment, before the first scan or between progressive scans *)
HeaderStep(M, A(_)) ==
  /\ phase = "marker"
  /\ NextMark.m \in M
  /\ ~(nscan = 0 /\ opt.strict /\ NextMark.stray > 0)
  /\ A(NextMark.p)

ReadTablesDQT == HeaderStep({219}, ReadDQT) /\ UNCHANGED <<jobvars, hdc, hac, ri, frame, cq, scanvars>>
ReadTablesDHT == HeaderStep({196}, ReadDHT) /\ UNCHANGED <<jobvars, qt, ri, frame, cq, scanvars>>
ReadInterval  == HeaderStep({221}, ReadDRI) /\ UNCHANGED <<jobvars, qt, hdc, hac, frame, cq, scanvars>>
ReadBaseline  == HeaderStep({192}, LAMBDA p : ReadSOF(p, FALSE)) /\ UNCHANGED <<jobvars, tabs, cq, scanvars>>
ReadProgressive ==
  /\ phase = "marker" /\ NextMark.m = 194 /\ ~(nscan = 0 /\ opt.strict /\ NextMark.stray > 0)
  /\ ReadSOF(NextMark.p, TRUE)
  /\ lvl' = [c \in 1..3 |-> [k \in 1..64 |-> NoLvl]]
  /\ UNCHANGED <<jobvars, tabs, cq, scan, nscan, segs, ctl, coef, mrow, good, band>>
ReadScan      == HeaderStep({218}, ReadSOS) /\ UNCHANGED <<jobvars, tabs, frame>>
ReadMisc      == HeaderStep((224..239) \cup {254}, SkipSegment)
                 /\ UNCHANGED <<jobvars, tabs, frame, cq, scanvars>>
(* reserved and unknown markers: skipped by their length in headers *)
ReadUnknown   == /\ nscan = 0
                 /\ HeaderStep((2..191) \cup (240..253) \cup {222, 223}, SkipSegment)
                 /\ UNCHANGED <<jobvars, tabs, frame, cq, scanvars>>

ReadRefused ==
  /\ phase = "marker"
  /\ LET x == NextMark IN
     \/ /\ x.m = -1 /\ nscan = 0 /\ Err("end of data")
     \/ /\ x.m = -1 /\ nscan > 0 /\ Err("no end of image")
     \/ /\ x.m # -1 /\ nscan = 0 /\ opt.strict /\ x.stray > 0
        /\ IF x.stray > 3 THEN Err("strict: stray bytes") ELSE Free("strict: stray bytes")
     \/ /\ ~(nscan = 0 /\ opt.strict /\ x.stray > 0)
        /\ \/ x.m \in SofMarks
              /\ ErrK("unsupported frame",
                      IF nscan = 0 /\ x.m \in DOMAIN Scheme THEN {"Unsupported=" \o Scheme[x.m]} ELSE {})
           \/ x.m \in {204, 220} /\ nscan = 0 /\ Err("unsupported marker")
           \/ x.m = 217 /\ nscan = 0 /\ Err("EOI before scan")
           \/ x.m \in {0, 1, 200, 216} \cup (208..215) /\ Free("misplaced marker")
           \/ x.m \in {204, 220, 222, 223} \cup (2..191) \cup (240..253) /\ nscan > 0
              /\ Free("marker between scans")
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scanvars>>

---------------------------------------------------------------------------
(* Scans.  ctl: current segment and bit, MCUs left in the restart interval  *)
(* (-1: no restarts), predictors, EOB run; ok: the data was legal;          *)
(* full: the data was complete; tail: if not, what is left of it, continued *)
(* with zero bits, is legal; skip: the data of this restart interval ended  *)
(* early, the rest of it is lost; lost: the blocks lost that way in any scan*)
(* (component, row, column).                                                *)
CurSeg(c) == IF c.sg <= Len(segs) THEN segs[c.sg] ELSE MkSegment(<<>>)

Restart(c) ==
  IF c.left # 0 THEN c
  ELSE [c EXCEPT !.sg = @ + 1, !.p = 0, !.left = ri, !.pred = <<0, 0, 0>>, !.eob = 0, !.skip = FALSE,
        (* data left over before the marker: nothing is promised *)
        !.ok = @ /\ (c.skip \/ CurSeg(c).n - c.p < 8)]

(* one data unit; u = <<index in scan, component, row in MCU, column in MCU>> *)
UnitStep(c, blk, u) ==
  LET seg == CurSeg(c) i == u[1] ci == u[2] IN
  IF ~frame.prog
  THEN LET r == SeqBlock(seg, c.p, hdc[scan.td[i] + 1], hac[scan.ta[i] + 1], c.pred[ci]) IN
       [c |-> [c EXCEPT !.p = r.p, !.pred[ci] = r.dc, !.ok = @ /\ r.ok], blk |-> r.blk]
  ELSE IF scan.ss = 0
  THEN IF scan.ah = 0
       THEN LET r == DcFirst(seg, c.p, hdc[scan.td[i] + 1], c.pred[ci], blk, scan.al) IN
            [c |-> [c EXCEPT !.p = r.p, !.pred[ci] = r.dc, !.ok = @ /\ r.ok], blk |-> r.blk]
       ELSE LET r == DcRefine(seg, c.p, blk, scan.al) IN [c |-> [c EXCEPT !.p = r.p], blk |-> r.blk]
  ELSE IF scan.ah = 0
  THEN IF c.eob > 0 THEN [c |-> [c EXCEPT !.eob = @ - 1], blk |-> blk]
       ELSE LET r == AcFirst(seg, c.p, hac[scan.ta[i] + 1], blk, scan.ss, scan.se, scan.al) IN
            [c |-> [c EXCEPT !.p = r.p, !.eob = r.eob, !.ok = @ /\ r.ok], blk |-> r.blk]
  ELSE IF c.eob > 0
       THEN LET r == CorrectRest(seg, c.p, blk, scan.ss, scan.se, scan.al) IN
            [c |-> [c EXCEPT !.p = r.p, !.eob = @ - 1], blk |-> r.blk]
       ELSE LET r == AcRefine(seg, c.p, hac[scan.ta[i] + 1], blk, scan.ss, scan.se, scan.al) IN
            [c |-> [c EXCEPT !.p = r.p, !.eob = r.eob, !.ok = @ /\ r.ok], blk |-> r.blk]

(* block rows of the scan's components in MCU row m *)
RowH(c) == IF Len(scan.cs) = 1 THEN 1 ELSE frame.comps[c].v
RowW(c) == IF Len(scan.cs) = 1 THEN 1 ELSE frame.comps[c].h

(* zero bits are legal for a whole MCU *)
ZeroLegal ==
  LET e == MkSegment(<<>>) IN
  \A j \in 1..Len(scan.cs) : SeqBlock(e, 0, hdc[scan.td[j] + 1], hac[scan.ta[j] + 1], 0).ok

(* zero bits make a run of blocks, which could go on beyond the interval *)
ZeroRun ==
  /\ frame.prog /\ scan.ss > 0
  /\ LET y == Sym(MkSegment(<<>>), 0, hac[scan.ta[1] + 1]) IN y.s >= 0 /\ y.s % 16 = 0 /\ (y.s \div 16) \in 1..14

BlocksOf(x) ==
  { <<scan.units[i][2], (mrow - 1) * RowH(scan.units[i][2]) + scan.units[i][3], (x - 1) * RowW(scan.units[i][2]) + scan.units[i][4]>> :
    i \in 1..Len(scan.units) }

McuStep(a, x) ==
  LET c0 == Restart(a.c)
      lose == [c0 EXCEPT !.skip = TRUE, !.left = IF @ = -1 THEN -1 ELSE @ - 1, !.lost = @ \cup BlocksOf(x)] IN
  IF ~a.c.ok \/ ~a.c.full THEN a
  ELSE IF ~c0.ok THEN [a EXCEPT !.c = c0]
  ELSE IF c0.skip THEN [a EXCEPT !.c = lose, !.good = @ + 1]
  ELSE
  LET b == FoldLeft(LAMBDA t, u :
                      LET col == (x - 1) * RowW(u[2]) + u[4]
                          r == UnitStep(t.c, t.rows[u[2]][u[3]][col], u)
                      IN [c |-> r.c, rows |-> [t.rows EXCEPT ![u[2]][u[3]][col] = r.blk]],
                    [c |-> c0, rows |-> a.rows], scan.units)
      n == CurSeg(b.c).n
      done == b.c.p <= n
      (* zero bits after the end of the data need not be a legal block *)
      legal == b.c.ok \/ b.c.p + 32 > n
      inner == c0.sg < Len(segs)      \* a restart marker follows
  IN IF done /\ b.c.ok
     THEN [c |-> [b.c EXCEPT !.left = IF @ = -1 THEN -1 ELSE @ - 1], rows |-> b.rows, good |-> a.good + 1]
     ELSE IF ~legal THEN [a EXCEPT !.c.ok = FALSE]
     (* the data ended inside this MCU: keep what was there before *)
     ELSE IF frame.prog
     THEN [a EXCEPT !.c = [lose EXCEPT !.ok = ~(inner /\ (b.c.eob > c0.left - 1 \/ ZeroRun))], !.good = @ + 1]
     ELSE IF inner
     THEN [a EXCEPT !.c = [lose EXCEPT !.tail = @ /\ b.c.ok /\ ZeroLegal], !.good = @ + 1]
     ELSE [a EXCEPT !.c.full = FALSE, !.c.tail = b.c.ok /\ ri = 0 /\ ZeroLegal /\ inp[Len(inp)] # 255]

ColSeq(n) == [x \in 1..n |-> x]

DecodeRow ==
  /\ phase = "scan" /\ mrow <= scan.rows
  /\ LET old == [c \in 1..Len(frame.comps) |->
                   IF \E i \in 1..Len(scan.cs) : scan.cs[i] = c
                   THEN [v \in 1..RowH(c) |-> coef[c][(mrow - 1) * RowH(c) + v]] ELSE <<>>]
         r == FoldLeft(McuStep, [c |-> ctl, rows |-> old, good |-> good], ColSeq(scan.cols))
     IN /\ ctl' = r.c
        /\ good' = r.good
        /\ coef' = [c \in 1..Len(frame.comps) |->
                      IF old[c] = <<>> THEN coef[c]
                      ELSE FoldLeft(LAMBDA cc, v : [cc EXCEPT ![(mrow - 1) * RowH(c) + v] = r.rows[c][v]],
                                    coef[c], ColSeq(RowH(c)))]
        (* once the data is bad nothing after it matters *)
        /\ mrow' = IF r.c.ok /\ r.c.full THEN mrow + 1 ELSE scan.rows + 1
  /\ UNCHANGED <<phase, jobvars, pos, tabs, frame, cq, scan, nscan, segs, lvl, band, res>>

EndScan ==
  /\ phase = "scan" /\ mrow > scan.rows
  /\ IF ~ctl.ok THEN Free("entropy data") /\ UNCHANGED mrow
     ELSE IF frame.prog THEN phase' = "marker" /\ UNCHANGED <<res, mrow>>
     (* a marker other than EOI after the data of a baseline image may be refused *)
     ELSE IF ctl.full /\ NextMark.m \notin {-1, 217} THEN Free("marker after the data") /\ UNCHANGED mrow
     ELSE phase' = "recon" /\ mrow' = 1 /\ UNCHANGED res
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scan, nscan, segs, ctl, coef, lvl, good, band>>

EndImage ==
  /\ phase = "marker" /\ nscan > 0 /\ NextMark.m = 217
  /\ phase' = "recon" /\ mrow' = 1
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scan, nscan, segs, ctl, coef, lvl, good, band, res>>

---------------------------------------------------------------------------
(* Reconstruction of MCU row m: samples of each component at full size      *)
Wild == [i \in 1..64 |-> -1000]
BlockRows(c, brow) ==      \* 8 rows of samples of block row brow (1-based)
  LET bl == [x \in 1..frame.comps[c].bw |-> IF Tame(coef[c][brow][x], cq[c]) THEN Idct(coef[c][brow][x], cq[c]) ELSE Wild] IN
  [y \in 1..8 |-> [x \in 1..(8 * frame.comps[c].bw) |-> bl[((x - 1) \div 8) + 1][(y - 1) * 8 + ((x - 1) % 8) + 1]]]

(* samples in MCU row m of these components are not defined *)
WildRow(n, m) ==
  \E c \in 1..n : \E v \in 1..frame.comps[c].v : \E x \in 1..frame.comps[c].bw : ~Tame(coef[c][(m - 1) * frame.comps[c].v + v][x], cq[c])

CompRows(c, m) ==
  LET cp == frame.comps[c]
      raw == FlattenSeq([v \in 1..cp.v |-> BlockRows(c, (m - 1) * cp.v + v)])
      vup == IF frame.vm = 2 * cp.v THEN UpRows(raw) ELSE raw
  IN IF frame.hm = 2 * cp.h THEN [y \in 1..Len(vup) |-> Up2(vup[y])] ELSE vup

(* a component that no scan carried has no table: its coefficients are all zero *)
HasTable(c) == cq[c] # <<>>

Reconstruct ==
  /\ phase = "recon" /\ mrow <= frame.my
  /\ IF \E c \in 1..Len(frame.comps) : ~HasTable(c)
     THEN Free("component without scan") /\ UNCHANGED <<band, mrow>>
     ELSE /\ band' = [c \in 1..(IF opt.gray THEN 1 ELSE Len(frame.comps)) |-> CompRows(c, mrow)]
          /\ mrow' = mrow + 1
          /\ UNCHANGED <<phase, res>>
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scan, nscan, segs, ctl, coef, lvl, good>>

Finish ==
  /\ phase = "recon" /\ mrow > frame.my
  /\ Verdict(IF IF ctl.lost = {} THEN ctl.full \/ ctl.tail ELSE ~frame.prog /\ ctl.full /\ ctl.tail THEN "ok" ELSE "part", "")
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scanvars>>

DecoderNext ==
  \/ ReadSOI \/ ReadTablesDQT \/ ReadTablesDHT \/ ReadInterval \/ ReadBaseline \/ ReadProgressive
  \/ ReadScan \/ ReadMisc \/ ReadUnknown \/ ReadRefused
  \/ DecodeRow \/ EndScan \/ EndImage \/ Reconstruct \/ Finish

---------------------------------------------------------------------------
(* Invariants of the machine *)
TypeOK ==
  /\ phase \in {"soi", "marker", "scan", "recon", "result", "idle"}
  /\ res.k \in {"none", "ok", "part", "err", "any"}
  /\ (phase = "result") <=> (res.k # "none")
  /\ frame # NoFrame => frame.w > 0 /\ frame.h > 0 /\ frame.w <= opt.maxw /\ frame.h <= opt.maxh
(* no scan is decoded without its tables, or beyond the limit *)
ScanReady ==
  phase = "scan" => /\ frame # NoFrame
                    /\ ~MissingTable(scan)
                    /\ frame.prog => nscan <= opt.maxs
                    /\ \A i \in 1..Len(scan.cs) : cq[scan.cs[i]] # <<>>
(* the progression never goes backwards, and DC comes before AC *)
Progression ==
  (frame # NoFrame /\ frame.prog) =>
    \A c \in 1..Len(frame.comps) : \A k \in 2..64 : lvl[c][k] # NoLvl => lvl[c][1] # NoLvl
=============================================================================
