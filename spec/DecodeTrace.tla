----------------------------- MODULE DecodeTrace -----------------------------
(* Checks recorded decodes against the decoder specification.  Each case has *)
(* the bytes, the options and what the real decoder returned; the lanes run  *)
(* through their cases independently.                                        *)
EXTENDS Decoder, Json, IOUtils

CONSTANT Lanes
Cases == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Cases)

VARIABLES lane, idx, step
tvars == <<lane, idx, step>>

Case == Cases[idx]

TInit == /\ lane \in 1..Lanes /\ idx = lane - Lanes /\ step = 0 /\ IdleInit

(* what is said about case idx; the driver reads these lines *)
Say(id, what) == PrintT(<<"REJECT", id, what>>)

Begin ==
  /\ phase = "idle" /\ idx + Lanes <= N
  /\ idx' = idx + Lanes /\ step' = 0 /\ UNCHANGED lane
  /\ LET c == Cases[idx + Lanes] IN
     StartJob(c.bytes, [maxw |-> c.maxw, maxh |-> c.maxh, maxs |-> c.maxs, strict |-> c.strict, hdr |-> c.hdr,
                        gray |-> c.gray, nocs |-> c.nocs])

(* samples of the rows of this band that lie inside the image, against the recorded pixels *)
FirstRow == (mrow - 1) * 8 * frame.vm        \* of the band just made: mrow has moved on
Channels == Len(band')
BandBad(b, m) ==
  LET r0 == (m - 1) * 8 * frame.vm
      nr == Min2(8 * frame.vm, frame.h - r0)
      w  == frame.w
      n  == Len(b)
      px == Case.px
      (* MCUs of this row whose data was complete, and (when chroma is filtered) the next one too *)
      full == IF frame.prog \/ good >= frame.mx * frame.my THEN w
              ELSE LET k == Max2(0, Min2(frame.mx, good - (m - 1) * frame.mx)) IN
                   IF k = frame.mx THEN w
                   ELSE Max2(0, Min2(w, 8 * frame.hm * k - (IF frame.hm = 2 /\ n = 3 THEN 2 ELSE 0)))
      (* ... and not the blocks lost inside a scan *)
      cp(c) == frame.comps[c]
      at(c, y, x) == <<c, (m - 1) * cp(c).v + ((y - 1) * cp(c).v) \div (8 * frame.vm) + 1, ((x - 1) * cp(c).h) \div (8 * frame.hm) + 1>>
      lost(c, y, x) == at(c, y, x) \in ctl.lost
      gone(c, y, x) == IF ctl.lost = {} THEN FALSE
                       ELSE lost(c, y, x) \/ (frame.hm > cp(c).h /\ (lost(c, y, x - 2) \/ lost(c, y, x + 2)))
  IN { y \in 1..nr : \E x \in 1..full : \E c \in 1..n :
         /\ AbsI(px[((r0 + y - 1) * w + x - 1) * n + c] - b[c][y][x]) > Case.tol
         /\ ~gone(c, y, x) }

Compare ==
  LET bad == BandBad(band', mrow) IN
  IF Case.kind # "ok" \/ Case.n # frame.w * frame.h * Len(band') \/ bad = {} \/ WildRow(Len(band'), mrow) THEN TRUE
  ELSE Say(Case.id, "samples in row " \o ToString((mrow - 1) * 8 * frame.vm + (CHOOSE y \in bad : \A z \in bad : y <= z) - 1))

InfoBad ==
  /\ frame # NoFrame
  /\ \/ Case.w # frame.w \/ Case.h # frame.h \/ Case.comps # Len(frame.comps) \/ Case.prog # frame.prog

Conclude ==
  /\ phase = "result"
  /\ phase' = "idle" /\ res' = NoRes
  /\ UNCHANGED <<jobvars, pos, tabs, frame, cq, scanvars, lane, idx>>
  /\ step' = step + 1
  /\ IF Case.kind \notin {"ok", "err"} THEN Say(Case.id, "decoder " \o Case.kind)
     ELSE IF InfoBad THEN Say(Case.id, "reported image information")
     ELSE IF res.k = "ok" /\ Case.kind # "ok" THEN Say(Case.id, "refused, must be accepted")
     ELSE IF res.k = "err" /\ Case.kind # "err" THEN Say(Case.id, "accepted, must be refused: " \o res.why)
     ELSE IF Case.errs /\ res.k = "err" /\ res.kinds # {} /\ Case.err \notin res.kinds
          THEN Say(Case.id, "kind of error: " \o Case.err \o " for " \o res.why)
     ELSE IF Case.errs /\ Case.kind = "err" /\ Case.err = "Blank" THEN Say(Case.id, "error without a text")
     ELSE IF (res.k = "ok" \/ (res.k = "part" /\ Case.kind = "ok")) /\ ~opt.hdr /\ Case.n # frame.w * frame.h * Len(band) THEN Say(Case.id, "length of the output")
     ELSE TRUE
  /\ PrintT(<<"VERDICT", Case.id, res.k, res.why>>)

Run ==
  /\ phase \notin {"idle", "result"}
  /\ DecoderNext
  /\ (phase = "recon" /\ phase' = "recon") => Compare
  /\ step' = step + 1 /\ UNCHANGED <<lane, idx>>

TNext == Begin \/ Run \/ Conclude

TSpec == TInit /\ [][TNext]_<<dvars, tvars>>
View == <<lane, idx, step>>
(* every lane came to its end: no case left the specification stuck *)
Progress == phase # "idle" => ENABLED (DecoderNext) \/ phase = "result"
=============================================================================
