-------------------------------- MODULE Object --------------------------------
(* The decoder object as its user sees it: options, setters, decodes and      *)
(* header reads, in any order, on any number of decoder objects.  What a      *)
(* decode returns is a function of the image in the stream and of the output  *)
(* colourspace in effect; nothing else (threads, SIMD, build, coding of the   *)
(* image, route to the bytes, earlier calls) may show.  The function itself   *)
(* is not known here (Decoder.tla defines it): it is learnt from the first    *)
(* call that uses it, and every later call must agree.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES
  o,      \* options of the live decoder: cs, un, th, mw, mh, ms, st
  rep,    \* colourspace the decoder reports (GRAY after a one-component image)
  pix,    \* learnt: <<image, colourspace>> -> [n, dig]
  full,   \* learnt: <<stream, call, options that may matter>> -> everything observable
  out     \* what the specification says about the last call: "fine" or a complaint

ovars == <<o, rep, pix, full, out>>

Defaults == [cs |-> "RGB", un |-> TRUE, th |-> 4, mw |-> 16384, mh |-> 16384, ms |-> 64, st |-> FALSE]
Channels(c) == CASE c = "GRAY" -> 1 [] c \in {"RGB", "YCC"} -> 3 [] OTHER -> 4
NoConversion == {"CMYK", "YCCK"}

(* a sequence of <<option, value>> settings: each changes what it names, the last one wins *)
Configured(sets) == FoldLeft(LAMBDA a, s : [a EXCEPT ![s.k] = s.v], Defaults, sets)

OInit == o = Defaults /\ rep = "RGB" /\ pix = << >> /\ full = << >> /\ out = "fine"

Forget == pix' = << >> /\ full' = << >>
Known(f, k) == k \in DOMAIN f
Learn(f, k, v) == IF k \in DOMAIN f THEN f ELSE f @@ (k :> v)

---------------------------------------------------------------------------
(* Calls that do not decode.  e: the call and what was observed after it *)
Create(e) ==
  /\ o' = Configured(e.sets) /\ rep' = o'.cs
  /\ out' = IF e.kind # "ok" THEN "new: " \o e.kind ELSE IF e.ocs # rep' THEN "colourspace after new" ELSE "fine"
  /\ UNCHANGED <<pix, full>>

(* the getters of ZuneJpegOptions; no decoder is involved *)
Options(e) ==
  /\ out' = IF e.kind # "ok" THEN "options: " \o e.kind
            ELSE IF e.got # Configured(e.sets) THEN "values of the options" ELSE "fine"
  /\ UNCHANGED <<o, rep, pix, full>>

Setter(e, ok) ==
  out' = IF e.kind # (IF ok THEN "ok" ELSE "err") THEN e.op \o ": " \o e.kind
         ELSE IF e.ocs # rep' THEN "colourspace after " \o e.op ELSE "fine"

SetSpace(e)   == o' = [o EXCEPT !.cs = e.cs] /\ rep' = e.cs /\ Setter(e, TRUE) /\ UNCHANGED <<pix, full>>
SetRgba(e)    == o' = [o EXCEPT !.cs = "RGBA"] /\ rep' = "RGBA" /\ Setter(e, TRUE) /\ UNCHANGED <<pix, full>>
SetLimits(e)  == o' = [o EXCEPT !.mw = e.mw, !.mh = e.mh] /\ UNCHANGED <<rep, pix, full>> /\ Setter(e, TRUE)
SetThreads(e) == /\ o' = IF e.th = 0 THEN o ELSE [o EXCEPT !.th = e.th]
                 /\ UNCHANGED <<rep, pix, full>> /\ Setter(e, e.th # 0)
Query(e)      == UNCHANGED <<o, rep, pix, full>> /\ Setter(e, TRUE)

(* a file that cannot be read *)
NoFile(e) ==
  /\ out' = IF e.kind # "err" THEN "unreadable file: " \o e.kind
            ELSE IF e.ocs \notin {rep, o.cs} THEN "colourspace after unreadable file" ELSE "fine"
  /\ rep' = IF e.ocs \in {rep, o.cs} THEN e.ocs ELSE rep
  /\ UNCHANGED <<o, pix, full>>

---------------------------------------------------------------------------
(* Decodes and header reads.  e.cls: "good" a stream of the supported subset *)
(* (its size, scans, ... are given), "bad" one that must be refused, "any".  *)
(* e.upto: part of the options that may decide the fate of the stream.       *)
Eff(e) == IF e.comps = 1 THEN "GRAY" ELSE o.cs
IsHeaders(e) == e.op = "headers"

TooLarge(e) == e.sw > o.mw \/ e.sh > o.mh
Refused(e) ==
  \/ e.cls = "bad"
  \/ e.cls = "good" /\
     (\/ TooLarge(e)
      \/ o.st /\ e.stray > 3
      \/ ~IsHeaders(e) /\ (\/ e.prog /\ e.scans > o.ms
                           \/ e.comps = 3 /\ o.cs \in NoConversion
                           \/ o.st /\ e.gs))
(* one to three stray or fill bytes in strict mode: not specified *)
MayRefuse(e) == e.cls = "any" \/ (o.st /\ e.stray \in 1..3)

(* with these options the frame header is read *)
PastFrame(e) == e.cls = "good" /\ ~TooLarge(e) /\ ~(o.st /\ e.stray > 0)

ColourspaceBad(e) ==
  IF PastFrame(e) THEN e.ocs # Eff(e)
  ELSE e.ocs \notin {o.cs, "GRAY"} \/ (e.cls = "good" /\ e.comps = 3 /\ e.ocs # o.cs)

(* what was seen, in full; in strict mode a refusal may replace it *)
FullKey(e) == <<e.stream, e.call, o.cs, o.mw, o.mh, o.ms>>
Seen(e) == [kind |-> e.kind, var |-> e.var, w |-> e.w, h |-> e.h, info |-> e.info, more |-> e.more, ocs |-> e.ocs, n |-> e.n, dig |-> e.dig]

FullBad(e) ==
  IF o.st /\ e.kind = "err" THEN FALSE        \* compared among strict decodes only, see StrictKey
  ELSE Known(full, FullKey(e)) /\ full[FullKey(e)] # Seen(e)
StrictKey(e) == <<"strict", FullKey(e)>>
StrictBad(e) == o.st /\ Known(full, StrictKey(e)) /\ full[StrictKey(e)] # Seen(e)

(* Memory (in KiB, -1: not measured).  What the headers say about the size counts only once it is within the limits. *)
CeilBy(a, b) == (a + b - 1) \div b
MemSmall(e) == 256 + 4 * CeilBy(e.ln, 1024)
(* 40 bytes per pixel of the image, in units of 16 by 16 *)
MemImage(w, h) == 10 * CeilBy(w, 16) * CeilBy(h, 16)
MemMay(e) ==
  IF IsHeaders(e) \/ (e.cls = "good" /\ (TooLarge(e) \/ (o.st /\ e.stray > 3))) THEN MemSmall(e)
  ELSE IF e.cls = "good" THEN MemSmall(e) + MemImage(e.sw, e.sh)
  ELSE IF e.info.comps = 0 \/ e.w > o.mw \/ e.h > o.mh THEN MemSmall(e)
  ELSE MemSmall(e) + MemImage(e.w, e.h)
MemBad(e) == e.mem > MemMay(e)

PixKey(e) == <<e.img, Eff(e)>>
PixSeen(e) == [n |-> e.n, dig |-> e.dig]
Pixels(e) == e.cls = "good" /\ ~IsHeaders(e) /\ e.kind = "ok"

Complaint(e) ==
  IF e.kind \notin {"ok", "err"} THEN e.kind
  ELSE IF Refused(e) /\ e.kind = "ok" THEN "accepted, must be refused"
  ELSE IF e.cls = "good" /\ ~Refused(e) /\ ~MayRefuse(e) /\ e.kind # "ok" THEN "refused, must be accepted"
  ELSE IF PastFrame(e) /\ (e.w # e.sw \/ e.h # e.sh \/ e.info # [w |-> e.sw, h |-> e.sh, comps |-> e.comps, prog |-> e.prog])
       THEN "reported image information"
  ELSE IF ColourspaceBad(e) THEN "reported colourspace"
  ELSE IF Pixels(e) /\ e.n # e.sw * e.sh * Channels(Eff(e)) THEN "length of the output"
  ELSE IF ~IsHeaders(e) /\ e.cls # "good" /\ e.kind = "ok" /\ e.n # e.w * e.h * Channels(e.ocs) THEN "length of the output"
  ELSE IF Pixels(e) /\ Known(pix, PixKey(e)) /\ pix[PixKey(e)] # PixSeen(e) THEN "pixels differ from another decode of the same image"
  ELSE IF MemBad(e) THEN "memory needed: " \o ToString(e.mem) \o " KiB, expected at most " \o ToString(MemMay(e))
  ELSE IF FullBad(e) THEN "outcome differs from the same call before"
  ELSE IF StrictBad(e) THEN "outcome differs from the same strict call before"
  ELSE "fine"

Call(e) ==
  /\ out' = Complaint(e)
  /\ pix' = IF Pixels(e) THEN Learn(pix, PixKey(e), PixSeen(e)) ELSE pix
  /\ full' = IF o.st THEN Learn(IF e.kind = "ok" THEN Learn(full, FullKey(e), Seen(e)) ELSE full, StrictKey(e), Seen(e))
             ELSE Learn(full, FullKey(e), Seen(e))
  /\ rep' = IF PastFrame(e) THEN Eff(e) ELSE IF e.ocs = "GRAY" THEN "GRAY" ELSE o.cs
  /\ UNCHANGED o

Step(e) ==
  \/ e.op = "new" /\ Create(e)
  \/ e.op = "options" /\ Options(e)
  \/ e.op = "set_output_colorspace" /\ SetSpace(e)
  \/ e.op = "rgba" /\ SetRgba(e)
  \/ e.op = "set_limits" /\ SetLimits(e)
  \/ e.op = "set_num_threads" /\ SetThreads(e)
  \/ e.op = "query" /\ Query(e)
  \/ e.op = "nofile" /\ NoFile(e)
  \/ e.op \in {"decode", "file", "headers"} /\ Call(e)

---------------------------------------------------------------------------
OTypeOK ==
  /\ o.cs \in {"RGB", "RGBA", "RGBX", "GRAY", "YCC", "CMYK", "YCCK"}
  /\ o.th > 0
  /\ rep \in {o.cs, "GRAY"}
=============================================================================
