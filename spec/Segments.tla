------------------------------- MODULE Segments -------------------------------
(* Every order of marker segments, up to a length: streams of one 16x8 gray    *)
(* image put together from whole segments, legal or not.  The model keeps what *)
(* a decoder must remember between segments and says what becomes of the       *)
(* stream; TLC visits all sequences, each is run on the real decoder and       *)
(* judged by Decoder.tla, whose verdict must agree with the one here.          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
  Items,     \* segments to choose from
  Starts,    \* what is there already
  MaxLen     \* segments added, at most
(* "q1" "q2": DQT, destination 0, two different tables;  "d1" "d2" "a1" "a2": DHT (DC, AC), destination 0;                  *)
(* "base" "prog": SOF0, SOF2;  "r0" "r1": DRI 0, 1;  "com";  "scan": all coefficients;  "dc" "ac" "dc2" "ac2": progressive  *)
(* scans (first at bit 1, then refined);  "eoi" "soi" "rst" "dnl" "dac" "sof1"                                              *)

VARIABLES n, seq, q, cq, d, a, frame, lvl, ri, end
svars == <<n, seq, q, cq, d, a, frame, lvl, ri, end>>

Prefix(s) ==
  CASE s = "nothing" -> <<>>
    [] s = "header" -> <<"q1", "d1", "a1">>
    [] s = "base" -> <<"q1", "d1", "a1", "base">>
    [] s = "prog" -> <<"q1", "d1", "a1", "prog">>
    [] s = "first" -> <<"q1", "d1", "a1", "prog", "dc">>
    [] s = "both" -> <<"q1", "d1", "a1", "prog", "dc", "ac">>
SInit ==
  \E s \in Starts :
    LET p == Prefix(s) has(x) == \E i \in 1..Len(p) : p[i] = x one(x) == IF has(x) THEN 1 ELSE 0 IN
    /\ n = 0 /\ seq = p /\ q = one("q1") /\ cq = one("dc") /\ d = one("d1") /\ a = one("a1")
    /\ frame = IF has("base") THEN "base" ELSE IF has("prog") THEN "prog" ELSE "none"
    /\ lvl = [dc |-> IF has("dc") THEN 1 ELSE 9, ac |-> IF has("ac") THEN 1 ELSE 9]
    /\ ri = 0 /\ end = "open"

Stop(v) == end' = v /\ UNCHANGED <<q, cq, d, a, frame, lvl, ri>>
Keep == UNCHANGED end
Scans == lvl.dc # 9
Num(x) == IF x \in {"q1", "d1", "a1", "r1"} THEN 1 ELSE IF x = "r0" THEN 0 ELSE 2

Tables(x) ==
  \/ x \in {"q1", "q2"} /\ q' = Num(x) /\ Keep /\ UNCHANGED <<cq, d, a, frame, lvl, ri>>
  \/ x \in {"d1", "d2"} /\ d' = Num(x) /\ Keep /\ UNCHANGED <<q, cq, a, frame, lvl, ri>>
  \/ x \in {"a1", "a2"} /\ a' = Num(x) /\ Keep /\ UNCHANGED <<q, cq, d, frame, lvl, ri>>
  \/ x \in {"r0", "r1"} /\ ri' = Num(x) /\ Keep /\ UNCHANGED <<q, cq, d, a, frame, lvl>>
  \/ x = "com" /\ Keep /\ UNCHANGED <<q, cq, d, a, frame, lvl, ri>>

Frame(x) ==
  /\ x \in {"base", "prog"}
  /\ IF frame # "none" THEN Stop("err") ELSE frame' = x /\ Keep /\ UNCHANGED <<q, cq, d, a, lvl, ri>>

(* the quantisation table of a component is the one defined when its first scan begins *)
NoTable == cq = 0 /\ q = 0
Begin == cq' = IF cq = 0 THEN q ELSE cq

Whole(x) ==
  /\ x = "scan"
  /\ IF frame # "base" \/ NoTable \/ d = 0 \/ a = 0 THEN Stop("err")
     ELSE end' = "scanned" /\ Begin /\ UNCHANGED <<q, d, a, frame, lvl, ri>>
First(x) ==
  /\ x \in {"dc", "ac"}
  /\ IF frame = "none" \/ NoTable THEN Stop("err")
     ELSE IF frame = "base" THEN Stop(IF d = 0 \/ a = 0 THEN "err" ELSE "any")
     ELSE IF (x = "dc" /\ d = 0) \/ (x = "ac" /\ a = 0) THEN Stop("err")
     ELSE IF lvl[x] # 9 \/ (lvl.dc = 9 /\ x = "ac") THEN Stop("any")
     ELSE lvl' = [lvl EXCEPT ![x] = 1] /\ Begin /\ Keep /\ UNCHANGED <<q, d, a, frame, ri>>
Refine(x) ==
  /\ x \in {"dc2", "ac2"}
  /\ LET k == IF x = "dc2" THEN "dc" ELSE "ac" IN
     IF frame = "none" \/ NoTable THEN Stop("err")
     ELSE IF frame = "base" THEN Stop(IF d = 0 \/ a = 0 THEN "err" ELSE "any")
     ELSE IF x = "ac2" /\ a = 0 THEN Stop("err")
     ELSE IF lvl[k] # 1 THEN Stop("any")
     ELSE lvl' = [lvl EXCEPT ![k] = 0] /\ Begin /\ Keep /\ UNCHANGED <<q, d, a, frame, ri>>
(* nothing ends a progressive image before EOI *)
Last(x) ==
  \/ x = "eoi" /\ Stop(IF Scans THEN "ok" ELSE "err")
  \/ x \in {"soi", "rst"} /\ Stop("any")
  \/ x \in {"dnl", "dac"} /\ Stop(IF Scans THEN "any" ELSE "err")
  \/ x = "sof1" /\ Stop("err")

SNext ==
  /\ end = "open" /\ n < MaxLen /\ n' = n + 1
  /\ \E x \in Items :
       /\ seq' = Append(seq, x)
       /\ Tables(x) \/ Frame(x) \/ Whole(x) \/ First(x) \/ Refine(x) \/ Last(x)
SSpec == SInit /\ [][SNext]_svars

(* what has been remembered is what the sequence says *)
In(S) == \E i \in 1..Len(seq) : seq[i] \in S
Remembers ==
  /\ end = "open" => (q # 0 <=> In({"q1", "q2"})) /\ (d # 0 <=> In({"d1", "d2"})) /\ (a # 0 <=> In({"a1", "a2"}))
  /\ end \in {"ok", "scanned"} => In({"q1", "q2"}) /\ In({"base", "prog"})
  /\ lvl.ac # 9 => lvl.dc # 9
Leaf == end # "open" \/ n = MaxLen
EmitSeq == Leaf => PrintT("SEGS " \o ToJson([seq |-> seq, end |-> end]))
=============================================================================
