-------------------------------- MODULE Stream --------------------------------
(* The grammar of JPEG streams as a state machine: each behaviour builds one  *)
(* abstract stream (a "plan"), segment by segment and scan by scan, making    *)
(* every choice the format allows nondeterministically.  `tlc -simulate`      *)
(* draws plans, `tlc` enumerates them all when the choice sets are small.     *)
(* lib/concretise.py turns a plan into bytes; Decoder.tla says what they mean.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Samps,      \* sampling names: "gray" "444" "422" "440" "420" "gray22" ...
  Modes,      \* "base" "prog"
  Ws, Hs,     \* widths, heights
  Contents,   \* classes of coefficients
  Huffs,      \* classes of Huffman tables
  QSlots,     \* destinations used for quantisation tables
  HSlots,     \* destinations used for Huffman tables
  RIs,        \* restart intervals
  MiscMax,    \* ignored segments in the stream, at most
  Decoys,     \* subset of BOOLEAN: may tables be defined and then redefined before use?
  Fills,      \* numbers of fill bytes before markers
  Pads,       \* padding bits before markers
  Trails,     \* numbers of bytes after EOI
  CutSets,    \* ways to split the AC coefficients into bands: sequences of last positions
  MinAl, MaxAl, \* smallest and largest first-scan bit position
  MaxRuns,    \* longest EOB run the encoder makes
  Partial,    \* subset of BOOLEAN: may a progressive stream stop early?
  Spaces,     \* output colourspaces
  Threads,    \* thread counts
  Faults,     \* faults to inject ("none": a good stream)
  Stricts     \* subset of BOOLEAN

VARIABLES stage, plan, lvl, qdef, hdef, miscs, sofdone
vars == <<stage, plan, lvl, qdef, hdef, miscs, sofdone>>

NoLvl == 99
IsGray(s) == s \in {"gray", "gray22", "gray21", "gray12"}
NComps(s) == IF IsGray(s) THEN 1 ELSE 3
Comps == 1..NComps(plan.samp)

Init ==
  /\ stage = "samp"
  /\ plan = [items |-> <<>>]
  /\ lvl = <<>> /\ qdef = {} /\ hdef = {} /\ miscs = 0 /\ sofdone = FALSE

Put(f, v) == plan' = (f :> v) @@ plan
Same == UNCHANGED <<lvl, qdef, hdef, miscs, sofdone>>

(* one choice per step, so that a random walk makes them independently *)
PickSamp    == stage = "samp"    /\ stage' = "mode"    /\ (\E x \in Samps    : Put("samp", x)) /\ Same
PickMode    == stage = "mode"    /\ stage' = "w"       /\ (\E x \in Modes    : Put("mode", x)) /\ Same
PickW       == stage = "w"       /\ stage' = "h"       /\ (\E x \in Ws       : Put("w", x)) /\ Same
PickH       == stage = "h"       /\ stage' = "content" /\ (\E x \in Hs       : Put("h", x)) /\ Same
PickContent == stage = "content" /\ stage' = "huff"    /\ (\E x \in Contents : Put("content", x)) /\ Same
PickHuff    == stage = "huff"    /\ stage' = "tq"      /\ (\E x \in Huffs    : Put("huff", x)) /\ Same
PickTq      == stage = "tq"      /\ stage' = "td"      /\ (\E x \in [Comps -> QSlots] : Put("tq", x)) /\ Same
PickTd      == stage = "td"      /\ stage' = "ta"      /\ (\E x \in [Comps -> HSlots] : Put("td", x)) /\ Same
PickTa      == stage = "ta"      /\ stage' = "fill"    /\ (\E x \in [Comps -> HSlots] : Put("ta", x)) /\ Same
PickFill    == stage = "fill"    /\ stage' = "pad"     /\ (\E x \in Fills    : Put("fill", x)) /\ Same
PickPad     == stage = "pad"     /\ stage' = "run"     /\ (\E x \in Pads     : Put("pad", x)) /\ Same
PickRun     == stage = "run"     /\ stage' = "cuts"    /\ (\E x \in MaxRuns  : Put("maxrun", x)) /\ Same
PickCuts    == stage = "cuts"    /\ stage' = "al"      /\ (\E x \in CutSets  : Put("cuts", x)) /\ Same
PickAl      == /\ stage = "al"   /\ stage' = "header"
               /\ (\E x \in MinAl..MaxAl : Put("al", x))
               /\ lvl' = [c \in Comps |-> [k \in 0..63 |-> NoLvl]]
               /\ UNCHANGED <<qdef, hdef, miscs, sofdone>>

---------------------------------------------------------------------------
(* Segments.  QNeeded: destinations the frame refers to. *)
QNeeded == { plan.tq[c] : c \in Comps }
HDcNeeded == { <<0, plan.td[c]>> : c \in Comps }
HAcNeeded == { <<1, plan.ta[c]>> : c \in Comps }
HNeeded == HDcNeeded \cup HAcNeeded

Add(x) == plan' = [plan EXCEPT !.items = Append(@, x)]

AddMisc ==
  /\ stage \in {"header", "between"} /\ miscs < MiscMax
  /\ \E t \in (IF stage = "header" THEN {"app", "com", "unknown", "applike"} ELSE {"app", "com", "applike"}) :
       Add([t |-> t])
  /\ miscs' = miscs + 1 /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>

(* a table that will be replaced before it is used *)
AddDecoyQ ==
  /\ TRUE \in Decoys /\ stage = "header" /\ miscs < MiscMax /\ QNeeded \ qdef # {}
  /\ \E q \in QNeeded \ qdef : Add([t |-> "dqt", slots |-> <<q>>, decoy |-> TRUE])
  /\ miscs' = miscs + 1 /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>
(* a table that comes too late to matter, between progressive scans *)
AddLateQ ==
  /\ TRUE \in Decoys /\ stage = "between" /\ miscs < MiscMax
  /\ \A c \in Comps : lvl[c][0] # NoLvl
  /\ \E q \in QNeeded : Add([t |-> "dqt", slots |-> <<q>>, decoy |-> TRUE])
  /\ miscs' = miscs + 1 /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>
AddDecoyH ==
  /\ TRUE \in Decoys /\ stage \in {"header", "between"} /\ miscs < MiscMax
  /\ \E x \in HNeeded \ hdef : Add([t |-> "dht", tabs |-> <<x>>, decoy |-> TRUE])
  /\ miscs' = miscs + 1 /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>

SeqOf(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]

AddDQT ==
  /\ stage = "header"
  /\ \E S \in (SUBSET (QNeeded \ qdef)) \ {{}} :
       /\ Add([t |-> "dqt", slots |-> SeqOf(S), decoy |-> FALSE])
       /\ qdef' = qdef \cup S
  /\ UNCHANGED <<stage, lvl, hdef, miscs, sofdone>>

AddSOF ==
  /\ stage = "header" /\ ~sofdone
  /\ Add([t |-> "sof"]) /\ sofdone' = TRUE
  /\ UNCHANGED <<stage, lvl, qdef, hdef, miscs>>

(* tables of the coming scan; a progressive stream defines them before each scan (or once: "shared") *)
AddDHT ==
  /\ stage = "header" /\ HNeeded \ hdef # {}
  /\ \E S \in { HNeeded \ hdef } \cup { {x} : x \in HNeeded \ hdef } :
       /\ Add([t |-> "dht", tabs |-> SeqOf(S), decoy |-> FALSE])
       /\ hdef' = hdef \cup S
  /\ UNCHANGED <<stage, lvl, qdef, miscs, sofdone>>

HasDri == \E i \in 1..Len(plan.items) : plan.items[i].t = "dri"
AddDRI ==
  /\ stage = "header" /\ ~HasDri
  /\ \E r \in RIs : Add([t |-> "dri", ri |-> r])
  /\ UNCHANGED <<stage, lvl, qdef, hdef, miscs, sofdone>>
(* an interval that replaces the one given before: the last one counts, zero turns restarts off *)
RedefineDRI ==
  /\ TRUE \in Decoys /\ stage = "header" /\ miscs < MiscMax /\ HasDri
  /\ \E r \in RIs : Add([t |-> "dri", ri |-> r])
  /\ miscs' = miscs + 1 /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>
(* another interval for the scans that follow *)
ChangeDRI ==
  /\ stage = "between" /\ miscs < MiscMax /\ HasDri
  /\ \E r \in RIs : Add([t |-> "dri", ri |-> r])
  /\ miscs' = miscs + 1
  /\ UNCHANGED <<stage, lvl, qdef, hdef, sofdone>>

---------------------------------------------------------------------------
(* Scans *)
HeaderReady == sofdone /\ qdef = QNeeded /\ hdef = HNeeded /\ HasDri

BaseScan ==
  /\ stage = "header" /\ HeaderReady /\ plan.mode = "base"
  /\ Add([t |-> "scan", cs |-> [i \in Comps |-> i], ss |-> 0, se |-> 63, ah |-> 0, al |-> 0])
  /\ stage' = "end" /\ UNCHANGED <<lvl, qdef, hdef, miscs, sofdone>>

RECURSIVE Increasing(_)
Increasing(S) == IF S = {} THEN <<>>
                 ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Increasing(S \ {m})

Scan(S, ss, se, ah, al) ==
  /\ Add([t |-> "scan", cs |-> Increasing(S), ss |-> ss, se |-> se, ah |-> ah, al |-> al])
  /\ lvl' = [c \in Comps |-> IF c \in S THEN [k \in 0..63 |-> IF k \in ss..se THEN al ELSE lvl[c][k]] ELSE lvl[c]]
  /\ stage' = "between"
  /\ UNCHANGED <<qdef, hdef, miscs, sofdone>>

ProgReady == stage \in {"header", "between"} /\ plan.mode = "prog" /\ (stage = "header" => HeaderReady)

ScanDcFirst ==
  /\ ProgReady
  /\ \E S \in (SUBSET { c \in Comps : lvl[c][0] = NoLvl }) \ {{}} : Scan(S, 0, 0, 0, plan.al)
ScanDcRefine ==
  /\ ProgReady
  /\ \E a \in 1..MaxAl : \E S \in (SUBSET { c \in Comps : lvl[c][0] = a }) \ {{}} : Scan(S, 0, 0, a, a - 1)

BandStart(i) == IF i = 1 THEN 1 ELSE plan.cuts[i - 1] + 1
(* bands are runs of neighbouring parts of the split *)
ScanAcFirst ==
  /\ ProgReady
  /\ \E c \in Comps : \E i \in 1..Len(plan.cuts) : \E j \in i..Len(plan.cuts) :
       /\ lvl[c][0] # NoLvl
       /\ \A k \in BandStart(i)..plan.cuts[j] : lvl[c][k] = NoLvl
       /\ Scan({c}, BandStart(i), plan.cuts[j], 0, plan.al)
ScanAcRefine ==
  /\ ProgReady
  /\ \E c \in Comps : \E i \in 1..Len(plan.cuts) : \E j \in i..Len(plan.cuts) : \E a \in 1..MaxAl :
       /\ \A k \in BandStart(i)..plan.cuts[j] : lvl[c][k] = a
       /\ Scan({c}, BandStart(i), plan.cuts[j], a, a - 1)

Complete == \A c \in Comps : \A k \in 0..63 : lvl[c][k] = 0
Started  == \A c \in Comps : lvl[c][0] # NoLvl

EndProgressive ==
  /\ stage = "between"
  /\ Complete \/ (TRUE \in Partial /\ Started /\ Len(plan.items) > 12)
  /\ Put("complete", Complete)
  /\ stage' = "end" /\ UNCHANGED <<lvl, qdef, hdef, miscs, sofdone>>

---------------------------------------------------------------------------
PickTrail  == stage = "end"    /\ stage' = "space"  /\ (\E x \in Trails  : Put("trail", x)) /\ Same
PickSpace  == stage = "space"  /\ stage' = "thr"    /\ (\E x \in Spaces  : Put("cs", x)) /\ Same
PickThr    == stage = "thr"    /\ stage' = "fault"  /\ (\E x \in Threads : Put("threads", x)) /\ Same
PickFault  == stage = "fault"  /\ stage' = "strict" /\ (\E x \in Faults  : Put("fault", x)) /\ Same
PickStrict == stage = "strict" /\ stage' = "done"   /\ (\E x \in Stricts : Put("strict", x)) /\ Same

Next ==
  \/ PickSamp \/ PickMode \/ PickW \/ PickH \/ PickContent \/ PickHuff \/ PickTq \/ PickTd \/ PickTa
  \/ PickFill \/ PickPad \/ PickRun \/ PickCuts \/ PickAl
  \/ AddMisc \/ AddDecoyQ \/ AddLateQ \/ AddDecoyH \/ AddDQT \/ AddSOF \/ AddDHT \/ AddDRI \/ RedefineDRI \/ ChangeDRI
  \/ BaseScan \/ ScanDcFirst \/ ScanDcRefine \/ ScanAcFirst \/ ScanAcRefine \/ EndProgressive
  \/ PickTrail \/ PickSpace \/ PickThr \/ PickFault \/ PickStrict

Spec == Init /\ [][Next]_vars

(* writes the plan when it is complete; always true *)
Emit == stage = "done" => PrintT("PLAN " \o ToJson(plan))

(* properties of the grammar itself, checked on the enumerated plans *)
ScanItems == SelectSeq(plan.items, LAMBDA x : x.t = "scan")
LegalScript ==
  stage = "done" /\ plan.mode = "prog" =>
    \A c \in Comps : \A k \in 0..63 :
      LET mine == SelectSeq(ScanItems, LAMBDA s : (\E i \in 1..Len(s.cs) : s.cs[i] = c) /\ k \in s.ss..s.se) IN
      /\ mine # <<>> => mine[1].ah = 0
      /\ \A i \in 2..Len(mine) : mine[i].ah = mine[i - 1].al /\ mine[i].al = mine[i].ah - 1
TablesFirst ==
  stage = "done" =>
    \A i \in 1..Len(plan.items) : plan.items[i].t = "scan" =>
      /\ \E j \in 1..(i - 1) : plan.items[j].t = "sof"
      /\ \A q \in QNeeded : \E j \in 1..(i - 1) :
           plan.items[j].t = "dqt" /\ ~plan.items[j].decoy /\ \E n \in 1..Len(plan.items[j].slots) : plan.items[j].slots[n] = q
=============================================================================
