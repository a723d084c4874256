-------------------------------- MODULE ApiGen --------------------------------
(* Histories of calls on decoder objects: every interleaving of creation,     *)
(* setters, queries, decodes, header reads and file decodes.  A behaviour is  *)
(* one history; `tlc -simulate` draws them, ObjectTrace judges the outcome.   *)
(* The kind of the next call is chosen first, its arguments after that, so    *)
(* that a walk does not favour the calls with many possible arguments.        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
  Streams,   \* catalogue numbers of the streams that may be used
  Length,    \* calls in a history
  Spaces, Limits, ThreadCounts, Scans,
  StartLive, \* the history begins with a decoder
  Slots,     \* names of files; each holds a stream, which may be replaced
  Decodes,   \* weight of decodes among the calls
  Calls      \* which kinds of calls are used

VARIABLES hist, live, kind, disk
vars == <<hist, live, kind, disk>>

NoDecoder == {"new", "new2", "strict", "options"}      \* calls that need no decoder

(* settings made through ZuneJpegOptions, in call order *)
Setting ==
  [k : {"cs"}, v : Spaces] \cup [k : {"mw", "mh"}, v : Limits] \cup [k : {"th"}, v : ThreadCounts]
  \cup [k : {"ms"}, v : Scans] \cup [k : {"un", "st"}, v : BOOLEAN]
Strict == [k |-> "st", v |-> TRUE]

(* the kinds of calls that may come next; the second part of a pair is its weight *)
Kinds == { <<k, i>> : k \in { c \in Calls : live \/ c \in NoDecoder }, i \in {1} }
         \cup (IF live /\ "decode" \in Calls THEN { <<"decode", i>> : i \in 2..Decodes } ELSE {})

(* the calls of a kind, with all their arguments *)
CallsOf(k) ==
  CASE k = "new"     -> { [op |-> "new", sets |-> s] : s \in {<<>>} \cup { <<a>> : a \in Setting } }
    [] k = "new2"    -> { [op |-> "new", sets |-> <<a, b>>] : a \in Setting, b \in Setting }
    [] k = "strict"  -> { [op |-> "new", sets |-> <<Strict, a>>] : a \in Setting }
    [] k = "options" -> { [op |-> "options", sets |-> <<a, b>>] : a \in Setting, b \in Setting }
                        \cup { [op |-> "options", sets |-> <<a, b, a>>] : a \in Setting, b \in Setting }
    [] k = "space"   -> { [op |-> "space", cs |-> c] : c \in Spaces }
    [] k = "rgba"    -> { [op |-> "rgba"] }
    [] k = "limits"  -> { [op |-> "limits", mw |-> w, mh |-> h] : w \in Limits, h \in Limits }
    [] k = "threads" -> { [op |-> "threads", th |-> n] : n \in ThreadCounts \cup {0} }
    [] k = "query"   -> { [op |-> "query"] }
    [] k \in {"decode", "headers"} -> { [op |-> k, s |-> s] : s \in Streams }
    [] k = "rewrite" -> { [op |-> k, f |-> f, s |-> s] : f \in Slots, s \in Streams }
    [] k = "file"    -> { [op |-> k, f |-> f, s |-> disk[f]] : f \in Slots }
    [] k = "nofile"  -> { [op |-> "nofile", n |-> n] : n \in 0..2 }

Init == hist = <<>> /\ live = StartLive /\ kind = <<"", 0>> /\ disk = [f \in Slots |-> f]

ChooseKind ==
  /\ kind[1] = "" /\ Len(hist) < Length
  /\ \E k \in Kinds : kind' = k
  /\ UNCHANGED <<hist, live, disk>>
MakeCall ==
  /\ kind[1] \notin {"", "end"}
  /\ \E c \in CallsOf(kind[1]) :
       /\ hist' = Append(hist, c)
       /\ disk' = IF c.op = "rewrite" THEN [disk EXCEPT ![c.f] = c.s] ELSE disk
  /\ kind' = <<"", 0>>
  /\ live' = (live \/ kind[1] \in NoDecoder \ {"options"})

(* in a step of its own: simulation evaluates invariants on every successor, also those it does not take *)
Finish ==
  /\ kind[1] = "" /\ Len(hist) = Length
  /\ kind' = <<"end", 0>> /\ UNCHANGED <<hist, live, disk>>

Next == ChooseKind \/ MakeCall \/ Finish
Spec == Init /\ [][Next]_vars

Emit == kind[1] = "end" => PrintT("HIST " \o ToJson(hist))
=============================================================================
