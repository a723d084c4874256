--------------------------------- MODULE Cuts ---------------------------------
(* Restart intervals whose data ends early.  The decoder looks ahead: Look units *)
(* may be in its buffer before they are used, and it may have seen the marker    *)
(* that ends the interval long before the interval is over; from then on it      *)
(* reads zeroes.  The count of MCUs alone says when the interval ends.  Every    *)
(* way to shorten the intervals is printed and made of real images (C24).        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Shapes, Looks    \* <<MCUs of the image, restart interval>>; sizes of the look ahead

VARIABLES shape, look, data, at, used, buf, mark, m, todo, out
cvars == <<shape, look, data, at, used, buf, mark, m, todo, out>>

Total == shape[1]
R == shape[2]
CeilBy(a, b) == (a + b - 1) \div b
Intervals(sh) == CeilBy(sh[1], sh[2])
SizeOf(sh, k) == IF k < Intervals(sh) THEN sh[2] ELSE sh[1] - (k - 1) * sh[2]

CInit ==
  /\ shape \in Shapes /\ look \in Looks
  /\ data \in { f \in [1..Intervals(shape) -> 0..shape[2]] : \A k \in 1..Intervals(shape) : f[k] <= SizeOf(shape, k) }
  /\ at = 1 /\ used = 0 /\ buf = <<>> /\ mark = FALSE /\ m = 0 /\ todo = R /\ out = <<>>

Gone == <<0, 0>>

(* one more unit into the buffer, or the marker behind the last one *)
LookAhead ==
  /\ ~mark /\ Len(buf) < look /\ m < Total
  /\ IF used < data[at] THEN buf' = Append(buf, <<at, used>>) /\ used' = used + 1 /\ UNCHANGED mark
     ELSE mark' = TRUE /\ UNCHANGED <<buf, used>>
  /\ UNCHANGED <<shape, look, data, at, m, todo, out>>
DecodeMcu ==
  /\ m < Total /\ todo > 0 /\ (buf # <<>> \/ mark)
  /\ IF buf # <<>> THEN out' = Append(out, Head(buf)) /\ buf' = Tail(buf)
     ELSE out' = Append(out, Gone) /\ UNCHANGED buf
  /\ m' = m + 1 /\ todo' = todo - 1
  /\ UNCHANGED <<shape, look, data, at, used, mark>>
(* the marker must have been seen (LookAhead gets there: the buffer is empty); what is left in the buffer is dropped *)
ReadMarker ==
  /\ m < Total /\ todo = 0 /\ mark
  /\ at' = at + 1 /\ used' = 0 /\ buf' = <<>> /\ mark' = FALSE /\ todo' = R
  /\ UNCHANGED <<shape, look, data, m, out>>
CNext == LookAhead \/ DecodeMcu \/ ReadMarker
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)

(* MCU i (from 0) of interval k is what was sent if its data is there, and nothing else ever is put in its place *)
Contained ==
  \A i \in 0..(Len(out) - 1) :
    LET k == i \div R + 1 j == i % R IN out[i + 1] = IF j < data[k] THEN <<k, j>> ELSE Gone
(* nothing of an interval is dropped with its marker *)
NothingDropped == todo = 0 => buf = <<>>
Ends == <>(m = Total)
EmitCase == (m = Total /\ look = 1) => PrintT("CASE " \o ToJson([n |-> Total, ri |-> R, keep |-> data]))
===============================================================================
