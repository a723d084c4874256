------------------------------- MODULE BandsGen -------------------------------
(* Schedules of Bands as the replaying pool understands them: after a band is  *)
(* queued, the numbers of the pending jobs that end before the next one is     *)
(* queued, then 0; afterwards the order in which the rest ends.                *)
EXTENDS Bands, TLC, Json
VARIABLES sched, pend
gvars == <<vars, sched, pend>>
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
GInit == Init /\ sched = <<>> /\ pend = <<>>
GNext ==
  \/ QueueBand /\ pend' = Append(pend, next) /\ sched' = IF next = 1 THEN sched ELSE Append(sched, 0)
  \/ \E w \in 1..W : Write(w) /\ LET i == IndexOf(pend, busy[w][1]) IN
                                 sched' = Append(sched, i) /\ pend' = Without(pend, i)
  \/ (EndDecoding \/ \E w \in 1..W : Take(w)) /\ UNCHANGED <<sched, pend>>
  \/ Join /\ UNCHANGED <<sched, pend>>
GSpec == GInit /\ [][GNext]_gvars
Emit == state = "ok" => PrintT("SCHED " \o ToJson(sched))
================================================================================
