----------------------------- MODULE ObjectTrace -----------------------------
(* Checks recorded histories of calls on decoder objects against Object.     *)
(* One line of the trace is a family of calls about the same streams; what   *)
(* was learnt is forgotten between families.                                 *)
EXTENDS Object, Json, IOUtils

CONSTANT Lanes
Fams == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Fams)

VARIABLES lane, idx, pos
tvars == <<lane, idx, pos>>

TInit == lane \in 1..Lanes /\ idx = lane - Lanes /\ pos = 0 /\ OInit

Busy == idx > 0 /\ pos < Len(Fams[idx].ev)

NextFamily ==
  /\ ~Busy /\ idx + Lanes <= N
  /\ idx' = idx + Lanes /\ pos' = 0 /\ UNCHANGED lane
  /\ Forget /\ o' = Defaults /\ rep' = "RGB" /\ out' = "fine"

Observe ==
  /\ Busy
  /\ pos' = pos + 1 /\ UNCHANGED <<lane, idx>>
  /\ Step(Fams[idx].ev[pos'])
  /\ out' # "fine" => PrintT(<<"REJECT", Fams[idx].id, pos', out'>>)

Done == ~Busy /\ idx + Lanes > N /\ PrintT(<<"LANE", lane, idx>>) /\ UNCHANGED <<ovars, tvars>>

TNext == NextFamily \/ Observe
TSpec == TInit /\ [][TNext]_<<ovars, tvars>>
View == <<lane, idx, pos>>
=============================================================================
