-------------------------------- MODULE Restart --------------------------------
(* Restart intervals: a decoder that counts MCUs down (todo) against the format: *)
(* MCU m of a scan lies in segment m \div ri, predictors are zero at its start,  *)
(* and a marker RST(k mod 8) separates segments k and k+1, never after the last. *)
(* Scans may have different intervals (DRI between them) and different numbers   *)
(* of MCUs.  Every case is printed and run on the real decoder (C03).            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Grids, RIs, NScans
(* Grids: <<columns, rows>> of MCUs *)

VARIABLES grid, ris, scan, m, todo, fresh, log, at
rvars == <<grid, ris, scan, m, todo, fresh, log, at>>

Count(g) == g[1] * g[2]
Inf == 99999
Load(r) == IF r = 0 THEN Inf ELSE r
CeilBy(a, b) == (a + b - 1) \div b

RInit ==
  /\ grid \in Grids /\ ris \in [1..NScans -> RIs]
  /\ scan = 1 /\ m = 0 /\ todo = Load(ris[1]) /\ fresh = TRUE
  /\ log = <<>>      \* markers read in this scan
  /\ at = "mcu"

(* what the format says about MCU m of this scan *)
R == ris[scan]
Segment == IF R = 0 THEN 0 ELSE m \div R
First == IF R = 0 THEN m = 0 ELSE m % R = 0

ReadMarker ==
  /\ at = "mcu" /\ m < Count(grid) /\ todo = 0
  /\ log' = Append(log, Len(log) % 8) /\ fresh' = TRUE /\ todo' = Load(R)
  /\ UNCHANGED <<grid, ris, scan, m, at>>
DecodeMcu ==
  /\ at = "mcu" /\ m < Count(grid) /\ todo > 0
  /\ m' = m + 1 /\ todo' = (IF todo = Inf THEN Inf ELSE todo - 1) /\ fresh' = FALSE
  /\ UNCHANGED <<grid, ris, scan, log, at>>
NextScan ==
  /\ at = "mcu" /\ m = Count(grid) /\ scan < NScans
  /\ scan' = scan + 1 /\ m' = 0 /\ todo' = Load(ris[scan + 1]) /\ fresh' = TRUE /\ log' = <<>>
  /\ UNCHANGED <<grid, ris, at>>
Finish ==
  /\ at = "mcu" /\ m = Count(grid) /\ scan = NScans /\ at' = "end"
  /\ UNCHANGED <<grid, ris, scan, m, todo, fresh, log>>
RSpec == RInit /\ [][ReadMarker \/ DecodeMcu \/ NextScan \/ Finish]_rvars /\ WF_rvars(ReadMarker \/ DecodeMcu \/ NextScan \/ Finish)

(* before an MCU is decoded, the right number of markers has been read, and predictors are zero exactly when they must be *)
InStep == (m < Count(grid) /\ todo > 0) => Len(log) = Segment /\ (fresh <=> First)
Numbers == \A i \in 1..Len(log) : log[i] = (i - 1) % 8
Enough == m = Count(grid) => Len(log) = (IF R = 0 THEN 0 ELSE CeilBy(Count(grid), R) - 1)
Ends == <>(at = "end")
EmitCase == at = "end" => PrintT("CASE " \o ToJson([grid |-> grid, ris |-> ris]))
=============================================================================
