--------------------------------- MODULE Bands ---------------------------------
(* The parallel part of a decode (src/mcu.rs, src/mcu_prog.rs): the calling    *)
(* thread entropy-decodes one band after the other and hands each to a pool of *)
(* workers together with its own slice of the output; the scope is left when   *)
(* all jobs have ended.  In an early failure of the entropy decoder no further *)
(* band is queued, the queued ones still run, and the result is an error.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS B,        \* bands
          W,        \* workers
          MayFail   \* may entropy decoding fail?

VARIABLES next,     \* next band to decode
          queue,    \* jobs that no worker has taken: <<band, coefficients>>
          busy,     \* worker -> job (<<>> when idle)
          slices,   \* output: band -> what was written there (0: nothing yet)
          writes,   \* band -> number of jobs that wrote there
          state,    \* "decoding" "joining" "ok" "err"
          failed
vars == <<next, queue, busy, slices, writes, state, failed>>

Coef(b) == 100 + b           \* coefficients of band b; a band's pixels are a function of them
Pixels(c) == c * 2

Init ==
  /\ next = 1 /\ queue = <<>> /\ busy = [w \in 1..W |-> <<>>]
  /\ slices = [b \in 1..B |-> 0] /\ writes = [b \in 1..B |-> 0] /\ state = "decoding" /\ failed = FALSE

QueueBand ==
  /\ state = "decoding" /\ next <= B
  /\ queue' = Append(queue, <<next, Coef(next)>>) /\ next' = next + 1
  /\ UNCHANGED <<busy, slices, writes, state, failed>>
Fail ==
  /\ MayFail /\ state = "decoding" /\ next <= B
  /\ state' = "joining" /\ failed' = TRUE
  /\ UNCHANGED <<next, queue, busy, slices, writes>>
EndDecoding ==
  /\ state = "decoding" /\ next > B /\ state' = "joining"
  /\ UNCHANGED <<next, queue, busy, slices, writes, failed>>
Take(w) ==
  /\ queue # <<>> /\ busy[w] = <<>>
  /\ busy' = [busy EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
  /\ UNCHANGED <<next, slices, writes, state, failed>>
Write(w) ==
  /\ busy[w] # <<>>
  /\ slices' = [slices EXCEPT ![busy[w][1]] = Pixels(busy[w][2])]
  /\ writes' = [writes EXCEPT ![busy[w][1]] = @ + 1]
  /\ busy' = [busy EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<next, queue, state, failed>>
Join ==
  /\ state = "joining" /\ queue = <<>> /\ \A w \in 1..W : busy[w] = <<>>
  /\ state' = IF failed THEN "err" ELSE "ok"
  /\ UNCHANGED <<next, queue, busy, slices, writes, failed>>
Stop == state \in {"ok", "err"} /\ UNCHANGED vars

Next == QueueBand \/ Fail \/ EndDecoding \/ Join \/ Stop \/ \E w \in 1..W : Take(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(QueueBand \/ EndDecoding) /\ WF_vars(Join) /\ WF_vars(\E w \in 1..W : Take(w) \/ Write(w))

---------------------------------------------------------------------------
(* no slice is written twice or by a foreign band, at any time *)
OwnSlice == \A b \in 1..B : writes[b] <= 1 /\ slices[b] \in {0, Pixels(Coef(b))}
NoSharing == \A v, w \in 1..W : v # w /\ busy[v] # <<>> /\ busy[w] # <<>> => busy[v][1] # busy[w][1]
(* the result does not depend on the schedule: it is complete, and always the same *)
Deterministic == state = "ok" => \A b \in 1..B : slices[b] = Pixels(Coef(b))
(* nobody touches the output after the call returned *)
Quiet == state \in {"ok", "err"} => queue = <<>> /\ \A w \in 1..W : busy[w] = <<>>
Terminates == <>(state \in {"ok", "err"})
================================================================================
