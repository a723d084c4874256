------------------------------- MODULE Headers --------------------------------
(* Frame and scan headers, legal or not, from small domains, all of them.  Each  *)
(* behaviour fills in one header field after the other; the finished ones are    *)
(* printed and put into streams whose data is all zero bits (one-symbol Huffman  *)
(* tables), which is legal for any scan.  What must become of the stream is      *)
(* decided by Decoder.tla (C10, C11, C23).                                       *)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES h, at
hvars == <<h, at>>

Seqs(S, n) == [1..n -> S]
Ones(n, x) == [i \in 1..n |-> x]
Fits == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Odd == {<<0, 1>>, <<1, 0>>, <<3, 1>>, <<1, 3>>, <<4, 1>>, <<1, 4>>, <<4, 4>>, <<2, 4>>, <<15, 15>>}
Good(n) == IF n = 1 THEN {<<<<1, 1>>>>} ELSE {<<<<y[1], y[2]>>, <<1, 1>>, <<1, 1>>>> : y \in Fits}

(* a header in the making: kind, frame type, components (ids), sampling, quantisation tables, scan *)
HInit == h = [prog |-> FALSE, ids |-> <<1>>, samp |-> <<<<1, 1>>>>, tq |-> <<0>>, scan |-> <<>>] /\ at = "type"

PickType == at = "type" /\ (\E p \in BOOLEAN : \E n \in {1, 3} :
              h' = [h EXCEPT !.prog = p, !.ids = [i \in 1..n |-> i], !.samp = Ones(n, <<1, 1>>), !.tq = Ones(n, 0)]) /\ at' = "field"
N == Len(h.ids)
(* exactly one thing is out of the ordinary *)
PickIds  == at = "field" /\ (\E s \in Seqs(0..4, N) : h' = [h EXCEPT !.ids = s]) /\ at' = "done"
PickTq   == at = "field" /\ (\E s \in Seqs({0, 1, 2, 3, 4, 255}, N) : h' = [h EXCEPT !.tq = s]) /\ at' = "done"
PickSamp == at = "field" /\ (\E s \in Seqs(Fits, N) : h' = [h EXCEPT !.samp = s]) /\ at' = "done"
PickOdd  == at = "field" /\ (\E s \in Seqs({<<1, 1>>, <<2, 2>>}, N) : \E i \in 1..N : \E o \in Odd : h' = [h EXCEPT !.samp = [s EXCEPT ![i] = o]]) /\ at' = "done"
PickScan == at = "field" /\ (\E s \in Good(N) : h' = [h EXCEPT !.samp = s]) /\ at' = "comps"

Sc(cs, td, ta, ss, se, a) == [cs |-> cs, td |-> td, ta |-> ta, ss |-> ss, se |-> se, a |-> a]
(* which components; which tables; which band and bits.  after: a DC scan of all components came before *)
PickComps == at = "comps" /\ (\E n \in 0..4 : \E cs \in Seqs(IF n < 3 THEN 0..4 ELSE IF n = 3 THEN 1..4 ELSE {1, 3}, n) :
               h' = [h EXCEPT !.scan = Sc(cs, Ones(n, 0), Ones(n, 0), 0, IF h.prog THEN 0 ELSE 63, <<0, 0>>)]) /\ at' = "done"
PickTables == at = "comps" /\ (\E t \in {0, 1, 2, 3, 4, 15} : \E u \in {0, 1, 2, 3, 4, 15} : \E band \in {<<0, IF h.prog THEN 0 ELSE 63>>} \cup (IF h.prog THEN {<<1, 63>>} ELSE {}) :
               LET n == IF h.prog /\ band[1] > 0 THEN 1 ELSE N IN
               h' = [h EXCEPT !.scan = Sc([i \in 1..n |-> i], [Ones(n, 0) EXCEPT ![n] = t], [Ones(n, 0) EXCEPT ![n] = u], band[1], band[2], <<0, 0>>)]) /\ at' = "done"
PickBand == at = "comps" /\ (\E ss \in {0, 1, 2, 63, 64, 255} : \E se \in {0, 1, 2, 62, 63, 64, 255} : \E a \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 13>>, <<0, 14>>, <<2, 0>>, <<14, 13>>, <<15, 15>>} :
               \E cs \in {<<1>>, <<N>>, [i \in 1..N |-> i]} :
                 h' = [h EXCEPT !.scan = Sc(cs, Ones(Len(cs), 0), Ones(Len(cs), 0), ss, se, a)]) /\ at' = "done"
HNext == PickType \/ PickIds \/ PickTq \/ PickSamp \/ PickOdd \/ PickScan \/ PickComps \/ PickTables \/ PickBand
HSpec == HInit /\ [][HNext]_hvars

HTypeOK == Len(h.ids) = Len(h.samp) /\ Len(h.ids) = Len(h.tq) /\ (h.scan # <<>> => Len(h.scan.cs) = Len(h.scan.td))
EmitCase == at = "done" => PrintT("CASE " \o ToJson(h))
===============================================================================
