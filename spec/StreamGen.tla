---- MODULE StreamGen ----
(* Stream with the choice sets that a configuration file cannot write down *)
EXTENDS Stream
CS == {<<63>>, <<5, 63>>, <<1, 5, 20, 63>>, <<2, 9, 63>>, <<62, 63>>}
CSmall == {<<63>>, <<5, 63>>}
C1 == {<<63>>}
C2 == {<<5, 63>>}
C3 == {<<1, 20, 63>>}
====
