---- MODULE CutsCases ----
EXTENDS Cuts
SmallShapes == {<<2, 1>>, <<4, 1>>, <<5, 2>>, <<6, 2>>, <<6, 3>>, <<7, 3>>, <<8, 4>>, <<9, 5>>, <<12, 4>>}
====
