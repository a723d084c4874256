---- MODULE RestartCases ----
EXTENDS Restart
SmallGrids == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<2, 2>>, <<3, 2>>, <<1, 5>>, <<5, 1>>, <<3, 3>>, <<7, 1>>, <<4, 3>>, <<2, 9>>, <<17, 1>>}
====
