------------------------------- MODULE Scripts -------------------------------
(* All legal progressive scan scripts (no sampling): the part of Stream.tla   *)
(* after the headers, from a stream whose tables are in place.  TLC visits    *)
(* every script for the given numbers of components, splits into bands and    *)
(* bits; each is printed as a plan and run on the real decoder (C02).         *)
EXTENDS StreamGen

(* what each scan delivers: bit planes; no bit twice, none missing, in order *)
VARIABLE sent       \* [component -> [coefficient -> bit positions in the order of their scans]]

Item(t) == [t |-> t]
Ready(s, w, h, c, hu, ru, cu, al, ri) ==
  LET n == NComps(s) one(v) == [i \in 1..n |-> v] IN
  [samp |-> s, mode |-> "prog", w |-> w, h |-> h, content |-> c, huff |-> hu, tq |-> one(0), td |-> one(0), ta |-> one(0),
   fill |-> 0, pad |-> 1, maxrun |-> ru, cuts |-> cu, al |-> al,
   items |-> <<[t |-> "dqt", slots |-> <<0>>, decoy |-> FALSE], Item("sof"), [t |-> "dht", tabs |-> <<<<0, 0>>, <<1, 0>>>>, decoy |-> FALSE],
               [t |-> "dri", ri |-> ri]>>]

ScriptInit ==
  \E s \in Samps : \E w \in Ws : \E h \in Hs : \E c \in Contents : \E hu \in Huffs : \E ru \in MaxRuns : \E cu \in CutSets :
  \E al \in MinAl..MaxAl : \E ri \in RIs :
    /\ plan = Ready(s, w, h, c, hu, ru, cu, al, ri)
    /\ lvl = [k \in Comps |-> [i \in 0..63 |-> NoLvl]]
    /\ sent = [k \in Comps |-> [i \in 0..63 |-> <<>>]]
    /\ stage = "header" /\ qdef = {0} /\ hdef = {<<0, 0>>, <<1, 0>>} /\ miscs = 0 /\ sofdone = TRUE

Deliver ==
  sent' = [k \in Comps |-> [i \in 0..63 |-> IF lvl'[k][i] # lvl[k][i] THEN Append(sent[k][i], lvl'[k][i]) ELSE sent[k][i]]]
ScriptNext ==
  \/ (ScanDcFirst \/ ScanDcRefine \/ ScanAcFirst \/ ScanAcRefine) /\ Deliver
  \/ (EndProgressive \/ PickTrail \/ PickSpace \/ PickThr \/ PickFault \/ PickStrict) /\ UNCHANGED sent
ScriptSpec == ScriptInit /\ [][ScriptNext]_<<vars, sent>>

(* bits arrive from the first position down to 0, each once; a complete script delivers all *)
Downwards ==
  \A k \in Comps : \A i \in 0..63 :
    /\ \A j \in 1..Len(sent[k][i]) : sent[k][i][j] = plan.al + 1 - j
    /\ (stage = "done" /\ plan.complete) => Len(sent[k][i]) = plan.al + 1
    /\ (i > 0 /\ sent[k][i] # <<>>) => sent[k][0] # <<>>
=============================================================================
