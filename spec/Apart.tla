------------------------------- MODULE Apart -------------------------------
(* Clusters, arrays handed to them and arrays they hand back are separate    *)
(* things: what is done to one shows in no other.  The design is a heap:     *)
(* every thing owns cells, operations write the cells of one thing.  Handing *)
(* in, handing back and extracting subclusters copy.  Emits histories that   *)
(* are replayed into the real code.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES things, cells, val, hist
vars == << things, cells, val, hist >>
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "yes"
\* things[k] is "cluster", "given" or "answer"; cells[k] its cells; val[c] the version of what a cell holds
N == Len(things)
Fresh == Cardinality(DOMAIN val) + 1
New(kind, v) == /\ things' = Append(things, kind)
                /\ cells' = Append(cells, {Fresh})
                /\ val' = Append(val, v)
Log(op, k) == hist' = Append(hist, [op |-> op, k |-> k])
Write(k) == val' = [c \in DOMAIN val |-> IF c \in cells[k] THEN val[c] + 1 ELSE val[c]]
Init == things = << "cluster" >> /\ cells = << {1} >> /\ val = << 0 >> /\ hist = << >>
Clusters == { k \in 1..N : things[k] = "cluster" }
Arrays == { k \in 1..N : things[k] # "cluster" }
Give(k)   == New("given", 0) /\ Log("give", k)                                \* arrays handed to a cluster are copied
Ask(k)    == New("answer", 0) /\ Log("ask", k)                                \* what it answers is a copy
Sub(k)    == Cardinality(Clusters) < 3 /\ New("cluster", 0) /\ Log("sub", k)  \* so is a subcluster
Act(k)    == Write(k) /\ Log("act", k) /\ UNCHANGED << things, cells >>       \* conversions, rescaling, new quantities
Edit(k)   == Write(k) /\ Log("edit", k) /\ UNCHANGED << things, cells >>      \* the user writes into an array
Emitted == /\ Emit /\ Len(hist) = Depth
           /\ PrintT("HIST " \o ToJson(hist))
           /\ hist' = Append(hist, [op |-> "emitted", k |-> 0]) /\ UNCHANGED << things, cells, val >>
Next == \/ /\ Len(hist) < Depth
           /\ \/ \E k \in Clusters : Give(k) \/ Ask(k) \/ Sub(k) \/ Act(k)
              \/ \E k \in Arrays : Edit(k)
        \/ Emitted
Spec == Init /\ [][Next]_vars
\* nothing is shared, so a step changes what at most one earlier thing holds
NothingShared == \A i, j \in 1..N : i # j => cells[i] \cap cells[j] = {}
OnlyOne == [][Cardinality({ k \in 1..N : \E c \in cells[k] : val'[c] # val[c] }) <= 1]_vars
=============================================================================
