----------------------------- MODULE SeriesRuns -----------------------------
(* Every layout of a short series and every way of using it: advancing, with *)
(* the cluster converted to other units or origins in between.  Emits the    *)
(* histories that are replayed into the real code, and checks the design.    *)
EXTENDS Series, TLC, Json, IOUtils
VARIABLES L, s, h, seen
vars == << L, s, h, seen >>
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "yes"
\* a main run of snapshots 0..a-1, perhaps with one missing, or continued by a..b-1
Layouts ==
  { [main |-> 0..(a - 1), cont |-> a..(b - 1), hascont |-> TRUE, n0 |-> n, gap |-> FALSE] : a \in 1..3, b \in 1..5, n \in 0..2 } \cup
  { [main |-> 0..(a - 1), cont |-> {}, hascont |-> FALSE, n0 |-> n, gap |-> FALSE] : a \in 1..4, n \in 0..2 } \cup
  { [main |-> (0..(a - 1)) \ {g}, cont |-> {}, hascont |-> FALSE, n0 |-> 0, gap |-> TRUE] : a \in 3..4, g \in 1..2 }
Init == /\ L \in { x \in Layouts : x.n0 \in x.main /\ (x.hascont => x.cont # {}) }
        /\ s = First(L)
        /\ h = << >>
        /\ seen = << First(L).n >>
Go(e) == h' = Append(h, e)
Advance == /\ s' = Following(L, s)
           /\ seen' = IF s'.has THEN Append(seen, s'.n) ELSE seen
           /\ Go("advance") /\ UNCHANGED L
Convert == /\ s.has /\ (h # << >> => h[Len(h)] # "convert")
           /\ Go("convert") /\ UNCHANGED << L, s, seen >>
Emitted == /\ Emit /\ Len(h) = Depth
           /\ PrintT("HIST " \o ToJson([L |-> L, h |-> h]))
           /\ Go("emitted") /\ UNCHANGED << L, s, seen >>
Next == \/ Len(h) < Depth /\ (Advance \/ Convert)
        \/ Emitted
Spec == Init /\ [][Next]_vars
All == { n \in L.main \cup L.cont : n >= L.n0 }
\* snapshots are visited in order, each once, none before the current one is left out
InOrder == \A i \in 1..(Len(seen) - 1) : seen[i] < seen[i + 1]
NoneMissed == { seen[i] : i \in 1..Len(seen) } = { n \in All : n <= s.n }
\* beyond the last one there is nothing, however often one asks
EndsEmpty == s.has <=> s.n \in All
TypeOK == s.n \in Nat /\ s.d \in {"main", "cont"}
=============================================================================
