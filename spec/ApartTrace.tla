----------------------------- MODULE ApartTrace -----------------------------
(* C30: recorded histories of clusters and arrays judged by the design in    *)
(* Apart.tla.  The state maps every thing to a digest of all it holds; an    *)
(* event names the one thing it works on and observes all of them.           *)
EXTENDS Integers, Sequences, FiniteSets, TraceKit
\* st.seen : digests of the things so far;  e.seen : digests after the event, new things last;  e.on : the thing worked on
TheInit(i) == [seen |-> i.seen, kind |-> i.kind, world |-> i.world]
ThePost(c, e) == [seen |-> e.seen, kind |-> c.kind \o e.new, world |-> c.world]
Kept(c, e, kinds) == \A k \in 1..Len(c.seen) : (k # e.on /\ c.kind[k] \in kinds) => e.seen[k] = c.seen[k]
TheFails(c0, c, e) ==
  Failing([ follows  |-> Len(e.seen) = Len(c0.seen) + Len(e.new),
            clusters |-> Kept(c0, e, {"cluster"}),
            given    |-> Kept(c0, e, {"given"}),
            answers  |-> Kept(c0, e, {"answer"}),
            constants |-> e.world = c0.world ])
=============================================================================
