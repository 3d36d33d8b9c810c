------------------------------ MODULE Figures ------------------------------
(* Figures, and what a question with plot=True does to them.  A page is a    *)
(* figure with the pictures drawn on it; one of them is current.  A picture  *)
(* goes to a new page, or on the current one with overplot=True (a page is   *)
(* made when there is none).  Asking for a picture does not change what the  *)
(* cluster says.  Emits histories that are replayed into the real code.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES pages, cur, body, hist
vars == << pages, cur, body, hist >>
Depth == atoi(IOEnv.DEPTH)
Log(op, a, f) == hist' = Append(hist, [op |-> op, a |-> a, f |-> f])
NewPages(ps, c, over) == IF over /\ c > 0 THEN ps ELSE Append(ps, 0)
NewCurrent(ps, c, over) == Len(NewPages(ps, c, over)) - (IF over /\ c > 0 THEN Len(ps) - c ELSE 0)
Drawn(ps, c, over) == LET n == NewPages(ps, c, over) IN [n EXCEPT ![NewCurrent(ps, c, over)] = @ + 1]
Init == pages = << >> /\ cur = 0 /\ body = 0 /\ hist = << >>
Page == /\ pages' = Append(pages, 0) /\ cur' = Len(pages) + 1 /\ UNCHANGED body /\ Log("page", 0, FALSE)
Turn(i) == /\ cur' = i /\ UNCHANGED << pages, body >> /\ Log("turn", i, FALSE)
Change == /\ body' = body + 1 /\ UNCHANGED << pages, cur >> /\ Log("change", 0, FALSE)
Draw(over, file) == /\ pages' = Drawn(pages, cur, over) /\ cur' = NewCurrent(pages, cur, over) /\ UNCHANGED body
                    /\ Log("draw", IF over THEN 1 ELSE 0, file)
Emitted == /\ Len(hist) = Depth /\ \E i \in 1..Len(hist) : hist[i].op = "draw"
           /\ PrintT("HIST " \o ToJson(hist))
           /\ hist' = Append(hist, [op |-> "emitted", a |-> 0, f |-> FALSE]) /\ UNCHANGED << pages, cur, body >>
Next == \/ /\ Len(hist) < Depth
           /\ \/ Page \/ Change
              \/ \E i \in 1..Len(pages) : i # cur /\ Turn(i)
              \/ \E over, file \in BOOLEAN : Draw(over, file)
        \/ Emitted
Spec == Init /\ [][Next]_vars
OneCurrent == cur \in 0..Len(pages) /\ (Len(pages) > 0 => cur > 0)
Kept == [][/\ Len(pages') >= Len(pages)
           /\ \A i \in 1..Len(pages) : pages'[i] >= pages[i] /\ (pages'[i] # pages[i] => i = cur /\ cur' = cur)]_<< pages, cur >>
Asked == [][pages' # pages => body' = body]_vars
=============================================================================
