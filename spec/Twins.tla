------------------------------- MODULE Twins -------------------------------
(* One cluster seen in two unit systems.  Its physical state is a version    *)
(* and an origin; a unit system is only a view.  Twins that go through the   *)
(* same calls have the same physical state, so an answer is the same         *)
(* physical quantity in the view of the one that was asked.  Emits histories *)
(* that are replayed into the real code.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES plain, twin, answers, hist
vars == << plain, twin, answers, hist >>
Depth == atoi(IOEnv.DEPTH)
Views == {"amuse", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits"}
Origins == {"cluster", "centre", "galaxy"}
Log(op, a) == hist' = Append(hist, [op |-> op, a |-> a])
Init == /\ \E o \in Origins : /\ plain = [ver |-> 0, o |-> o, u |-> "pckms"]
                              /\ \E u \in Views : twin = [ver |-> 0, o |-> o, u |-> u]
        /\ answers = << "none", "none" >>
        /\ hist = << [op |-> "start", a |-> plain.o], [op |-> "units", a |-> twin.u] >>
About(c) == << c.ver, c.o >>                    \* what an answer is about: the units do not enter
Ask       == answers' = << About(plain), About(twin) >> /\ Log("ask", "") /\ UNCHANGED << plain, twin >>
Change    == /\ plain' = [plain EXCEPT !.ver = @ + 1] /\ twin' = [twin EXCEPT !.ver = @ + 1]
             /\ Log("change", "") /\ UNCHANGED answers
Part      == /\ plain' = [plain EXCEPT !.ver = @ + 1] /\ twin' = [twin EXCEPT !.ver = @ + 1]
             /\ Log("part", "") /\ UNCHANGED answers
Move(o)   == /\ plain' = [plain EXCEPT !.o = o] /\ twin' = [twin EXCEPT !.o = o]
             /\ Log("move", o) /\ UNCHANGED answers
Convert(u) == /\ twin' = [twin EXCEPT !.u = u] /\ Log("units", u) /\ UNCHANGED << plain, answers >>
Emitted == /\ Len(hist) = Depth + 2
           /\ PrintT("HIST " \o ToJson(hist))
           /\ hist' = Append(hist, [op |-> "emitted", a |-> ""]) /\ UNCHANGED << plain, twin, answers >>
Next == \/ /\ Len(hist) < Depth + 2
           /\ \/ Ask \/ Change \/ Part
              \/ \E o \in Origins \ {plain.o} : Move(o)
              \/ \E u \in Views \ {twin.u} : Convert(u)
        \/ Emitted
Spec == Init /\ [][Next]_vars
SameBody == About(plain) = About(twin)
SameAnswers == answers[1] = answers[2]
=============================================================================
