----------------------------- MODULE TraceKit -----------------------------
(* Validates recorded executions of the real code against a specification.  *)
(* A trace is [name, init, ev]; the specification gives                      *)
(*   K_Init(init)       the abstract state the trace starts in               *)
(*   K_Post(st, e)      the abstract state after event e                     *)
(*   K_Fails(st, s2, e) the set of clause names event e violates             *)
(* Every trace is an initial state; verdicts are total: a trace ends in DONE *)
(* or in FAIL with the failing clauses, so a missing verdict is a tool error.*)
(* An event whose call raised (exc # "") or that the harness could not even  *)
(* record ("crash") is judged by K_Fails like any other.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS K_Init(_), K_Post(_, _), K_Fails(_, _, _)
K_Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES k_tr, k_l, k_st, k_bad
k_vars == << k_tr, k_l, k_st, k_bad >>
K_Ev == K_Traces[k_tr].ev
K_Crashed(e) == e.op = "crash"
TInit == /\ k_tr \in 1..Len(K_Traces)
         /\ k_l = 0
         /\ k_st = IF K_Crashed(K_Traces[k_tr].ev[1]) THEN << >> ELSE K_Init(K_Traces[k_tr].init)
         /\ k_bad = {}
TStep == /\ k_l < Len(K_Ev)
         /\ k_bad = {}
         /\ k_l' = k_l + 1
         /\ k_st' = IF K_Crashed(K_Ev[k_l + 1]) \/ K_Ev[k_l + 1].exc # "" THEN k_st ELSE K_Post(k_st, K_Ev[k_l + 1])
         /\ k_bad' = IF K_Crashed(K_Ev[k_l + 1]) \/ K_Ev[k_l + 1].exc # "" THEN {"completes"}
                     ELSE K_Fails(k_st, k_st', K_Ev[k_l + 1])
         /\ \/ /\ k_bad' # {}
               /\ PrintT(<< "FAIL", k_tr, k_l + 1, k_bad' >>)
            \/ /\ k_bad' = {} /\ k_l + 1 = Len(K_Ev)
               /\ PrintT(<< "DONE", k_tr, k_l + 1 >>)
            \/ /\ k_bad' = {} /\ k_l + 1 < Len(K_Ev)
         /\ UNCHANGED k_tr
TSpec == TInit /\ [][TStep]_k_vars
\* record of named clauses -> names of the false ones
Failing(r) == { k \in DOMAIN r : ~r[k] }
=============================================================================
