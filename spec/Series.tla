------------------------------- MODULE Series -------------------------------
(* A series of snapshots of one simulation, and moving through it.           *)
(*                                                                           *)
(* Layout L of the files on disk:                                            *)
(*   main, cont   numbers of the snapshots in the run's directory and in the *)
(*                continuation of the run (directory cont/)                  *)
(*   hascont      whether there is a continuation                            *)
(*   n0           the snapshot that is loaded first                          *)
(* The reader's position s: number n of the current snapshot, the directory  *)
(* d it is reading, and whether there is a snapshot (has).  Whether snapshots*)
(* are separate files or follow each other in one file makes no difference.  *)
EXTENDS Integers, Sequences, FiniteSets

SnapsIn(L, d) == IF d = "main" THEN L.main ELSE L.cont
First(L) == [n |-> L.n0, d |-> "main", has |-> L.n0 \in L.main]
\* the next number, in the same directory or else in the continuation
Following(L, s) ==
  LET n == s.n + 1
      d == IF n \in SnapsIn(L, s.d) THEN s.d
           ELSE IF s.d = "main" /\ L.hascont THEN "cont" ELSE s.d
  IN [n |-> n, d |-> d, has |-> n \in SnapsIn(L, d)]
=============================================================================
