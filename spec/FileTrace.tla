----------------------------- MODULE FileTrace -----------------------------
(* C20: recorded outputs and reloads judged against Files.tla                *)
EXTENDS Files, TraceKit
TheInit(i) == [c |-> FromRaw(i), x |-> i.extra]
ThePost(s, e) == s
TheFails(s0, s, e) ==
  LET c == s.c
      x == s.x
      kept == IF e.op = "load" THEN {} ELSE Failing(StateClauses(c, e.obs))
  IN (CASE e.op = "snap" -> Failing(SnapClauses(c, x, e))
       [] e.op = "sse"  -> Failing(SseClauses(c, x, e.rows))
       [] e.op = "fort" -> Failing(FortClauses(c, e.rows)) \cup (IF e.sse THEN Failing(SseClauses(c, x, e.srows)) ELSE {})
       [] e.op = "gyr"  -> Failing(GyrClauses(c, e)) \cup (IF e.epskept THEN {} ELSE {"argument"})
       [] e.op = "load" -> Failing(LoadClauses(e, e.obs)) \cup Failing(TableClauses(e, e.obs))
       [] OTHER -> {}) \cup kept
=============================================================================
