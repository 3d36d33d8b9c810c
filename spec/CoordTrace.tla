----------------------------- MODULE CoordTrace -----------------------------
(* C25: recorded coordinate conversions judged by Coords.tla                 *)
EXTENDS Coords, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
TheFails(c0, c1, e) ==
  LET n == Len(e.a)
      full == Len(e.w) = n /\ \A k \in 1..n : Len(e.w[k]) = 6
      each(f(_, _)) == full => \A k \in 1..n : f(e.w[k], e.a[k])
      pts == CASE e.kind = "cyl" -> each(IsCyl)
               [] e.kind = "sphere" -> each(IsSphere)
               \* a are the coordinates, w the points
               [] e.kind = "fromcyl" -> each(LAMBDA w, a : NearSized(w, FromCyl(a), Size6(FromCyl(a)), "1e-9"))
               [] e.kind = "fromsphere" -> each(LAMBDA w, a : NearSized(w, FromSphere(a), Size6(FromSphere(a)), "1e-9"))
               [] e.kind = "sky" -> each(LAMBDA w, a : IsSky(e.P, w, a))
               [] e.kind = "clsky" -> LET c == FromRaw(e.pre)
                                          g == TLCEval(ReFrame(c, "galaxy"))
                                      IN full => \A k \in 1..n : IsSky(c.P, e.w[k], Tuple6(PV(Kpc(g[k].p), g[k].v)))
               \* a cluster on the sky is turned to Galactic kpc and km/s first
               [] e.kind \in {"clcyl", "clsphere"} ->
                    LET c == FromRaw(e.pre)
                        at(k) == IF e.pre.o = "sky" THEN Tuple6(PV(Kpc(c.st[k].p), c.st[k].v)) ELSE e.a[k]
                    IN full => \A k \in 1..n : IF e.kind = "clcyl" THEN IsCyl(e.w[k], at(k)) ELSE IsSphere(e.w[k], at(k))
               [] OTHER -> TRUE
  IN Failing([ every |-> full, point |-> pts ]) \cup
     (IF e.kind \in {"clsky", "clcyl", "clsphere"} THEN Failing(StateClauses(FromRaw(e.pre), e.after)) ELSE {})
=============================================================================
