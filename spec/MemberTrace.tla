---------------------------- MODULE MemberTrace ----------------------------
(* C08: recorded additions judged against Members.tla                        *)
EXTENDS Members, TraceKit
TheInit(i) == [st |-> << >>, bin |-> << >>, nb |-> 0, sse |-> << >>, bse |-> << >>, kin |-> << >>, pot |-> << >>, etot |-> << >>]
\* ids the code generated are taken from what it shows; StarsClauses has checked they are new
Bind(c, e) == [c EXCEPT !.st = IF Len(@) = Len(e.obs.id)
                               THEN [i \in 1..Len(@) |-> IF @[i].id = AnyId THEN [@[i] EXCEPT !.id = e.obs.id[i]] ELSE @[i]] ELSE @]
Ideal(c, e) ==
  CASE e.op = "add"      -> AddStars(c, e.q, e.nb)
    [] e.op = "addbin"   -> AddBinaries(c, e.q)
    [] e.op = "sse"      -> AddSse(c, e.q)
    [] e.op = "bse"      -> AddBse(c, e.q)
    [] e.op = "energies" -> AddEnergies(c, e.q)
    [] OTHER -> c
ThePost(c, e) == Bind(Ideal(c, e), e)
TheFails(c0, c1, e) ==
  LET c == Ideal(c0, e)
      S == Failing(StarsClauses(c, e.obs)) \cup Failing(SseClauses(c, e.obs)) \cup Failing(BseClauses(c, e.obs))
           \cup Failing(EnergyClauses(c, e.obs))
      singles == e.op = "add" \/ (e.op = "addbin" /\ e.q.mode = "set")
      X == Failing([ singlecount |-> singles => e.obs.ns = e.obs.ntot - e.obs.nb,
                     returned |-> (e.op = "addbin" /\ e.q.mode = "return") =>
                        LET T == BinStars(e.q) IN
                        /\ Len(e.ret) = Len(T)
                        /\ Len(e.ret) = Len(T) => \A k \in 1..Len(T) : Same6(e.ret[k].w, T[k].w) /\ N(e.ret[k].m, T[k].m),
                     skycopy |-> (e.op = "add" /\ e.sky) => \A i \in 1..Len(e.obs.x) : Same6(e.obs.sky[i], e.obs.x[i]),
                     refreshed |-> (e.op = "add" /\ e.analyze) =>
                        /\ Len(e.obs.r) = Len(c.st)
                        /\ Len(e.obs.r) = Len(c.st) => \A i \in 1..Len(c.st) : N(e.obs.r[i], RNorm3(c.st[i].w))
                        /\ N(e.obs.mtot, RSum([i \in 1..Len(c.st) |-> c.st[i].m])) ])
  IN S \cup X
=============================================================================
