---------------------------- MODULE SeriesTrace ----------------------------
(* C21: recorded runs through a series of snapshots judged against Series.tla*)
(* and, for what each snapshot must hold, against Files.tla and Orbits.tla.  *)
EXTENDS Series, Files, Orbits, TraceKit
TheInit(i) == [i |-> [i EXCEPT !.L.main = { @[k] : k \in 1..Len(@) }, !.L.cont = { @[k] : k \in 1..Len(@) }],
               s |-> [n |-> -1, d |-> "main", has |-> FALSE]]
ThePost(st, e) == CASE e.op = "load"    -> [st EXCEPT !.s = First(st.i.L)]
                    [] e.op = "advance" -> [st EXCEPT !.s = Following(st.i.L, @)]
                    [] OTHER -> st

Snap(st) == LET q == IF st.s.d = "main" THEN st.i.main ELSE st.i.cont
            IN q[CHOOSE k \in 1..Len(q) : q[k].n = st.s.n]
\* the time is that of the snapshot, or of the orbit table where it is asked for
TimeOf(st, e, sn) ==
  IF ~st.i.otime THEN sn.t
  ELSE (sn.torb \oslash Fac(st.i.ou, e.P).t) \otimes Fac(st.i.u, e.P).t
\* the orbit is that of the table, or of a body moving in a potential since time 0
OrbitOf(st, e, sn) ==
  LET P == e.P
  IN IF st.i.orbit = "table" THEN Unscaled(P, st.i.ou, sn.orbit)
     ELSE Moved([P EXCEPT !.ro = st.i.g.ro, !.vo = st.i.g.vo], st.i.k,
                PV(Scale3("1000.0", << st.i.q[1], st.i.q[2], st.i.q[3] >>), << st.i.q[4], st.i.q[5], st.i.q[6] >>),
                TimeOf(st, e, sn) \oslash Fac(st.i.u, P).t)
\* the fewest stars within which a centre of density is looked for (its default)
Enough == 100
DataFails(st, e) ==
  LET i == st.i
      sn == Snap(st)
      o == e.obs
      n == Len(sn.rows)
      all == Len(o.x) = n /\ Len(o.m) = n /\ Len(o.id) = n
      \* a cluster whose centre has been found again shows positions relative to it
      shift == IF i.o = "centre" THEN o.cen ELSE << 0, 0, 0, 0, 0, 0 >>
      row(k) == [j \in 1..6 |-> sn.rows[k][j + 1]]
      far(a) == 1 \oplus RSeqMax([k \in 1..n |-> RMax(RAbs(row(k)[a]), RMax(RAbs(row(k)[a + 1]), RAbs(row(k)[a + 2])))])
      body == PVAdd(PV(<< o.gc[1], o.gc[2], o.gc[3] >>, << o.gc[4], o.gc[5], o.gc[6] >>),
                    PV(<< o.cen[1], o.cen[2], o.cen[3] >>, << o.cen[4], o.cen[5], o.cen[6] >>))
      \* where the stars are, in the frame of their file
      mean(a) == RMean([k \in 1..n |-> row(k)[a]])
      spread == RSqrt(RSum([k \in 1..n |-> RSum([a \in 1..3 |-> RSq(row(k)[a] \ominus mean(a))])]) \oslash n)
      where == IF i.o = "galaxy" THEN body.p ELSE << o.cen[1], o.cen[2], o.cen[3] >>
  IN Failing([
       count  |-> all,
       units  |-> o.u = i.u,
       origin |-> o.o = i.o,
       mass   |-> all => \A k \in 1..n : N9(o.m[k], sn.rows[k][1]),
       stars  |-> all => \A k \in 1..n : Near6([j \in 1..6 |-> o.x[k][j] \oplus shift[j]], row(k), "1e-10" \otimes far(1), "1e-10" \otimes far(4)),
       ids    |-> all => IF i.ids THEN \A k \in 1..n : o.id[k] = sn.id[k]
                         ELSE o.id[1] \in {0, 1} /\ \A k \in 1..n : o.id[k] = o.id[1] + k - 1,
       time   |-> RNear(o.t, TimeOf(st, e, sn), "1e-9", "1e-12"),
       centre |-> IF i.centre = "given" THEN \A j \in 1..3 : RNear(o.cen[j], sn.cen[j], "1e-9", 0)
                  ELSE i.centre = "found" /\ n > Enough => \A a \in 1..3 : RNear(where[a], mean(a), 0, 2 \otimes spread),
       orbit  |-> i.orbit # "none" =>
                    LET v == Scaled([u |-> i.u, P |-> e.P], OrbitOf(st, e, sn))
                        tl == IF i.orbit = "table" THEN "1e-9" ELSE "3e-5"
                    IN Near6(o.gc, v, tl \otimes (1 \oplus RNorm3(v)), tl \otimes (1 \oplus RNorm3(<< v[4], v[5], v[6] >>))),
       nbody  |-> \A k \in {"zm", "rb", "vb", "tb"} : ~i.scaled \/ N9(e.P[k], sn.P[k]),
       more   |-> \A k \in 1..Len(e.more) : Len(e.more[k]) = n /\ \A j \in 1..n : REq(e.more[k][j], sn.rows[j][7 + k]),
       settings |-> e.set = i.set,
       scales |-> \A k \in {"ro", "vo", "zo", "sx", "sy", "sz"} : N9(e.P[k], i.P[k]) ])
TheFails(st0, st, e) ==
  IF e.op = "convert" THEN {}
  ELSE Failing([ number |-> REq(e.nsnap, st.s.n \otimes st.i.step) ])
       \cup (IF st.s.has THEN IF Len(e.obs.x) > 0 THEN DataFails(st, e) ELSE {"missing"}
             ELSE IF Len(e.obs.x) = 0 THEN {} ELSE {"ended"})
=============================================================================
