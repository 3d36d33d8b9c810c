-------------------------- MODULE ClusterControl --------------------------
(* How the pair (units, origin) of a StarCluster moves under conversions.   *)
(* control part: how (units, origin) move; ctl is any record with fields u and o *)
CtlUnits(k, u) ==
  IF k.u = "none" \/ k.u = u THEN << k.u, k.o >>
  ELSE IF u = "radec" THEN << "radec", IF k.o \in {"cluster", "centre"} THEN k.o ELSE "sky" >>
  ELSE IF k.u = "radec" THEN << u, "galaxy" >>
  ELSE << u, k.o >>
CtlOrigin(k, o) ==
  IF k.o = "none" THEN << k.u, k.o >>
  ELSE IF o = "radec" THEN CtlUnits(k, "radec")
  ELSE IF k.u = "radec" THEN IF o = "galaxy" THEN << "kpckms", "galaxy" >> ELSE << k.u, o >>
  ELSE IF o = "sky" THEN << "radec", "sky" >>
  ELSE << k.u, o >>
CtlReturn(k, u, o) == LET a == CtlUnits(k, u)
                      IN IF a[2] = o THEN a ELSE CtlOrigin([u |-> a[1], o |-> a[2]], o)
=============================================================================
