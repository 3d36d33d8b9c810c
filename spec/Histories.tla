----------------------------- MODULE Histories -----------------------------
(* Call histories over a StarCluster, for replay into the real code, and the *)
(* control properties (units, origin) the design must have on all of them.   *)
(*   IOEnv.ALPHABET  which operations may occur                              *)
(*   IOEnv.DEPTH     length of the histories                                 *)
(*   IOEnv.EMIT      "yes": print every complete history as JSON             *)
EXTENDS ClusterControl, Integers, Sequences, TLC, Json, IOUtils
VARIABLES u0, o0, u, o, sv, h
vars == << u0, o0, u, o, sv, h >>

Alphabet == IOEnv.ALPHABET
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "yes"

CartUnits == {"pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits"}
CartOrigins == {"cluster", "centre", "galaxy"}
Sky == Alphabet \in {"sky", "derived", "save"}
Units == CartUnits \cup (IF Alphabet = "units" THEN {"amuse"} ELSE {}) \cup (IF Sky THEN {"radec"} ELSE {})
Origins == CartOrigins \cup (IF Sky THEN {"sky"} ELSE {})

\* analyses that must not change the cluster they look at
Reads == { "rlagrange", "virial_radius", "virial_radius_critical", "relaxation_time", "half_mass_relaxation_time",
           "core_relaxation_time", "energies", "closest_star", "mass_function", "eta_function", "meq_function", "ckin",
           "rcore", "rho_prof", "m_prof", "sigv_prof", "beta_prof", "v_prof", "v2_prof", "alpha_prof", "eta_prof",
           "meq_prof", "vcirc_prof", "subset", "sub_cluster", "overlap", "initialize_orbit", "initialize_orbits",
           "sphere_coords", "cyl_coords", "to_tail", "snapout", "reset_nbody_scale_fn", "rtidal", "orbital_path" }
\* those defined for a cluster expressed in any units and origin
HasV == Alphabet \in {"derived"}

UnitsOps  == { [op |-> "units", u |-> x, via |-> w, an |-> a] : x \in Units, w \in {"method", "to_units", "function"}, a \in BOOLEAN }
OriginOps == { [op |-> "origin", o |-> x, via |-> w, so |-> s] : x \in Origins, w \in {"method", "to_origin", "function"}, s \in BOOLEAN }
ReadOps   == { [op |-> "read", fn |-> f] : f \in Reads }

Init == /\ \/ u \in CartUnits /\ o \in CartOrigins
           \/ Sky /\ u = "radec" /\ o = "sky"
        /\ u0 = u /\ o0 = o /\ sv = << >> /\ h = << >>

\* so that random simulation picks saving and returning as often as the many kinds of conversion
Weight == IF IOEnv.EMIT = "yes" THEN 1..atoi(IOEnv.WEIGHT) ELSE {1}
Log(e) == h' = Append(h, e)
DoUnits == \E e \in UnitsOps :
             /\ e.an \/ (Alphabet # "save" /\ e.via # "to_units")
             /\ LET k == CtlUnits([u |-> u, o |-> o], e.u) IN u' = k[1] /\ o' = k[2]
             /\ Log(e) /\ UNCHANGED << u0, o0, sv >>
DoOrigin == /\ Alphabet # "units"
            /\ \E e \in OriginOps :
                 /\ e.so \/ Alphabet # "save"
                 /\ LET k == CtlOrigin([u |-> u, o |-> o], e.o) IN u' = k[1] /\ o' = k[2]
                 /\ Log(e) /\ UNCHANGED << u0, o0, sv >>
DoSave == /\ Alphabet = "save"
          /\ sv' = << u, o >>
          /\ \E w \in Weight : Log([op |-> "save", w |-> w])
          /\ UNCHANGED << u0, o0, u, o >>
DoReturn == /\ Alphabet = "save" /\ sv # << >>
            /\ LET k == CtlReturn([u |-> u, o |-> o], sv[1], sv[2]) IN u' = k[1] /\ o' = k[2]
            /\ \E w \in Weight : Log([op |-> "return", w |-> w])
            /\ UNCHANGED << u0, o0, sv >>
DoRead == /\ Alphabet = "save"
            /\ \E e \in ReadOps : /\ e.fn = "initialize_orbits" => (u # "radec" \/ o = "sky")  \* says it has no method there
                                /\ Log(e)
          /\ UNCHANGED << u0, o0, u, o, sv >>
DoAnalyze == /\ Alphabet = "derived"
             /\ \E s \in BOOLEAN : Log([op |-> "analyze", so |-> s])
             /\ UNCHANGED << u0, o0, u, o, sv >>
\* more stars are added where the cluster is now (offsets on the sky are not places)
DoAdd == /\ Alphabet = "derived" /\ (u = "radec" => o = "sky")
         /\ \E k \in 1..2, s \in BOOLEAN, a \in BOOLEAN : Log([op |-> "add", n |-> k, so |-> s, an |-> a])
         /\ UNCHANGED << u0, o0, u, o, sv >>
DoEmit == /\ Emit /\ Len(h) = Depth
          /\ PrintT("HIST " \o ToJson([u |-> u0, o |-> o0, h |-> h]))
          /\ Log([op |-> "emitted"]) /\ UNCHANGED << u0, o0, u, o, sv >>
Next == \/ /\ Len(h) < Depth
           /\ DoUnits \/ DoOrigin \/ DoSave \/ DoReturn \/ DoRead \/ DoAnalyze \/ DoAdd
        \/ DoEmit
Spec == Init /\ [][Next]_vars
TheView == << u, o, sv >>

(* ---- what must hold of (units, origin) on every history ---- *)
TypeOK == u \in Units \cup {"radec"} /\ o \in Origins \cup {"sky"}
\* the sky is only ever described in sky units, and Cartesian frames never are
SkyIsRadec == o = "sky" => u = "radec"
GalaxyIsCartesian == o = "galaxy" => u # "radec"
\* asking for something gives it (radec/cluster -> galaxy excepted: leaving the sky lands in kpckms)
GetsUnits == [][ \A x \in Units : (Len(h') > Len(h) /\ h'[Len(h')].op = "units" /\ h'[Len(h')].u = x) => u' = x ]_vars
GetsOrigin == [][ \A x \in Origins : (Len(h') > Len(h) /\ h'[Len(h')].op = "origin" /\ h'[Len(h')].o = x) => o' = x ]_vars
\* returning to a saved pair always succeeds: every pair is reachable from every other by CtlReturn
ReturnsExactly == sv # << >> =>
   LET k == CtlReturn([u |-> u, o |-> o], sv[1], sv[2]) IN k = sv
=============================================================================
