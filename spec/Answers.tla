------------------------------ MODULE Answers ------------------------------
(* What a question about a cluster is answered with: the kind of quantity of *)
(* every array of the answer and of everything a cluster holds.              *)
EXTENDS Scales
Rep(n, k) == [i \in 1..n |-> k]
PhaseSpace == Rep(3, "length") \o Rep(3, "velocity")
\* kinds of the arrays of an answer; "number" is the same in all units, "any" a number with masses in it whose units are not said, "tie" depends on rounding
AnswerKinds(op, q) ==
  CASE op \in {"find_centre", "find_centre_of_density", "find_centre_of_mass", "interpolate_orbit", "interpolate_orbits", "to_tail", "add_rotation"} -> PhaseSpace
    [] op \in {"relaxation_time", "half_mass_relaxation_time", "core_relaxation_time"} -> << "time" >>
    [] op = "energies" -> Rep(2, IF q.specific THEN "square" ELSE "energy")
    [] op = "closest_star" -> IF q.argument THEN << "length", "number" >> ELSE << "length" >>
    [] op \in {"rlagrange", "virial_radius", "rcore", "rtidal", "rlimiting"} -> << "length" >>
    [] op \in {"mass_function", "eta_function", "virialize", "subset"} -> << "number" >>
    [] op \in {"meq_function", "ckin"} -> << "any" >>
    [] op \in {"orbital_path", "tail_path"} -> << "time" >> \o PhaseSpace
    [] op = "orbital_path_match" -> << "time", "length", "length" >>
    [] op = "tail_path_match" -> << "time", "tie", "length" >>
    [] op = "rho_prof" -> << IF q.normalize THEN "number" ELSE "length", IF q.projected THEN "surface" ELSE "density", "number" >>
    [] op = "m_prof" -> << IF q.normalize THEN "number" ELSE "length", "mass", "number" >>
    [] op \in {"v_prof", "sigv_prof"} -> << IF q.normalize THEN "number" ELSE "length", "velocity" >>
    [] op = "v2_prof" -> << IF q.normalize THEN "number" ELSE "length", "square" >>
    [] op = "beta_prof" -> << IF q.normalize THEN "number" ELSE "length", "number" >>
    [] op \in {"alpha_prof", "eta_prof"} -> << IF q.normalize THEN "number" ELSE "length" >> \o Rep(5, "number")
    [] op = "meq_prof" -> << IF q.normalize THEN "number" ELSE "length" >> \o Rep(5, "any")
    [] op = "vcirc_prof" -> << "length", "velocity", "length", "velocity" >>
    [] op = "initialize_orbits" -> << "number" >>
    [] OTHER -> << >>
\* what a cluster holds
Attribute(n) ==
  CASE n \in {"x", "y", "z", "r", "rpro", "xc", "yc", "zc", "xgc", "ygc", "zgc", "rm", "rmpro", "r10", "r10pro", "rmax", "rmaxpro", "rmean", "rmeanpro"} -> "length"
    [] n \in {"vx", "vy", "vz", "v", "vpro", "vxc", "vyc", "vzc", "vxgc", "vygc", "vzgc"} -> "velocity"
    [] n \in {"m", "mtot", "mmean"} -> "mass"
    [] n = "tphys" -> "time"
    [] OTHER -> "number"
KindDimension(k) == IF k = "energy" THEN << 1, 0, 2, 0 >> ELSE IF k \in {"number", "any"} THEN << 0, 0, 0, 0 >> ELSE Dimension(k)
FactorOf(k, u, P) == LET f == Fac(u, P)
                         d == KindDimension(k)
                     IN RPow(f.m, d[1]) \otimes (RPow(f.l, d[2]) \otimes (RPow(f.v, d[3]) \otimes RPow(f.t, d[4])))
=============================================================================
