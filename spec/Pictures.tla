----------------------------- MODULE Pictures -----------------------------
(* What the picture of an answer shows: which arrays of the answer are the   *)
(* curve, on which scale, and which answers are marked by a straight line.   *)
EXTENDS Answers
\* x, y: positions in the answer; sx, sy: "lin", "ln", "log10"
Curve(x, sx, y, sy) == [x |-> x, sx |-> sx, y |-> y, sy |-> sy]
Curves(op, q) ==
  CASE op \in {"rho_prof", "m_prof", "v_prof", "v2_prof", "sigv_prof", "beta_prof", "vcirc_prof"} -> << Curve(1, "lin", 2, "lin") >>
    [] op \in {"alpha_prof", "eta_prof", "meq_prof"} -> << Curve(1, "ln", 2, "lin") >>
    [] op = "mass_function" -> << Curve(1, "lin", 3, "log10") >>
    [] op \in {"eta_function", "meq_function", "ckin"} -> << Curve(1, "lin", 2, "log10") >>
    [] op \in {"orbital_path", "tail_path", "orbital_path_match", "tail_path_match"} -> << Curve(2, "lin", 3, "lin") >>
    [] op = "starplot" -> (CASE q.coords = "xy" -> << Curve(1, "lin", 2, "lin") >>
                             [] q.coords = "xz" -> << Curve(1, "lin", 3, "lin") >>
                             [] q.coords = "yz" -> << Curve(2, "lin", 3, "lin") >>
                             [] OTHER -> << Curve(1, "lin", 3, "lin"), Curve(1, "lin", 2, "lin") >>)
    [] op = "skyplot" -> IF q.coords = "pm" THEN << Curve(3, "lin", 4, "lin") >> ELSE << Curve(1, "lin", 2, "lin") >>
    [] OTHER -> << >>
\* kinds of the answers that are drawn
KindsOf(op, q) == CASE op = "starplot" -> Rep(3, "length")
                    [] op = "skyplot" -> Rep(4, "number")
                    [] op \in {"mass_function", "eta_function", "meq_function", "ckin"} -> Rep(8, "any")
                    [] op \in {"orbital_path", "tail_path"} /\ q.skypath -> Rep(7, "number")
                    [] op \in {"orbital_path_match", "tail_path_match"} /\ q.skypath -> << "time", "number", "number" >>
                    [] op \in {"orbital_path_match", "tail_path_match"} -> << "time", "length", "length" >>
                    [] OTHER -> AnswerKinds(op, q)
\* answers marked by vertical and by horizontal lines
Vertical(op) == CASE op \in {"rlimiting", "rcore", "virial_radius"} -> << 1 >> [] op = "vcirc_prof" -> << 3 >> [] OTHER -> << >>
Horizontal(op) == IF op = "vcirc_prof" THEN << 4 >> ELSE << >>
Logarithmic(op, q) == op \in {"rho_prof", "m_prof", "vcirc_prof"} /\ q.log
\* the unit system a word on an axis stands for
SystemOf(w) == CASE w = "pc" -> "pckms" [] w = "kpc" -> "kpckms" [] w = "NBODY" -> "nbody" [] w = "GALPY" -> "galpy" [] w \in {"pcmyr", "kpcgyr"} -> w [] OTHER -> "none"
OnScale(s, x) == CASE s = "ln" -> RLn(x) [] s = "log10" -> RLog10(x) [] OTHER -> x
=============================================================================
