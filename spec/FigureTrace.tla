---------------------------- MODULE FigureTrace ----------------------------
(* C32: recorded figures and answers of questions asked with plot=True,      *)
(* judged by Figures.tla and Pictures.tla.                                   *)
EXTENDS Pictures, TraceKit
\* as in Figures.tla
NewPages(ps, c, over) == IF over /\ c > 0 THEN ps ELSE Append(ps, 0)
NewCurrent(ps, c, over) == IF over /\ c > 0 THEN c ELSE Len(ps) + 1
TheInit(i) == [pages |-> << >>, cur |-> 0]
ThePost(c, e) ==
  CASE e.op = "page" -> [pages |-> Append(c.pages, 0), cur |-> Len(c.pages) + 1]
    [] e.op = "turn" -> [c EXCEPT !.cur = e.to]
    [] e.op = "change" -> c
    [] OTHER -> LET n == NewPages(c.pages, c.cur, e.over)
                    k == NewCurrent(c.pages, c.cur, e.over)
                IN [pages |-> [n EXCEPT ![k] = IF Len(e.pages) >= k THEN e.pages[k] ELSE 0], cur |-> k]
Max(s) == IF Len(s) = 0 THEN "0" ELSE RSeqMax([i \in 1..Len(s) |-> IF RFinite(s[i]) THEN RAbs(s[i]) ELSE "0"])
AllNear(a, b, tol) == /\ Len(a) = Len(b)
                      /\ LET big == TLCEval(Max(a)) IN \A i \in 1..Len(a) : RNear(a[i], b[i], tol, big \otimes tol)
\* numbers drawn on an axis with unit w, for answers a of kind k known in units u
Shown(d, a, scale, k, w, u, P, tol) ==
  LET t == TLCEval([i \in 1..Len(a) |-> OnScale(scale, a[i])])
      fin == TLCEval({ i \in 1..Len(a) : RFinite(t[i]) })
      same == /\ Len(d) = Len(a) /\ \A i \in 1..Len(a) : RFinite(d[i]) = (i \in fin)
      at == CHOOSE i \in fin : \A j \in fin : RAbs(a[j]) \preceq RAbs(a[i])
      lin == IF k \in {"number", "tie"} THEN "1"
             ELSE IF SystemOf(w) # "none" /\ k # "any" THEN FactorOf(k, SystemOf(w), P) \oslash FactorOf(k, u, P)
             ELSE IF t[at] = "0.0" \/ REq(t[at], "0") THEN "1" ELSE d[at] \oslash t[at]
      shift == IF k \in {"number", "tie"} THEN "0" ELSE d[at] \ominus t[at]
  IN /\ same
     /\ fin # {} =>
          IF scale = "lin"
          THEN LET f == TLCEval(lin)
                   big == TLCEval(RAbs(t[at] \otimes f))
               IN "0" \prec f /\ \A i \in fin : RNear(d[i], t[i] \otimes f, tol, big \otimes tol)
          ELSE LET s == TLCEval(shift) IN \A i \in fin : RNear(d[i], t[i] \oplus s, tol, tol)
Pictured(e, kinds) ==
  \A j \in 1..Len(Curves(e.op, e.q)) :
    LET c == Curves(e.op, e.q)[j]
    IN \E n \in 1..Len(e.curves) :
         /\ Shown(e.curves[n].x, e.ans[c.x], c.sx, kinds[c.x], e.curves[n].xw, e.u, e.P, e.tol)
         /\ Shown(e.curves[n].y, e.ans[c.y], c.sy, kinds[c.y], e.curves[n].yw, e.u, e.P, e.tol)
\* a straight line at an answer
Constant(s) == Len(s) > 1 /\ \A i \in 1..Len(s) : RNear(s[i], s[1], "1e-12", "0")
Marked(e, kinds) ==
  /\ \A k \in 1..Len(Vertical(e.op)) : \E n \in 1..Len(e.curves) :
       Constant(e.curves[n].x) /\ (IF e.q.normalize THEN RNear(e.curves[n].x[1], e.ans[Vertical(e.op)[k]][1] \oslash e.half, e.tol, "0")
                                   ELSE Shown(<< e.curves[n].x[1] >>, e.ans[Vertical(e.op)[k]], "lin", kinds[Vertical(e.op)[k]], e.curves[n].xw, e.u, e.P, e.tol))
  /\ \A k \in 1..Len(Horizontal(e.op)) : \E n \in 1..Len(e.curves) :
       Constant(e.curves[n].y) /\ Shown(<< e.curves[n].y[1] >>, e.ans[Horizontal(e.op)[k]], "lin", kinds[Horizontal(e.op)[k]], e.curves[n].yw, e.u, e.P, e.tol)
\* the tidal radius is a circle about the cluster
Circle(e) ==
  \E n \in 1..Len(e.curves) : \E k \in 1..Len(e.about) :
    LET c == e.curves[n]
        f == FactorOf("length", SystemOf(c.xw), e.P) \oslash FactorOf("length", e.u, e.P)
        g == IF SystemOf(c.xw) = "none" THEN "1" ELSE f
    IN /\ Len(c.x) > 50
       /\ \A i \in 1..Len(c.x) : RNear(RNorm2(<< c.x[i] \ominus (e.about[k][1] \otimes g), c.y[i] \ominus (e.about[k][2] \otimes g) >>), e.ans[1][1] \otimes g, "1e-6",
                                       (RNorm2(e.about[k]) \otimes g) \otimes "1e-9")
Stars(e) == \E n \in 1..Len(e.curves) : /\ Shown(e.curves[n].x, e.stars[1], "lin", "length", e.curves[n].xw, e.u, e.P, e.tol)
                                        /\ Shown(e.curves[n].y, e.stars[2], "lin", "length", e.curves[n].yw, e.u, e.P, e.tol)
Centred(e) == \E n \in 1..Len(e.curves) : \E k \in 1..Len(e.centres) :
                 /\ Len(e.curves[n].x) = 1
                 /\ RNear(e.curves[n].x[1], e.centres[k][1], "1e-9", "1e-9") /\ RNear(e.curves[n].y[1], e.centres[k][2], "1e-9", "1e-9")
TheFails(c0, c1, e) ==
  LET kinds == TLCEval(IF e.op \in {"page", "turn", "change"} THEN << >> ELSE KindsOf(e.op, e.q))
  IN IF e.op \in {"page", "turn", "change"} THEN Failing([pages |-> e.pages = c1.pages /\ e.cur = c1.cur])
     ELSE Failing([ pages  |-> /\ Len(e.pages) = Len(c1.pages) /\ e.cur = c1.cur
                               /\ \A i \in 1..Len(e.pages) : e.pages[i] = c1.pages[i]
                               /\ e.pages[c1.cur] > (IF c1.cur <= Len(c0.pages) THEN c0.pages[c1.cur] ELSE 0),
                    answer |-> /\ Len(e.plain) = Len(e.plotted) /\ \A i \in 1..Len(e.plain) : AllNear(e.plain[i], e.plotted[i], e.tol),
                    state  |-> \A k \in DOMAIN e.s0 : AllNear(e.s0[k].v, e.s1[k].v, "1e-9") /\ e.s0[k].u = e.s1[k].u,
                    frame  |-> e.f0 = e.f1,
                    drawn  |-> Pictured(e, kinds),
                    marked |-> Marked(e, kinds),
                    circle |-> e.op = "rtidal" => Circle(e),
                    stars  |-> Len(e.stars) = 0 \/ Stars(e),
                    centre |-> Len(e.centres) = 0 \/ Centred(e),
                    limits |-> \A i \in 1..Len(e.limits) : RNear(e.limits[i][1], e.limits[i][2], "1e-9", "0"),
                    log    |-> ~Logarithmic(e.op, e.q) \/ e.axes = << "log", "log" >>,
                    saved  |-> e.file => e.saved ])
=============================================================================
