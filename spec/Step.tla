-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* The state of an engine between two cycles, and what one cycle makes of  *)
(* it.  A state has pressures, temperatures, mass and heat flows and the    *)
(* imbalance of the regenerator; a cycle v is a series of points.           *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Exchanger

(* ---- time averages and extremes ------------------------------------------ *)
RECURSIVE Trapezoids(_, _, _)
Trapezoids(t, y, k) ==
    IF k <= 1 THEN R(0)
    ELSE Trapezoids(t, y, k - 1) \oplus (Half(y[k] \oplus y[k - 1]) \otimes (t[k] \ominus t[k - 1]))
Average(t, y) == Trapezoids(t, y, Len(t)) \oslash t[Len(t)]

RECURSIVE Largest(_, _)
Largest(y, k) == IF k = 1 THEN R(y[1]) ELSE NMax(Largest(y, k - 1), y[k])
RECURSIVE Smallest(_, _)
Smallest(y, k) == IF k = 1 THEN R(y[1]) ELSE NMin(Smallest(y, k - 1), y[k])

Magnitude(y) == NMax(NAbs(Largest(y, Len(y))), NAbs(Smallest(y, Len(y))))

PressuresOf(v) == [avg |-> Average(v.t, v.P), max |-> Largest(v.P, Len(v.P)),
                   min |-> Smallest(v.P, Len(v.P)), t_zero |-> R(v.P[1])]

FlowThrough(v, a, b) == Average(v.t, [k \in DOMAIN v.t |-> NAbs(Half(v[a][k] \oplus v[b][k]))])
MassFlowsOf(v) == [chx |-> FlowThrough(v, "ck", "kr"), regen |-> FlowThrough(v, "kr", "rl"), hhx |-> FlowThrough(v, "rl", "le")]

(* the exchangers also exchange heat with their working spaces              *)
HeatFlowsOf(v, temp, Rc, Re) ==
    [chx |-> Average(v.t, v.Qk) \oplus Average(v.t, [k \in DOMAIN v.t |-> (v.Tc[k] \ominus temp.chx) \oslash Rc]),
     regen |-> Average(v.t, v.Qr),
     hhx |-> Average(v.t, v.Ql) \oplus Average(v.t, [k \in DOMAIN v.t |-> (temp.hhx \ominus v.Te[k]) \oslash Re])]

(* what a wall or a loss of the working spaces amounts to at some pressures   *)
AtPressures(ws, key, pres) ==
    IF "dep" \notin DOMAIN ws THEN R(ws[key])
    ELSE LET c == ws.dep[key]
         IN  ws[key] \otimes (1 \oplus ("1e-7" \otimes
                NSum(<<c[1] \otimes pres.avg, c[2] \otimes pres.max, c[3] \otimes pres.min, c[4] \otimes pres.t_zero>>)))

(* ---- one step ------------------------------------------------------------ *)
(* what the components are shown: the flows of this cycle at the             *)
(* temperatures it was made with                                             *)
Shown(s, v, Rc, Re) ==
    [s EXCEPT !.pres = PressuresOf(v), !.mass = MassFlowsOf(v), !.heat = HeatFlowsOf(v, s.temp, Rc, Re)]

Temps == {"chx", "hhx", "cold", "avg", "hot"}

(* the temperatures that approaches a ask for *)
Wanted(s, a) == Place(s.temp.sink, s.temp.source, a, s.imb)

(* converged for tolerances tightened or loosened by a factor                *)
AllSettled(s, a, tol, factor) ==
    \A k \in Temps : Settled(s.temp[k], Wanted(s, a)[k], tol.abs \otimes factor, tol.rel \otimes factor)

(* The next state keeps its temperatures when they are settled, and moves to *)
(* the wanted ones otherwise                                                 *)
NextTemps(s, a, settled) == IF settled THEN s.temp ELSE Wanted(s, a)
=============================================================================
