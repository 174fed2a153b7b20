----------------------------- MODULE Scenarios -----------------------------
(***************************************************************************)
(* The space of engines: every component kind, fluid, input and setting,   *)
(* with parameters drawn (deterministically, from a seed) from ranges in   *)
(* which the model is meaningful.                                          *)
(*                                                                         *)
(* o restricts the choice: o.ws, o.hx, o.fluid, o.wall, o.n are sequences   *)
(* of alternatives.                                                        *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

U(s, i, tag, lo, hi) == NStr(Uni(s, i, tag, lo, hi))
LU(s, i, tag, lo, hi) == NStr(LogUni(s, i, tag, lo, hi))
One(s, i, tag, alts) == Pick(s, i, tag, alts, Len(alts))
Chance(s, i, tag, p) == NUniform(s, i, tag) \prec p

(* ---- working spaces ---------------------------------------------------- *)
Wall(s, i, tag, o) == IF One(s, i, tag \o "?", o.wall) = "finite"
                      THEN IF Chance(s, i, tag \o "!", "0.25") THEN LU(s, i, tag, 5, "1e6") ELSE LU(s, i, tag, "0.02", 5)
                      ELSE "Infinity"

(* a few losses are gains *)
Loss(s, i, tag, lo, hi) ==
    NStr(Uni(s, i, tag, lo, hi) \otimes (IF Chance(s, i, tag \o "-", "0.1") THEN R("-1") ELSE R(1)))

WsCommon(s, i, o) ==
    [f  |-> LU(s, i, "f", 5, 120),
     Rc |-> Wall(s, i, "Rc", o), Re |-> Wall(s, i, "Re", o),
     Wc |-> Loss(s, i, "Wc", 10, 300), We |-> Loss(s, i, "We", 10, 300),
     Qe |-> Loss(s, i, "Qe", 10, 300)]

SinWs(s, i, o) ==
    [kind |-> "sin", phase |-> CASE Chance(s, i, "right", "0.1") -> "90"
                                 [] Chance(s, i, "anyphase", "0.1") -> U(s, i, "phase", "-360", 720)
                                 [] OTHER -> U(s, i, "phase", 60, 120),
     vcc |-> LU(s, i, "vcc", "1e-5", "1e-4"), vsc |-> LU(s, i, "vsc", "8e-5", "5e-4"),
     vce |-> LU(s, i, "vce", "1e-5", "1e-4"), vse |-> LU(s, i, "vse", "8e-5", "5e-4")]

(* r < L/4 and 0.9 r < e < 0.6 L keep the mechanism admissible *)
RhombicWs(s, i, o) ==
    LET L == Uni(s, i, "L", "0.03", "0.08")
        r == Uni(s, i, "r", "0.15", "0.28") \otimes L
        e == r \otimes Uni(s, i, "ecc", "1.05", "1.8")
    IN  [kind |-> "rhombic", L |-> NStr(L), r |-> NStr(r), ecc |-> NStr(e),
         Dp |-> U(s, i, "Dp", "0.05", "0.09"), Dd |-> U(s, i, "Dd", "0.05", "0.09"),
         vcc |-> LU(s, i, "vcc", "1e-5", "8e-5"), vce |-> LU(s, i, "vce", "1e-5", "8e-5")]

(* a drive that is not in the library: two harmonics per space *)
HarmWs(s, i, o) ==
    LET space(t, ph) ==
            LET a == LogUni(s, i, t \o "amp", "5e-5", "2e-4")
                b == a \otimes Uni(s, i, t \o "b", "0", "0.2")
                c == LogUni(s, i, t \o "clear", "1e-5", "5e-5")
            IN  << <<NStr((a \oplus b) \oplus c), 0>>,
                   <<NStr(a), NStr(ph)>>,
                   <<NStr(b), U(s, i, t \o "ph", 0, 6)>> >>
    IN  [kind |-> "harm", comp |-> space("c", R(0)),
         exp |-> space("e", Uni(s, i, "phase", "1.1", "2.1"))]

Ws(s, i, o) ==
    LET k == One(s, i, "ws", o.ws)
        \* losses that no figure of the engine counts
        extra == IF k = "rhombic" THEN [none |-> 0]
                 ELSE [Qc |-> Loss(s, i, "Qc", 10, 300), Elc |-> Loss(s, i, "Elc", 10, 300), Ele |-> Loss(s, i, "Ele", 10, 300)]
    IN  WsCommon(s, i, o) @@ extra @@ (CASE k = "sin" -> SinWs(s, i, o)
                                [] k = "rhombic" -> RhombicWs(s, i, o)
                                [] k = "harm" -> HarmWs(s, i, o))

(* ---- heat exchangers --------------------------------------------------- *)
(* the volume ranges differ so that exchangers cannot be mistaken *)
Hyd(s, i, w, o) == IF o.hyd = "zero" THEN "0" ELSE LU(s, i, w \o "hyd", "1e4", "3e6")

HxCommon(s, i, w, o) ==
    [vol |-> LU(s, i, w \o "vol", "2e-5", "2e-4"), R_hyd |-> Hyd(s, i, w, o),
     W |-> Loss(s, i, w \o "W", 10, 200), Q |-> Loss(s, i, w \o "Q", 10, 200), El |-> Loss(s, i, w \o "El", 10, 200)]

Span(w) == IF w = "chx" THEN <<5, 60>> ELSE IF w = "hhx" THEN <<10, 120>> ELSE <<3, 50>>
Conduct(w) == IF w = "chx" THEN <<300, 3000>> ELSE IF w = "hhx" THEN <<200, 3000>>
              ELSE <<20000, 200000>>

(* an approach law that depends on everything the component is told *)
LinLaw(s, i, w) ==
    [law |-> "lin", init |-> U(s, i, w \o "init", 5, 60),
     alin |-> [c |-> U(s, i, w \o "ac", 5, 30), T |-> U(s, i, w \o "aT", "0", "0.01"),
               P |-> U(s, i, w \o "aP", 0, "5e-7"), d |-> U(s, i, w \o "ad", 0, "0.3"),
               cp |-> U(s, i, w \o "acp", 0, "5e-4"), m |-> U(s, i, w \o "am", 0, 60),
               Q |-> U(s, i, w \o "aQ", 0, "3e-4")],
     rlin |-> [c |-> "1e3", T |-> U(s, i, w \o "rT", 0, 300), P |-> U(s, i, w \o "rP", 0, "1e-2"),
               m |-> U(s, i, w \o "rm", 0, "1e5"), Q |-> U(s, i, w \o "rQ", 0, 2)],
     wlin |-> [T |-> U(s, i, w \o "wT", "0.1", "0.3"), m |-> U(s, i, w \o "wm", 100, 500),
               Q |-> U(s, i, w \o "wQ", 0, "5e-3")],
     qlin |-> [T |-> U(s, i, w \o "qT", "0.1", "0.3"), P |-> U(s, i, w \o "qP", 0, "2e-5"),
               d |-> U(s, i, w \o "qd", 1, 5)]]

Hx(s, i, w, o) ==
    LET k == One(s, i, w, o.hx)
    IN  HxCommon(s, i, w, o) @@ [kind |-> k] @@
        (CASE k = "fa" -> [DT |-> U(s, i, w \o "DT", Span(w)[1], Span(w)[2])]
           [] k = "fc" -> [UA |-> LU(s, i, w \o "UA", Conduct(w)[1], Conduct(w)[2])]
           [] k = "law" -> LinLaw(s, i, w))

(* ---- conditions of an exchanger ----------------------------------------- *)
HxState(s, i, k) ==
    LET t == ToString(k)
        cold == Uni(s, i, "c" \o t, 250, 400)
        gap  == Uni(s, i, "h" \o t, 50, 900)
        far  == Chance(s, i, "hf" \o t, "0.2")
        hot  == IF Chance(s, i, "he" \o t, "0.05") THEN cold ELSE IF Chance(s, i, "hs" \o t, "0.2") THEN cold \ominus (gap \oslash 5) ELSE cold \oplus gap   \* the "hot" side may be the colder one
    IN  [temp |-> U(s, i, "T" \o t, 200, 1400), pres |-> LU(s, i, "P" \o t, "1e4", "1e8"),
         dens |-> LU(s, i, "d" \o t, "0.01", 100), cp |-> LU(s, i, "cp" \o t, 500, 20000),
         m |-> IF far THEN LU(s, i, "m" \o t, "1e-9", "1e4") ELSE LU(s, i, "m" \o t, "1e-5", 10),
         Q |-> IF Chance(s, i, "Q0" \o t, "0.05") THEN "0" ELSE NStr(LogUni(s, i, "Q" \o t, "1e-2", "1e6") \otimes
                    (IF Chance(s, i, "s" \o t, "0.25") THEN R("-1") ELSE R(1))),
         a |-> NStr(cold), b |-> NStr(hot)]

(* ---- fluid ------------------------------------------------------------- *)
Fluid(s, i, o) ==
    LET k == One(s, i, "fluid", o.fluid)
    IN  IF k = "virial"
        THEN [kind |-> k, R |-> U(s, i, "flR", 300, 4000), cv |-> U(s, i, "flcv", 2500, 8000),
              a |-> U(s, i, "fla", "0.2", "1"), b |-> U(s, i, "flb", "5e-4", "2e-3"),
              h0 |-> U(s, i, "flh0", "1e5", "5e5")]
        ELSE [kind |-> k]

(* ---- inputs and settings ----------------------------------------------- *)
(* sometimes far below or above what is common *)
Conditions(s, i, o) ==
    [p |-> LU(s, i, "p", "8e5", "1.2e7")] @@
    (IF Chance(s, i, "uncommon", "0.15")
     THEN LET ts == Uni(s, i, "ts", 150, 600) IN [ts |-> NStr(ts), th |-> NStr(Uni(s, i, "th", ts \oplus 420, 1400))]
     ELSE [ts |-> U(s, i, "ts", 280, 340), th |-> U(s, i, "th", 750, 1100)])

Settings(s, i, o) ==
    [n |-> ToString(One(s, i, "n", o.n)),
     iabs |-> U(s, i, "iabs", "5e-3", "2e-2"), irel |-> U(s, i, "irel", "3e-5", "1e-4"),
     oabs |-> U(s, i, "oabs", "5e-3", "3e-2"), orel |-> U(s, i, "orel", "3e-5", "2e-4"),
     dabs |-> o.ode, drel |-> o.ode, imax |-> "400", omax |-> "200"]

(* tolerances so tight that one iteration more or less makes no difference *)
Tight(s, i, e) ==
    [e EXCEPT !.set.iabs = LU(s, i, "tia", "1e-5", "5e-5"), !.set.irel = LU(s, i, "tir", "1e-7", "5e-7"),
              !.set.oabs = LU(s, i, "toa", "5e-5", "5e-4"), !.set.orel = LU(s, i, "tor", "1e-6", "5e-6")]

(* ---- size, speed and pressure level --------------------------------------- *)
(* The same engine with another frequency, size and pressure (by the factors f, *)
(* v, p): temperatures stay, all flows, powers and losses grow alike.           *)
Mul(x, k) == NStr(x \otimes k)
MulAll(r, ks) == [n \in DOMAIN r |-> IF n \in DOMAIN ks THEN Mul(r[n], ks[n]) ELSE r[n]]
HxBy(x, f, v, p) ==
    LET fv == f \otimes v
        flow == fv \otimes p
        res == p \oslash fv
        c == MulAll(x, [vol |-> v, R_hyd |-> res, W |-> flow, Q |-> flow, El |-> flow, UA |-> flow])
    IN  IF x.kind # "law" \/ "wlin" \notin DOMAIN x THEN c
        ELSE [c EXCEPT !.alin = MulAll(@, [P |-> 1 \oslash p, d |-> 1 \oslash p, m |-> 1 \oslash flow, Q |-> 1 \oslash flow]),
                       !.rlin = MulAll(@, [c |-> res, T |-> res, P |-> 1 \oslash fv, m |-> res \oslash flow, Q |-> res \oslash flow]),
                       !.wlin = MulAll(@, [T |-> flow]),
                       !.qlin = MulAll(@, [T |-> flow, P |-> fv, d |-> fv])]
WsBy(w, f, v, p) ==
    LET lin == NSqrt(v)
        flow == (f \otimes v) \otimes p
        wall == 1 \oslash flow
        c == MulAll(w, [f |-> f, Rc |-> wall, Re |-> wall, Wc |-> flow, We |-> flow, Qe |-> flow, Qc |-> flow,
                        Elc |-> flow, Ele |-> flow, vcc |-> v, vsc |-> v, vce |-> v, vse |-> v, Dp |-> lin, Dd |-> lin])
        terms(ts) == [k \in DOMAIN ts |-> <<Mul(ts[k][1], v), ts[k][2]>>]
    IN  IF w.kind = "harm" THEN [c EXCEPT !.comp = terms(@), !.exp = terms(@)] ELSE c
ScaleBy(e, f, v, p) ==
    [e EXCEPT !.ws = WsBy(@, f, v, p), !.chx = HxBy(@, f, v, p), !.regen = HxBy(@, f, v, p), !.hhx = HxBy(@, f, v, p),
              !.in.p = Mul(@, p)]

Sized(s, i, e, o) ==
    LET some(tag, lo, hi) == IF Chance(s, i, tag \o "?", "0.6") THEN LogUni(s, i, tag, lo, hi) ELSE R(1)
    IN  IF o.sized /\ Chance(s, i, "sized", "0.35")
        THEN ScaleBy(e, some("byf", "1e-3", "1e3"), some("byv", "1e-4", "1e4"),
                     some("byp", "1e-3", IF e.fluid.kind \in {"helium", "hydrogen"} THEN 20 ELSE 1))
        ELSE e

(* Most are engines.  Some are coolers (the source is colder than the sink,  *)
(* so the regenerator's approach is negative), and some are driven backwards *)
(* (heat flows from the sink to the source), and in some an exchanger is     *)
(* beyond its reservoir.                                                     *)
Minus(h) == IF h.kind = "fa" THEN [h EXCEPT !.DT = NStr(NNeg(R(@)))] ELSE h
Backwards(w) == IF w.kind = "sin" THEN [w EXCEPT !.phase = NStr(NNeg(R(@)))]
                ELSE IF w.kind = "harm" THEN [w EXCEPT !.exp = [k \in DOMAIN @ |-> <<@[k][1], NStr(NNeg(R(@[k][2])))>>]]
                ELSE w
As(mode, s, i, e) ==
    CASE mode = "cooler" -> [e EXCEPT !.in.th = U(s, i, "cool", 180, 270), !.regen = Minus(@)]
      [] mode = "back"   -> [e EXCEPT !.ws = Backwards(@)]
      [] mode = "beyond" -> [e EXCEPT ![One(s, i, "bey", <<"chx", "regen", "hhx">>)] = Minus(@)]
      [] OTHER -> e
Modes == <<"engine", "engine", "engine", "engine", "engine", "engine", "engine", "cooler", "back", "beyond">>
Engine(s, i, o) ==
  Sized(s, i,
    As(One(s, i, "mode", o.modes), s, i,
       [ws |-> Ws(s, i, o), chx |-> Hx(s, i, "chx", o), regen |-> Hx(s, i, "regen", o),
        hhx |-> Hx(s, i, "hhx", o), fluid |-> Fluid(s, i, o), in |-> Conditions(s, i, o),
        set |-> Settings(s, i, o), solver |-> One(s, i, "solver", o.solver)]), o)

AnyOptions ==
    [ws |-> <<"sin", "sin", "rhombic", "harm">>, hx |-> <<"fa", "fc", "law">>,
     fluid |-> <<"helium", "hydrogen", "virial">>, wall |-> <<"finite", "infinite">>,
     hyd |-> "any", n |-> <<100, 121, 150, 200>>, ode |-> "1e-8", solver |-> <<"lu", "lu", "qr">>,
     sized |-> TRUE, modes |-> Modes]
(* ---- gases whose flow directions are hard or impossible to determine ------ *)
(* The flow out of the compression space has the sign of the enthalpy that it *)
(* carries relative to X = u - density * cv / |dd_dT| (module FlowDir), so a  *)
(* step of enthalpy across X leaves no consistent direction, or two.          *)
FlipEngine(s, i) ==
    LET cv == Uni(s, i, "cv", 2000, 4000)
        rho == Uni(s, i, "rho", 1, 4)
        ts == Uni(s, i, "ts", 280, 320)
        th == Uni(s, i, "th", 800, 1000)
        Tk == ts \oplus 30
        Tl == th \ominus 60
        theta == Uni(s, i, "theta", "0.4", 2)   \* in the middle of both spaces
        Xc == (cv \otimes Tk) \ominus ((cv \otimes theta) \otimes Tk)
        Xe == (cv \otimes Tl) \ominus ((cv \otimes theta) \otimes Tk)
        side(tag, X, T) == NStr(X \oplus ((cv \otimes T) \otimes
                (Uni(s, i, tag, "0.2", 1) \otimes (IF Chance(s, i, tag \o "s", "0.5") THEN R(1) ELSE R("-1")))))
        amp(tag) == LU(s, i, tag, "5e-6", "6e-5")
    IN  [ws |-> [kind |-> "harm", f |-> LU(s, i, "f", 20, 80),
                 comp |-> << <<"1.2e-4", 0>>, <<amp("ac"), U(s, i, "pc", 0, 6)>> >>,
                 exp  |-> << <<"1.5e-4", 0>>, <<amp("ae"), U(s, i, "pe", 0, 6)>> >>],
         chx |-> [kind |-> "fa", vol |-> "4e-4", R_hyd |-> "1e4", DT |-> "30"],
         regen |-> [kind |-> "fa", vol |-> "1e-3", R_hyd |-> "1e4", DT |-> "20"],
         hhx |-> [kind |-> "fa", vol |-> "7e-4", R_hyd |-> "1e4", DT |-> "60"],
         fluid |-> [kind |-> "script", rho |-> NStr(rho), cv |-> NStr(cv), kappa |-> NStr(cv \otimes "1.4"),
                    g |-> "3e-6", r |-> NStr(NNeg(rho \oslash (theta \otimes Tk))),
                    steps |-> << <<NStr(Tk \otimes Uni(s, i, "s1", "0.97", "1.03")), side("h1", Xc, Tk)>>,
                                 <<"550", side("h2", Xc, Tk)>>,
                                 <<NStr(Tl \otimes Uni(s, i, "s2", "0.97", "1.03")), side("h3", Xe, Tl)>>,
                                 <<"1e9", side("h4", Xe, Tl)>> >>],
         in |-> [p |-> "1.5e6", ts |-> NStr(ts), th |-> NStr(th)],
         set |-> [n |-> "41", iabs |-> "1e9", irel |-> "1e9", oabs |-> "1e-2", orel |-> "1e-4",
                  dabs |-> "1e-6", drel |-> "1e-6", imax |-> "3", omax |-> "5"],
         solver |-> One(s, i, "solver", <<"lu", "lu", "lu", "qr">>)]   \* a run may take 100,000 steps
=============================================================================
