------------------------------- MODULE GenLaw -------------------------------
(***************************************************************************)
(* Scenarios for the functions of single components and gases: drives at   *)
(* many instants, gases at many states, exchangers in many conditions.     *)
(***************************************************************************)
EXTENDS Num, Scenarios, Integers, Sequences, TLC, Json, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

(* ---- drives ------------------------------------------------------------- *)
DriveOptions == [ws |-> <<"sin", "rhombic">>, wall |-> <<"finite", "infinite">>]

(* any phase angle, any frequency over many orders of magnitude, clearances   *)
(* and strokes likewise                                                       *)
Clearance(i, tag) == IF Chance(Seed, i, tag \o "none", "0.15") THEN "0" ELSE LU(Seed, i, tag, "1e-12", 1)
WideSin(i) ==
    [kind |-> "sin", f |-> LU(Seed, i, "f", "1e-3", "1e4"), phase |-> IF Chance(Seed, i, "ph?", "0.2") THEN One(Seed, i, "ph!", <<"0", "90", "-90", "180", "45", "270", "360">>)
              ELSE U(Seed, i, "ph", -360, 720),
     vcc |-> Clearance(i, "vcc"), vsc |-> LU(Seed, i, "vsc", "1e-12", 1),
     vce |-> Clearance(i, "vce"), vse |-> LU(Seed, i, "vse", "1e-12", 1),
     Rc |-> Wall(Seed, i, "Rc", DriveOptions), Re |-> Wall(Seed, i, "Re", DriveOptions),
     Wc |-> Loss(Seed, i, "Wc", 1, 100), We |-> Loss(Seed, i, "We", 1, 100), Qe |-> Loss(Seed, i, "Qe", 1, 100)]
(* admissible rhombic geometries: the rods always reach the yokes,            *)
(* e + r < L and |e| < L - r, of any size                                     *)
WideRhombic(i) ==
    LET L == LogUni(Seed, i, "L", "1e-3", 10)
        r == L \otimes Uni(Seed, i, "r", "0.05", "0.45")
        e == CASE Chance(Seed, i, "e0", "0.1") -> R(0)      \* no eccentricity
               [] Chance(Seed, i, "er", "0.1") -> NMin(r, (L \ominus r) \otimes "0.93")   \* a rod that becomes upright
               [] OTHER -> (L \ominus r) \otimes Uni(Seed, i, "e", "0", "0.93")
    IN  WsCommon(Seed, i, DriveOptions) @@
        [kind |-> "rhombic", L |-> NStr(L), r |-> NStr(r), ecc |-> NStr(e),
         Dp |-> LU(Seed, i, "Dp", "1e-3", 3), Dd |-> LU(Seed, i, "Dd", "1e-3", 1),
         vcc |-> Clearance(i, "vcc"), vce |-> Clearance(i, "vce")]

DriveOf(i) == CASE i % 4 = 0 -> Ws(Seed, i, DriveOptions)
                [] i % 4 \in {1, 2} -> WideSin(i)
                [] i % 4 = 3 -> WideRhombic(i)

Instants(i, f) ==
    LET T == 1 \oslash f
    IN  [k \in 1..24 |->
            CASE k <= 9  -> NStr(((k - 1) \oslash 8) \otimes T)
              [] k <= 20 -> NStr(Uni(Seed, i, "t" \o ToString(k), 0, 1) \otimes T)
              [] OTHER   -> NStr(Uni(Seed, i, "t" \o ToString(k), -50, 50) \otimes T)]

DriveScenario(i) ==
    LET w == DriveOf(i)
    IN  [what |-> "ws", ws |-> w, times |-> Instants(i, w.f), h |-> NStr("1e-4" \oslash w.f),
         period |-> NStr(1 \oslash w.f),
         pres |-> [avg |-> LU(Seed, i, "pa", 1, "1e8"), max |-> LU(Seed, i, "px", 1, "1e8"),
                   min |-> LU(Seed, i, "pn", 1, "1e8"), zero |-> LU(Seed, i, "pz", 1, "1e8")]]

(* ---- gases -------------------------------------------------------------- *)
GasScenario(i) ==
    [what |-> "fluid", fluid |-> [kind |-> IF i % 2 = 0 THEN "helium" ELSE "hydrogen"], e |-> "1e-5",
     states |-> [k \in 1..40 |->
        [T |-> CASE k = 1 -> "250" [] k = 2 -> "100" [] k = 3 -> "1500"
                 [] k \in 4..22 -> U(Seed, i, "T" \o ToString(k), 100, 1500)
                 [] OTHER -> LU(Seed, i, "T" \o ToString(k), 4, 4000),
         P |-> LU(Seed, i, "P" \o ToString(k), 1, "1e10")]]]

(* ---- exchangers --------------------------------------------------------- *)
HxScenario(i) ==
    LET comp == <<"chx", "regen", "hhx">>[(i % 3) + 1]
        kind == IF (i \div 3) % 3 = 0 THEN "fa" ELSE "fc"
        far  == Chance(Seed, i, "far", "0.3")
        UA   == IF far THEN LogUni(Seed, i, "UA", "1e-6", "1e10") ELSE LogUni(Seed, i, "UA", 1, "1e6")
        base == [kind |-> kind, vol |-> LU(Seed, i, "vol", "1e-10", 100),
                 R_hyd |-> IF Chance(Seed, i, "R0", "0.1") THEN "0" ELSE LU(Seed, i, "R", "1e-3", "1e12"),
                 W |-> Loss(Seed, i, "W", 1, 500), Q |-> Loss(Seed, i, "Q", 501, 999), El |-> Loss(Seed, i, "El", 1000, 2000)]
    IN  [what |-> "hx", comp |-> comp,
         hx |-> base @@ (IF kind = "fa" THEN [DT |-> IF Chance(Seed, i, "DT0", "0.1") THEN "0"
                                                  ELSE IF Chance(Seed, i, "DT1", "0.2") THEN LU(Seed, i, "DT", "1e-9", "1e5")
                                                  ELSE U(Seed, i, "DT", -50, 200)] ELSE [UA |-> NStr(UA)]),
         states |-> [k \in 1..12 |-> HxState(Seed, i, k)]] @@
        (IF kind = "fc" THEN [more |-> NStr(UA \otimes Uni(Seed, i, "more", "1.01", 3))] ELSE [none |-> 0])

Scenario(i) ==
    CASE Family = "drive" -> DriveScenario(i)
      [] Family = "gas"   -> GasScenario(i)
      [] Family = "hx"    -> HxScenario(i)

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Scenario(i)])
=============================================================================
