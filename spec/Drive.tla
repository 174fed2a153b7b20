------------------------------- MODULE Drive -------------------------------
(***************************************************************************)
(* Kinematics of the working spaces: volumes as functions of time.         *)
(* A drive is the record of its configured parameters.                     *)
(***************************************************************************)
LOCAL INSTANCE Num

Omega(d) == 2 \otimes (Pi \otimes d.f)
Period(d) == 1 \oslash d.f

(* ---- sinusoidal drive -------------------------------------------------- *)
SinVolume(clear, swept, angle) ==
    clear \oplus (Half(swept) \otimes (1 \oplus NCos(angle)))
SinRate(swept, angle, omega) ==
    NNeg(Half(swept) \otimes (NSin(angle) \otimes omega))

SinDrive(d, t) ==
    LET w  == Omega(d)
        th == w \otimes t
        ph == th \oplus (d.phase \otimes (Pi \oslash 180))
    IN  [Vc  |-> SinVolume(d.vcc, d.vsc, th), dVc |-> SinRate(d.vsc, th, w),
         Ve  |-> SinVolume(d.vce, d.vse, ph), dVe |-> SinRate(d.vse, ph, w)]

(* ---- rhombic drive ----------------------------------------------------- *)
(* Two counter-rotating cranks of radius r at eccentricity e carry the     *)
(* piston yoke and the displacer yoke on connecting rods of length L.      *)
(* B(th) is the vertical extent of a rod.  The piston moves by 2 B (both   *)
(* yokes) and the displacer by B - r sin(th).                              *)
Area(diam) == (Pi \otimes Sq(diam)) \oslash 4
RodHeight(d, th) == NSqrt(Sq(d.L) \ominus Sq(d.ecc \oplus (d.r \otimes NCos(th))))
RodRate(d, th) ==   \* dB/dth
    ((d.ecc \oplus (d.r \otimes NCos(th))) \otimes (d.r \otimes NSin(th)))
        \oslash RodHeight(d, th)
(* the rods are upright at some angle if the eccentricity is below the radius *)
RodMax(d) == NSqrt(Sq(d.L) \ominus Sq(NMax(d.ecc \ominus d.r, 0)))
DisplacerMin(d) == NSqrt(Sq(d.L \ominus d.r) \ominus Sq(d.ecc))

RhombicDrive(d, t) ==
    LET w  == Omega(d)
        th == w \otimes t
        Ap == Area(d.Dp)
        Ad == Area(d.Dd)
        B  == RodHeight(d, th)
        dB == RodRate(d, th)
    IN  [Vc  |-> d.vcc \oplus ((2 \otimes Ap) \otimes (RodMax(d) \ominus B)),
         dVc |-> NNeg((2 \otimes Ap) \otimes (dB \otimes w)),
         Ve  |-> d.vce \oplus (Ad \otimes ((B \ominus DisplacerMin(d)) \ominus (d.r \otimes NSin(th)))),
         dVe |-> (Ad \otimes (dB \ominus (d.r \otimes NCos(th)))) \otimes w]

Volumes(d, t) == IF d.kind = "sin" THEN SinDrive(d, t) ELSE RhombicDrive(d, t)

(* swept volumes: what the spaces can gain over their clearance *)
SweptComp(d) ==
    IF d.kind = "sin" THEN R(d.vsc)
    ELSE (2 \otimes Area(d.Dp)) \otimes
         (RodMax(d) \ominus NSqrt(Sq(d.L) \ominus Sq(d.ecc \oplus d.r)))
SweptExp(d) ==
    IF d.kind = "sin" THEN R(d.vse)
    ELSE Area(d.Dd) \otimes
         (NSqrt(Sq(d.L \oplus d.r) \ominus Sq(d.ecc)) \ominus DisplacerMin(d))
=============================================================================
