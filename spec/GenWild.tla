------------------------------ MODULE GenWild ------------------------------
(***************************************************************************)
(* Engines far away from ordinary ones (family "extreme"), and engines of   *)
(* which a component or the gas gives unusable answers (family "fault").    *)
(***************************************************************************)
EXTENDS Num, Scenarios, Integers, Sequences, TLC, Json, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

(* few and coarse passes: every one of them may take 100,000 steps *)
Limits(i) ==
    LET s == One(Seed, i, "solver", <<"lu", "lu", "lu", "qr", "qr", "svd">>)
        t == One(Seed, i, "tol", <<"any", "any", "any", "some", "none">>)
        tol(tag, xs) == CASE t = "any" -> "1e9" [] t = "none" -> "0" [] OTHER -> One(Seed, i, tag, xs)
    IN  [solver |-> s,
         set |-> [n |-> One(Seed, i, "n", <<"2", "3", "5", "20", "50">>),
                  iabs |-> tol("ia", <<"1e9", "1", "1e-2", "0">>), irel |-> tol("ir", <<"1e9", "1", "1e-3", "0">>),
                  oabs |-> tol("oa", <<"1e9", "1", "0">>), orel |-> tol("or", <<"1e9", "1", "0">>),
                  dabs |-> One(Seed, i, "da", <<"1", "1e-3", "1e-6">>),
                  drel |-> One(Seed, i, "dr", <<"1", "1e-3", "1e-6">>),
                  imax |-> One(Seed, i, "im", IF s = "svd" THEN <<"1", "2">> ELSE <<"0", "1", "1", "2", "2", "4", "8">>),
                  omax |-> One(Seed, i, "om", IF s = "svd" THEN <<"1">> ELSE <<"0", "1", "1", "2", "2", "3">>)]]

(* a number is usually left alone, and sometimes replaced by an extreme one *)
Sometimes(i, tag, x, others) ==
    IF Chance(Seed, i, tag \o "?", "0.05") THEN One(Seed, i, tag, others) ELSE x
Volumes == <<"-1e-4", "0", "1e-12", "1e-8", "1e-3", "1", "100">>
Resistances == <<"-1e5", "0", "1", "1e9", "1e15">>
Walls == <<"0", "-1", "1e-9", "1e-4", "1e3", "1e12", "Infinity">>
Powers == <<"0", "1e-9", "1e9">>
Temps == <<"0", "-300", "1", "50", "200", "300", "301", "900", "3000", "20000">>
Approaches == <<"0", "-20", "1e-9", "200", "450", "700">>
Conductances == <<"0", "1e-9", "1e-3", "1", "1e12", "-5">>
HxWild(h, i, w) ==
    LET a == [h EXCEPT !.vol = Sometimes(i, w \o "vol!", @, Volumes),
                       !.R_hyd = Sometimes(i, w \o "hyd!", @, Resistances),
                       !.W = Sometimes(i, w \o "W!", @, Powers), !.Q = Sometimes(i, w \o "Q!", @, Powers)]
    IN  CASE h.kind = "fa" -> [a EXCEPT !.DT = Sometimes(i, w \o "DT!", @, Approaches)]
          [] h.kind = "fc" -> [a EXCEPT !.UA = Sometimes(i, w \o "UA!", @, Conductances)]
          [] OTHER -> a
WsWild(w, i) ==
    LET a == [w EXCEPT !.f = Sometimes(i, "f!", @, <<"0", "-50", "1e-6", "1e-2", "1e3", "1e6">>),
                       !.Rc = Sometimes(i, "Rc!", @, Walls), !.Re = Sometimes(i, "Re!", @, Walls),
                       !.Wc = Sometimes(i, "Wc!", @, Powers), !.Qe = Sometimes(i, "Qe!", @, Powers)]
    IN  CASE w.kind = "sin" -> [a EXCEPT !.phase = Sometimes(i, "ph!", @, <<"0", "90", "180", "-90", "1000">>),
                                         !.vcc = Sometimes(i, "vcc!", @, Volumes), !.vce = Sometimes(i, "vce!", @, Volumes),
                                         !.vsc = Sometimes(i, "vsc!", @, Volumes), !.vse = Sometimes(i, "vse!", @, Volumes)]
          [] w.kind = "rhombic" -> [a EXCEPT !.vcc = Sometimes(i, "vcc!", @, Volumes), !.vce = Sometimes(i, "vce!", @, Volumes),
                                             !.Dp = Sometimes(i, "Dp!", @, <<"0", "1e-6", "10">>),
                                             !.Dd = Sometimes(i, "Dd!", @, <<"0", "1e-6", "10">>),
                                             !.L = Sometimes(i, "L!", @, <<"1e-3", "10">>)]
          [] OTHER -> a
Options == [AnyOptions EXCEPT !.ws = <<"sin", "rhombic">>, !.hx = <<"fa", "fc">>, !.fluid = <<"helium", "hydrogen", "helium", "virial">>]
Extreme(i) ==
    LET e == Engine(Seed, i, Options)
        ws == WsWild(e.ws, i)
        \* a drive that stands still takes the greatest number of steps: too many for SVD
        still(x) == IF ws.kind \in {"sin", "rhombic"} /\ ws.f = "0" THEN [x EXCEPT !.solver = "qr"] ELSE x
    IN  [fam |-> Family, detail |-> FALSE] @@ still(Limits(i)) @@
        [e EXCEPT !.ws = ws, !.chx = HxWild(@, i, "chx"), !.regen = HxWild(@, i, "regen"), !.hhx = HxWild(@, i, "hhx"),
                  !.in.p = Sometimes(i, "p!", @, <<"-1e6", "0", "1e-3", "1", "1e9", "1e15">>),
                  !.in.ts = Sometimes(i, "ts!", @, Temps), !.in.th = Sometimes(i, "th!", @, Temps)]

(* ---- unusable answers ------------------------------------------------------ *)
Unusable == <<"NaN", "Infinity", "-Infinity", "0", "1e308", "-1e308", "1e-308", "-1", "5000">>
\* calls that are answered well; or (negative) that are left when the last ones fail
After(i) == IF Chance(Seed, i, "late", "0.4") THEN NStr(NNeg(R(NRound(LogUni(Seed, i, "last", 1, 400))))) ELSE
             NStr(R(NRound(LogUni(Seed, i, "after", 1, 3000)) - 1))
Functions == <<"dens", "inte", "enth", "cp", "dd_dP_T", "dd_dT_P", "du_dP_T", "du_dT_P">>
FaultLaw(i, init) == [law |-> "fault", kind |-> "law", init |-> init, vol |-> "1e-4", R_hyd |-> "1e5",
                      after |-> One(Seed, i, "la", <<"0", "1", "2">>), value |-> One(Seed, i, "lv", Unusable)]
Fault(i) ==
    LET e == [Engine(Seed, i, [Options EXCEPT !.fluid = <<"helium", "virial">>])
                EXCEPT !.set = [@ EXCEPT !.n = One(Seed, i, "n", <<"2", "20", "40">>), !.dabs = "1e-6", !.drel = "1e-6",
                                         !.imax = One(Seed, i, "im", <<"1", "2", "4", "40">>),
                                         !.omax = One(Seed, i, "om", <<"1", "2", "4", "40">>),
                                         !.iabs = One(Seed, i, "ia", <<"1e9", "1e-2">>), !.irel = One(Seed, i, "ir", <<"1e9", "1e-4">>),
                                         !.oabs = One(Seed, i, "oa", <<"1e9", "1e-2">>), !.orel = One(Seed, i, "or", <<"1e9", "1e-4">>)],
                       !.solver = One(Seed, i, "s", <<"lu", "lu", "qr">>)]
    IN  [fam |-> Family, detail |-> FALSE] @@
        (CASE i % 6 = 0 -> [e EXCEPT !.chx = FaultLaw(i, "20")]
           [] i % 6 = 1 -> [e EXCEPT !.regen = FaultLaw(i, "15")]
           [] i % 6 = 2 -> [e EXCEPT !.hhx = FaultLaw(i, "40")]
           [] OTHER -> [e EXCEPT !.fluid = [kind |-> "faulty", base |-> @, func |-> One(Seed, i, "func", Functions),
                                            after |-> After(i), value |-> One(Seed, i, "fv", Unusable)]])

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> IF Family = "extreme" THEN Extreme(i) ELSE Fault(i)])
=============================================================================
