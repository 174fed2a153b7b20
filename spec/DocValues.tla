----------------------------- MODULE DocValues -----------------------------
(***************************************************************************)
(* Complete configuration documents with values drawn from the seed.       *)
(***************************************************************************)
EXTENDS Num, Documents, Scenarios, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)

(* ---- values --------------------------------------------------------------- *)
(* ranges by parameter; what is not listed is drawn from (0.001, 1)            *)
Range(k) ==
    CASE k = "vol" -> <<"2e-5", "2e-4">>
      [] k = "DT" -> <<5, 60>>
      [] k = "UA" -> <<500, 3000>>
      [] k = "R_hyd" -> <<"1e4", "3e6">>
      [] k \in {"W_parasitic", "W_parasitic_c", "W_parasitic_e", "Q_parasitic", "Q_parasitic_e"} -> <<10, 300>>
      [] k = "frequency" -> <<10, 100>>
      [] k \in {"phase_angle", "phaseAngle"} -> <<60, 120>>
      [] k \in {"V_swept_c", "V_swept_e"} -> <<"8e-5", "5e-4">>
      [] k \in {"V_clearance_c", "V_clearance_e"} -> <<"1e-5", "1e-4">>
      [] k \in {"R_c", "R_e"} -> <<"0.05", 5>>
      [] k = "r_crank" -> <<"0.012", "0.014">>
      [] k = "L_conn" -> <<"0.046", "0.05">>
      [] k = "eccentricity" -> <<"0.018", "0.021">>
      [] k \in {"D_p", "D_d"} -> <<"0.06", "0.08">>
      [] k \in {"temp_sink", "T_cold"} -> <<280, 340>>
      [] k \in {"temp_source", "T_hot"} -> <<800, 1000>>
      [] k \in {"pres_zero", "P_0"} -> <<"1e6", "1e7">>
      [] k = "abs" -> <<"1e-3", "1e-2">>
      [] k = "rel" -> <<"1e-5", "1e-4">>
      [] OTHER -> <<"0.001", 1>>
NatRange(k) == CASE k \in {"num_timesteps", "timeResolution"} -> <<20, 60>>
                 [] k = "max_iterations" -> <<100, 900>>
                 [] OTHER -> <<1, 5000>>

(* Values that no engine should have are still those that are configured       *)
FarKeys == {"vol", "DT", "R_hyd", "W_parasitic", "W_parasitic_c", "W_parasitic_e", "Q_parasitic", "Q_parasitic_e", "R_c", "R_e",
            "temp_sink", "T_cold", "temp_source", "T_hot", "pres_zero", "P_0", "abs", "rel"}
Far(i, tag) ==
    LET how == One(Seed, i, tag \o "how", <<"zero", "minus", "minus", "small", "small", "large", "large">>)
    IN  CASE how = "zero"  -> "0"
          [] how = "minus" -> U(Seed, i, tag, "-1000", 0)
          [] how = "small" -> LU(Seed, i, tag, "1e-15", "1e-3")
          [] how = "large" -> LU(Seed, i, tag, "1e3", "1e15")
FarNat(i, tag) == One(Seed, i, tag, <<"0", "1", "2", "65535", "65536", "100000", "1000000", "2147483648", "4294967295">>)

(* A document of schema s; `want` chooses the model of each component         *)
RECURSIVE Fill(_, _, _, _, _)
Fill(s, i, path, k, want) ==
    LET tag == path \o "." \o k
        sub(fs) == T([j \in DOMAIN fs |-> E(fs[j].k, Fill(fs[j].s, i, tag, fs[j].k, want))])
        chosen == IF k \in DOMAIN want THEN want[k] ELSE 1
    IN  CASE s.t = "num" -> IF k \in {"R_c", "R_e"} /\ want.infinite /\ Chance(Seed, i, tag \o "inf", "0.5")
                            THEN N("Infinity")
                            ELSE IF want.far /\ k \in FarKeys /\ Chance(Seed, i, tag \o "far", "0.3")
                            THEN N(Far(i, tag))
                            ELSE IF Range(k)[2] \succeq 10 /\ Chance(Seed, i, tag \o "whole", "0.2")
                            THEN I(ToString(NRound(LogUni(Seed, i, tag, Range(k)[1], Range(k)[2]))))
                            ELSE N(LU(Seed, i, tag, Range(k)[1], Range(k)[2]))
          [] s.t = "nat" -> IF want.far /\ k \in {"num_timesteps", "timeResolution", "max_iterations"}
                               /\ Chance(Seed, i, tag \o "far", "0.3")
                            THEN I(FarNat(i, tag \o "!"))
                            ELSE I(ToString(NRound(Uni(Seed, i, tag, NatRange(k)[1], NatRange(k)[2]))))
          [] s.t = "word" -> W(One(Seed, i, tag, s.of))
          [] s.t = "table" -> sub(s.of)
          [] s.t = "choice" -> LET f == s.of[IF k = "fluid" THEN want.gas ELSE chosen]
                               IN  T(<<E(f.k, Fill(f.s, i, tag, f.k, want))>>)
          [] s.t = "tagged" ->
                LET f == s.of[IF s.content = "" THEN want.model ELSE IF k = "fluid" THEN want.legacyGas ELSE chosen]
                IN  T(<<E(s.tag, W(f.k))>> \o
                      (IF s.content = "" \/ f.s.t = "any" THEN <<>>
                       ELSE <<E(s.content, Fill(f.s, i, tag, s.content, want))>>))
          [] OTHER -> T(<<>>)

Document(kind, i, want) == Fill(Schema(kind), i, kind, "", want)

State_(i, comp) == HxState(Seed, i, CASE comp = "chx" -> 1 [] comp = "hhx" -> 2 [] comp = "regen" -> 3)

(* the models of a document that is implemented *)
SupportedWant(i) ==
    [chx |-> 1 + (i % 2), hhx |-> 1 + ((i \div 2) % 2), regen |-> 1 + ((i \div 4) % 2), ws |-> 1 + ((i \div 8) % 2),
     gas |-> 1 + ((i \div 16) % 2), model |-> 3, legacyGas |-> 3, infinite |-> (i \div 3) % 2 = 0,
     far |-> FALSE]
=============================================================================
