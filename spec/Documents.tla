----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* Configuration documents, their schema, and what they mean.              *)
(*                                                                         *)
(* A document is a tree: [t |-> "n", v] is a number, [t |-> "i", v] a       *)
(* natural number, [t |-> "w", v] a word, [t |-> "l", v] a list and         *)
(* [t |-> "t", f] a table, f being a sequence of [k, v] (unique keys).      *)
(*                                                                         *)
(* A schema is a tree as well:                                             *)
(*   Num_, Nat_                 a number, a natural number                 *)
(*   Word(<<..>>)               one of these words                         *)
(*   Table(<<F(k, s), ..>>)     a table that has (at least) these fields   *)
(*   Choice(<<F(k, s), ..>>)    a table with exactly one of these keys     *)
(*   Tagged(tag, content, ..)   the word under `tag` selects the schema of *)
(*                              what is under `content` ("" for none)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- schema constructors ------------------------------------------------ *)
F(k, s) == [k |-> k, s |-> s]
Num_ == [t |-> "num"]
Nat_ == [t |-> "nat"]
Word(ws) == [t |-> "word", of |-> ws]
Table(fs) == [t |-> "table", of |-> fs]
Choice(fs) == [t |-> "choice", of |-> fs]
Tagged(tag, content, fs) == [t |-> "tagged", tag |-> tag, content |-> content, of |-> fs]
Nums(ks) == [i \in DOMAIN ks |-> F(ks[i], Num_)]

(* ---- the components ------------------------------------------------------ *)
Material == Word(<<"SS304", "Multimet", "StainlessSteel">>)
Flow == Word(<<"Steady", "Oscillating">>)
Gedeon == Word(<<"GedeonWood">>)

ChxFa == Table(Nums(<<"vol", "DT", "R_hyd", "W_parasitic">>))
ChxFc == Table(Nums(<<"vol", "UA", "R_hyd", "W_parasitic">>))
ChxGpu3 == Table(Nums(<<"length_total", "length_ht", "D_inner", "D_outer">>)
                 \o <<F("N_total", Nat_), F("N_shell", Nat_)>>
                 \o Nums(<<"D_sh", "Ac_d", "roughness", "vol_h", "m_dot_w">>)
                 \o <<F("coolant", Word(<<"Water">>))>> \o Nums(<<"m_dot_a", "UA_a", "W_parasitic">>))
ChxMod2 == Table(<<F("geometry", Table(<<
                F("tubes", Table(Nums(<<"length", "length_ht", "D_outer", "D_inner">>)
                                 \o <<F("N_total", Nat_), F("roughness", Num_), F("material", Material)>>)),
                F("shell", Table(Nums(<<"R_inner", "V_header", "Ac_header">>)))>>))>>
              \o Nums(<<"m_dot_p_fs", "W_dot_p_fs", "n_fs">>)
              \o <<F("fluid", Word(<<"Water">>)), F("correlation", Flow)>>)

HhxFa == Table(Nums(<<"vol", "DT", "R_hyd", "W_parasitic", "Q_parasitic">>))
HhxFc == Table(Nums(<<"vol", "UA", "R_hyd", "W_parasitic", "Q_parasitic">>))
HhxGpu3 == Table(Nums(<<"L_total", "L_htr", "R_tc", "D_outer", "D_inner", "roughness">>)
                 \o <<F("N_total", Nat_)>> \o Nums(<<"vol_h", "eta_comb", "R_c_loss", "W_parasitic">>))
HhxMod2 == Table(<<F("geometry", Table(<<
                F("tubes", Table(Nums(<<"L_front", "L_rear", "L_inactive", "D_outer", "D_inner", "roughness">>)
                                 \o <<F("N_total", Nat_), F("materialtube", Material), F("materialfin", Material)>>)),
                F("shell", Table(Nums(<<"R_outer", "R_inner", "V_header">>))),
                F("fins", Table(Nums(<<"thickness", "pitch", "L_fin">>)))>>)),
              F("correlation", Flow)>>)
HhxNI == Table(Nums(<<"R_f", "L_f", "R_regen", "D_outer", "D_inner", "k_f", "roughness">>)
               \o <<F("N_total", Nat_)>> \o Nums(<<"vol_h", "R_ins", "W_parasitic">>))

RegenFa == Table(Nums(<<"vol", "DT", "R_hyd", "Q_parasitic">>))
RegenFc == Table(Nums(<<"vol", "UA", "R_hyd", "Q_parasitic">>))
RegenGpu3 == Table(<<F("geometry", Table(<<F("vol_h", Num_),
                        F("mesh", Table(<<F("material", Material), F("D_wire", Num_), F("pitch", Num_)>>)),
                        F("shell", Table(<<F("diameter", Num_), F("length", Num_), F("number", Nat_)>>))>>)),
                     F("Q_parasitic", Num_), F("bypass", Num_),
                     F("correlationf", Gedeon), F("correlationj", Gedeon)>>)
RegenMod2 == Table(<<F("geometry", Table(<<
                        F("mesh", Table(<<F("material", Material), F("D_wire", Num_), F("pitch", Num_)>>)),
                        F("shell", Table(<<F("material", Material)>>
                                         \o Nums(<<"R_sh", "th_sh_cold", "th_sh_hot", "length">>)))>>)),
                     F("correlationtype", Flow), F("correlationf", Gedeon), F("correlationj", Gedeon)>>)

Sinusoidal == Table(Nums(<<"frequency", "phase_angle", "V_swept_c", "V_clearance_c", "R_c", "W_parasitic_c",
                           "V_swept_e", "V_clearance_e", "R_e", "W_parasitic_e", "Q_parasitic_e">>))
Rhombic == Table(Nums(<<"frequency", "V_clearance_c", "R_c", "W_parasitic_c", "V_clearance_e", "R_e", "W_parasitic_e",
                        "Q_parasitic_e", "r_crank", "L_conn", "eccentricity", "D_p", "D_d">>))
WsGpu3 == Table(Nums(<<"frequency", "V_clearance_c", "R_c", "V_clearance_e", "R_e", "r_crank", "L_conn",
                       "eccentricity", "D", "D_dr", "L", "h">>))
WsMod2 == Table(Nums(<<"frequency", "phaseAngle", "D", "h", "L", "stroke", "V_clearance_c", "R_c",
                       "V_clearance_e", "R_e">>)
                \o <<F("material_p", Material), F("material_c", Material)>>
                \o Nums(<<"th_pw", "th_cw", "L_cond", "e">>))

(* the models of each component: modern name, legacy name, parameters       *)
M(modern, legacy, s, supported) == [modern |-> modern, legacy |-> legacy, s |-> s, supported |-> supported]
Models ==
    [chx   |-> <<M("fixed_approach", "FixedApproach", ChxFa, TRUE), M("fixed_conductance", "FixedConductance", ChxFc, TRUE),
                 M("g_p_u3", "GPU3", ChxGpu3, FALSE), M("mod2", "Mod2", ChxMod2, FALSE)>>,
     regen |-> <<M("fixed_approach", "FixedApproach", RegenFa, TRUE),
                 M("fixed_conductance", "FixedConductance", RegenFc, TRUE),
                 M("g_p_u3", "GPU3", RegenGpu3, FALSE), M("mod2", "Mod2", RegenMod2, FALSE)>>,
     hhx   |-> <<M("fixed_approach", "FixedApproach", HhxFa, TRUE), M("fixed_conductance", "FixedConductance", HhxFc, TRUE),
                 M("g_p_u3", "GPU3", HhxGpu3, FALSE), M("mod2", "Mod2", HhxMod2, FALSE),
                 M("g_p_u3_n_i", "GPU3NI", HhxNI, FALSE), M("mod2_n_i", "Mod2NI", HhxNI, FALSE)>>,
     ws    |-> <<M("sinusoidal", "Sinusoidal", Sinusoidal, TRUE), M("rhombic", "Rhombic", Rhombic, TRUE),
                 M("g_p_u3", "GPU3", WsGpu3, FALSE), M("mod2", "Mod2", WsMod2, FALSE)>>]
Components == <<"chx", "hhx", "regen", "ws">>

(* ---- the two schemas ----------------------------------------------------- *)
Tolerance == Table(Nums(<<"abs", "rel">>))
GasModel == Tagged("model", "", <<F("custom", Table(<<>>)), F("fit", Table(<<>>)), F("ideal_gas", Table(<<>>)),
                                  F("ref_prop", Table(<<>>))>>)
Loop == Table(<<F("tolerance", Tolerance), F("max_iterations", Nat_)>>)

Modern(comp) == Choice([i \in DOMAIN Models[comp] |-> F(Models[comp][i].modern, Models[comp][i].s)])
Legacy_(comp) == Tagged("model", "params", [i \in DOMAIN Models[comp] |-> F(Models[comp][i].legacy, Models[comp][i].s)])

ModernSchema ==
    Table(<<F("engine", Table(<<
                F("fluid", Choice(<<F("hydrogen", GasModel), F("helium", GasModel)>>)),
                F("components", Table([i \in 1..4 |-> F(Components[i], Modern(Components[i]))]))>>)),
            F("solver", Table(<<
                F("inner_loop", Loop), F("outer_loop", Loop),
                F("ode", Table(<<F("tolerance", Tolerance), F("num_timesteps", Nat_)>>))>>)),
            F("conditions", Table(Nums(<<"temp_sink", "temp_source", "pres_zero">>)))>>)

GasName == Table(<<F("name", Word(<<"Hydrogen", "Helium">>))>>)
LegacySchema ==
    Table(<<F("fluid", Tagged("model", "params", <<F("Hydrogen", [t |-> "any"]), F("RealGasRefprop", GasName),
                                                   F("IdealGas", GasName)>>)),
            F("ws", Legacy_("ws")), F("chx", Legacy_("chx")), F("regen", Legacy_("regen")), F("hhx", Legacy_("hhx")),
            F("solver", Table(<<F("innerLoopTolerance", Tolerance), F("outerLoopTolerance", Tolerance),
                                F("odeTolerance", Tolerance), F("odeSolver", Word(<<"ode45">>)),
                                F("timeResolution", Nat_)>>)),
            F("conditions", Table(Nums(<<"T_cold", "T_hot", "P_0">>)))>>)

Schema(kind) == IF kind = "modern" THEN ModernSchema ELSE LegacySchema
DefaultMaxIterations == "20"

(* ---- document constructors and access ------------------------------------ *)
E(k, v) == [k |-> k, v |-> v]
T(fs) == [t |-> "t", f |-> fs]
W(w) == [t |-> "w", v |-> w]
N(x) == [t |-> "n", v |-> x]
I(x) == [t |-> "i", v |-> x]

HasKey(v, k) == v.t = "t" /\ \E j \in DOMAIN v.f : v.f[j].k = k
At(v, k) == v.f[CHOOSE j \in DOMAIN v.f : v.f[j].k = k].v
RECURSIVE AtPath(_, _)
AtPath(v, p) == IF p = <<>> THEN v ELSE AtPath(At(v, Head(p)), Tail(p))
Field(s, k) == s.of[CHOOSE j \in DOMAIN s.of : s.of[j].k = k].s
HasField(s, k) == \E j \in DOMAIN s.of : s.of[j].k = k

(* ---- which documents are complete ---------------------------------------- *)
NoCounts == {"-3", "4294967297", "8589934622"}     \* below zero, or more than 32 bits
RECURSIVE Accepts(_, _)
Accepts(s, v) ==
    CASE s.t = "any"  -> TRUE
      [] s.t = "num"  -> v.t \in {"n", "i"}
      [] s.t = "nat"  -> v.t = "i" /\ v.v \notin NoCounts
      [] s.t = "word" -> v.t = "w" /\ v.v \in {s.of[j] : j \in DOMAIN s.of}
      [] s.t = "table" -> /\ v.t = "t"
                          /\ \A j \in DOMAIN s.of : HasKey(v, s.of[j].k) /\ Accepts(s.of[j].s, At(v, s.of[j].k))
      [] s.t = "choice" -> /\ v.t = "t" /\ Len(v.f) = 1
                           /\ HasField(s, v.f[1].k) /\ Accepts(Field(s, v.f[1].k), v.f[1].v)
      [] s.t = "tagged" -> /\ HasKey(v, s.tag)
                           /\ At(v, s.tag).t = "w" /\ HasField(s, At(v, s.tag).v)
                           /\ LET body == Field(s, At(v, s.tag).v)
                              IN  IF s.content = "" THEN TRUE
                                  ELSE \/ body.t = "any"
                                       \/ HasKey(v, s.content) /\ Accepts(body, At(v, s.content))

(* ---- changes ------------------------------------------------------------- *)
(* all paths to the nodes of a document, except the root *)
RECURSIVE Paths(_)
Paths(v) ==
    IF v.t # "t" THEN <<>>
    ELSE LET RECURSIVE all(_)
             all(j) == IF j > Len(v.f) THEN <<>>
                       ELSE LET sub == Paths(v.f[j].v)
                            IN  <<<<v.f[j].k>>>> \o [m \in DOMAIN sub |-> <<v.f[j].k>> \o sub[m]] \o all(j + 1)
         IN  all(1)

(* what an edit makes of the entry it concerns: no, one or two entries *)
Edited(e, edit) ==
    CASE edit.op = "delete"  -> <<>>
      [] edit.op = "rename"  -> <<E(edit.k, e.v)>>
      [] edit.op = "replace" -> <<E(e.k, edit.v)>>
      [] edit.op = "after"   -> <<e, E(edit.k, edit.v)>>
      [] edit.op = "before"  -> <<E(edit.k, edit.v), e>>

RECURSIVE Change(_, _, _)
Change(v, p, edit) ==
    LET j == CHOOSE m \in DOMAIN v.f : v.f[m].k = Head(p)
        new == IF Len(p) = 1 THEN Edited(v.f[j], edit) ELSE <<E(v.f[j].k, Change(v.f[j].v, Tail(p), edit))>>
    IN  T(SubSeq(v.f, 1, j - 1) \o new \o SubSeq(v.f, j + 1, Len(v.f)))

Delete == [op |-> "delete"]
Rename(k) == [op |-> "rename", k |-> k]
Replace(x) == [op |-> "replace", v |-> x]
After(k, x) == [op |-> "after", k |-> k, v |-> x]
Before(k, x) == [op |-> "before", k |-> k, v |-> x]

(* ---- what a legacy document means in modern terms ------------------------- *)
ModelOf(comp, legacy) == LET ms == Models[comp] IN ms[CHOOSE j \in DOMAIN ms : ms[j].legacy = legacy]
ModernComponent(d, comp) ==
    LET c == At(d, comp)
    IN  E(comp, T(<<E(ModelOf(comp, At(c, "model").v).modern, At(c, "params"))>>))
ModernGas(d) ==
    LET g == At(d, "fluid")
        m == At(g, "model").v
        name == IF m = "Hydrogen" \/ AtPath(g, <<"params", "name">>).v = "Hydrogen" THEN "hydrogen" ELSE "helium"
    IN  T(<<E(name, T(<<E("model", W(CASE m = "Hydrogen" -> "custom" [] m = "RealGasRefprop" -> "ref_prop"
                                       [] m = "IdealGas" -> "ideal_gas"))>>))>>)
Modernised(d) ==
    LET s == At(d, "solver") c == At(d, "conditions")
        loop(k) == T(<<E("tolerance", At(s, k)), E("max_iterations", I(DefaultMaxIterations))>>)
    IN  T(<<E("engine", T(<<E("fluid", ModernGas(d)),
                            E("components", T([j \in 1..4 |-> ModernComponent(d, Components[j])]))>>)),
            E("solver", T(<<E("inner_loop", loop("innerLoopTolerance")), E("outer_loop", loop("outerLoopTolerance")),
                            E("ode", T(<<E("tolerance", At(s, "odeTolerance")),
                                         E("num_timesteps", At(s, "timeResolution"))>>))>>)),
            E("conditions", T(<<E("temp_sink", At(c, "T_cold")), E("temp_source", At(c, "T_hot")),
                                E("pres_zero", At(c, "P_0"))>>))>>)

(* ---- what a complete modern document means -------------------------------- *)
GasOf(d) == AtPath(d, <<"engine", "fluid">>).f[1]
ComponentOf(d, comp) == AtPath(d, <<"engine", "components", comp>>).f[1]
Implemented(d) ==
    /\ AtPath(GasOf(d).v, <<"model">>).v = "ideal_gas"
    /\ \A j \in DOMAIN Components :
          LET ms == Models[Components[j]]
              m == ms[CHOOSE k \in DOMAIN ms : ms[k].modern = ComponentOf(d, Components[j]).k]
          IN  m.supported

P(v, k) == At(v, k).v
Opt(v, k) == IF HasKey(v, k) THEN P(v, k) ELSE "0"
ExchangerOf(d, comp) ==
    LET c == ComponentOf(d, comp) v == c.v
        base == [vol |-> P(v, "vol"), R_hyd |-> P(v, "R_hyd"), W |-> Opt(v, "W_parasitic"), Q |-> Opt(v, "Q_parasitic"),
                 El |-> "0"]
    IN  base @@ (IF c.k = "fixed_approach" THEN [kind |-> "fa", DT |-> P(v, "DT")] ELSE [kind |-> "fc", UA |-> P(v, "UA")])
DriveOf(d) ==
    LET c == ComponentOf(d, "ws") v == c.v
        base == [f |-> P(v, "frequency"), Rc |-> P(v, "R_c"), Re |-> P(v, "R_e"), Wc |-> P(v, "W_parasitic_c"),
                 We |-> P(v, "W_parasitic_e"), Qe |-> P(v, "Q_parasitic_e"),
                 vcc |-> P(v, "V_clearance_c"), vce |-> P(v, "V_clearance_e")]
    IN  base @@ (IF c.k = "sinusoidal"
                 THEN [kind |-> "sin", phase |-> P(v, "phase_angle"), vsc |-> P(v, "V_swept_c"), vse |-> P(v, "V_swept_e")]
                 ELSE [kind |-> "rhombic", L |-> P(v, "L_conn"), r |-> P(v, "r_crank"), ecc |-> P(v, "eccentricity"),
                       Dp |-> P(v, "D_p"), Dd |-> P(v, "D_d")])
EngineOf(d) ==
    LET s == At(d, "solver") c == At(d, "conditions")
        tol(k, x) == AtPath(s, <<k, "tolerance", x>>).v
    IN  [ws |-> DriveOf(d), chx |-> ExchangerOf(d, "chx"), regen |-> ExchangerOf(d, "regen"),
         hhx |-> ExchangerOf(d, "hhx"), fluid |-> [kind |-> GasOf(d).k],
         in |-> [p |-> P(c, "pres_zero"), ts |-> P(c, "temp_sink"), th |-> P(c, "temp_source")],
         set |-> [n |-> AtPath(s, <<"ode", "num_timesteps">>).v,
                  iabs |-> tol("inner_loop", "abs"), irel |-> tol("inner_loop", "rel"),
                  oabs |-> tol("outer_loop", "abs"), orel |-> tol("outer_loop", "rel"),
                  dabs |-> tol("ode", "abs"), drel |-> tol("ode", "rel"),
                  imax |-> AtPath(s, <<"inner_loop", "max_iterations">>).v,
                  omax |-> AtPath(s, <<"outer_loop", "max_iterations">>).v]]
=============================================================================
