------------------------------- MODULE GenIter -------------------------------
(***************************************************************************)
(* Scenarios for the iteration machine: every behaviour of MCEngine for     *)
(* one component, and drawn ones for laws of several components, for        *)
(* contractions and for gas temperatures that take several passes (some of  *)
(* them hundreds), with limits just below, at and above what is needed.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils, Scenarios, IterModel

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

Str(n) == ToString(n)

Levels == [chx |-> <<10, 22, 41>>, regen |-> <<5, 17, 33>>, hhx |-> <<20, 55, 90>>]
HxBase == [chx |-> [vol |-> "4e-5"], regen |-> [vol |-> "1e-4"], hhx |-> [vol |-> "7e-5"]]

MapLaw(c, f, s) ==
    [kind |-> "law", law |-> "map", vol |-> HxBase[c].vol, R_hyd |-> 0, lv |-> Levels[c],
     f |-> f, init |-> Levels[c][s]]

AffineLaw(c, star, q, init) ==
    [kind |-> "law", law |-> "affine", vol |-> HxBase[c].vol, R_hyd |-> 0,
     star |-> star, q |-> q, init |-> init]

Gas == [kind |-> "script", rho |-> "2.5", cv |-> 3000, kappa |-> 4000, g |-> "2e-6", r |-> 0]
StillWs == [kind |-> "harm", f |-> 50, comp |-> << <<"1e-4", 0>> >>, exp |-> << <<"1.5e-4", 0>> >>,
            dc |-> 0, de |-> 0]
Set(imax, omax) == [n |-> 5, iabs |-> "1e-2", irel |-> "1e-4", oabs |-> "1e-2", orel |-> "1e-4",
                    dabs |-> "1e-10", drel |-> "1e-10", imax |-> imax, omax |-> omax]
Base == [fam |-> "iter", detail |-> FALSE, in |-> [p |-> "1.5e6", ts |-> 300, th |-> 900],
         fluid |-> Gas, ws |-> StillWs, set |-> Set(3, 3), solver |-> "lu"]

(* ---- every law of one component ----------------------------------------- *)
Comps == <<"chx", "regen", "hhx">>
Maps == [1..3 -> 1..3]
MapAt(k) == <<(k \div 9) + 1, ((k \div 3) % 3) + 1, (k % 3) + 1>>   \* k in 0..26
OneLaw(c, k, s, omax) ==
    Base @@ [chx   |-> IF c = "chx" THEN MapLaw("chx", MapAt(k), s) ELSE MapLaw("chx", <<2, 2, 2>>, 2),
             regen |-> IF c = "regen" THEN MapLaw("regen", MapAt(k), s) ELSE MapLaw("regen", <<1, 1, 1>>, 1),
             hhx   |-> IF c = "hhx" THEN MapLaw("hhx", MapAt(k), s) ELSE MapLaw("hhx", <<2, 2, 2>>, 2)]
AllOne ==
    [i \in 0..(3 * 27 * 3 * 5 - 1) |->
        LET c == i % 3 k == (i \div 3) % 27 s == (i \div 81) % 3 om == i \div 243
        IN  [OneLaw(Comps[c + 1], k, s + 1, om) EXCEPT !.set.omax = om]]

(* ---- laws of all components --------------------------------------------- *)
RandMap(i, c) == [j \in 1..3 |-> One(Seed, i, c \o "f" \o Str(j), <<1, 2, 3>>)]
RandStart(i, c) == One(Seed, i, c \o "s", <<1, 2, 3>>)
ThreeLaws(i) ==
    LET sc == Base @@ [chx |-> MapLaw("chx", RandMap(i, "chx"), RandStart(i, "chx")),
                       regen |-> MapLaw("regen", RandMap(i, "regen"), RandStart(i, "regen")),
                       hhx |-> MapLaw("hhx", RandMap(i, "hhx"), RandStart(i, "hhx"))]
        need == OuterNeeded(sc, 12)
    IN  [sc EXCEPT !.set.omax = IF need = 0 THEN One(Seed, i, "om", <<0, 1, 3, 7>>)
                                ELSE need - 1 + One(Seed, i, "om", <<0, 1, 1, 2>>)]

(* ---- contractions -------------------------------------------------------- *)
(* either tolerance may be the one that decides *)
Tolerances(i, set, a, r) ==
    LET tight == One(Seed, i, "tight", <<"abs", "rel", "both">>)
        abs == LogUni(Seed, i, "abs", "1e-3", 1)
        rel == LogUni(Seed, i, "rel", "1e-6", "1e-3")
    IN  [set EXCEPT ![a] = IF tight = "rel" THEN "1e3" ELSE NStr(abs),
                    ![r] = IF tight = "abs" THEN "1e3" ELSE NStr(rel)]
Factor(i, c) ==
    IF Family = "long"
    THEN LET q == Uni(Seed, i, c \o "q", "0.93", "0.995")
         IN  IF Chance(Seed, i, c \o "neg", "0.3") THEN NStr(NNeg(q)) ELSE NStr(q)
    ELSE U(Seed, i, c \o "q", "-0.85", "0.85")
RandAffine(i, c, lo, hi) ==
    LET still == One(Seed, i, c \o "still", <<TRUE, FALSE>>)
        from  == IF Chance(Seed, i, c \o "below", "0.4") THEN NNeg(hi) ELSE R(lo)   \* beyond the reservoir
        to    == IF Chance(Seed, i, c \o "below", "0.2") THEN NNeg(lo) ELSE R(hi)
        star  == U(Seed, i, c \o "star", from, to)
    IN  IF still THEN AffineLaw(c, star, "0.5", star)
        ELSE AffineLaw(c, star, Factor(i, c), U(Seed, i, c \o "init", from, to))
Contractions(i, set) ==
    [Base EXCEPT !.set = set] @@
    [chx |-> RandAffine(i, "chx", 5, 50), regen |-> RandAffine(i, "regen", 5, 50),
     hhx |-> RandAffine(i, "hhx", 20, 90)]
Contraction(i) ==
    LET sc == Contractions(i, Tolerances(i, Base.set, "oabs", "orel"))
        need == OuterNeeded(sc, 1500)
    IN  [sc EXCEPT !.set.omax = IF need = 0 THEN 5
                                ELSE need - 1 + One(Seed, i, "om", <<0, 1, 1, 2>>)]

(* ---- gas temperatures that take several passes --------------------------- *)
MovingWs(i) ==
    LET f  == Uni(Seed, i, "f", 10, 100)
        Vc == LogUni(Seed, i, "Vc", "5e-5", "2e-4")
        Ve == LogUni(Seed, i, "Ve", "1e-5", "2e-4")
        z  == IF Family = "slow" THEN LogUni(Seed, i, "zc", "0.02", "0.2") ELSE Uni(Seed, i, "zc", "0.2", "2.5")
        d  == (z \otimes Vc) \otimes f
    IN  [kind |-> "harm", f |-> NStr(f), comp |-> << <<NStr(Vc), 0>> >>,
         exp |-> << <<NStr(Ve), 0>> >>, dc |-> NStr(d), de |-> NStr(NNeg(d))]
MovingGas(i, p) ==
    LET cv == Uni(Seed, i, "cv", 2000, 5000)
        kappa == cv \otimes Uni(Seed, i, "gam", "1.2", "1.6")
        X == Uni(Seed, i, "X", 300, 520)
    IN  [kind |-> "script", rho |-> NStr(p \oslash ((kappa \ominus cv) \otimes X)),
         cv |-> NStr(cv), kappa |-> NStr(kappa), g |-> "2e-6", r |-> 0]

Fixed(c, i, lo, hi) == LET a == U(Seed, i, c \o "a", lo, hi) IN AffineLaw(c, a, "0.5", a)

(* the most passes any outer iteration needs *)
RECURSIVE MostPasses(_, _, _, _)
MostPasses(sc, a, k, most) ==
    LET n == PassesOf(sc, a, 2000, 1)
        b == AskOf(sc, a)
        m == IF n = 0 THEN 0 ELSE IF n > most THEN n ELSE most
    IN  IF n = 0 \/ k = 1 THEN m ELSE MostPasses(sc, b, k - 1, m)

Relaxing(i) ==
    LET sc0 == [Base EXCEPT !.ws = MovingWs(i), !.fluid = MovingGas(i, Base.in.p),
                           !.set = Tolerances(i, @, "iabs", "irel")] @@
               (IF Family = "passes" /\ One(Seed, i, "outer?", <<TRUE, FALSE>>)
                THEN [chx |-> RandAffine(i, "chx", 5, 50), regen |-> RandAffine(i, "regen", 5, 50),
                      hhx |-> RandAffine(i, "hhx", 20, 90)]
                ELSE [chx |-> Fixed("chx", i, 5, 50), regen |-> Fixed("regen", i, 5, 50),
                      hhx |-> Fixed("hhx", i, 20, 90)])
        need == OuterNeeded(sc0, 60)
        om   == IF need = 0 THEN 4 ELSE need - 1 + One(Seed, i, "om", <<0, 1, 1, 1, 2>>)
        most == MostPasses(sc0, StartOf(sc0), IF om = 0 THEN 1 ELSE om, 0)
    IN  [sc0 EXCEPT !.set.omax = om,
                    !.set.imax = IF most = 0 THEN 6 ELSE IF Family = "slow"       \* some passes more or less
                                THEN NRound((most \otimes One(Seed, i, "im", <<"0.85", "0.95", "1.05", "1.15", "2">>)))
                                ELSE most - 1 + One(Seed, i, "im", <<0, 1, 1, 2>>)]

(* ---- limits and tolerances of zero ---------------------------------------- *)
Zeros == LET b == OneLaw("chx", 0, 1, 0)
         IN  << [b EXCEPT !.set.omax = 0, !.set.imax = 0], [b EXCEPT !.set.omax = 1, !.set.imax = 0],
                [b EXCEPT !.set.omax = 0, !.set.imax = 1], [b EXCEPT !.set.omax = 1, !.set.imax = 1],
                [b EXCEPT !.set.oabs = 0], [b EXCEPT !.set.orel = 0],
                [b EXCEPT !.set.iabs = 0], [b EXCEPT !.set.irel = 0] >>

Pad(sc, i) == sc
Scenarios_ ==
    CASE Family = "onelaw" -> [i \in 1..Len([k \in 1..1215 |-> k]) |-> AllOne[i - 1]] \o Zeros
      [] Family = "laws"   -> [i \in 1..Count |-> ThreeLaws(i)]
      [] Family \in {"affine", "long"} -> [i \in 1..Count |-> Contraction(i)]
      [] Family \in {"passes", "slow"} -> [i \in 1..Count |-> Relaxing(i)]

ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios_)
=============================================================================
