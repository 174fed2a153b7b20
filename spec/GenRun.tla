------------------------------- MODULE GenRun -------------------------------
(***************************************************************************)
(* Scenarios for whole runs of the engine (written to IOEnv.OUT).          *)
(***************************************************************************)
EXTENDS Num, Scenarios, Integers, Sequences, TLC, Json, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

Options ==
    CASE Family = "any"    -> AnyOptions
      [] Family = "nodrop" -> [AnyOptions EXCEPT !.hyd = "zero"]
      [] OTHER -> AnyOptions

Ordinary(i) == [fam |-> Family] @@ Engine(Seed, i, Options)

(* ---- time grids: any resolution, any frequency --------------------------- *)
GridSize(i) ==
    CASE i <= 40 -> i + 1
      [] i \in 41..44 -> NRound(LogUni(Seed, i, "n", 5000, 300000))
      [] OTHER -> NRound(LogUni(Seed, i, "n", 2, 3000))
GridFreq(i) ==
    CASE i % 3 = 0 -> NStr(R(One(Seed, i, "f3", <<1, 3, 7, 10, 11, 13, 17, 25, 41, 50, 60, 100, 400>>)))
      [] i % 3 = 1 -> NStr(NRound(Uni(Seed, i, "f1", 600, 6000)) \oslash 60)   \* whole revolutions per minute
      [] OTHER     -> LU(Seed, i, "f2", "1e-4", "1e6")
Grid(i) ==
    LET e == Engine(Seed, i, [AnyOptions EXCEPT !.ws = <<"sin">>, !.hx = <<"fa">>, !.wall = <<"infinite">>,
                                                !.hyd = "zero", !.fluid = <<"helium">>])
    IN  [fam |-> Family, detail |-> FALSE, times |-> TRUE] @@
        [e EXCEPT !.ws.f = GridFreq(i),
                  !.set = [n |-> ToString(GridSize(i)), iabs |-> "20", irel |-> "0.1", oabs |-> "1", orel |-> "0.01",
                           dabs |-> "1e-3", drel |-> "1e-3", imax |-> "60", omax |-> "10"]]

(* ---- tolerances over several orders of magnitude ------------------------- *)
Loose(i) ==
    LET e == Engine(Seed, i, AnyOptions)
        k == One(Seed, i, "tolkind", <<"abs", "rel", "both">>)
        tol(tag, abs, rel) == [a |-> IF k = "rel" THEN "1e4" ELSE LU(Seed, i, tag \o "a", abs[1], abs[2]),
                               r |-> IF k = "abs" THEN "1e4" ELSE LU(Seed, i, tag \o "r", rel[1], rel[2])]
        inner == tol("in", <<"1e-3", 3>>, <<"3e-6", "1e-2">>)
        outer == tol("out", <<"1e-2", 3>>, <<"1e-4", "1e-2">>)
    IN  [fam |-> Family, detail |-> FALSE] @@
        [e EXCEPT !.set.iabs = inner.a, !.set.irel = inner.r, !.set.oabs = outer.a, !.set.orel = outer.r,
                  !.set.n = ToString(One(Seed, i, "ln", <<60, 100, 150>>))]

(* ---- tolerances of the integration ----------------------------------------- *)
(* what little mass is lost over a cycle is lost to them                       *)
Accurate(i) ==
    LET e == Engine(Seed, i, [AnyOptions EXCEPT !.n = <<40, 60>>])
        k == One(Seed, i, "odekind", <<"abs", "rel", "both">>)
    IN  [fam |-> Family] @@
        [e EXCEPT !.set.dabs = IF k = "rel" THEN LU(Seed, i, "da", "1e-13", "1e-11") ELSE LU(Seed, i, "da", "1e-7", "1e-1"),
                  !.set.drel = IF k = "abs" THEN LU(Seed, i, "dr", "1e-13", "1e-11") ELSE LU(Seed, i, "dr", "1e-10", "1e-4"),
                  !.set.iabs = "1", !.set.irel = "1e-2", !.set.oabs = "1", !.set.orel = "1e-2"]

(* ---- cycles reported at a few points only ---------------------------------- *)
Coarse(i) == [fam |-> Family] @@ Engine(Seed, i, [AnyOptions EXCEPT !.n = <<2, 3, 4, 5, 6, 7, 9, 12, 16>>])

(* ---- engines that take long to settle -------------------------------------- *)
(* little gas passes through spaces that are mostly clearance                    *)
Slow(i) ==
    LET e == Engine(Seed, i, [AnyOptions EXCEPT !.ws = <<"sin">>, !.n = <<40, 60>>, !.wall = <<"finite", "infinite", "infinite">>])
        more(x) == NStr(x \otimes LogUni(Seed, i, "clear", 2, 60))
        e2 == IF Chance(Seed, i, "tight", "0.5") THEN [Tight(Seed, i, e) EXCEPT !.set.dabs = "1e-10", !.set.drel = "1e-10"] ELSE e
    IN  [fam |-> Family] @@ [e2 EXCEPT !.ws.vcc = more(e.ws.vsc), !.ws.vce = more(e.ws.vse),
                                      !.set.imax = "4000", !.set.omax = "40"]

(* ---- engines whose calls to their components are recorded ----------------- *)
\* (every cycle is computed again by the harness, so the slow ones end early)
Calls(i) == LET sc == Tight(Seed, i, Engine(Seed, i, [AnyOptions EXCEPT !.hx = <<"fc", "law", "law", "fa">>,
                                                                        !.n = <<40, 60>>, !.ode = "1e-10"]))
            IN  [fam |-> Family, detail |-> FALSE, log |-> TRUE] @@ [sc EXCEPT !.set.omax = "30"]

Scenario(i) == CASE Family = "calls" -> Calls(i) [] Family = "flip" -> [fam |-> Family] @@ FlipEngine(Seed, i) [] Family = "grid" -> Grid(i) [] Family = "loose" -> Loose(i) [] Family = "ode" -> Accurate(i) [] Family = "slow" -> Slow(i) [] Family = "coarse" -> Coarse(i) [] OTHER -> Ordinary(i)

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Scenario(i)])
=============================================================================
