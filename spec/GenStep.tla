------------------------------ MODULE GenStep ------------------------------
(***************************************************************************)
(* States, and cycles that take them on: arbitrary series of any length on *)
(* any time grid, flows of any sign, imbalances of either sign.             *)
(***************************************************************************)
EXTENDS Num, Scenarios, Integers, Sequences, TLC, Json, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

Signed(i, tag, lo, hi) ==
    NStr(LogUni(Seed, i, tag, lo, hi) \otimes (IF Chance(Seed, i, tag \o "s", "0.5") THEN R("-1") ELSE R(1)))

(* ---- placements ----------------------------------------------------------- *)
Approach(i, k, kind) ==
    CASE kind = "zero" -> R(0)
      [] kind = "minus" -> Uni(Seed, i, "a" \o ToString(k), "-80", 0)
      [] OTHER -> Uni(Seed, i, "a" \o ToString(k), 0, 80)
Imbalance(i, k, kind) ==
    LET t == ToString(k)
    IN  CASE kind = "zero" -> R(0)
          [] kind = "hot"  -> LogUni(Seed, i, "im" \o t, "1e-6", 60)
          [] kind = "cold" -> NNeg(LogUni(Seed, i, "im" \o t, "1e-6", 60))
(* the ends far apart, close, almost equal, equal; the hot one below the cold *)
(* one as well                                                                 *)
Gap(i, k, kind) ==
    LET t == ToString(k)
    IN  CASE kind = "wide"   -> Uni(Seed, i, "g" \o t, 100, 900)
          [] kind = "close"  -> LogUni(Seed, i, "g" \o t, "1e-3", 100)
          [] kind = "almost" -> LogUni(Seed, i, "g" \o t, "1e-10", "1e-3")
          [] kind = "equal"  -> R(0)
          [] kind = "under"  -> NNeg(Uni(Seed, i, "g" \o t, 1, 100))
Places(i) ==
    [what |-> "place", places |-> [k \in 1..40 |->
        LET t == ToString(k)
            a == Approach(i, k, One(Seed, i, "ak" \o t, <<"zero", "any", "any", "any", "minus">>))
            imb == Imbalance(i, k, One(Seed, i, "ik" \o t, <<"zero", "hot", "cold">>))
            tk == Uni(Seed, i, "tk" \o t, 200, 600)
            gap == Gap(i, k, One(Seed, i, "gk" \o t, <<"wide", "wide", "close", "almost", "equal", "under">>))
        \* mid-gap temperatures are `gap` apart
        IN  [imb |-> NStr(imb), a |-> NStr(a), tk |-> NStr(tk),
             tl |-> NStr(NSum(<<tk, gap, a, Half(NAbs(imb))>>))]]]

(* ---- steps ---------------------------------------------------------------- *)
RECURSIVE Upto(_, _, _)
Upto(i, tag, k) == IF k <= 1 THEN R(0) ELSE Upto(i, tag, k - 1) \oplus Uni(Seed, i, tag \o "d" \o ToString(k), "0.2", 2)

Cycle(i, c, f, far_) ==
    LET t == "c" \o ToString(c)
        n == One(Seed, i, t \o "n", <<2, 3, 5, 8, 13, 24>>)
        uniform == Chance(Seed, i, t \o "u", "0.5")
        T == 1 \oslash f
        time(k) == IF uniform THEN ((k - 1) \otimes T) \oslash (n - 1)
                   ELSE (Upto(i, t, k) \oslash Upto(i, t, n)) \otimes T
        s(tag, lo, hi) == [k \in 1..n |-> U(Seed, i, t \o tag \o ToString(k), lo, hi)]
        \* sometimes far from what is common
        far == far_ /\ Chance(Seed, i, t \o "far", "0.6")
        base == IF far THEN LogUni(Seed, i, t \o "P", 1, "1e10") ELSE LogUni(Seed, i, t \o "P", "8e5", "1.2e7")
        flow == IF far THEN LogUni(Seed, i, t \o "m", "1e-8", "1e3") ELSE LogUni(Seed, i, t \o "m", "2e-2", "2e-1")
        heat == IF far THEN LogUni(Seed, i, t \o "Q", "1e-3", "1e4") ELSE LogUni(Seed, i, t \o "Q", 100, 3000)
        rise == IF far /\ Chance(Seed, i, t \o "rise", "0.5") THEN R("1.0001") ELSE R("1.8")
        temp(tag, lo_, hi_) == IF far THEN s(tag, 120, 1400) ELSE s(tag, lo_, hi_)
        \* flows of one sign only, or of both
        signs == One(Seed, i, t \o "s", <<"both", "both", "plus", "minus">>)
        lo == CASE signs = "plus" -> R("0.2") [] OTHER -> R("-1")
        hi == CASE signs = "minus" -> R("-0.2") [] OTHER -> R(1)
        w(tag, x) == s(tag, x \otimes lo, x \otimes hi)
    IN  [t |-> [k \in 1..n |-> NStr(time(k))], P |-> s("P", base, base \otimes rise),
         Tc |-> temp("Tc", 280, 420), Te |-> temp("Te", 700, 1000),
         ck |-> w("ck", flow), kr |-> w("kr", flow), rl |-> w("rl", flow), le |-> w("le", flow),
         Qk |-> w("Qk", heat), Qr |-> w("Qr", heat), Ql |-> w("Ql", heat)]

Steps(i) ==
    LET far == Chance(Seed, i, "far", "0.4")
        any == [AnyOptions EXCEPT !.wall = <<"finite", "finite", "infinite">>, !.sized = FALSE]
        \* laws, and gases that are not ideal, have no meaning far from where they are meant for
        o == IF far THEN [any EXCEPT !.hx = <<"fa", "fc">>, !.fluid = <<"helium", "hydrogen">>] ELSE any
        e == Engine(Seed, i, o)
        n == One(Seed, i, "cycles", <<2, 3, 4>>)
        \* some cycles again, so that temperatures settle
        again(c) == c > 1 /\ Chance(Seed, i, "again" \o ToString(c), "0.4")
        RECURSIVE which(_)
        which(c) == IF again(c) THEN which(c - 1) ELSE c
        num(tag, lo, hi) == U(Seed, i, tag, lo, hi)
        wide == Chance(Seed, i, "widetol", "0.5")
        swap == Chance(Seed, i, "swapped", "0.2")      \* the "hot" side is the colder one
        \* walls that hardly insulate and walls that hardly conduct
        walls == [Rc |-> IF e.ws.Rc = "Infinity" THEN e.ws.Rc ELSE LU(Seed, i, "stepRc", "1e-3", "1e7"),
                  Re |-> IF e.ws.Re = "Infinity" THEN e.ws.Re ELSE LU(Seed, i, "stepRe", "1e-3", "1e7")]
        \* walls and losses that depend on every pressure
        dep(tag) == [k \in 1..4 |-> U(Seed, i, "dep" \o tag \o ToString(k), 0, "0.5")]
        deps == IF e.ws.kind = "harm"
                THEN [dep |-> [Rc |-> dep("Rc"), Re |-> dep("Re"), Wc |-> dep("Wc"), We |-> dep("We"), Qe |-> dep("Qe")]]
                ELSE [none |-> 0]
        \* one component gives an answer that is no temperature difference
        faulty == Chance(Seed, i, "faulty", "0.15")
        who == One(Seed, i, "who", <<"chx", "regen", "hhx">>)
        broken == One(Seed, i, "broken", <<"NaN", "Infinity", "-Infinity">>)
        hx(w) == IF faulty /\ w = who
                 THEN [law |-> "lin", kind |-> "law", init |-> "20", vol |-> e[w].vol, R_hyd |-> e[w].R_hyd, W |-> e[w].W,
                       Q |-> e[w].Q, alin |-> [c |-> broken]]
                 ELSE e[w]
    IN  [what |-> "step", ws |-> deps @@ walls @@ e.ws, chx |-> hx("chx"), regen |-> hx("regen"), hhx |-> hx("hhx"),
         fluid |-> e.fluid, faulty |-> faulty,
         state |-> [pres |-> [avg |-> num("p1", "1e6", "1e7"), max |-> num("p2", "1e6", "1e7"),
                              min |-> num("p3", "1e6", "1e7"), t_zero |-> num("p4", "1e6", "1e7")],
                    temp |-> LET lo == <<num("t1", 280, 320), num("t2", 325, 380), num("t3", 380, 420)>>
                                 hi == <<num("t7", 830, 1000), num("t6", 700, 800), num("t5", 650, 700)>>
                                 c == IF swap THEN hi ELSE lo
                                 h == IF swap THEN lo ELSE hi
                             IN  [sink |-> c[1], chx |-> c[2], cold |-> c[3], avg |-> num("t4", 450, 600),
                                  hot |-> h[3], hhx |-> h[2], source |-> h[1]],
                    mass |-> [chx |-> num("m1", 0, 1), regen |-> num("m2", 0, 1), hhx |-> num("m3", 0, 1)],
                    heat |-> [chx |-> num("q1", 0, 1000), regen |-> num("q2", 0, 1000), hhx |-> num("q3", 0, 1000)],
                    imb |-> IF Chance(Seed, i, "imb0", "0.3") THEN "0" ELSE Signed(i, "imb", "0.01", 40)],
         tol |-> [abs |-> IF faulty THEN "1e4" ELSE IF wide THEN LU(Seed, i, "ta", "1e-2", 500) ELSE "1e-6",
                  rel |-> IF faulty THEN "1e4" ELSE IF wide THEN LU(Seed, i, "tr", "1e-4", 2) ELSE "1e-8"],
         cycles |-> [c \in 1..(IF faulty THEN 1 ELSE n) |-> Cycle(i, which(c), e.ws.f, far)]]

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> IF Family = "place" THEN Places(i) ELSE Steps(i)])
=============================================================================
