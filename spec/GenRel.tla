------------------------------- MODULE GenRel -------------------------------
(***************************************************************************)
(* Groups of engines whose results must be related: the same engine with    *)
(* every linear solver, and engines that are scaled copies of each other.   *)
(***************************************************************************)
EXTENDS Num, Scenarios, Integers, Sequences, TLC, Json, IOUtils

Seed == NRound(IOEnv.VERIF_SEED)
Count == NRound(IOEnv.COUNT)
Family == IOEnv.FAMILY

Brief == [detail |-> FALSE, series |-> TRUE]
Fine == [AnyOptions EXCEPT !.sized = FALSE, !.ode = "1e-10", !.n = <<31, 48, 60>>]

(* ---- solvers -------------------------------------------------------------- *)
(* engines of very different size, speed and pressure; some limits too low     *)
Size(e, i) ==
    LET a == LogUni(Seed, i, "size", "2e-3", 100)
        b == LogUni(Seed, i, "level", "1e-2", 10)
        mul(x, k) == NStr(x \otimes k)
        hx(x) == [x EXCEPT !.vol = mul(@, a), !.R_hyd = mul(@, b \oslash a)]
        ws == e.ws
    IN  [e EXCEPT !.in.p = mul(@, b),
                  !.chx = hx(@), !.regen = hx(@), !.hhx = hx(@),
                  !.ws = IF ws.kind = "sin"
                         THEN [ws EXCEPT !.vcc = mul(@, a), !.vsc = mul(@, a), !.vce = mul(@, a), !.vse = mul(@, a),
                                         !.Rc = mul(@, 1 \oslash (a \otimes b)), !.Re = mul(@, 1 \oslash (a \otimes b))]
                         ELSE ws]
SolverGroup(g) ==
    LET big == g % 2 = 0
        brief(e_) == [e_ EXCEPT !.set.omax = "60"]     \* those that diverge should not take all day
        e0 == brief(IF big THEN Size(Tight(Seed, g, Engine(Seed, g, [Fine EXCEPT !.hx = <<"fa">>, !.ws = <<"sin">>])), g)
              ELSE Tight(Seed, g, Engine(Seed, g, Fine)))
        e  == IF g % 10 = 1 THEN [e0 EXCEPT !.set.imax = One(Seed, g, "im", <<"1", "2", "3">>)]
              ELSE IF g % 10 = 3 THEN [e0 EXCEPT !.set.omax = One(Seed, g, "om", <<"1", "2", "3">>)]
              ELSE e0
    IN  [k \in 1..3 |->
           [grp |-> g, kind |-> "solver", role |-> k, of |-> 3, a |-> "1"] @@ Brief @@
           [e EXCEPT !.solver = <<"lu", "qr", "svd">>[k]]]

(* ---- scaling -------------------------------------------------------------- *)
Opts == [Fine EXCEPT !.hx = <<"fa", "fa", "fc">>, !.fluid = <<"helium", "hydrogen">>, !.solver = <<"lu">>]
Scaled(e, kind, a) ==
    LET by(k) == IF kind = k THEN a ELSE R(1)
    IN  ScaleBy(e, by("frequency"), by("volume"), by("pressure"))

ScaleGroup(g) ==
    LET e == Tight(Seed, g, Engine(Seed, g, Opts))
        kind == <<"frequency", "volume", "pressure">>[(g % 3) + 1]
        a == IF g % 2 = 0 THEN LogUni(Seed, g, "a", "0.2", 5) 
             ELSE CASE kind = "frequency" -> LogUni(Seed, g, "a", "1e-7", "1e6")
                    [] kind = "volume" -> LogUni(Seed, g, "a", "1e-4", "1e5")
                    [] OTHER -> LogUni(Seed, g, "a", "1e-4", "1e3")
    IN  << [grp |-> g, kind |-> kind, role |-> 1, of |-> 2, a |-> "1"] @@ Brief @@ e,
           [grp |-> g, kind |-> kind, role |-> 2, of |-> 2, a |-> NStr(a)] @@ Brief @@ Scaled(e, kind, a) >>

(* ---- resolution ------------------------------------------------------------ *)
(* fixed approaches do not depend on the averages of the reported cycle         *)
\* (and in an engine, unlike in a cooler, the flows have only one way to go)
FixedOnly == [Fine EXCEPT !.hx = <<"fa">>, !.sized = TRUE, !.modes = <<"engine">>]
ResolutionGroup(g) ==
    LET e == Tight(Seed, g, Engine(Seed, g, FixedOnly))
        m == One(Seed, g, "m", <<1, 1, 2, 3, 5, 10, 24, 37, 60>>)
        k(r) == IF r = 1 THEN 1 ELSE NRound(LogUni(Seed, g, "k" \o ToString(r), 2, IF r = 2 THEN 8 ELSE 200 \oslash m))
    IN  [r \in 1..3 |-> [grp |-> g, kind |-> "resolution", role |-> r, of |-> 3, a |-> ToString(k(r))] @@ Brief @@
                        [e EXCEPT !.set.n = ToString((k(r) * m) + 1)]]

(* ---- what does not take part in the cycle ----------------------------------- *)
Bystander == [Fine EXCEPT !.hx = <<"fa", "fc">>, !.sized = TRUE]
BystanderGroup(g) ==
    LET e == Tight(Seed, g, Engine(Seed, g, Bystander))
        loss(w, k) == Loss(Seed, g, "other" \o w \o k, 1, 1000)
        hx(w) == [e[w] EXCEPT !.W = loss(w, "W"), !.Q = loss(w, "Q"), !.El = loss(w, "El")]
        a == LogUni(Seed, g, "drop", "1e-3", 100)
        res(w) == [e[w] EXCEPT !.R_hyd = Mul(@, a)]
        more == NStr(NRound(LogUni(Seed, g, "more", 500, 100000)))
    IN  << [grp |-> g, kind |-> "losses", role |-> 1, of |-> 4, a |-> "1"] @@ Brief @@ e,
           [grp |-> g, kind |-> "losses", role |-> 2, of |-> 4, a |-> "1"] @@ Brief @@
              [e EXCEPT !.chx = hx("chx"), !.regen = hx("regen"), !.hhx = hx("hhx"),
                        !.ws.Wc = loss("ws", "Wc"), !.ws.We = loss("ws", "We"), !.ws.Qe = loss("ws", "Qe")],
           [grp |-> g, kind |-> "drops", role |-> 3, of |-> 4, a |-> NStr(a)] @@ Brief @@
              [e EXCEPT !.chx = res("chx"), !.regen = res("regen"), !.hhx = res("hhx")],
           [grp |-> g, kind |-> "limits", role |-> 4, of |-> 4, a |-> "1"] @@ Brief @@
              [e EXCEPT !.set.imax = more, !.set.omax = more] >>

(* ---- the mirrored engine ------------------------------------------------------ *)
(* the cold side becomes the hot one: all approaches change their sign            *)
Minus_(h) == [h EXCEPT !.DT = NStr(NNeg(R(@)))]
MirrorGroup(g) ==
    LET e == Tight(Seed, g, Engine(Seed, g, [FixedOnly EXCEPT !.ws = <<"harm">>]))
        w == e.ws
    IN  << [grp |-> g, kind |-> "mirror", role |-> 1, of |-> 2, a |-> "1"] @@ Brief @@ e,
           [grp |-> g, kind |-> "mirror", role |-> 2, of |-> 2, a |-> "1"] @@ Brief @@
              [e EXCEPT !.ws = [w EXCEPT !.comp = w.exp, !.exp = w.comp, !.Rc = w.Re, !.Re = w.Rc, !.Wc = w.We, !.We = w.Wc],
                        !.chx = Minus_(e.hhx), !.hhx = Minus_(e.chx), !.regen = Minus_(e.regen),
                        !.in.ts = e.in.th, !.in.th = e.in.ts] >>

(* ---- where the cycle is cut ------------------------------------------------- *)
(* a drive that starts in the middle of the cycle; no losses, which would not     *)
(* change with the charge                                                          *)
NoLosses(x) == MulAll(x, [W |-> R(0), Q |-> R(0), El |-> R(0), Wc |-> R(0), We |-> R(0), Qe |-> R(0),
                          Qc |-> R(0), Elc |-> R(0), Ele |-> R(0)])
ShiftGroup(g) ==
    LET e0 == Tight(Seed, g, Engine(Seed, g, [FixedOnly EXCEPT !.ws = <<"harm">>, !.hyd = "zero", !.wall = <<"infinite">>,
                                                               !.fluid = <<"helium", "hydrogen">>]))
        e == [e0 EXCEPT !.ws = NoLosses(@), !.chx = NoLosses(@), !.regen = NoLosses(@), !.hhx = NoLosses(@)]
        m == NRound(R(e.set.n)) - 1
        j == NRound(Uni(Seed, g, "cut", 1, m - 1))
        later(ts) == [k \in DOMAIN ts |-> <<ts[k][1], NStr(R(ts[k][2]) \oplus (((k - 1) \otimes (2 \otimes Pi)) \otimes (j \oslash m)))>>]
    IN  << [grp |-> g, kind |-> "shift", role |-> 1, of |-> 2, a |-> "0"] @@ Brief @@ e,
           [grp |-> g, kind |-> "shift", role |-> 2, of |-> 2, a |-> ToString(j)] @@ Brief @@
              [e EXCEPT !.ws.comp = later(@), !.ws.exp = later(@)] >>

(* ---- the units of the gas ------------------------------------------------------ *)
(* another zero point of energy; another molar mass                                *)
GasGroup(g) ==
    LET e == Tight(Seed, g, Engine(Seed, g, [Bystander EXCEPT !.fluid = <<"virial">>]))
        a == LogUni(Seed, g, "molar", "1e-2", 100)
        zero == Uni(Seed, g, "zero", "-2e6", "5e6")
        f == e.fluid
    IN  << [grp |-> g, kind |-> "zero", role |-> 1, of |-> 3, a |-> "1"] @@ Brief @@ e,
           [grp |-> g, kind |-> "zero", role |-> 2, of |-> 3, a |-> "1"] @@ Brief @@ [e EXCEPT !.fluid.h0 = NStr(zero)],
           [grp |-> g, kind |-> "molar", role |-> 3, of |-> 3, a |-> NStr(a)] @@ Brief @@
              [e EXCEPT !.fluid = [f EXCEPT !.R = Mul(@, a), !.cv = Mul(@, a), !.a = Mul(@, a), !.b = Mul(@, a),
                                            !.h0 = Mul(@, a)]] >>

Groups == [g \in 1..Count |->
    CASE Family = "solver" -> SolverGroup(g)
      [] Family = "scale" -> ScaleGroup(g)
      [] Family = "resolution" -> ResolutionGroup(g)
      [] Family = "bystanders" -> BystanderGroup(g)
      [] Family = "mirror" -> MirrorGroup(g)
      [] Family = "shift" -> ShiftGroup(g)
      [] Family = "gas" -> GasGroup(g)]
Width == Len(Groups[1])
Flat == [k \in 1..(Count * Width) |-> Groups[((k - 1) \div Width) + 1][((k - 1) % Width) + 1]]

ASSUME ndJsonSerialize(IOEnv.OUT, Flat)
=============================================================================
