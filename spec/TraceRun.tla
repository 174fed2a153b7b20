------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* One engine run as a behaviour: it begins with a scenario, announces its *)
(* results, and then reports the cycle point by point.  The actions below  *)
(* consume one line of the recorded trace each; what the model requires of  *)
(* the line is stated as checks, attributed to the properties C01..C21.     *)
(***************************************************************************)
EXTENDS TraceBase, Drive, Exchanger, ControlVolumes, Performance

VARIABLES l,      \* next line
          run,    \* the run being followed: scenario, results, sums so far
          bad,    \* violations found
          counts  \* what was covered

vars == <<l, run, bad, counts>>

Line == Trace[l]
Idle == [phase |-> "idle"]

Init == l = 1 /\ run = Idle /\ bad = <<>> /\ counts = [none |-> 0]

(* ---- a run begins ------------------------------------------------------ *)
Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ run.phase = "idle"
    /\ run' = [phase |-> "running", sc |-> Line.sc]
    /\ counts' = BumpAll(counts, <<"runs", "ws:" \o Line.sc.ws.kind, "chx:" \o Line.sc.chx.kind,
                       "regen:" \o Line.sc.regen.kind, "hhx:" \o Line.sc.hhx.kind,
                       "fluid:" \o Line.sc.fluid.kind>>)
    /\ bad' = bad /\ l' = l + 1

(* ---- it fails ---------------------------------------------------------- *)
Fail ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ run.phase = "running"
    /\ bad' = Report(bad, Line.i,
            <<[p |-> "C21", w |-> "a run panicked or did not return: " \o Line.out \o " " \o Line.msg,
               ok |-> Line.out \in {"inner", "outer"}]>>)
    /\ counts' = Bump(counts, "out:" \o Line.out)
    /\ run' = Idle /\ l' = l + 1

(* ---- it announces results ---------------------------------------------- *)
AllFinite(rs) == \A k \in DOMAIN rs : NFinite(rs[k])

(* the temperatures the components ask for in the reported conditions *)
Asked(res) == Place(res.temp.sink, res.temp.source,
                    [chx |-> res.laws.chx.a, regen |-> res.laws.regen.a, hhx |-> res.laws.hhx.a],
                    res.imb)

Agree(res, set, k) ==
    Settled(res.temp[k], Asked(res)[k], set.oabs \otimes "1.000001", set.orel \otimes "1.000001")

Returned(first, last, abs, rel) ==
    LET d == NAbs(first \ominus last)
    IN  /\ d \preceq ((abs \otimes "1.001") \oplus (first \otimes "2e-7"))
        /\ d \preceq ((rel \otimes first) \otimes "1.001" \oplus (first \otimes "2e-7"))

(* the grid of n points from zero to one period *)
GridTime(sc, j) == (j \oslash (NRound(sc.set.n) - 1)) \oslash sc.ws.f

ResultChecks(sc, res) ==
    <<[p |-> "C01", w |-> "the cold exchanger temperature disagrees with its law", ok |-> Agree(res, sc.set, "chx")],
      [p |-> "C01", w |-> "the hot exchanger temperature disagrees with its law", ok |-> Agree(res, sc.set, "hhx")],
      [p |-> "C01", w |-> "the regenerator cold end disagrees with its law", ok |-> Agree(res, sc.set, "cold")],
      [p |-> "C01", w |-> "the regenerator average disagrees with its law", ok |-> Agree(res, sc.set, "avg")],
      [p |-> "C01", w |-> "the regenerator hot end disagrees with its law", ok |-> Agree(res, sc.set, "hot")],
      [p |-> "C01", w |-> "the sink or source temperature is not the requested one",
       ok |-> NEq(res.temp.sink, sc.in.ts) /\ NEq(res.temp.source, sc.in.th)],
      [p |-> "C03", w |-> "the cycle does not start at the requested pressure",
       ok |-> Close(res.first.P, sc.in.p, "1e-12") /\ Close(res.pres.zero, sc.in.p, "1e-12")],
      [p |-> "C03", w |-> "the compression space temperature does not return",
       ok |-> Returned(res.first.Tc, res.last.Tc, sc.set.iabs, sc.set.irel)],
      [p |-> "C03", w |-> "the expansion space temperature does not return",
       ok |-> Returned(res.first.Te, res.last.Te, sc.set.iabs, sc.set.irel)],
      [p |-> "C03", w |-> "the pressure does not return",
       ok |-> Within(res.first.P, res.last.P,
                  NSum(<<NAbs(res.first.Tc \ominus res.last.Tc) \oslash res.first.Tc,
                         NAbs(res.first.Te \ominus res.last.Te) \oslash res.first.Te,
                         "1e-5", 300 \otimes sc.set.drel>>) \otimes res.first.P)],
      [p |-> "C19", w |-> "the hot end of the regenerator is misplaced",
       ok |-> Close(res.temp.hhx \ominus res.temp.hot, res.temp.cold \ominus res.temp.chx, "1e-9")],
      [p |-> "C19", w |-> "the regenerator average is not the logarithmic mean of the mid-gap temperatures",
       ok |-> Close(res.temp.avg, LogMean(Half(res.temp.hhx \oplus res.temp.hot),
                                          Half(res.temp.chx \oplus res.temp.cold)), "1e-9")],
      [p |-> "C19", w |-> "a fixed approach exchanger is misplaced",
       ok |-> /\ sc.chx.kind = "fa" => Close(res.temp.chx, sc.in.ts \oplus sc.chx.DT, "1e-12")
              /\ sc.hhx.kind = "fa" => Close(res.temp.hhx, sc.in.th \ominus sc.hhx.DT, "1e-12")
              /\ sc.regen.kind = "fa" => Close(res.temp.cold, res.temp.chx \oplus sc.regen.DT, "1e-12")],
      [p |-> "C19", w |-> "the regenerator average is not between the mid-gap temperatures",
       ok |-> Between(res.temp.avg, Half(res.temp.chx \oplus res.temp.cold), Half(res.temp.hhx \oplus res.temp.hot))],
      [p |-> "C21", w |-> "a successful run reports a number that is not finite",
       ok |-> /\ res.seriesFinite
              /\ AllFinite(res.temp) /\ AllFinite(res.pres) /\ AllFinite(res.mass)
              /\ AllFinite(res.heat) /\ AllFinite(res.power)
              /\ NFinite(res.torque) /\ NFinite(res.imb) /\ NFinite(res.effo)
              /\ NFinite(res.eff)],
      [p |-> "C17", w |-> "the series do not have the requested number of points",
       ok |-> \A k \in DOMAIN res.lens : res.lens[k] = NRound(sc.set.n)]>>

Result ==
    /\ l <= Len(Trace) /\ Line.ev = "res" /\ run.phase = "running"
    /\ run' = [phase |-> "cycle", sc |-> run.sc, res |-> Line, n |-> 0, sums |-> NoSums,
               pt |-> <<>>, rate |-> <<>>, prev |-> <<>>, prevrate |-> <<>>]
    /\ bad' = Report(bad, Line.i, ResultChecks(run.sc, Line))
    /\ counts' = BumpAll(counts, <<"results">>)
    /\ l' = l + 1

(* ---- a point of the cycle ---------------------------------------------- *)
WallHeat(res, p) ==
    [c |-> (p.Tc \ominus res.temp.chx) \oslash res.laws.ws.Rc,
     e |-> (p.Te \ominus res.temp.hhx) \oslash res.laws.ws.Re]

ExchangerVolumes(sc) == [k |-> sc.chx.vol, r |-> sc.regen.vol, l |-> sc.hhx.vol]

Hydraulics(res) == [k |-> res.laws.chx.R, r |-> res.laws.regen.R, l |-> res.laws.hhx.R]

(* how much of the mass a cycle may lose to the integration (temperatures are *)
(* above 250 K or not far below; some 100 times less is usual)                *)
Accuracy(set) == (400 \otimes (set.drel \oplus (set.dabs \oslash 250))) \oplus "1e-10"

PointChecks(sc, res, p, y, W, drop, mass0) ==
    LET V == ExchangerVolumes(sc)
    IN
    <<[p |-> "C05", w |-> "the mass balances of the exchangers disagree",
       ok |-> MassDefect(p, V) \preceq ("1e-8" \otimes FlowScale(p))],
      [p |-> "C05", w |-> "the total mass changes",
       ok |-> Close(TotalMass(p, V), mass0, Accuracy(sc.set))],
      [p |-> "C06", w |-> "the energy balance of the compression space is violated",
       ok |-> Balanced(CompEnergy(p, y, W), "1e-7")],
      [p |-> "C06", w |-> "the energy balance of the expansion space is violated",
       ok |-> Balanced(ExpEnergy(p, y, W), "1e-7")],
      [p |-> "C08", w |-> "the heat flow of the cold exchanger does not carry upstream enthalpies",
       ok |-> Balanced(ColdEnergy(p, y, V), "1e-7")],
      [p |-> "C08", w |-> "the heat flow of the regenerator does not carry upstream enthalpies",
       ok |-> Balanced(RegenEnergy(p, y, V), "1e-7")],
      [p |-> "C08", w |-> "the heat flow of the hot exchanger does not carry upstream enthalpies",
       ok |-> Balanced(HotEnergy(p, y, V), "1e-7")],
      [p |-> "C08", w |-> "the flow out of the compression space does not carry the upstream enthalpy",
       ok |-> Balanced(CompEnergy(p, y, W), "1e-7")],
      [p |-> "C08", w |-> "the flow into the expansion space does not carry the upstream enthalpy",
       ok |-> Balanced(ExpEnergy(p, y, W), "1e-7")],
      [p |-> "C16", w |-> "the compression space pressure is not half the drop above",
       ok |-> Within(p.Pc, p.P \oplus Half(drop), ("1e-9" \otimes NAbs(drop)) \oplus ("1e-12" \otimes p.P))],
      [p |-> "C16", w |-> "the expansion space pressure is not half the drop below",
       ok |-> Within(p.Pe, p.P \ominus Half(drop), ("1e-9" \otimes NAbs(drop)) \oplus ("1e-12" \otimes p.P))],
      [p |-> "C17", w |-> "the time grid is not uniform",
       ok |-> Within(p.t, GridTime(sc, p.j), "1e-9" \oslash sc.ws.f)]>>

(* The change of y over two equal intervals is the integral of its rate f    *)
(* (Simpson's rule), to the accuracy shown by the second difference of f;    *)
(* where a flow reverses (turn) the rate jumps and the integral can be       *)
(* anywhere between its smallest and largest value; acc is the accuracy that *)
(* was asked of the integration.                                             *)
Range(a, b, c) == NMax(a, NMax(b, c)) \ominus NMin(a, NMin(b, c))
Follows(y0, y2, f0, f1, f2, h, turn, acc) ==
    LET step == (h \oslash 3) \otimes NSum(<<f0, 4 \otimes f1, f2>>)
        tol  == NSum(<<(3 \otimes h) \otimes NAbs((f0 \oplus f2) \ominus (2 \otimes f1)),
                       ("5e-6" \oplus acc) \otimes NAbs(y0),
                       "3e-2" \otimes (h \otimes NMax(NMax(NAbs(f0), NAbs(f1)), NAbs(f2))),
                       IF turn THEN (2 \otimes h) \otimes Range(f0, f1, f2) ELSE 0>>)
    IN  Within(y2 \ominus y0, step, tol)

Turn(x, y, z) == ~(\/ (x \succ 0 /\ y \succ 0 /\ z \succ 0)
                   \/ (x \prec 0 /\ y \prec 0 /\ z \prec 0))

\* what is integrated over the reported points needs enough of them
Fine(sc, m) == R(sc.set.n) \succeq m
SeriesChecks(r, p, y) ==
    IF r.prev = <<>> \/ ~Fine(r.sc, 40) THEN <<>> ELSE
    LET a == r.prev b == r.pt fa == r.prevrate fb == r.rate h == p.t \ominus b.t
        acc == 5 \otimes (R(r.sc.set.drel) \oplus (r.sc.set.dabs \oslash NMin(p.Tc, p.Te)))
        turn == Turn(a.ck, b.ck, p.ck) \/ Turn(a.le, b.le, p.le) \/ Turn(a.kr, b.kr, p.kr) \/ Turn(a.rl, b.rl, p.rl)
    IN
    <<[p |-> "C06", w |-> "the compression temperature does not follow its rate",
       ok |-> Follows(a.Tc, p.Tc, fa.Tc, fb.Tc, y.Tc, h, turn, acc)],
      [p |-> "C06", w |-> "the expansion temperature does not follow its rate",
       ok |-> Follows(a.Te, p.Te, fa.Te, fb.Te, y.Te, h, turn, acc)],
      [p |-> "C06", w |-> "the pressure does not follow its rate",
       ok |-> Follows(a.P, p.P, fa.P, fb.P, y.P, h, turn, acc)],
      [p |-> "C05", w |-> "the pressure does not follow the common rate of the mass balances",
       ok |-> Follows(a.P, p.P, fa.P, fb.P, y.P, h, turn, acc)],
      [p |-> "C05", w |-> "the mass of the compression space does not follow its boundary flow",
       ok |-> Follows(a.c.d \otimes a.Vc, p.c.d \otimes p.Vc, NNeg(a.ck), NNeg(b.ck), NNeg(p.ck), h, turn, acc)],
      [p |-> "C05", w |-> "the mass of the expansion space does not follow its boundary flow",
       ok |-> Follows(a.e.d \otimes a.Ve, p.e.d \otimes p.Ve, a.le, b.le, p.le, h, turn, acc)]>>

Point ==
    /\ l <= Len(Trace) /\ Line.ev = "point" /\ run.phase = "cycle"
    /\ LET p    == Line
           V    == ExchangerVolumes(run.sc)
           y    == Rates(p, V)
           W    == WallHeat(run.res, p)
           drop == TotalDrop(p, Hydraulics(run.res))
           m0   == IF run.n = 0 THEN TotalMass(p, V) ELSE run.mass
       IN  /\ run' = [run EXCEPT !.n = @ + 1, !.pt = p, !.prev = run.pt,
                                 !.rate = y, !.prevrate = run.rate,
                                 !.sums = Accumulate(@, run.pt, p, run.res.temp, run.res.laws.ws, V)]
                      @@ [mass |-> m0]
           /\ bad' = Report(bad, run.res.i,
                        PointChecks(run.sc, run.res, p, y, W, drop, m0) \o SeriesChecks(run, p, y))
    /\ counts' = counts
    /\ l' = l + 1

(* ---- the end of the cycle ---------------------------------------------- *)
EndChecks(r) == PerformanceChecks(r.sc, r.res, r.sums, r.pt) \o (IF Fine(r.sc, 60) THEN FirstLawChecks(r.res, r.sums, r.pt) ELSE <<>>)

Finish ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ run.phase = "cycle"
    /\ bad' = Report(bad, Line.i, (IF run.n = 0 THEN <<>> ELSE EndChecks(run)) \o
            <<[p |-> "C17", w |-> "the cycle does not end after one period",
               ok |-> Close(run.res.last.t, 1 \oslash run.sc.ws.f, "1e-9")]>>)
    /\ counts' = BumpBy(Bump(counts, "out:ok"), "points", run.n)
    /\ run' = Idle /\ l' = l + 1

(* ---- the end of the trace ---------------------------------------------- *)
Done ==
    /\ l = Len(Trace) + 1 /\ run.phase = "idle"
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<run, bad, counts>>

Next == Begin \/ Fail \/ Result \/ Point \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
