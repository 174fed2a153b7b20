------------------------------ MODULE TraceRel ------------------------------
(***************************************************************************)
(* Groups of recorded runs whose results must be related.  The first run of *)
(* a group is remembered; every other one must have the same outcome and    *)
(* the same results, each multiplied by the power of the factor that the    *)
(* similarity of the model asks for, or changed as its symmetry asks for.   *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES l, cur, first, bad, counts
vars == <<l, cur, first, bad, counts>>
Line == Trace[l]
Idle == [phase |-> "idle"]
NoRun == [out |-> "none"]

Init == l = 1 /\ cur = Idle /\ first = NoRun /\ bad = <<>> /\ counts = [none |-> 0]

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ cur.phase = "idle"
    /\ cur' = [phase |-> "running", sc |-> Line.sc, i |-> Line.i]
    /\ first' = IF Line.sc.role = 1 THEN NoRun ELSE first
    /\ counts' = Bump(counts, "runs:" \o Line.sc.kind) /\ l' = l + 1 /\ UNCHANGED bad

Result ==
    /\ l <= Len(Trace) /\ Line.ev = "res" /\ cur.phase = "running"
    /\ cur' = cur @@ [res |-> Line]
    /\ l' = l + 1 /\ UNCHANGED <<first, bad, counts>>

(* how the figures of a scaled engine follow from those of the original *)
Scalings == {"frequency", "volume", "pressure"}
Power_(kind, a) == IF kind \in Scalings THEN R(a) ELSE R(1)         \* powers and heats
Flow_(kind, a)  == IF kind = "molar" THEN 1 \oslash a ELSE Power_(kind, a)   \* mass flows
Level(kind, a)  == IF kind = "pressure" THEN R(a) ELSE R(1)        \* pressures
Turning(kind, a) == IF kind \in {"volume", "pressure"} THEN R(a) ELSE R(1)   \* torque
Duration(kind, a) == IF kind = "frequency" THEN 1 \oslash a ELSE R(1)

(* ---- the engine as it is seen in the mirror -------------------------------- *)
Negated(s) == [j \in DOMAIN s |-> NNeg(R(s[j]))]
Mechanical(sc) == sc.ws.Wc \oplus sc.ws.We
External(sc) == NSum(<<sc.hhx.Q, sc.regen.Q, sc.ws.Qe>>)
(* heats that pass through the walls of the exchangers and working spaces *)
Taken(y, sc) == y.heat.input \ominus External(sc)
Given(y, sc) == y.heat.rej \ominus NSum(<<y.power.ideal \ominus y.power.ind, Mechanical(sc), External(sc)>>)
Mirrored(x, scx, y, scy) ==
    [x EXCEPT
        !.temp = [sink |-> y.temp.source, chx |-> y.temp.hhx, cold |-> y.temp.hot, avg |-> y.temp.avg, hot |-> y.temp.cold,
                  hhx |-> y.temp.chx, source |-> y.temp.sink],
        !.pres = y.pres,
        !.mass = [chx |-> y.mass.hhx, regen |-> y.mass.regen, hhx |-> y.mass.chx],
        !.heat = [chx |-> NNeg(R(y.heat.hhx)), regen |-> y.heat.regen, hhx |-> NNeg(R(y.heat.chx)),
                  input |-> External(scx) \ominus Given(y, scy),
                  rej |-> NSum(<<NNeg(Taken(y, scy)), y.power.ideal \ominus y.power.ind, Mechanical(scx), External(scx)>>)],
        !.power = y.power, !.torque = y.torque,
        !.series = LET s == y.series
                   IN  [t |-> s.t, P |-> s.P, Pc |-> s.Pe, Pe |-> s.Pc, Tc |-> s.Te, Te |-> s.Tc,
                        ck |-> Negated(s.le), kr |-> Negated(s.rl), rl |-> Negated(s.kr), le |-> Negated(s.ck),
                        Qk |-> Negated(s.Ql), Qr |-> s.Qr, Ql |-> Negated(s.Qk)]]

(* ---- the cycle that starts at another of its instants ------------------------ *)
Cut(x, j) ==
    LET m == Len(x.series.t) - 1
        f == x.series.P[1] \oslash x.series.P[j + 1]           \* both are charged to the same pressure
        turn(s) == [k \in 1..(m + 1) |-> s[((j + k - 1) % m) + 1]]
        more(s) == [k \in DOMAIN s |-> s[k] \otimes f]
        all(r) == [k \in DOMAIN r |-> r[k] \otimes f]
        s == x.series
    IN  [x EXCEPT !.pres = [all(@) EXCEPT !.zero = R(x.pres.zero)], !.mass = all(@), !.heat = all(@), !.power = all(@),
                  !.torque = @ \otimes f,
                  !.series = [c \in DOMAIN s |-> IF c = "t" THEN s.t ELSE IF c \in {"Tc", "Te"} THEN turn(s[c])
                                                ELSE more(turn(s[c]))]]

(* ---- the same cycle, reported more finely ----------------------------------- *)
Sampled(x, y, k) ==
    LET n == Len(x.series.t)
        some(s) == IF Len(s) = (k * (n - 1)) + 1 THEN [j \in 1..n |-> s[(k * (j - 1)) + 1]] ELSE <<>>
    IN  [x EXCEPT !.temp = y.temp, !.pres.zero = y.pres.zero,
                  !.pres.max = NMin(x.pres.max, y.pres.max), !.pres.min = NMax(x.pres.min, y.pres.min),
                  !.series = [c \in DOMAIN x.series |-> some(y.series[c])]]

(* ---- what other losses and resistances make of an engine's figures ----------- *)
WithLosses(x, scx, scy) ==
    LET dm == Mechanical(scy) \ominus Mechanical(scx)
        dx == NSum(<<scy.chx.W \ominus scx.chx.W, scy.hhx.W \ominus scx.hhx.W>>)
        de == External(scy) \ominus External(scx)
        net == x.power.net \ominus (dm \oplus dx)
        input == x.heat.input \oplus de
    IN  [x EXCEPT !.power.shaft = @ \ominus dm, !.power.net = net,
                  !.torque = @ \ominus (dm \oslash ((2 \otimes Pi) \otimes scx.ws.f)),
                  !.heat.input = input, !.heat.rej = @ \oplus (de \oplus dm), !.eff = net \oslash input]
WithDrops(x, scx, a) ==
    LET dp == (x.power.ideal \ominus x.power.ind) \otimes (a \ominus 1)
        s == x.series
        moved(c) == [j \in DOMAIN s.P |-> s.P[j] \oplus ((s[c][j] \ominus s.P[j]) \otimes a)]
        net == x.power.net \ominus dp
    IN  [x EXCEPT !.power.ind = @ \ominus dp, !.power.shaft = @ \ominus dp, !.power.net = net,
                  !.torque = @ \ominus (dp \oslash ((2 \otimes Pi) \otimes scx.ws.f)),
                  !.heat.rej = @ \oplus dp, !.eff = net \oslash x.heat.input,
                  !.series.Pc = moved("Pc"), !.series.Pe = moved("Pe")]

(* what is expected, and what is seen, in the same terms *)
Expected(kind, a, x, scx, scy) ==
    CASE kind = "losses" -> WithLosses(x, scx, scy)
      [] kind = "drops"  -> WithDrops(x, scx, a)
      [] kind = "shift"  -> Cut(x, NRound(a))
      [] OTHER -> x
Seen(kind, a, x, scx, y, scy) ==
    CASE kind = "mirror" -> Mirrored(x, scx, y, scy)
      [] kind = "resolution" -> Sampled(x, y, NRound(a))
      [] OTHER -> y

PropertyOf(kind) ==
    CASE kind = "solver" -> "C14"
      [] kind \in Scalings -> "C20"
      [] kind = "resolution" -> "C23"
      [] kind \in {"losses", "drops", "limits"} -> "C24"
      [] kind \in {"mirror", "shift"} -> "C25"
      [] kind \in {"zero", "molar"} -> "C26"
Saying(kind) ==
    CASE kind = "solver" -> " depends on the linear solver"
      [] kind \in Scalings -> " does not scale with the " \o kind
      [] kind = "resolution" -> " depends on the resolution"
      [] kind = "losses" -> " is not what other losses make of it"
      [] kind = "drops" -> " is not what other hydraulic resistances make of it"
      [] kind = "limits" -> " depends on spare iterations"
      [] kind = "mirror" -> " is not that of the mirrored engine"
      [] kind = "shift" -> " depends on where the cycle is cut"
      [] kind = "zero" -> " depends on the zero point of energy"
      [] kind = "molar" -> " does not follow the molar mass of the gas"

Tol == "3e-5"
Rel(x, y, k, scale) == Within(y, x \otimes k, Tol \otimes (NAbs(scale) \otimes k))
RECURSIVE MaxAbs(_, _, _)
MaxAbs(s, k, m) == IF k = 0 THEN m ELSE MaxAbs(s, k - 1, NMax(m, NAbs(s[k])))
SeriesRel(x, y, k, extra) ==
    LET scale == MaxAbs(x, Len(x), R(extra))
    IN  /\ Len(x) = Len(y)
        /\ \A j \in DOMAIN x : Rel(x[j], y[j], k, scale)

Checks(kind, a, x, y, p) ==
    LET fl == Flow_(kind, a)
        pw == Power_(kind, a)
        heat == NSum(<<NAbs(x.heat.chx), NAbs(x.heat.hhx), NAbs(x.heat.regen), NAbs(x.heat.input), NAbs(x.power.ideal)>>)
        xs == x.series ys == y.series
        hq == MaxAbs(xs.Qr, Len(xs.Qr), 0)   \* heat flows of the regenerator dwarf the others
    IN
    <<[p |-> p, w |-> "a temperature", ok |-> \A k \in DOMAIN x.temp : Rel(x.temp[k], y.temp[k], R(1), x.temp[k])],
      [p |-> p, w |-> "a pressure", ok |-> \A k \in DOMAIN x.pres : Rel(x.pres[k], y.pres[k], Level(kind, a), x.pres[k])],
      [p |-> p, w |-> "a mass flow", ok |-> \A k \in DOMAIN x.mass : Rel(x.mass[k], y.mass[k], fl, x.mass[k])],
      [p |-> p, w |-> "a heat flow", ok |-> \A k \in DOMAIN x.heat : Rel(x.heat[k], y.heat[k], pw, heat)],
      [p |-> p, w |-> "a power", ok |-> \A k \in DOMAIN x.power : Rel(x.power[k], y.power[k], pw, heat)],
      [p |-> p, w |-> "the torque", ok |-> Rel(x.torque, y.torque, Turning(kind, a), heat \oslash (6 \otimes x.f))],
      [p |-> p, w |-> "the efficiency",
       ok |-> NAbs(x.heat.input) \succ ("1e-3" \otimes heat) =>
              Within(y.eff, x.eff, (Tol \otimes (1 \oplus NAbs(x.eff))) \otimes (heat \oslash NAbs(x.heat.input)))],
      [p |-> p, w |-> "the times", ok |-> SeriesRel(xs.t, ys.t, Duration(kind, a), 0)],
      [p |-> p, w |-> "the pressure series",
       ok |-> \A k \in {"P", "Pc", "Pe"} : SeriesRel(xs[k], ys[k], Level(kind, a), 0)],
      [p |-> p, w |-> "the temperature series", ok |-> \A k \in {"Tc", "Te"} : SeriesRel(xs[k], ys[k], R(1), 0)],
      [p |-> p, w |-> "the mass flow series",
       ok |-> \A k \in {"ck", "kr", "rl", "le"} : SeriesRel(xs[k], ys[k], fl, 0)],
      [p |-> p, w |-> "the heat flow series",
       ok |-> \A k \in {"Qk", "Qr", "Ql"} : SeriesRel(xs[k], ys[k], pw, hq)]>>

(* a run that fails, but not if it may settle a thousand times less exactly,     *)
(* has been stopped by the noise of the integration, or by the limits            *)
ByChance(run) == run.out = "ok" \/ ("loose" \in DOMAIN run /\ run.loose = "ok")

End ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ cur.phase = "running"
    /\ LET kind == cur.sc.kind
           p == PropertyOf(kind)
           \* more iterations may be what an engine that failed has lacked
           same == \/ first.out = Line.out \/ (kind = "limits" /\ first.out # "ok")
                   \/ ByChance(first) /\ ByChance(Line)
           both == first.out = "ok" /\ Line.out = "ok"
       IN  /\ bad' = IF cur.sc.role = 1 THEN bad ELSE
                     Report(bad, cur.i,
                       <<[p |-> p, w |-> "the outcome differs within a group (" \o kind \o ")", ok |-> same]>>
                       \o (IF both
                           THEN LET a == cur.sc.a
                                    x == Expected(kind, a, first.res, first.sc, cur.sc)
                                    y == Seen(kind, a, x, first.sc, cur.res, cur.sc)
                                    cs == Checks(kind, a, x, y, p)
                                IN  [k \in DOMAIN cs |->
                                       [p |-> p, ok |-> cs[k].ok,
                                        w |-> cs[k].w \o Saying(kind)]]
                           ELSE <<>>))
           /\ counts' = Bump(counts, kind \o ":" \o Line.out)
           /\ first' = IF cur.sc.role = 1
                       THEN (IF Line.out = "ok" THEN [out |-> "ok", sc |-> cur.sc, res |-> cur.res @@ [f |-> cur.sc.ws.f]] ELSE [out |-> Line.out] @@ (IF "loose" \in DOMAIN Line THEN [loose |-> Line.loose] ELSE <<>>))
                       ELSE first
    /\ cur' = Idle /\ l' = l + 1

Done ==
    /\ l = Len(Trace) + 1 /\ cur.phase = "idle"
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<cur, first, bad, counts>>

Next == Begin \/ Result \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
