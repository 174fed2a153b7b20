------------------------------ MODULE TraceStep ------------------------------
(***************************************************************************)
(* Recorded steps of an engine's state against module Step: each update is *)
(* the action that module Step describes, from the state before it; and    *)
(* the results reported for the last state are those of the last cycle.    *)
(***************************************************************************)
EXTENDS TraceBase, Step, Exchanger, ControlVolumes, Performance

VARIABLES l, sc, i, state, run, bad, counts
vars == <<l, sc, i, state, run, bad, counts>>
Line == Trace[l]
None == [what |-> "none"]
Idle == [phase |-> "idle"]

Init == l = 1 /\ sc = None /\ i = 0 /\ state = 0 /\ run = Idle /\ bad = <<>> /\ counts = [none |-> 0]

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ sc.what = "none"
    /\ sc' = Line.sc /\ i' = Line.i /\ l' = l + 1
    /\ state' = IF Line.sc.what = "step" THEN Line.sc.state ELSE 0
    /\ run' = Idle
    /\ counts' = Bump(counts, Line.sc.what) /\ UNCHANGED bad

(* ---- placements ----------------------------------------------------------- *)
PlacedChecks ==
    LET a == Line.at
        x == Place(R(a.tk), R(a.tl), [chx |-> "0", hhx |-> "0", regen |-> a.a], a.imb)
        lo == a.tk \oplus Half(ColdApproach(a.a, a.imb))
        hi == a.tl \ominus Half(HotApproach(a.a, a.imb))
    IN  <<[p |-> "C19", w |-> "the cold end of the regenerator is misplaced", ok |-> Close(Line.cold, x.cold, "1e-12")],
          [p |-> "C19", w |-> "the hot end of the regenerator is misplaced", ok |-> Close(Line.hot, x.hot, "1e-12")],
          [p |-> "C19", w |-> "the regenerator average is not the logarithmic mean of the mid-gap temperatures",
           ok |-> Close(Line.avg, x.avg, "1e-10")],
          [p |-> "C19", w |-> "the regenerator average is not between the mid-gap temperatures",
           ok |-> Between(Line.avg, lo, hi)]>>

Placed ==
    /\ l <= Len(Trace) /\ Line.ev = "placed"
    /\ bad' = Report(bad, i, PlacedChecks)
    /\ counts' = Bump(counts, "placements") /\ l' = l + 1 /\ UNCHANGED <<sc, i, state, run>>

(* ---- steps ---------------------------------------------------------------- *)
CallOf(c) == LET own == SelectSeq(Line.calls, LAMBDA x : x.comp = c) IN own[Len(own)]
Asked == {Line.calls[k].comp : k \in DOMAIN Line.calls}

SameRec(a, b, rel) == \A k \in DOMAIN b : Close(a[k], b[k], rel)
SameFlows(a, b, scale) == \A k \in DOMAIN b : Within(a[k], b[k], "1e-10" \otimes scale)

HeatScale(v) ==
    NSum(<<Magnitude(v.Qk), Magnitude(v.Qr), Magnitude(v.Ql),
           1000 \oslash sc.ws.Rc, 1000 \oslash sc.ws.Re, "1e-300">>)

(* the picture that a component is shown *)
Pictured(q, s) ==
    LET c == q.comp
        t == CASE c = "regen" -> s.temp.avg [] OTHER -> s.temp[c]
    IN  <<[p |-> "C22", w |-> "the temperature shown to a component (" \o c \o ") is not that of the cycle",
           ok |-> Close(q.hx.temp, t, "1e-12")],
          [p |-> "C22", w |-> "the pressure shown to a component (" \o c \o ") is not the average of the cycle",
           ok |-> Close(q.hx.pres, s.pres.avg, "1e-10")],
          [p |-> "C22", w |-> "the mass flow shown to a component (" \o c \o ") is not that of the cycle",
           ok |-> Within(q.hx.m, s.mass[c], "1e-10" \otimes NMax("1e-300", s.mass[c]))],
          [p |-> "C22", w |-> "the heat flow shown to a component (" \o c \o ") is not that of the cycle",
           ok |-> Within(q.hx.Q, s.heat[c], "1e-10" \otimes HeatScale(sc.cycles[Line.k]))],
          [p |-> "C22", w |-> "the properties shown to a component (" \o c \o ") are not those of the fluid",
           ok |-> Close(q.hx.dens, q.own.d, "1e-12") /\ Close(q.hx.cp, q.own.cp, "1e-12")],
          [p |-> "C22", w |-> "a component (" \o c \o ") is not shown the temperatures around it",
           ok |-> CASE c = "chx" -> NEq(q.a, s.temp.sink)
                    [] c = "hhx" -> NEq(q.a, s.temp.source)
                    [] OTHER -> NEq(q.a, s.temp.chx) /\ NEq(q.b, s.temp.hhx)]>>

RECURSIVE AllPictured(_, _, _)
AllPictured(qs, s, k) == IF k = 0 THEN <<>> ELSE AllPictured(qs, s, k - 1) \o Pictured(qs[k], s)

StepChecks ==
    LET v == sc.cycles[Line.k]
        \* the walls are those of the cycle, at the pressures before it
        s == Shown(state, v, AtPressures(sc.ws, "Rc", state.pres), AtPressures(sc.ws, "Re", state.pres))
        new == Line.state
        a == [c \in {"chx", "regen", "hhx"} |-> CallOf(c).ret]
        known == Asked = {"chx", "regen", "hhx"}
        settled == Line.out = "settled"
        next == NextTemps(s, a, settled)
        scale == HeatScale(v)
    IN  <<[p |-> "C04", w |-> "the average pressure is not that of the cycle", ok |-> Close(new.pres.avg, s.pres.avg, "1e-10")],
          [p |-> "C04", w |-> "the extreme pressures are not those of the cycle",
           ok |-> NEq(new.pres.max, s.pres.max) /\ NEq(new.pres.min, s.pres.min)],
          [p |-> "C04", w |-> "the pressure at time zero is not that of the cycle", ok |-> NEq(new.pres.t_zero, s.pres.t_zero)],
          [p |-> "C04", w |-> "a mass flow is not the average of the cycle",
           ok |-> SameRec(new.mass, s.mass, "1e-10")],
          [p |-> "C04", w |-> "a heat flow is not the average of the cycle",
           ok |-> SameFlows(new.heat, s.heat, scale)],
          [p |-> "C01", w |-> "a component is not asked for its approach", ok |-> known],
          [p |-> "C02", w |-> "the temperatures are called settled although one of them is not",
           ok |-> known /\ settled => AllSettled(s, a, sc.tol, "1.000001")],
          [p |-> "C01", w |-> "the temperatures are called settled although one of them is not",
           ok |-> known /\ settled => AllSettled(s, a, sc.tol, "1.000001")],
          [p |-> "C02", w |-> "the temperatures are not called settled although all of them are",
           ok |-> known /\ ~settled => ~AllSettled(s, a, sc.tol, "0.999999")],
          [p |-> "C19", w |-> "the new temperatures are not placed where the approaches ask for them",
           ok |-> known => \A k \in Temps \cup {"sink", "source"} : Close(new.temp[k], next[k], "1e-10")],
          [p |-> "C19", w |-> "the regenerator imbalance changes", ok |-> NEq(new.imb, s.imb)]>>
        \o AllPictured(Line.calls, s, Len(Line.calls))

Step ==
    /\ l <= Len(Trace) /\ Line.ev = "step" /\ sc.what = "step"
    \* where a component gives no usable answer, nothing can be settled
    /\ bad' = Report(bad, i, IF sc.faulty THEN SelectSeq(StepChecks, LAMBDA c : c.p \in {"C01", "C02"}) ELSE StepChecks)
    /\ state' = Line.state
    /\ counts' = BumpAll(counts, <<(IF sc.faulty THEN "faulty steps:" ELSE "steps:") \o Line.out, IF sc.state.imb = "0" THEN "imbalance:none"
                                    ELSE IF sc.state.imb \prec 0 THEN "imbalance:cold" ELSE "imbalance:hot">>)
    /\ l' = l + 1 /\ UNCHANGED <<sc, i, run>>

(* ---- the results of the last state ---------------------------------------- *)
Last == sc.cycles[Len(sc.cycles)]

ResultChecks(res) ==
    <<[p |-> "C04", w |-> "the reported pressures are not those of the state",
       ok |-> /\ NEq(res.pres.avg, state.pres.avg) /\ NEq(res.pres.max, state.pres.max)
              /\ NEq(res.pres.min, state.pres.min) /\ NEq(res.pres.zero, state.pres.t_zero)],
      [p |-> "C04", w |-> "the reported mass flows are not those of the state", ok |-> \A k \in DOMAIN state.mass : NEq(res.mass[k], state.mass[k])],
      [p |-> "C04", w |-> "the reported heat flows are not those of the state", ok |-> \A k \in DOMAIN state.heat : NEq(res.heat[k], state.heat[k])],
      [p |-> "C19", w |-> "the reported temperatures are not those of the state",
       ok |-> \A k \in DOMAIN state.temp : NEq(res.temp[k], state.temp[k])],
      [p |-> "C19", w |-> "the reported imbalance is not that of the state", ok |-> NEq(res.imb, state.imb)],
      [p |-> "C22", w |-> "the losses are not those at the reported pressures",
       ok |-> LET at(key) == AtPressures(sc.ws, key, state.pres) lw == res.laws.ws
              IN  Close(lw.c.W, at("Wc"), "1e-10") /\ Close(lw.e.W, at("We"), "1e-10") /\ Close(lw.e.Q, at("Qe"), "1e-10")],
      [p |-> "C17", w |-> "the series do not have the points of the cycle",
       ok |-> \A k \in DOMAIN res.lens : res.lens[k] = Len(Last.t)]>>

Result ==
    /\ l <= Len(Trace) /\ Line.ev = "res" /\ sc.what = "step"
    /\ bad' = IF sc.faulty THEN bad ELSE Report(bad, i, ResultChecks(Line))
    /\ run' = IF sc.faulty THEN Idle ELSE [phase |-> "cycle", res |-> Line, sums |-> NoSums, pt |-> <<>>, n |-> 0]
    /\ counts' = Bump(counts, "results") /\ l' = l + 1 /\ UNCHANGED <<sc, i, state>>

V == [k |-> sc.chx.vol, r |-> sc.regen.vol, l |-> sc.hhx.vol]

PointChecks(p) ==
    LET laws == run.res.laws
        drop == TotalDrop(p, [k |-> laws.chx.R, r |-> laws.regen.R, l |-> laws.hhx.R])
        k == p.j + 1
        \* the three drops can cancel
        size == NSum(<<NAbs(Drop(laws.chx.R, p.ck, p.kr, p.k.d)), NAbs(Drop(laws.regen.R, p.kr, p.rl, p.m.d)),
                       NAbs(Drop(laws.hhx.R, p.rl, p.le, p.l.d))>>)
        tol == ("1e-9" \otimes size) \oplus ("1e-12" \otimes p.P)
    IN  <<[p |-> "C16", w |-> "the compression space pressure is not half the drop above", ok |-> Within(p.Pc, p.P \oplus Half(drop), tol)],
          [p |-> "C16", w |-> "the expansion space pressure is not half the drop below", ok |-> Within(p.Pe, p.P \ominus Half(drop), tol)],
          [p |-> "C17", w |-> "the reported series are not those of the cycle",
           ok |-> /\ NEq(p.t, Last.t[k]) /\ NEq(p.P, Last.P[k]) /\ NEq(p.Tc, Last.Tc[k]) /\ NEq(p.Te, Last.Te[k])
                  /\ NEq(p.ck, Last.ck[k]) /\ NEq(p.kr, Last.kr[k]) /\ NEq(p.rl, Last.rl[k]) /\ NEq(p.le, Last.le[k])
                  /\ NEq(p.Qk, Last.Qk[k]) /\ NEq(p.Qr, Last.Qr[k]) /\ NEq(p.Ql, Last.Ql[k])]>>

Point ==
    /\ l <= Len(Trace) /\ Line.ev = "point" /\ sc.what = "step"
    /\ bad' = IF sc.faulty THEN bad ELSE Report(bad, i, PointChecks(Line))
    /\ run' = IF sc.faulty THEN run ELSE [run EXCEPT !.n = @ + 1, !.pt = Line,
                          !.sums = Accumulate(@, run.pt, Line, state.temp, run.res.laws.ws, V)]
    /\ counts' = Bump(counts, "points") /\ l' = l + 1 /\ UNCHANGED <<sc, i, state>>

(* the heats of the state may belong to other wall temperatures: only what    *)
(* follows from the cycle and the state is demanded                            *)
Figures == {"C07", "C16"}
EndChecks == SelectSeq(PerformanceChecks(sc, run.res, run.sums, run.pt), LAMBDA c : c.p \in Figures)

End ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ sc.what # "none"
    /\ bad' = Report(bad, i,
            (IF run.phase = "cycle" /\ run.n > 0 THEN EndChecks ELSE <<>>)
            \o <<[p |-> "C21", w |-> "a step panicked or did not return: " \o Line.msg, ok |-> Line.out = "ok"]>>)
    /\ sc' = None /\ run' = Idle /\ l' = l + 1 /\ UNCHANGED <<i, state>>
    /\ counts' = Bump(counts, "out:" \o Line.out)

Done ==
    /\ l = Len(Trace) + 1 /\ sc.what = "none"
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<sc, i, state, run, bad, counts>>

Next == Begin \/ Placed \/ Step \/ Result \/ Point \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
