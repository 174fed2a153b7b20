---------------------------- MODULE Performance ----------------------------
(***************************************************************************)
(* Averages, powers, heats and the first law, from the reported series.    *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE ControlVolumes
LOCAL INSTANCE Sequences

(* integrals over the cycle (trapezoidal rule) and extremes *)
NoSums == [P |-> R(0), k |-> R(0), r |-> R(0), l |-> R(0),
           Qk |-> R(0), Qr |-> R(0), Ql |-> R(0), Qc |-> R(0), Qe |-> R(0),
           ind |-> R(0), ideal |-> R(0),
           max |-> NNeg(Inf), min |-> Inf, amp |-> R(0),
           defect |-> R(0), E0 |-> R(0), E |-> R(0)]

Trap(acc, a, b, h) == acc \oplus (Half(a \oplus b) \otimes h)

Through(p, m1, m2) == NAbs(Half(p[m1] \oplus p[m2]))

(* internal energy that the gas of a space gains between two points, less    *)
(* what its reported derivatives account for (zero for a consistent fluid)   *)
Defect(Va, qa, Ta, Pa, Vb, qb, Tb, Pb) ==
    Half((Va \otimes qa.d) \oplus (Vb \otimes qb.d)) \otimes
    ((qb.u \ominus qa.u)
       \ominus ((Half(qa.ut \oplus qb.ut) \otimes (Tb \ominus Ta))
                 \oplus (Half(qa.up \oplus qb.up) \otimes (Pb \ominus Pa))))

Accumulate(s, a, p, temp, ws, V) ==
    LET first == a = <<>>
        q   == IF first THEN p ELSE a
        h   == IF first THEN R(0) ELSE p.t \ominus a.t
        qc(z) == (z.Tc \ominus temp.chx) \oslash ws.Rc
        qe(z) == (temp.hhx \ominus z.Te) \oslash ws.Re
        w(z)  == (z.Pc \otimes z.dVc) \oplus (z.Pe \otimes z.dVe)
        w0(z) == z.P \otimes (z.dVc \oplus z.dVe)
    IN  [P  |-> Trap(s.P, q.P, p.P, h),
         k  |-> Trap(s.k, Through(q, "ck", "kr"), Through(p, "ck", "kr"), h),
         r  |-> Trap(s.r, Through(q, "kr", "rl"), Through(p, "kr", "rl"), h),
         l  |-> Trap(s.l, Through(q, "rl", "le"), Through(p, "rl", "le"), h),
         Qk |-> Trap(s.Qk, q.Qk, p.Qk, h),
         Qr |-> Trap(s.Qr, q.Qr, p.Qr, h),
         Ql |-> Trap(s.Ql, q.Ql, p.Ql, h),
         Qc |-> Trap(s.Qc, qc(q), qc(p), h),
         Qe |-> Trap(s.Qe, qe(q), qe(p), h),
         ind   |-> Trap(s.ind, w(q), w(p), h),
         ideal |-> Trap(s.ideal, w0(q), w0(p), h),
         max |-> NMax(s.max, p.P), min |-> NMin(s.min, p.P),
         amp |-> NMax(s.amp, NSum(<<NAbs(p.Qr), NAbs(p.Qk), NAbs(p.Ql)>>)),
         defect |-> s.defect \oplus
              (Defect(q.Vc, q.c, q.Tc, q.P, p.Vc, p.c, p.Tc, p.P) \oplus
               Defect(q.Ve, q.e, q.Te, q.P, p.Ve, p.e, p.Te, p.P)),
         E0 |-> IF first THEN TotalEnergy(p, V) ELSE s.E0,
         E  |-> TotalEnergy(p, V)]

Same(a, b, scale) == Within(a, b, ("1e-8" \otimes NAbs(scale)) \oplus "1e-12")

PerformanceChecks(sc, res, s, last) ==
    LET T    == last.t
        f    == sc.ws.f
        lw   == res.laws
        avg(x) == x \oslash T
        Qin  == avg(s.Ql) \oplus avg(s.Qe)
        Qout == avg(s.Qk) \oplus avg(s.Qc)
        heat == NSum(<<NAbs(avg(s.Ql)), NAbs(avg(s.Qe)), NAbs(avg(s.Qk)), NAbs(avg(s.Qc)), avg(s.amp \otimes T)>>)
        work == NMax(NMax(NAbs(s.ideal), NAbs(s.ind)) \otimes f, s.max \otimes (f \otimes "1e-6"))
        ideal == s.ideal \otimes f
        ind   == s.ind \otimes f
        Wmech == lw.ws.c.W \oplus lw.ws.e.W
        ext   == NSum(<<lw.hhx.par.Q, lw.regen.par.Q, lw.ws.e.Q>>)
        shaft == ind \ominus Wmech
        input == Qin \oplus ext
        rej   == NSum(<<Qout, ideal \ominus ind, Wmech, ext>>)
        aext  == NSum(<<NAbs(lw.hhx.par.Q), NAbs(lw.regen.par.Q), NAbs(lw.ws.e.Q)>>)
        amech == NAbs(lw.ws.c.W) \oplus NAbs(lw.ws.e.W)
        flow  == NMax(s.k, NMax(s.r, s.l)) \oslash T
    IN
    <<[p |-> "C04", w |-> "average pressure", ok |-> Close(res.pres.avg, avg(s.P), "1e-9")],
      [p |-> "C04", w |-> "maximum pressure", ok |-> Close(res.pres.max, s.max, "1e-12")],
      [p |-> "C04", w |-> "minimum pressure", ok |-> Close(res.pres.min, s.min, "1e-12")],
      [p |-> "C04", w |-> "pressure at time zero", ok |-> Close(res.pres.zero, res.first.P, "1e-12")],
      [p |-> "C04", w |-> "average mass flow of the cold exchanger", ok |-> Same(res.mass.chx, avg(s.k), flow)],
      [p |-> "C04", w |-> "average mass flow of the regenerator", ok |-> Same(res.mass.regen, avg(s.r), flow)],
      [p |-> "C04", w |-> "average mass flow of the hot exchanger", ok |-> Same(res.mass.hhx, avg(s.l), flow)],
      [p |-> "C04", w |-> "average heat flow of the cold exchanger", ok |-> Same(res.heat.chx, Qout, heat)],
      [p |-> "C04", w |-> "average heat flow of the regenerator", ok |-> Same(res.heat.regen, avg(s.Qr), heat)],
      [p |-> "C04", w |-> "average heat flow of the hot exchanger", ok |-> Same(res.heat.hhx, Qin, heat)],
      [p |-> "C07", w |-> "indicated power is not the cycle work at the reported pressures", ok |-> Same(res.power.ind, ind, work)],
      [p |-> "C07", w |-> "ideal indicated power is not the cycle work without pressure drops", ok |-> Same(res.power.ideal, ideal, work)],
      [p |-> "C07", w |-> "shaft power", ok |-> Same(res.power.shaft, shaft, work \oplus amech)],
      [p |-> "C07", w |-> "net power",
       ok |-> Same(res.power.net, shaft \ominus (lw.chx.par.W \oplus lw.hhx.par.W),
                   NSum(<<work, amech, NAbs(lw.chx.par.W), NAbs(lw.hhx.par.W)>>))],
      [p |-> "C07", w |-> "torque is not shaft power over angular speed",
       ok |-> Close(res.torque, res.power.shaft \oslash (2 \otimes (Pi \otimes f)), "1e-9")],
      [p |-> "C07", w |-> "efficiency is not net power over heat input",
       ok |-> Close(res.eff, res.power.net \oslash res.heat.input, "1e-9")],
      [p |-> "C07", w |-> "heat input", ok |-> Same(res.heat.input, input, heat \oplus aext)],
      [p |-> "C07", w |-> "heat rejection", ok |-> Same(res.heat.rej, rej, NSum(<<heat, aext, amech, work>>))],
      [p |-> "C16", w |-> "without hydraulic resistance the indicated and ideal powers differ",
       ok |-> (NEq(lw.chx.R, 0) /\ NEq(lw.regen.R, 0) /\ NEq(lw.hhx.R, 0))
                => Within(res.power.ind, res.power.ideal, "1e-9" \otimes work)]>>

(* The first law holds for a cycle of the engine, not for arbitrary series   *)
FirstLawChecks(res, s, last) ==
    LET avg(x) == x \oslash last.t
        heat == NSum(<<NAbs(avg(s.Ql)), NAbs(avg(s.Qe)), NAbs(avg(s.Qk)), NAbs(avg(s.Qc)), s.amp>>)
        stored == avg(s.Qr) \oplus avg((s.E \ominus s.E0) \ominus s.defect)
    IN
    <<[p |-> "C07", w |-> "first law: heat input less rejection is not shaft power plus stored heat",
       ok |-> Within(res.heat.input \ominus res.heat.rej, res.power.shaft \oplus stored,
                     "3e-4" \otimes (heat \oplus s.amp))]>>
=============================================================================
