------------------------------ MODULE TraceLaw ------------------------------
(***************************************************************************)
(* Recorded calls to single components and gases against their laws.       *)
(***************************************************************************)
EXTENDS TraceBase, Drive, Exchanger, Gas

VARIABLES l, sc, i, bad, known, counts
vars == <<l, sc, i, bad, known, counts>>
Line == Trace[l]
None == [what |-> "none"]

Init == l = 1 /\ sc = None /\ i = 0 /\ bad = <<>> /\ known = <<>> /\ counts = [none |-> 0]

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ sc.what = "none"
    /\ sc' = Line.sc /\ i' = Line.i /\ l' = l + 1
    /\ counts' = Bump(counts, Line.sc.what \o ":" \o
            (CASE Line.sc.what = "ws" -> Line.sc.ws.kind [] Line.sc.what = "fluid" -> Line.sc.fluid.kind
               [] OTHER -> Line.sc.comp \o " " \o Line.sc.hx.kind))
    /\ UNCHANGED <<bad, known>>

(* ---- drives ------------------------------------------------------------- *)
DriveChecks ==
    LET d == sc.ws
    IN  <<[p |-> "C09", w |-> "the frequency is not the configured one", ok |-> Close(Line.f, d.f, "1e-12")],
          [p |-> "C11", w |-> "a wall resistance is not the configured one",
           ok |-> Close(Line.Rc, d.Rc, "1e-12") /\ Close(Line.Re, d.Re, "1e-12")],
          [p |-> "C11", w |-> "a parasitic loss is not the configured one",
           ok |-> /\ Close(Line.Wc, d.Wc, "1e-12") /\ Close(Line.We, d.We, "1e-12")
                  /\ Close(Line.Qe, d.Qe, "1e-12") /\ Close(Line.Qc, Get(d, "Qc", 0), "1e-12")
                  /\ Close(Line.Elc, Get(d, "Elc", 0), "1e-12") /\ Close(Line.Ele, Get(d, "Ele", 0), "1e-12")]>>

Drive_ ==
    /\ l <= Len(Trace) /\ Line.ev = "drive"
    /\ bad' = Report(bad, i, DriveChecks) /\ l' = l + 1
    /\ UNCHANGED <<sc, i, known, counts>>

(* The scale of errors: the volume itself, the swept volume, and for the     *)
(* rhombic drive the cancelled lengths                                       *)
ScaleC(d) == IF d.kind = "sin" THEN d.vcc \oplus d.vsc
             ELSE d.vcc \oplus ((2 \otimes Area(d.Dp)) \otimes d.L)
ScaleE(d) == IF d.kind = "sin" THEN d.vce \oplus d.vse
             ELSE d.vce \oplus (Area(d.Dd) \otimes (2 \otimes d.L))

VolumeChecks ==
    LET d == sc.ws
        w == Omega(d)
        t == Line.t
        v == Volumes(d, t)
        A == Line.at U_ == Line.up D_ == Line.down N_ == Line.next
        sc_ == ScaleC(d) se == ScaleE(d)
        slope(u, dn) == (u \ominus dn) \oslash (2 \otimes sc.h)
        \* rounding of the angle grows with the number of periods
        turns == 1 \oplus NAbs(t \otimes d.f)
        eps == "1e-10" \otimes turns
        \* the rods of an extreme rhombic drive turn sharply: third derivatives up to this
        sharp == IF d.kind = "sin" THEN R(1)
                 ELSE LET b == RodHeight([d EXCEPT !.ecc = R(d.ecc)], 0) \oslash d.L
                      IN  1 \oslash NPow(b, 5)
        tol == (sharp \otimes "2e-7") \oplus ("1e-9" \otimes turns)
    IN
    <<[p |-> "C09", w |-> "the compression volume does not follow the kinematics", ok |-> Near(A.Vc, v.Vc, eps, sc_)],
      [p |-> "C09", w |-> "the expansion volume does not follow the kinematics", ok |-> Near(A.Ve, v.Ve, eps, se)],
      [p |-> "C09", w |-> "the rate of the compression volume does not follow the kinematics",
       ok |-> Near(A.dVc, v.dVc, eps \otimes sharp, sc_ \otimes w)],
      [p |-> "C09", w |-> "the rate of the expansion volume does not follow the kinematics",
       ok |-> Near(A.dVe, v.dVe, eps \otimes sharp, se \otimes w)],
      [p |-> "C09", w |-> "the compression rate is not the derivative of the volume",
       ok |-> Near(A.dVc, slope(U_.Vc, D_.Vc), tol, sc_ \otimes w)],
      [p |-> "C09", w |-> "the expansion rate is not the derivative of the volume",
       ok |-> Near(A.dVe, slope(U_.Ve, D_.Ve), tol, se \otimes w)],
      [p |-> "C09", w |-> "the volumes are not periodic",
       ok |-> Near(A.Vc, N_.Vc, eps, sc_) /\ Near(A.Ve, N_.Ve, eps, se)],
      [p |-> "C09", w |-> "the compression volume leaves its range",
       ok |-> /\ d.vcc \ominus (eps \otimes sc_) \preceq A.Vc
              /\ A.Vc \preceq NSum(<<d.vcc, SweptComp(d), eps \otimes sc_>>)],
      [p |-> "C09", w |-> "the expansion volume leaves its range",
       ok |-> /\ d.vce \ominus (eps \otimes se) \preceq A.Ve
              /\ A.Ve \preceq NSum(<<d.vce, SweptExp(d), eps \otimes se>>)]>>

Volumes_ ==
    /\ l <= Len(Trace) /\ Line.ev = "volumes"
    /\ bad' = Report(bad, i, VolumeChecks) /\ l' = l + 1
    /\ counts' = Bump(counts, "instants") /\ UNCHANGED <<sc, i, known>>

(* ---- gases -------------------------------------------------------------- *)
GasChecks ==
    LET g == sc.fluid.kind
        a == Line.at T == a.T P == a.P
        e == R(sc.e)
        RT == GasConstant(g) \otimes T
        dT(k) == Slope(Line.Tu[k], Line.Td[k], T, e)
        dP(k) == Slope(Line.Pu[k], Line.Pd[k], P, e)
        big == NMax(NAbs(a.h), NMax(NAbs(a.u), RT))   \* the differences cancel numbers of this size
        tolT == ("1e-10" \otimes (big \oslash (e \otimes T)))
        tolP == ("1e-10" \otimes (big \oslash (e \otimes P)))
    IN
    <<[p |-> "C10", w |-> "density does not obey the ideal gas law",
       ok |-> Close(a.d, Density(g, T, P), "1e-12")],
      [p |-> "C10", w |-> "dd_dP_T is not the derivative of density",
       ok |-> Near(a.g, dP("d"), "1e-8", a.d \oslash P)],
      [p |-> "C10", w |-> "dd_dT_P is not the derivative of density",
       ok |-> Near(a.r, dT("d"), "1e-8", a.d \oslash T)],
      [p |-> "C10", w |-> "du_dP_T is not the derivative of internal energy",
       ok |-> Within(a.up, dP("u"), tolP)],
      [p |-> "C10", w |-> "density does not grow with pressure and fall with temperature",
       ok |-> a.g \succ 0 /\ a.r \prec 0],
      [p |-> "C10", w |-> "a heat capacity is not positive", ok |-> a.cp \succ 0 /\ a.ut \succ 0],
      [p |-> "C10", w |-> "cp and du_dT_P do not differ by the gas constant",
       ok |-> Near(a.cp \ominus a.ut, GasConstant(g), "1e-10", a.cp)],
      [p |-> "C10", w |-> "enthalpy depends on pressure",
       ok |-> Within(Line.Pu.h, Line.Pd.h, "1e-12" \otimes big)],
      [p |-> "C10", w |-> "heat capacity is not a function of temperature only",
       ok |-> Close(Line.Pu.cp, Line.Pd.cp, "1e-12")]>>

(* The checks that a listed finding concerns: the deviation is either nil or  *)
(* exactly the listed one.                                                    *)
Deviations ==
    LET g == sc.fluid.kind
        a == Line.at T == a.T P == a.P
        e == R(sc.e)
        RT == GasConstant(g) \otimes T
        dT(k) == Slope(Line.Tu[k], Line.Td[k], T, e)
        big == NMax(NAbs(a.h), NMax(NAbs(a.u), RT))
        tolT == "1e-10" \otimes (big \oslash (e \otimes T))
        \* slope of the enthalpy as pinned, less the heat capacity
        slopeGap == Slope(EnthAsPinned(g, T \otimes (1 \oplus e)), EnthAsPinned(g, T \otimes (1 \ominus e)), T, e)
                        \ominus CpOf(g, T)
    IN
    <<[w |-> "enthalpy is not internal energy plus pressure over density",
       dev |-> (a.h \ominus a.u) \ominus (P \oslash a.d), tol |-> "1e-11" \otimes big,
       id |-> "ideal-gas-energy-reference", as |-> NNeg(GasConstant(g) \otimes RefTemp)],
      [w |-> "cp is not the derivative of enthalpy",
       dev |-> dT("h") \ominus a.cp, tol |-> tolT, id |-> "hydrogen-enthalpy-form", as |-> slopeGap],
      [w |-> "du_dT_P is not the derivative of internal energy",
       dev |-> dT("u") \ominus a.ut, tol |-> tolT, id |-> "hydrogen-enthalpy-form", as |-> slopeGap]>>

IsNil(d) == Within(d.dev, 0, d.tol)
IsListed(d) == ~IsNil(d) /\ Within(d.dev, d.as, d.tol)
Broken(ds) == SelectSeq(ds, LAMBDA d : ~IsNil(d) /\ ~IsListed(d))
Listed(ds) == SelectSeq(ds, IsListed)
NewKnown(ds) ==
    LET ls == Listed(ds)
        fresh == {k \in DOMAIN ls : ls[k].id \notin {known[j].w : j \in DOMAIN known}
                                    /\ \A m \in 1..(k - 1) : ls[m].id # ls[k].id}
    IN  SelectSeq([k \in DOMAIN ls |-> IF k \in fresh THEN [w |-> ls[k].id, i |-> i] ELSE [w |-> "", i |-> 0]],
                  LAMBDA x : x.w # "")

Props ==
    /\ l <= Len(Trace) /\ Line.ev = "props"
    /\ LET ds == IF On("C10") THEN Deviations ELSE <<>>
           wrong == Broken(ds)
       IN  /\ bad' = Report(Report(bad, i, GasChecks), i,
                            [k \in DOMAIN wrong |-> [p |-> "C10", w |-> wrong[k].w, ok |-> FALSE]])
           /\ known' = known \o NewKnown(ds)
    /\ counts' = Bump(counts, "states") /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

(* ---- exchangers --------------------------------------------------------- *)
LawOf(hx, s) ==
    IF hx.kind = "fa" THEN R(hx.DT)
    ELSE IF sc.comp = "regen" THEN RegenApproach(hx.UA, s, s.a, s.b)
    ELSE ConductanceApproach(hx.UA, s)

(* 1 - exp(-NTU) cancels when the conductance is small *)
LawRel(hx, s) == "1e-9" \oplus (IF hx.kind = "fa" \/ sc.comp = "regen" THEN R(0)
                                ELSE "1e-14" \otimes (CapacityFlow(s) \oslash hx.UA))
(* 1/effectiveness - 1 cancels when the effectiveness is close to one *)
LawScale(hx, s) ==
    IF hx.kind = "fa" THEN NAbs(hx.DT)
    ELSE IF sc.comp = "regen" THEN NAbs(s.b \ominus s.a) \otimes "1e-3"
    ELSE NAbs(s.Q \oslash CapacityFlow(s)) \otimes "1e-3"

HxChecks ==
    LET s == Line.state o == Line.out hx == sc.hx
    IN
    <<[p |-> "C18", w |-> "the approach does not obey the law",
       ok |-> Within(o.a, LawOf(hx, s), (LawRel(hx, s) \otimes NAbs(LawOf(hx, s))) \oplus ("1e-9" \otimes LawScale(hx, s)))],
      [p |-> "C18", w |-> "a fixed approach is not the initial approach",
       ok |-> hx.kind = "fa" => Close(o.init, hx.DT, "1e-12")],
      [p |-> "C18", w |-> "a larger conductance does not have a smaller approach",
       ok |-> hx.kind = "fc" => (NAbs(Line.more.a) \preceq NSum(<<NAbs(o.a), "1e-9" \otimes LawScale(hx, s),
                                                                     (2 \otimes LawRel(hx, s)) \otimes NAbs(o.a)>>))],
      [p |-> "C18", w |-> "the volume is not the configured one", ok |-> Close(o.vol, hx.vol, "1e-12")],
      [p |-> "C18", w |-> "the hydraulic resistance is not the configured one", ok |-> Close(o.R, hx.R_hyd, "1e-12")],
      [p |-> "C18", w |-> "the parasitics are not the configured ones",
       ok |-> Close(o.W, hx.W, "1e-12") /\ Close(o.Q, hx.Q, "1e-12") /\ Close(o.El, hx.El, "1e-12")]>>

Exchanger_ ==
    /\ l <= Len(Trace) /\ Line.ev = "exchanger"
    /\ bad' = Report(bad, i, HxChecks) /\ l' = l + 1
    /\ counts' = Bump(counts, "conditions") /\ UNCHANGED <<sc, i, known>>

(* ---- ends --------------------------------------------------------------- *)
End ==
    /\ l <= Len(Trace) /\ Line.ev = "end"
    /\ LET p == CASE sc.what = "ws" -> "C09" [] sc.what = "fluid" -> "C10" [] OTHER -> "C18"
       IN  bad' = Report(bad, i, <<[p |-> p, w |-> "the call " \o Line.out \o ": " \o Line.msg,
                                    ok |-> Line.out = "ok"]>>)
    /\ sc' = None /\ l' = l + 1 /\ UNCHANGED <<i, known, counts>>

Done ==
    /\ l = Len(Trace) + 1 /\ sc.what = "none"
    /\ Publish(bad, known, counts)
    /\ l' = l + 1 /\ UNCHANGED <<sc, i, bad, known, counts>>

Next == Begin \/ Drive_ \/ Volumes_ \/ Props \/ Exchanger_ \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
