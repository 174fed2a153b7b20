------------------------------ MODULE TraceCfg ------------------------------
(***************************************************************************)
(* Recorded readings of configuration documents against their meaning      *)
(* (module Documents), and against the laws of the components (modules     *)
(* Drive and Exchanger) that they describe.                                *)
(***************************************************************************)
EXTENDS TraceBase, Drive, Exchanger

VARIABLES l, sc, i, bad, counts
vars == <<l, sc, i, bad, counts>>
Line == Trace[l]
None == [what |-> "none"]

Init == l = 1 /\ sc = None /\ i = 0 /\ bad = <<>> /\ counts = [none |-> 0]

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ sc.what = "none"
    /\ sc' = Line.sc /\ i' = Line.i /\ l' = l + 1
    /\ counts' = Bump(counts, IF Line.sc.what = "damaged" THEN Line.sc.kind \o ":" \o Line.sc.edit ELSE Line.sc.what)
    /\ UNCHANGED bad

(* which property a complete document of this kind speaks about *)
Meaning == IF sc.what = "legacy" THEN "C12" ELSE "C11"

RECURSIVE Dots(_)
Dots(p) == IF p = <<>> THEN "" ELSE "." \o Head(p) \o Dots(Tail(p))

ReadChecks ==
    IF sc.what = "damaged"
    THEN <<[p |-> "C13", w |-> "a " \o Line.format \o " document is accepted after this change: " \o sc.edit
                               \o " at " \o Dots(sc.path) \o " (" \o sc.kind \o ")",
            ok |-> Line.out # "ok"]>>
    ELSE <<[p |-> Meaning, w |-> "a complete " \o Line.format \o " document is not accepted", ok |-> Line.out = "ok"]>>
         \o (IF sc.what = "legacy"
             THEN <<[p |-> "C12", w |-> "a legacy document is not read as its modern equivalent",
                     ok |-> Line.modern = "ok" /\ Line.same]>>
             ELSE <<>>)

Read ==
    /\ l <= Len(Trace) /\ Line.ev = "read"
    /\ bad' = Report(bad, i, ReadChecks)
    /\ counts' = Bump(counts, "read:" \o Line.format \o ":" \o Line.out) /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

(* ---- what was built ------------------------------------------------------- *)
Same(a, b) == Close(a, b, "1e-12")

LawOf(comp, hx, s) ==
    IF hx.kind = "fa" THEN R(hx.DT)
    ELSE IF comp = "regen" THEN RegenApproach(hx.UA, s, s.a, s.b)
    ELSE ConductanceApproach(hx.UA, s)
LawScale(comp, hx, s) ==
    IF hx.kind = "fa" THEN R(0)
    ELSE IF comp = "regen" THEN NAbs(s.b \ominus s.a) \otimes "1e-3"
    ELSE NAbs(s.Q \oslash CapacityFlow(s)) \otimes "1e-3"

ExchangerChecks(comp) ==
    LET hx == sc.engine[comp] s == sc.states[comp] o == Line.b.c[comp]
        law == LawOf(comp, hx, s)
    IN  <<[p |-> Meaning, w |-> "the volume of the " \o comp \o " is not the configured one", ok |-> Same(o.vol, hx.vol)],
          [p |-> Meaning, w |-> "the resistance of the " \o comp \o " is not the configured one", ok |-> Same(o.R, hx.R_hyd)],
          [p |-> Meaning, w |-> "the parasitics of the " \o comp \o " are not the configured ones",
           ok |-> Same(o.W, hx.W) /\ Same(o.Q, hx.Q) /\ Same(o.El, hx.El)],
          [p |-> Meaning, w |-> "the approach of the " \o comp \o " is not the configured one",
           ok |-> Within(o.a, law, "1e-9" \otimes (NAbs(law) \oplus LawScale(comp, hx, s)))],
          [p |-> Meaning, w |-> "the initial approach of the " \o comp \o " is not the configured one",
           ok |-> hx.kind = "fa" => Same(o.init, hx.DT)]>>

VolumeChecks(d, v) ==
    LET x == Volumes(d, v.t)
        sc_ == IF d.kind = "sin" THEN d.vcc \oplus d.vsc ELSE d.vcc \oplus ((2 \otimes Area(d.Dp)) \otimes d.L)
        se == IF d.kind = "sin" THEN d.vce \oplus d.vse ELSE d.vce \oplus (Area(d.Dd) \otimes (2 \otimes d.L))
    IN  <<[p |-> Meaning, w |-> "the volumes are not those of the configured drive",
           ok |-> /\ Near(v.Vc, x.Vc, "1e-9", sc_) /\ Near(v.Ve, x.Ve, "1e-9", se)
                  /\ Near(v.dVc, x.dVc, "1e-9", sc_ \otimes Omega(d)) /\ Near(v.dVe, x.dVe, "1e-9", se \otimes Omega(d))]>>

RECURSIVE AllVolumes(_, _, _)
AllVolumes(d, vs, k) == IF k = 0 THEN <<>> ELSE AllVolumes(d, vs, k - 1) \o VolumeChecks(d, vs[k])

BuiltChecks ==
    LET d == sc.engine.ws o == Line.b.c.ws s == Line.b.s
        set(k) == Same(s[k], sc.engine.set[k])
    IN  ExchangerChecks("chx") \o ExchangerChecks("hhx") \o ExchangerChecks("regen")
        \o <<[p |-> Meaning, w |-> "the frequency is not the configured one", ok |-> Same(o.f, d.f)],
             [p |-> Meaning, w |-> "a wall resistance is not the configured one", ok |-> Same(o.Rc, d.Rc) /\ Same(o.Re, d.Re)],
             [p |-> Meaning, w |-> "a parasitic loss of the working spaces is not the configured one",
              ok |-> /\ Same(o.Wc, d.Wc) /\ Same(o.We, d.We) /\ Same(o.Qe, d.Qe)
                     /\ NEq(o.Qc, 0) /\ NEq(o.Elc, 0) /\ NEq(o.Ele, 0)],
             [p |-> Meaning, w |-> "a tolerance is not the configured one",
              ok |-> \A k \in {"iabs", "irel", "oabs", "orel", "dabs", "drel"} : set(k)],
             [p |-> Meaning, w |-> "the resolution is not the configured one", ok |-> set("n")],
             [p |-> Meaning, w |-> "an iteration limit is not the configured one", ok |-> set("imax") /\ set("omax")],
             [p |-> Meaning, w |-> "an input is not the configured one",
              ok |-> \A k \in {"p", "ts", "th"} : Same(s[k], sc.engine.in[k])],
             [p |-> Meaning, w |-> "the gas is not the configured one", ok |-> Line.b.gas = sc.engine.fluid.kind]>>
        \o AllVolumes(d, Line.b.c.volumes, Len(Line.b.c.volumes))

Built ==
    /\ l <= Len(Trace) /\ Line.ev = "built"
    /\ bad' = IF Line.ok THEN Report(bad, i, BuiltChecks)
              ELSE Report(bad, i, <<[p |-> Meaning, w |-> "the configured engine cannot be built", ok |-> FALSE]>>)
    /\ counts' = Bump(counts, "built") /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

(* ---- what was run ---------------------------------------------------------- *)
RECURSIVE Largest(_, _, _)
Largest(s, k, m) == IF k = 0 THEN m ELSE Largest(s, k - 1, NMax(m, NAbs(s[k])))
Alike(x, y) ==
    /\ Len(x) = Len(y)
    /\ LET scale == Largest(x, Len(x), R(0))
       IN  \A k \in DOMAIN x : Near(x[k], y[k], "1e-6", scale)

AlikeRuns(x, y) == x.out = "ok" /\ y.out = "ok" => \A k \in DOMAIN x.fig : Alike(y.fig[k], x.fig[k])
(* The formats' readers may differ by a rounding error in a number. A run that *)
(* ends differently, or elsewhere, for such a difference demands nothing.       *)
Determined == \A k \in DOMAIN Line.nearby : /\ Line.nearby[k].out = Line.hand.out
                                             /\ AlikeRuns(Line.nearby[k], Line.hand)

Ran ==
    /\ l <= Len(Trace) /\ Line.ev = "ran"
    /\ bad' = Report(bad, i,
            <<[p |-> Meaning, w |-> "running the configuration ends differently from running that engine",
               ok |-> Determined => Line.api.out = Line.hand.out],
              [p |-> Meaning, w |-> "running the configuration gives other results than running that engine",
               ok |-> Determined => AlikeRuns(Line.api, Line.hand)]>>)
    /\ counts' = Bump(counts, "ran:" \o Line.api.out \o (IF Determined THEN "" ELSE " (undetermined)"))
    /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

(* the figures printed about a configuration are, in the end, those of its results *)
Ends(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

\* and a list of numbers with the name of one of them is that one
Listed(s, t) == \A j \in DOMAIN s : \A k \in DOMAIN t : s[j][1] = t[k][1] => s[j][2] = t[k][2]

PrintedChecks ==
    IF sc.what = "unsupported"
    THEN <<[p |-> "C13", w |-> "a configuration that is not implemented has its results printed",
            ok |-> Line.out # "ok" /\ Line.printed = <<>>]>>
    ELSE <<[p |-> Meaning, w |-> "running a configuration to print it ends differently",
            ok |-> (Line.out = "ok") = (Line.api = "ok")],
           [p |-> Meaning, w |-> "the results printed for a configuration are not those of its engine",
            ok |-> Line.out = "ok" /\ Line.api = "ok" => Ends(Line.printed, Line.figures) /\ Listed(Line.lists, Line.known)]>>

Printed ==
    /\ l <= Len(Trace) /\ Line.ev = "printed"
    /\ bad' = Report(bad, i, PrintedChecks)
    /\ counts' = Bump(counts, "printed:" \o Line.out) /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

Tried ==
    /\ l <= Len(Trace) /\ Line.ev = "tried"
    /\ bad' = Report(bad, i, <<[p |-> "C13", w |-> "a configuration that is not implemented yields results",
                                ok |-> Line.ran # "ok"]>>)
    /\ counts' = Bump(counts, "tried:" \o Line.out \o ":" \o Line.ran) /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

Default_ ==
    /\ l <= Len(Trace) /\ Line.ev = "default"
    /\ bad' = Report(bad, i,
            <<[p |-> "C11", w |-> "the default configuration of " \o Line.name \o " is not the default component",
               ok |-> \A k \in DOMAIN Line.conf : IF k = "ev" THEN TRUE ELSE Same(Line.conf[k], Line.comp[k])]>>)
    /\ counts' = Bump(counts, "default:" \o Line.name) /\ l' = l + 1 /\ UNCHANGED <<sc, i>>

End ==
    /\ l <= Len(Trace) /\ Line.ev = "end"
    /\ LET p == CASE sc.what \in {"damaged", "unsupported"} -> "C13" [] OTHER -> Meaning
       IN  bad' = Report(bad, i, <<[p |-> p, w |-> "the call " \o Line.out \o ": " \o Line.msg, ok |-> Line.out = "ok"]>>)
    /\ sc' = None /\ l' = l + 1 /\ UNCHANGED <<i, counts>>

Done ==
    /\ l = Len(Trace) + 1 /\ sc.what = "none"
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<sc, i, bad, counts>>

Next == Begin \/ Read \/ Built \/ Ran \/ Printed \/ Tried \/ Default_ \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
