------------------------------ MODULE IterModel ------------------------------
(***************************************************************************)
(* Engines whose iterations can be foretold: scripted component laws (maps *)
(* between approaches, contractions towards one) and a scripted gas whose   *)
(* working space temperatures relax exponentially over a pass.             *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Exchanger
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* ---- component laws ---------------------------------------------------- *)
First(law) == R(law.init)

NextOf(law, a) ==
    IF law.law = "map"
    THEN LET i == CHOOSE k \in DOMAIN law.lv : NEq(law.lv[k], a) IN R(law.lv[law.f[i]])
    ELSE law.star \oplus (law.q \otimes (a \ominus law.star))

StartOf(sc) == [chx |-> First(sc.chx), regen |-> First(sc.regen), hhx |-> First(sc.hhx)]
AskOf(sc, a) == [chx |-> NextOf(sc.chx, a.chx), regen |-> NextOf(sc.regen, a.regen),
                 hhx |-> NextOf(sc.hhx, a.hhx)]

TempsOf(sc, a) == Place(sc.in.ts, sc.in.th, a, 0)

(* do approaches a and b place all temperatures within tolerance of each    *)
(* other?  (slack scales both tolerances)                                   *)
AgreeOf(sc, a, b, slack) ==
    LET S == TempsOf(sc, a) T == TempsOf(sc, b)
    IN  \A k \in {"chx", "hhx", "cold", "avg", "hot"} :
            Settled(S[k], T[k], sc.set.oabs \otimes slack, sc.set.orel \otimes slack)

(* ---- the cycle --------------------------------------------------------- *)
(* Gas is pushed from the expansion to the compression space at a constant  *)
(* volume rate d (the volumes stay the same), with constant density.  Each  *)
(* space then relaxes towards a temperature at a rate:                      *)
Relax(sc, a) ==
    LET fl == sc.fluid
        pv == sc.in.p \oslash fl.rho
        Tk == sc.in.ts \oplus a.chx
        d  == IF "dc" \in DOMAIN sc.ws THEN R(sc.ws.dc) ELSE R(0)
        tau == 1 \oslash sc.ws.f
        Vc == sc.ws.comp[1][1] Ve == sc.ws.exp[1][1]
        gap == fl.kappa \ominus fl.cv
    IN  [c  |-> [to |-> ((fl.kappa \otimes Tk) \ominus pv) \oslash fl.cv,
                 by |-> NExp(NNeg((d \otimes tau) \oslash Vc)), from |-> Tk],
         e  |-> [to |-> pv \oslash gap,
                 by |-> NExp(NNeg(((d \otimes tau) \otimes gap) \oslash (Ve \otimes fl.cv))),
                 from |-> sc.in.th \ominus a.hhx],
         still |-> NEq(d, 0)]

After(r, T) == IF r.by = R(1) THEN T ELSE r.to \oplus (r.by \otimes (T \ominus r.to))

(* the first pass that reproduces its initial temperatures, 0 if none of the *)
(* first `limit` does                                                        *)
RECURSIVE PassFrom(_, _, _, _, _, _, _)
PassFrom(set, r, Tc, Te, k, limit, slack) ==
    IF k > limit THEN 0
    ELSE LET c == After(r.c, Tc) e == After(r.e, Te)
             ab == set.iabs \otimes slack re == set.irel \otimes slack
         IN  IF Settled(Tc, c, ab, re) /\ Settled(Te, e, ab, re) THEN k
             ELSE PassFrom(set, r, c, e, k + 1, limit, slack)

PassesOf(sc, a, limit, slack) ==
    LET r == Relax(sc, a)
    IN  IF r.still THEN (IF 0 \prec sc.set.iabs /\ 0 \prec sc.set.irel THEN 1 ELSE 0)
        ELSE PassFrom(sc.set, r, r.c.from, r.e.from, 1, limit, slack)

(* ---- how many iterations an engine needs (0: more than limit) ----------- *)
RECURSIVE OuterFrom(_, _, _, _)
OuterFrom(sc, a, k, limit) ==
    IF k > limit THEN 0
    ELSE LET b == AskOf(sc, a)
         IN  IF AgreeOf(sc, a, b, 1) THEN k ELSE OuterFrom(sc, b, k + 1, limit)
OuterNeeded(sc, limit) == OuterFrom(sc, StartOf(sc), 1, limit)
=============================================================================
