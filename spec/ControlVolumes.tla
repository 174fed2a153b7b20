--------------------------- MODULE ControlVolumes ---------------------------
(***************************************************************************)
(* The five control volumes of the engine                                  *)
(*                                                                         *)
(*   compression | cold exchanger | regenerator | hot exchanger | expansion *)
(*        c     ck       k        kr     r     rl       l      le     e     *)
(*                                                                         *)
(* and the balances that tie their rates of change to the boundary flows.  *)
(* A point p of the cycle carries the conditions P, Tc, Te, the volumes,   *)
(* the properties of the gas in each space (p.c, p.k, p.m, p.l, p.e: d     *)
(* density, u internal energy, h enthalpy, g = dd/dP, r = dd/dT, up =      *)
(* du/dP, ut = du/dT), the enthalpies at the regenerator ends (hc, hh) and  *)
(* the flows.  V carries the exchanger volumes k, r, l and W the wall heat  *)
(* flows c and e (out of the gas).                                         *)
(***************************************************************************)
LOCAL INSTANCE Num

(* ---- rates implied by the flows ---------------------------------------- *)
Stiffness(p, V) ==
    ((V.k \otimes p.k.g) \oplus (V.r \otimes p.m.g)) \oplus (V.l \otimes p.l.g)

PressureRate(p, V) == (p.ck \ominus p.le) \oslash Stiffness(p, V)

CompTempRate(p, dP) ==
    NNeg(((p.c.d \otimes p.dVc) \oplus p.ck) \oplus ((p.Vc \otimes p.c.g) \otimes dP))
        \oslash (p.Vc \otimes p.c.r)

ExpTempRate(p, dP) ==
    (p.le \ominus ((p.e.d \otimes p.dVe) \oplus ((p.Ve \otimes p.e.g) \otimes dP)))
        \oslash (p.Ve \otimes p.e.r)

Rates(p, V) ==
    LET dP == PressureRate(p, V)
    IN  [P |-> dP, Tc |-> CompTempRate(p, dP), Te |-> ExpTempRate(p, dP)]

(* ---- mass -------------------------------------------------------------- *)
FlowScale(p) == NSum(<<NAbs(p.ck), NAbs(p.kr), NAbs(p.rl), NAbs(p.le),
                       NAbs(p.c.d \otimes p.dVc), NAbs(p.e.d \otimes p.dVe)>>)

(* mass balances of the three exchangers with one common pressure rate: the  *)
(* largest amount by which they disagree                                     *)
MassDefect(p, V) ==
    LET dP == PressureRate(p, V)
        k  == NAbs((p.ck \ominus p.kr) \ominus ((V.k \otimes p.k.g) \otimes dP))
        r  == NAbs((p.kr \ominus p.rl) \ominus ((V.r \otimes p.m.g) \otimes dP))
        l  == NAbs((p.rl \ominus p.le) \ominus ((V.l \otimes p.l.g) \otimes dP))
    IN  NMax(k, NMax(r, l))

TotalMass(p, V) ==
    NSum(<<p.c.d \otimes p.Vc, p.k.d \otimes V.k, p.m.d \otimes V.r,
           p.l.d \otimes V.l, p.e.d \otimes p.Ve>>)

(* ---- upwind enthalpies ------------------------------------------------- *)
Upwind(m, left, right) == IF m \succeq 0 THEN R(left) ELSE R(right)
EnthCK(p) == Upwind(p.ck, p.c.h, p.k.h)
EnthKR(p) == Upwind(p.kr, p.k.h, p.hc)
EnthRL(p) == Upwind(p.rl, p.hh, p.l.h)
EnthLE(p) == Upwind(p.le, p.l.h, p.e.h)

(* ---- energy ------------------------------------------------------------ *)
(* d(d*u*V)/dt of a space at constant volume and temperature, per dP/dt *)
StorePerP(q, V) == V \otimes ((q.d \otimes q.up) \oplus (q.u \otimes q.g))
StorePerT(q, V) == V \otimes ((q.d \otimes q.ut) \oplus (q.u \otimes q.r))

Terms(ts) == [sum |-> NSum(ts), mag |-> NSum([i \in DOMAIN ts |-> NAbs(ts[i])])]

CompEnergy(p, y, W) ==
    Terms(<<StorePerT(p.c, p.Vc) \otimes y.Tc,
            StorePerP(p.c, p.Vc) \otimes y.P,
            (p.c.d \otimes p.c.u) \otimes p.dVc,
            p.P \otimes p.dVc,
            R(W.c),
            p.ck \otimes EnthCK(p)>>)

ExpEnergy(p, y, W) ==
    Terms(<<StorePerT(p.e, p.Ve) \otimes y.Te,
            StorePerP(p.e, p.Ve) \otimes y.P,
            (p.e.d \otimes p.e.u) \otimes p.dVe,
            p.P \otimes p.dVe,
            R(W.e),
            NNeg(p.le \otimes EnthLE(p))>>)

ColdEnergy(p, y, V) ==
    Terms(<<StorePerP(p.k, V.k) \otimes y.P, NNeg(p.ck \otimes EnthCK(p)),
            p.kr \otimes EnthKR(p), R(p.Qk)>>)

RegenEnergy(p, y, V) ==
    Terms(<<StorePerP(p.m, V.r) \otimes y.P, NNeg(p.kr \otimes EnthKR(p)),
            p.rl \otimes EnthRL(p), R(p.Qr)>>)

HotEnergy(p, y, V) ==
    Terms(<<StorePerP(p.l, V.l) \otimes y.P, NNeg(p.rl \otimes EnthRL(p)),
            p.le \otimes EnthLE(p), NNeg(p.Ql)>>)

(* |sum| small compared with the terms it is the sum of *)
Balanced(terms, rel) == NAbs(terms.sum) \preceq (rel \otimes terms.mag)

TotalEnergy(p, V) ==
    NSum(<<(p.c.d \otimes p.c.u) \otimes p.Vc, (p.k.d \otimes p.k.u) \otimes V.k,
           (p.m.d \otimes p.m.u) \otimes V.r, (p.l.d \otimes p.l.u) \otimes V.l,
           (p.e.d \otimes p.e.u) \otimes p.Ve>>)

(* ---- pressure drops ---------------------------------------------------- *)
Drop(resist, m1, m2, dens) == resist \otimes (Half(m1 \oplus m2) \oslash dens)

TotalDrop(p, res) ==
    NSum(<<Drop(res.k, p.ck, p.kr, p.k.d), Drop(res.r, p.kr, p.rl, p.m.d),
           Drop(res.l, p.rl, p.le, p.l.d)>>)
=============================================================================
