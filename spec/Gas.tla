-------------------------------- MODULE Gas --------------------------------
(***************************************************************************)
(* Working fluids: what a gas has to satisfy, the two gases of the         *)
(* library, and the synthetic fluids used to drive it.                     *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals

(* ---- the two built-in gases ------------------------------------------- *)
GasConstant(name) == IF name = "helium" THEN R("2077.23") ELSE R("4124.2")

(* isobaric heat capacity, a polynomial in temperature (J/kg/K) *)
CpCoefs(name) ==
    IF name = "helium"
    THEN <<"5193.17", 0, 0, 0, 0, 0>>
    ELSE <<"12471.4839", "13.3194432", "-0.0347782806", "4.31784838e-5",
           "-2.42883335e-8", "5.14289838e-12">>

RefTemp == R(250)

Poly(a, x) ==
    (((((((((a[6] \otimes x) \oplus a[5]) \otimes x) \oplus a[4]) \otimes x)
        \oplus a[3]) \otimes x) \oplus a[2]) \otimes x) \oplus a[1]

CpOf(name, T) == Poly(CpCoefs(name), T)

(* derivative of the heat capacity polynomial weighted as enthalpy needs it:
   sum of k/(k+1) c_k T^(k-1) *)
EnthSlopeOf(name, T) ==
    LET c == CpCoefs(name)
        w == [k \in 1..6 |-> IF k = 6 THEN R(0)
                             ELSE (k \oslash (k + 1)) \otimes c[k + 1]]
    IN  Poly(w, T)

(* integral of the heat capacity from the reference temperature *)
EnthIntegral(name, T) ==
    LET c == CpCoefs(name)
        w == [k \in 1..6 |-> c[k] \oslash k]
    IN  (Poly(w, T) \otimes T) \ominus (Poly(w, RefTemp) \otimes RefTemp)

(* enthalpy as the library's tests pin it: (T - Tref) times the integrated
   polynomial.  Equal to EnthIntegral when the heat capacity is constant *)
EnthAsPinned(name, T) ==
    LET c == CpCoefs(name)
        w == [k \in 1..6 |-> c[k] \oslash k]
    IN  Poly(w, T) \otimes (T \ominus RefTemp)

Density(name, T, P) == P \oslash (GasConstant(name) \otimes T)

(* ---- laws every fluid has to satisfy ---------------------------------- *)
(* q: the reported properties at (T, P); qTp, qTm, qPp, qPm: at T*(1+e),   *)
(* T*(1-e), P*(1+e), P*(1-e).  Central differences are accurate to about   *)
(* e^2, and rounding contributes about 1e-16/e.                            *)
Slope(up, down, x, e) == (up \ominus down) \oslash (2 \otimes (e \otimes x))
=============================================================================
