-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers for TLC, as IEEE-754 doubles.                              *)
(*                                                                         *)
(* TLC has 32-bit integers only, while the state of the engine model is    *)
(* numeric.  The operators below are evaluated by java/NumImpl.java.  An   *)
(* operand may be a number produced by one of these operators, a TLA+      *)
(* integer, or a decimal string such as "1e-9" (which is how numbers are   *)
(* written in traces and scenarios).                                       *)
(***************************************************************************)
LOCAL INSTANCE Naturals

Undefined == CHOOSE x : x \notin {}

R(a)          == Undefined   \* the number a
NAdd(a, b)    == Undefined
NSub(a, b)    == Undefined
NMul(a, b)    == Undefined
NDiv(a, b)    == Undefined
NNeg(a)       == Undefined
NAbs(a)       == Undefined
NSqrt(a)      == Undefined
NSin(a)       == Undefined
NCos(a)       == Undefined
NExp(a)       == Undefined
NExpM1(a)     == Undefined
NLn(a)        == Undefined
NPow(a, b)    == Undefined
NMax(a, b)    == Undefined
NMin(a, b)    == Undefined
NLt(a, b)     == Undefined
NLe(a, b)     == Undefined
NEq(a, b)     == Undefined
NFinite(a)    == Undefined
NIsNaN(a)     == Undefined
NStr(a)       == Undefined   \* as a decimal string
NRound(a)     == Undefined   \* as a TLA+ integer
NSum(s)       == Undefined   \* sum of a sequence
NUniform(seed, index, tag) == Undefined  \* in [0, 1), a function of its arguments

a \oplus b  == NAdd(a, b)
a \ominus b == NSub(a, b)
a \otimes b == NMul(a, b)
a \oslash b == NDiv(a, b)
a \prec b   == NLt(a, b)
a \preceq b == NLe(a, b)
a \succ b   == NLt(b, a)
a \succeq b == NLe(b, a)

Sq(a) == NMul(a, a)
Half(a) == NMul("0.5", a)
Pi == R("3.141592653589793")
Inf == R("Infinity")

(* |a - b| <= tol, false if either is not a number *)
Within(a, b, tol) == NAbs(a \ominus b) \preceq tol

(* a = b up to rel times the given scale (or exactly equal, e.g. infinite) *)
Near(a, b, rel, scale) == NEq(a, b) \/ Within(a, b, rel \otimes scale)

(* a = b up to rel times the larger of the two *)
Close(a, b, rel) == Near(a, b, rel, NMax(NAbs(a), NAbs(b)))

(* between a and b, whichever is larger (up to rounding) *)
Between(x, a, b) == /\ (NMin(a, b) \otimes "0.999999999999") \preceq x
                    /\ x \preceq (NMax(a, b) \otimes "1.000000000001")

(* a number in [lo, hi), uniform *)
Uni(seed, i, tag, lo, hi) == lo \oplus (NUniform(seed, i, tag) \otimes (hi \ominus lo))

(* a number in [lo, hi), log-uniform *)
LogUni(seed, i, tag, lo, hi) ==
    lo \otimes NExp(NUniform(seed, i, tag) \otimes NLn(hi \oslash lo))

(* one of the elements of sequence s *)
Pick(seed, i, tag, s, len) ==
    LET k == NRound((NUniform(seed, i, tag) \otimes len) \ominus "0.5")
    IN  s[IF k + 1 > len THEN len ELSE IF k < 0 THEN 1 ELSE k + 1]
=============================================================================
