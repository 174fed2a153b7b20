---------------------------- MODULE EngineProof ----------------------------
(***************************************************************************)
(* The safety of module Engine for every engine: whatever the laws, the     *)
(* tolerance, the limits and the passes a cycle takes (TLAPS).              *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS Start(_), Ask(_, _), Agree(_, _, _), Passes(_, _)
VARIABLES e, phase, outer, inner, need, appr, result

INSTANCE Engine

Sane(x) == /\ x.omax \in Nat /\ x.imax \in Nat
           /\ \A a : Passes(x, a) \in Nat

Init == /\ phase = "outer" /\ outer = 0 /\ inner = 0 /\ need = 0
        /\ appr = Start(e) /\ result = "none" /\ Sane(e)
Spec == Init /\ [][Step]_evars

Inv ==
    /\ Sane(e)
    /\ phase \in {"outer", "cycle", "update", "end"}
    /\ result \in {"none", "ok", "inner", "outer"}
    /\ outer \in Nat /\ inner \in Nat /\ need \in Nat
    /\ outer <= e.omax /\ inner <= e.imax
    /\ phase = "cycle" => need = 0 \/ inner < need
    /\ phase = "update" => inner = need
    /\ (phase = "end") = (result # "none")
    /\ result = "ok" => inner = need /\ Agree(e, appr, Ask(e, appr))
    /\ result = "inner" => need = 0 \/ need > e.imax
    /\ result = "outer" => outer = e.omax

LEMMA Base == Init => Inv
  BY DEF Init, Inv, Sane

LEMMA Inductive == Inv /\ [Step]_evars => Inv'
<1> SUFFICES ASSUME Inv, [Step]_evars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv, Sane
<1>1. CASE Enter BY <1>1 DEF Enter
<1>2. CASE Exhaust BY <1>2 DEF Exhaust
<1>3. CASE Pass BY <1>3 DEF Pass
<1>4. CASE Starve BY <1>4 DEF Starve
<1>5. CASE Converge BY <1>5 DEF Converge
<1>6. CASE Continue BY <1>6 DEF Continue
<1>7. CASE UNCHANGED evars BY <1>7 DEF evars
<1>. QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Step

Safe == TypeOK /\ SuccessIsConsistent /\ WithinLimits /\ InnerFailure /\ OuterFailure /\ Ended

LEMMA Strong == Inv => Safe
  BY DEF Inv, Sane, Safe, TypeOK, SuccessIsConsistent, WithinLimits, InnerFailure, OuterFailure, Ended

THEOREM Spec => []Safe
  BY Base, Inductive, Strong, PTL DEF Spec

(* Every step counts up one of three counters that are bounded (Inv) before   *)
(* it starts a lower one anew: a run of any engine ends.                       *)
Stage == CASE phase = "cycle" -> 0 [] phase = "update" -> 1 [] phase = "outer" -> 2 [] phase = "end" -> 3

THEOREM Progress ==
  Inv /\ Step => \/ outer' > outer
                 \/ outer' = outer /\ Stage' > Stage
                 \/ outer' = outer /\ Stage' = Stage /\ inner' > inner
<1> SUFFICES ASSUME Inv, Step
             PROVE \/ outer' > outer
                   \/ outer' = outer /\ Stage' > Stage
                   \/ outer' = outer /\ Stage' = Stage /\ inner' > inner
  OBVIOUS
<1> USE DEF Inv, Sane, Stage
<1>1. CASE Enter BY <1>1 DEF Enter
<1>2. CASE Exhaust BY <1>2 DEF Exhaust
<1>3. CASE Pass BY <1>3 DEF Pass
<1>4. CASE Starve BY <1>4 DEF Starve
<1>5. CASE Converge BY <1>5 DEF Converge
<1>6. CASE Continue BY <1>6 DEF Continue
<1>. QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Step
=============================================================================
