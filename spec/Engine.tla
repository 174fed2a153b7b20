------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The two nested iterations of an engine run.                             *)
(*                                                                         *)
(* The outer loop looks for component temperatures that the components     *)
(* themselves ask for; for each candidate, the inner loop looks for initial *)
(* gas temperatures that a pass over the cycle reproduces.  Both have a     *)
(* limit.  The machine is generic in the engine e: Start gives the initial  *)
(* approaches of its components, Ask the approaches they ask for after a    *)
(* cycle run with given ones, Agree whether two sets of approaches place    *)
(* the temperatures within tolerance of each other, and Passes the pass     *)
(* over the cycle that is the first to reproduce its initial conditions     *)
(* (0 if none does).                                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers

CONSTANTS Start(_), Ask(_, _), Agree(_, _, _), Passes(_, _)

VARIABLES e,        \* the engine: laws and limits e.omax, e.imax
          phase,    \* "idle", "outer", "cycle", "update", "end"
          outer,    \* outer iterations begun
          inner,    \* passes over the cycle in this outer iteration
          need,     \* passes the current cycle takes
          appr,     \* approaches the current cycle is run with
          result    \* "none", "ok", "inner", "outer"

evars == <<e, phase, outer, inner, need, appr, result>>

Launch(x) ==
    /\ phase = "idle"
    /\ e' = x /\ phase' = "outer" /\ outer' = 0 /\ inner' = 0 /\ need' = 0
    /\ appr' = Start(x) /\ result' = "none"

(* begin another outer iteration, if one is left *)
Enter ==
    /\ phase = "outer" /\ outer < e.omax
    /\ phase' = "cycle" /\ outer' = outer + 1 /\ inner' = 0 /\ need' = Passes(e, appr)
    /\ UNCHANGED <<e, appr, result>>

Exhaust ==
    /\ phase = "outer" /\ outer >= e.omax
    /\ phase' = "end" /\ result' = "outer"
    /\ UNCHANGED <<e, outer, inner, need, appr>>

(* one pass over the cycle *)
Pass ==
    /\ phase = "cycle" /\ inner < e.imax
    /\ inner' = inner + 1
    /\ phase' = IF inner' = need THEN "update" ELSE "cycle"
    /\ UNCHANGED <<e, outer, need, appr, result>>

Starve ==
    /\ phase = "cycle" /\ inner >= e.imax
    /\ phase' = "end" /\ result' = "inner"
    /\ UNCHANGED <<e, outer, inner, need, appr>>

(* ask the components, and either stop or try what they ask for *)
Converge ==
    /\ phase = "update" /\ Agree(e, appr, Ask(e, appr))
    /\ phase' = "end" /\ result' = "ok"
    /\ UNCHANGED <<e, outer, inner, need, appr>>

Continue ==
    /\ phase = "update" /\ ~Agree(e, appr, Ask(e, appr))
    /\ phase' = "outer" /\ appr' = Ask(e, appr)
    /\ UNCHANGED <<e, outer, inner, need, result>>

Step == Enter \/ Exhaust \/ Pass \/ Starve \/ Converge \/ Continue

(* ---- properties -------------------------------------------------------- *)
TypeOK ==
    /\ phase \in {"idle", "outer", "cycle", "update", "end"}
    /\ outer \in Nat /\ inner \in Nat
    /\ result \in {"none", "ok", "inner", "outer"}

(* success means the components agree with the temperatures reported *)
SuccessIsConsistent ==
    result = "ok" => /\ Agree(e, appr, Ask(e, appr))
                     /\ inner = need

(* limits are never exceeded *)
WithinLimits == phase # "idle" => outer <= e.omax /\ inner <= e.imax

(* failures are the right ones *)
InnerFailure ==
    result = "inner" => need = 0 \/ need > e.imax
OuterFailure == result = "outer" => outer = e.omax
Ended == (phase = "end") = (phase # "idle" /\ result # "none")
=============================================================================
