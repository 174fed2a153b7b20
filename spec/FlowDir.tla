------------------------------ MODULE FlowDir ------------------------------
(***************************************************************************)
(* How the directions of the four boundary flows are found.                *)
(*                                                                         *)
(* The state equations are linear once the enthalpy of every boundary flow *)
(* is chosen, and that choice needs the directions, which the solution     *)
(* yields.  The flow m of an end space (compression ck, expansion le)      *)
(* obeys                                                                   *)
(*      m * (h - X) = N,    X = u - density * cv / |dd_dT|,                *)
(* where h is the enthalpy it carries: that of the space itself or that of *)
(* the neighbouring exchanger, or their mean while the direction is still  *)
(* unknown.  So an end is characterised by the side of X on which those    *)
(* two enthalpies lie and by the sign of N.  The inner flows kr and rl     *)
(* follow from the two end flows, whatever enthalpies they carry           *)
(* (MassOnly); their signs are any function of the end flows.              *)
(*                                                                         *)
(* The search starts from a hint, solves at most MaxSolves times, and      *)
(* either returns directions or fails.                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT MaxSolves

Signs == {1, -1}
Unknown == 0
(* an end: the side of X on which the enthalpy lies for flow in the positive  *)
(* direction, for the negative one and for their mean, and the sign of N      *)
Ends == {e \in [pos : Signs, neg : Signs, mean : Signs, N : Signs] :
            e.pos = e.neg => e.mean = e.pos}
Carried(e, d) == CASE d = 1 -> e.pos [] d = -1 -> e.neg [] d = Unknown -> e.mean
FlowSign(e, d) == e.N * Carried(e, d)
Consistent(e) == {d \in Signs : FlowSign(e, d) = d}

(* the signs of the inner flows for given end flows: any function that gives  *)
(* the common sign when both ends and the pressure rate between them allow no *)
(* other; left open here                                                      *)
Inner == [Signs \X Signs -> Signs \X Signs]

VARIABLES ck, le, inner, dir, solves, outcome
vars == <<ck, le, inner, dir, solves, outcome>>

Dirs == [ck : Signs, kr : Signs, rl : Signs, le : Signs]
AllUnknown == [ck |-> Unknown, kr |-> Unknown, rl |-> Unknown, le |-> Unknown]

(* the directions of the solution obtained with directions d *)
Solved(d) ==
    LET a == FlowSign(ck, d.ck)
        b == FlowSign(le, d.le)
        m == inner[<<a, b>>]
    IN  [ck |-> a, kr |-> m[1], rl |-> m[2], le |-> b]

Init ==
    /\ ck \in Ends /\ le \in Ends /\ inner \in Inner
    /\ dir \in Dirs \cup {AllUnknown}           \* the hint
    /\ solves = 0 /\ outcome = "searching"

Solve ==
    /\ outcome = "searching" /\ solves < MaxSolves
    /\ solves' = solves + 1
    /\ IF Solved(dir) = dir THEN outcome' = "found" /\ dir' = dir
                            ELSE outcome' = outcome /\ dir' = Solved(dir)
    /\ UNCHANGED <<ck, le, inner>>

GiveUp ==
    /\ outcome = "searching" /\ solves = MaxSolves
    /\ outcome' = "failed" /\ UNCHANGED <<ck, le, inner, dir, solves>>

Next == Solve \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ---------------------------------------------------------- *)
Solvable == Consistent(ck) # {} /\ Consistent(le) # {}
(* a direction that is returned is the direction of the flow it leads to, so  *)
(* every boundary flow carries the enthalpy of the space it comes from        *)
FoundIsConsistent == outcome = "found" => Solved(dir) = dir
(* the search fails exactly when no consistent directions exist               *)
FailsOnlyIfNone == outcome = "failed" => ~Solvable
FindsIfAny == outcome = "found" => Solvable
(* a hint that is consistent is kept                                          *)
Bounded == solves <= MaxSolves
Ends_ == <>(outcome # "searching")
=============================================================================
