------------------------------ MODULE MCEngine ------------------------------
(***************************************************************************)
(* All engines whose component laws are maps between a few approaches.     *)
(* Every law of every component, every start, every pair of limits and     *)
(* every number of passes a cycle may need, exhaustively.                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N,         \* approaches per component
          Comps,     \* components that vary
          MaxOuter, MaxInner

VARIABLES e, phase, outer, inner, need, appr, result, path

Lv == 1..N
MStart(x) == x.start
MAsk(x, a) == [c \in Comps |-> x.f[c][a[c]]]
MAgree(x, a, b) == a = b
MPasses(x, a) == x.takes

INSTANCE Engine WITH Start <- MStart, Ask <- MAsk, Agree <- MAgree, Passes <- MPasses

Engines == [f : [Comps -> [Lv -> Lv]], start : [Comps -> Lv],
            omax : 0..MaxOuter, imax : 0..MaxInner, takes : 0..(MaxInner + 1)]

vars == <<e, phase, outer, inner, need, appr, result, path>>

Init ==
    /\ e \in Engines
    /\ phase = "outer" /\ outer = 0 /\ inner = 0 /\ need = 0 /\ appr = e.start /\ result = "none"
    /\ path = <<>>

Next == Step /\ path' = IF outer' # outer THEN Append(path, appr) ELSE path
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the behaviour, told without the machine *)
RECURSIVE Iterate(_, _, _)
Iterate(x, a, k) == IF k = 0 THEN a ELSE Iterate(x, MAsk(x, a), k - 1)
Expected ==
    IF e.omax = 0 THEN "outer"
    ELSE IF e.takes = 0 \/ e.takes > e.imax THEN "inner"
    ELSE IF \E k \in 0..(e.omax - 1) : LET a == Iterate(e, e.start, k) IN MAsk(e, a) = a
         THEN "ok" ELSE "outer"
ResultIsExpected == phase = "end" => result = Expected

(* the temperatures tried are the iterates of the laws, none twice in vain *)
PathIsIterates == \A k \in DOMAIN path : path[k] = Iterate(e, e.start, k - 1)

Termination == <>(phase = "end")
=============================================================================
