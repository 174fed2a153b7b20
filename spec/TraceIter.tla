------------------------------ MODULE TraceIter ------------------------------
(***************************************************************************)
(* Recorded runs against the iteration machine of module Engine: the       *)
(* machine is launched with the scenario of each run and makes its own      *)
(* steps; the recorded end of the run has to be the machine's.              *)
(***************************************************************************)
EXTENDS TraceBase, IterModel, Exchanger

VARIABLES l, bad, counts, clear, steps,
          e, phase, outer, inner, need, appr, result

SStart(x) == StartOf(x.sc)
SAsk(x, a) == AskOf(x.sc, a)
SAgree(x, a, b) == AgreeOf(x.sc, a, b, 1)
SPasses(x, a) == PassesOf(x.sc, a, x.imax + 1, 1)
M == INSTANCE Engine WITH Start <- SStart, Ask <- SAsk, Agree <- SAgree, Passes <- SPasses

vars == <<l, bad, counts, clear, steps, e, phase, outer, inner, need, appr, result>>
machine == <<e, phase, outer, inner, need, appr, result>>
Line == Trace[l]

Init ==
    /\ l = 1 /\ bad = <<>> /\ counts = [none |-> 0] /\ clear = TRUE /\ steps = 0
    /\ e = <<>> /\ phase = "idle" /\ outer = 0 /\ inner = 0 /\ need = 0 /\ appr = <<>> /\ result = "none"

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin"
    /\ M!Launch([sc |-> Line.sc, omax |-> NRound(Line.sc.set.omax), imax |-> NRound(Line.sc.set.imax)])
    /\ l' = l + 1 /\ clear' = TRUE
    /\ counts' = Bump(counts, "runs") /\ UNCHANGED <<bad, steps>>

(* A decision is clear when it does not change if the tolerances do (by 4%   *)
(* where the library integrates numerically, 0.1% where it only rounds).     *)
ClearPass ==
    LET a == PassesOf(e.sc, appr, e.imax, "0.985") b == PassesOf(e.sc, appr, e.imax, "1.015")
    IN  (a = 0) = (b = 0)
ClearAgree ==
    LET b == AskOf(e.sc, appr) IN AgreeOf(e.sc, appr, b, "0.999") = AgreeOf(e.sc, appr, b, "1.001")

Silent ==
    /\ phase \notin {"idle", "end"} /\ M!Step
    /\ clear' = CASE ~clear -> FALSE
                  [] phase = "cycle" /\ inner = 0 -> ClearPass
                  [] phase = "update" -> ClearAgree
                  [] OTHER -> TRUE
    /\ steps' = steps + 1
    /\ counts' = BumpAll(counts, IF phase = "update" THEN <<"outer">> ELSE IF phase = "cycle" THEN <<"passes">> ELSE <<>>)
    /\ UNCHANGED <<l, bad>>

Near5(x, y) == Close(x, y, "1e-9")

ReportedAre(res, T) ==
    \A k \in {"sink", "chx", "cold", "avg", "hot", "hhx", "source"} : Near5(res.temp[k], T[k])

(* results: the machine must have succeeded, with these temperatures *)
Result ==
    /\ l <= Len(Trace) /\ Line.ev = "res" /\ phase = "end"
    /\ bad' = Report(bad, Line.i, IF ~clear THEN <<>> ELSE
            <<[p |-> "C01", w |-> "the reported temperatures are not the ones the components agreed on",
               ok |-> result = "ok" => ReportedAre(Line, TempsOf(e.sc, appr))],
              [p |-> "C01", w |-> "success although a component asks for another temperature",
               ok |-> AgreeOf(e.sc, appr, AskOf(e.sc, appr), 1) \/ result # "ok"]>>)
    /\ l' = l + 1 /\ UNCHANGED <<counts, clear, steps, machine>>

Finish ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ phase = "end"
    /\ bad' = Report(bad, Line.i, IF ~clear THEN <<>> ELSE
            <<[p |-> "C02", w |-> "the run ended with " \o Line.out \o " instead of " \o result
                     \o " (limits " \o ToString(e.omax) \o ", " \o ToString(e.imax) \o ")",
               ok |-> Line.out = result],
              [p |-> "C01", w |-> "success with temperatures the components do not agree with",
               ok |-> Line.out = "ok" => \/ result # "outer"
                                         \/ e.omax < OuterNeeded(e.sc, 40)],
              [p |-> "C21", w |-> "a run panicked or did not return: " \o Line.out,
               ok |-> Line.out \in {"ok", "inner", "outer"}]>>)
    /\ counts' = BumpAll(counts, <<"out:" \o result, IF clear THEN "decided" ELSE "unclear">>)
    /\ phase' = "idle" /\ l' = l + 1
    /\ UNCHANGED <<clear, steps, e, outer, inner, need, appr, result>>

Done ==
    /\ l = Len(Trace) + 1 /\ phase = "idle"
    /\ Publish(bad, <<>>, BumpBy(counts, "steps", steps)) /\ TLCSet(2, steps)
    /\ l' = l + 1 /\ UNCHANGED <<bad, counts, clear, steps, machine>>

Next == Begin \/ Silent \/ Result \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

(* the machine's own properties hold along the trace *)
MachineOK == phase # "idle" => /\ M!SuccessIsConsistent /\ M!WithinLimits
                               /\ M!InnerFailure /\ M!OuterFailure
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1 + TLCGet(2)
=============================================================================
