----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Recorded histories are behaviours of module History, on the threads and  *)
(* in the order that was planned, in which the guarantee holds.             *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES l, plan, at, busy, seen, bad, counts
vars == <<l, plan, at, busy, seen, bad, counts>>
INSTANCE History

Workers == 1..16
Line == Trace[l]
None == [i |-> 0, phases |-> <<>>, on |-> FALSE]

Init ==
    /\ l = 1 /\ plan = None /\ at = [phase |-> 0, pos |-> [t \in Workers |-> 0]]
    /\ HInit(Workers) /\ bad = <<>> /\ counts = "none" :> 0

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin"
    /\ plan' = [i |-> Line.i, phases |-> Line.sc.phases, on |-> TRUE]
    /\ at' = [phase |-> 1, pos |-> [t \in Workers |-> 0]]
    /\ busy' = [t \in Workers |-> 0] /\ seen' = << >>
    /\ counts' = Bump(counts, "histories") /\ l' = l + 1 /\ UNCHANGED bad

(* the phase before is over *)
Complete(ph) == \A t \in DOMAIN plan.phases[ph].threads :
                    busy[t] = 0 /\ at.pos[t] = Len(plan.phases[ph].threads[t])
TurnTo(ph) == IF ph = at.phase THEN at ELSE [phase |-> ph, pos |-> [t \in Workers |-> 0]]

Starting ==
    /\ l <= Len(Trace) /\ Line.ev = "start" /\ plan.on
    /\ Line.phase = at.phase \/ (Line.phase = at.phase + 1 /\ Complete(at.phase))
    /\ LET a == TurnTo(Line.phase)
           todo == plan.phases[Line.phase].threads[Line.th]
       IN  /\ a.pos[Line.th] < Len(todo) /\ todo[a.pos[Line.th] + 1] = Line.k
           /\ at' = a
    /\ Start(Line.th, Line.k)
    /\ counts' = IF \E t \in Workers : busy[t] # 0 THEN Bump(counts, "runs beside others") ELSE counts
    /\ l' = l + 1 /\ UNCHANGED <<plan, bad>>

Mode == plan.phases[at.phase].mode
Words == CASE Mode = "here" /\ Len(plan.phases[at.phase].threads) > 1 -> "at the same time as others"
           [] Mode = "here" -> "after others"
           [] OTHER -> "in a process of its own"

Finishing ==
    /\ l <= Len(Trace) /\ Line.ev = "finish" /\ plan.on
    /\ Line.phase = at.phase /\ busy[Line.th] = Line.k
    /\ Finish(Line.th, Line.fp)
    /\ at' = [at EXCEPT !.pos[Line.th] = @ + 1]
    /\ bad' = Report(bad, plan.i,
            <<[p |-> "C15", w |-> "an engine run " \o Words \o " has another outcome", ok |-> Agrees(Line.k, Line.fp)]>>)
    /\ counts' = Bump(Bump(counts, "runs " \o Words), "out:" \o Line.out)
    /\ l' = l + 1 /\ UNCHANGED plan

End ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ plan.on
    /\ bad' = Report(bad, plan.i,
            <<[p |-> "C21", w |-> "the engines of a history do not end", ok |-> Line.out # "hang"]>>)
    /\ (Line.out # "hang" => at.phase = Len(plan.phases) /\ Complete(at.phase))
    /\ counts' = BumpBy(counts, "engines", IF Line.out = "hang" THEN 0 ELSE Cardinality(DOMAIN seen))
    /\ plan' = None /\ l' = l + 1 /\ UNCHANGED <<at, busy, seen>>

Done ==
    /\ l = Len(Trace) + 1 /\ ~plan.on
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<plan, at, busy, seen, bad, counts>>

Next == Begin \/ Starting \/ Finishing \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
