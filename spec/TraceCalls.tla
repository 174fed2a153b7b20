----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* The conversation between an engine and its components.  Every question  *)
(* the engine asks describes a state of the engine: the initial guess, or   *)
(* the outcome of one cycle.  A recorded run lists the cycles (computed     *)
(* afresh for the temperatures that occur) and then the questions in order; *)
(* each must describe one of those states completely, and no component is   *)
(* ever shown an older state than before.                                   *)
(***************************************************************************)
EXTENDS TraceBase, Exchanger

VARIABLES l, run, bad, counts
vars == <<l, run, bad, counts>>
Line == Trace[l]
Idle == [phase |-> "idle"]

Init == l = 1 /\ run = Idle /\ bad = <<>> /\ counts = [none |-> 0]

(* the state before the first cycle *)
Guess(sc) ==
    LET init(x) == IF x.kind = "fa" THEN R(x.DT) ELSE IF x.kind = "law" THEN R(x.init) ELSE R(10)
        t == Place(sc.in.ts, sc.in.th,
                   [chx |-> init(sc.chx), regen |-> init(sc.regen), hhx |-> init(sc.hhx)], 0)
        zero == [chx |-> "0", regen |-> "0", hhx |-> "0"]
    IN  [tk |-> t.chx, tl |-> t.hhx, avg |-> t.avg, m |-> zero, Q |-> zero,
         pres |-> [avg |-> sc.in.p, max |-> sc.in.p, min |-> sc.in.p, zero |-> sc.in.p]]

Begin ==
    /\ l <= Len(Trace) /\ Line.ev = "begin" /\ run.phase = "idle"
    \* states[1] is the guess, the others are cycles; seen: newest state shown to each component
    /\ run' = [phase |-> "running", sc |-> Line.sc, i |-> Line.i, states |-> <<Guess(Line.sc)>>,
               seen |-> [chx |-> 1, regen |-> 1, hhx |-> 1, ws |-> 1], late |-> <<>>, asked |-> {}]
    /\ counts' = Bump(counts, "runs") /\ bad' = bad /\ l' = l + 1

Cycle ==
    /\ l <= Len(Trace) /\ Line.ev = "cycle" /\ run.phase = "running"
    /\ run' = IF Line.out = "ok" THEN [run EXCEPT !.states = Append(@, Line)] ELSE run
    /\ counts' = Bump(counts, "cycles") /\ l' = l + 1 /\ UNCHANGED bad

TempOf(s, c) == CASE c = "chx" -> s.tk [] c = "hhx" -> s.tl [] OTHER -> s.avg

\* equal to the accuracy with which a cycle can be computed again
Again(a, b, scale) == Within(a, b, "2e-5" \otimes NMax(NAbs(a), NMax(NAbs(b), scale)))

Describes(call, s) ==
    LET c == call.comp
    IN  /\ Close(call.hx.temp, TempOf(s, c), "1e-9")
        /\ Again(call.hx.pres, s.pres.avg, 0)
        /\ Again(call.hx.m, s.m[c], 0)
        /\ Again(call.hx.Q, s.Q[c], NMax(NAbs(s.Q.chx), NAbs(s.Q.hhx)))
        /\ c = "regen" => Close(call.a, s.tk, "1e-9") /\ Close(call.b, s.tl, "1e-9")

DescribesPres(call, s) ==
    /\ Again(call.avg, s.pres.avg, 0) /\ Again(call.max, s.pres.max, 0)
    /\ Again(call.min, s.pres.min, 0) /\ Again(call.zero, s.pres.zero, 0)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Ask ==
    /\ l <= Len(Trace) /\ Line.ev = "call" /\ Line.op # "initial" /\ run.phase = "running"
    /\ LET c == Line.comp
           fits == {k \in DOMAIN run.states : Describes(Line, run.states[k])}
           next == {k \in fits : k >= run.seen[c]}
       IN  /\ bad' = Report(bad, run.i,
                <<[p |-> "C22", w |-> "the density passed to a component is not that of the fluid",
                   ok |-> Close(Line.hx.dens, Line.own.d, "1e-12")],
                  [p |-> "C22", w |-> "the heat capacity passed to a component is not that of the fluid",
                   ok |-> Close(Line.hx.cp, Line.own.cp, "1e-12")],
                  [p |-> "C22", w |-> "the cold exchanger is not told the sink temperature",
                   ok |-> c = "chx" => NEq(Line.a, run.sc.in.ts)],
                  [p |-> "C22", w |-> "the hot exchanger is not told the source temperature",
                   ok |-> c = "hhx" => NEq(Line.a, run.sc.in.th)],
                  [p |-> "C22", w |-> "a component (" \o c \o ", " \o Line.op \o ") is shown a state that is neither the initial guess nor that of a cycle",
                   ok |-> fits # {}],
                  [p |-> "C22", w |-> "the first state shown to a component does not have the initial temperatures",
                   ok |-> c \notin run.asked => Close(Line.hx.temp, TempOf(run.states[1], c), "1e-9")],
                  [p |-> "C22", w |-> "a component is shown an older state than before",
                   ok |-> fits # {} => next # {}]>>)
           /\ run' = [run EXCEPT !.seen[c] = IF next = {} THEN @ ELSE Min(next), !.asked = @ \cup {c},
                                 !.late = IF Get(Line, "late", 0) = TRUE THEN Append(@, Line) ELSE @]
    /\ counts' = Bump(counts, Line.comp \o " " \o Line.op) /\ l' = l + 1

AskWs ==
    /\ l <= Len(Trace) /\ Line.ev = "wscall" /\ run.phase = "running"
    /\ LET fits == {k \in DOMAIN run.states : DescribesPres(Line, run.states[k])}
           next == {k \in fits : k >= run.seen.ws}
       IN  /\ bad' = Report(bad, run.i,
                <<[p |-> "C22", w |-> "the working spaces (" \o Line.op \o ") are shown pressures that are neither the initial guess nor those of a cycle",
                   ok |-> fits # {}],
                  [p |-> "C22", w |-> "the working spaces are shown an older state than before",
                   ok |-> fits # {} => next # {}]>>)
           /\ run' = [run EXCEPT !.seen.ws = IF next = {} THEN @ ELSE Min(next),
                                 !.late = IF Get(Line, "late", 0) = TRUE THEN Append(@, Line) ELSE @]
    /\ counts' = Bump(counts, "ws " \o Line.op) /\ l' = l + 1

Start_ ==
    /\ l <= Len(Trace) /\ Line.ev = "call" /\ Line.op = "initial" /\ run.phase = "running"
    /\ l' = l + 1 /\ UNCHANGED <<run, bad, counts>>

(* the questions asked for the results describe exactly what is reported *)
IsReported(q, res) ==
    IF q.ev = "wscall"
    THEN NEq(q.avg, res.pres.avg) /\ NEq(q.max, res.pres.max) /\ NEq(q.min, res.pres.min) /\ NEq(q.zero, res.pres.zero)
    ELSE /\ NEq(q.hx.temp, CASE q.comp = "chx" -> res.temp.chx [] q.comp = "hhx" -> res.temp.hhx
                             [] OTHER -> res.temp.avg)
         /\ NEq(q.hx.pres, res.pres.avg) /\ NEq(q.hx.m, res.mass[q.comp]) /\ NEq(q.hx.Q, res.heat[q.comp])

Result ==
    /\ l <= Len(Trace) /\ Line.ev = "res" /\ run.phase = "running"
    /\ bad' = Report(bad, run.i,
            <<[p |-> "C22", w |-> "the results are computed for conditions that are not the reported ones",
               ok |-> \A k \in DOMAIN run.late : IsReported(run.late[k], Line)],
              [p |-> "C22", w |-> "the reported state is not that of a cycle",
               ok |-> \E k \in DOMAIN run.states :
                        LET s == run.states[k]
                        IN  /\ k > 1
                            /\ Close(Line.temp.chx, s.tk, "1e-9") /\ Close(Line.temp.hhx, s.tl, "1e-9")
                            /\ Close(Line.temp.avg, s.avg, "1e-9")
                            /\ Again(Line.pres.avg, s.pres.avg, 0)
                            /\ \A c \in {"chx", "regen", "hhx"} :
                                 /\ Again(Line.mass[c], s.m[c], 0)
                                 /\ Again(Line.heat[c], s.Q[c], NMax(NAbs(s.Q.chx), NAbs(s.Q.hhx)))]>>)
    /\ counts' = BumpBy(Bump(counts, "results"), "late questions", Len(run.late))
    /\ l' = l + 1 /\ UNCHANGED run

End ==
    /\ l <= Len(Trace) /\ Line.ev = "end" /\ run.phase = "running"
    /\ counts' = Bump(counts, "out:" \o Line.out)
    /\ run' = Idle /\ l' = l + 1 /\ UNCHANGED bad

Done ==
    /\ l = Len(Trace) + 1 /\ run.phase = "idle"
    /\ Publish(bad, <<>>, counts)
    /\ l' = l + 1 /\ UNCHANGED <<run, bad, counts>>

Next == Begin \/ Cycle \/ Ask \/ AskWs \/ Start_ \/ Result \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
