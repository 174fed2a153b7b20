------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* What all trace specifications share: the recorded trace, the property   *)
(* under check, the list of known findings, and the way verdicts and        *)
(* coverage leave TLC.                                                      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
On(p) == Prop = p \/ Prop = "ALL"

Has(r, k) == k \in DOMAIN r
Get(r, k, default) == IF Has(r, k) THEN r[k] ELSE R(default)

(* A check is a record [p |-> property, w |-> what is wrong, ok |-> holds?]. *)
(* Only the checks of the property at hand are evaluated (ok is lazy).       *)
MaxReported == 40
Report(bad, i, checks) ==
    LET broken == SelectSeq(checks, LAMBDA c : On(c.p) /\ ~c.ok)
    IN  IF broken = <<>> \/ Len(bad) >= MaxReported THEN bad
        ELSE bad \o [k \in DOMAIN broken |-> [p |-> broken[k].p, w |-> broken[k].w, i |-> i]]

(* Count one more in register k of the counters *)
Bump(c, k) == IF Has(c, k) THEN [c EXCEPT ![k] = @ + 1] ELSE c @@ (k :> 1)
BumpBy(c, k, n) == IF Has(c, k) THEN [c EXCEPT ![k] = @ + n] ELSE c @@ (k :> n)
RECURSIVE BumpAll(_, _)
BumpAll(c, ks) == IF ks = <<>> THEN c ELSE BumpAll(Bump(c, Head(ks)), Tail(ks))

(* The verdict: written when the last line has been consumed *)
Publish(bad, known, counts) ==
    /\ ndJsonSerialize(IOEnv.SUMMARY,
            <<[bad |-> bad, known |-> known, counts |-> counts, lines |-> Len(Trace)]>>)
    /\ TLCSet(1, Len(bad))

(* every line was consumed by an action, and the property held throughout *)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
Conforms == TLCGet(1) = 0
=============================================================================
