------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* A process, or several, in which engines run: one after another on each  *)
(* thread, and at the same time on different threads.  The outcome of a    *)
(* run belongs to its engine, whatever else has run or is running.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

VARIABLES busy,     \* thread -> the engine it runs (0 for none)
          seen      \* engine -> its outcome, for the engines that have run

hvars == <<busy, seen>>

HInit(threads) == busy = [t \in threads |-> 0] /\ seen = << >>
Start(t, k) == busy[t] = 0 /\ busy' = [busy EXCEPT ![t] = k] /\ UNCHANGED seen

(* outcomes are remembered when they are first observed *)
Known(k) == k \in DOMAIN seen
Finish(t, o) ==
    /\ busy[t] # 0 /\ busy' = [busy EXCEPT ![t] = 0]
    /\ seen' = IF Known(busy[t]) THEN seen ELSE seen @@ (busy[t] :> o)

(* the guarantee *)
Agrees(k, o) == Known(k) => o = seen[k]
=============================================================================
