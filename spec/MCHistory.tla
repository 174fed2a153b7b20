----------------------------- MODULE MCHistory -----------------------------
(***************************************************************************)
(* Are the histories able to tell?  Libraries that remember something of    *)
(* earlier runs, in all ways of a class, run the planned histories (their   *)
(* threads interleaved in all ways): whatever is remembered, an outcome     *)
(* that it spoils is observed.                                              *)
(*                                                                         *)
(* An engine is a choice of features; engine 1 is the base and engine 1 + f *)
(* differs from it in feature f.  A library keeps what it computed from the *)
(* features `uses`, for as long as the features `key` are the same, and     *)
(* takes it for granted from then on.  It keeps one thing per process       *)
(* (`scope`), or per thread, and replaces it when the key differs (`keep`   *)
(* is "last"), or never ("first").                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, HistoryPlan

CONSTANTS Features, Threads
F == 1..Features
M == Features + 1
Feature(k, f) == IF k = f + 1 THEN 1 ELSE 0

VARIABLES lib, mem, phase, pos, busy, seen, noticed
vars == <<lib, mem, phase, pos, busy, seen, noticed>>
INSTANCE History

Libraries == [uses : SUBSET F, key : SUBSET F, scope : {"process", "thread"}, keep : {"last", "first"}]
Honest(x) == x.uses \subseteq x.key
Plan == SelectSeq(Phases(M, Threads), LAMBDA p : p.mode = "here")
Workers == 0..Threads
View(k, S) == [f \in S |-> Feature(k, f)]
Place(t) == IF lib.scope = "process" THEN 0 ELSE t

Init ==
    /\ lib \in Libraries /\ mem = [t \in Workers |-> <<>>] /\ phase = 1
    /\ pos = [t \in Workers |-> 0] /\ HInit(Workers) /\ noticed = FALSE

(* in the fresh processes nothing is remembered: those outcomes are known *)
Fresh(k) == [own |-> View(k, F), kept |-> View(k, lib.uses)]

Here(t) == phase <= Len(Plan) /\ t \in DOMAIN Plan[phase].threads
Begin(t) ==
    /\ Here(t) /\ pos[t] < Len(Plan[phase].threads[t])
    /\ Start(t, Plan[phase].threads[t][pos[t] + 1])
    /\ UNCHANGED <<lib, mem, phase, pos, noticed>>

End(t) ==
    /\ Here(t) /\ busy[t] # 0
    /\ LET k == busy[t]
           m == mem[Place(t)]
           hit == m # <<>> /\ m.key = View(k, lib.key)
           kept == IF hit THEN m.value ELSE View(k, lib.uses)
           o == [own |-> View(k, F), kept |-> kept]
       IN  /\ Finish(t, o)
           /\ noticed' = (noticed \/ ~Agrees(k, o) \/ o # Fresh(k))
           /\ mem' = IF hit \/ (m # <<>> /\ lib.keep = "first") THEN mem
                     ELSE [mem EXCEPT ![Place(t)] = [key |-> View(k, lib.key), value |-> kept]]
    /\ pos' = [pos EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<lib, phase>>

Turn ==
    /\ phase <= Len(Plan)
    /\ \A t \in DOMAIN Plan[phase].threads : busy[t] = 0 /\ pos[t] = Len(Plan[phase].threads[t])
    /\ phase' = phase + 1 /\ pos' = [t \in Workers |-> 0] /\ seen' = seen /\ busy' = busy
    \* each phase has threads of its own
    /\ mem' = [t \in Workers |-> IF t = 0 THEN mem[0] ELSE <<>>]
    /\ UNCHANGED <<lib, noticed>>

Next == (\E t \in Workers : Begin(t) \/ End(t)) \/ Turn
Spec == Init /\ [][Next]_vars

Over == phase > Len(Plan)
Told == Over => (noticed <=> ~Honest(lib))
=============================================================================
