---------------------------- MODULE HistoryPlan ----------------------------
(***************************************************************************)
(* The histories that are tried on m engines, the first of which is the     *)
(* base of the others: each of these differs from it in one respect only.   *)
(* A phase is a sequence of engines for every thread; "bare" and "own" are  *)
(* new processes with an empty and with the same environment.               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

(* every engine right after the base, the base right after every engine, and *)
(* every engine right after its predecessor                                  *)
Neighbours(m) == <<1, 1>> \o [j \in 1..(2 * (m - 1)) |-> IF j % 2 = 1 THEN 1 + ((j + 1) \div 2) ELSE 1]
Down(m) == [j \in 1..m |-> m + 1 - j]
Turned(m, t) == [j \in 1..m |-> 1 + ((j + t) % m)]

Phases(m, threads) ==
    << [mode |-> "here", threads |-> << Neighbours(m) >>],
       [mode |-> "own", threads |-> << [j \in 1..((m + 1) \div 2) |-> 2 * j - 1] >>],
       [mode |-> "bare", threads |-> << [j \in 1..(m \div 2) |-> 2 * j] >>],
       [mode |-> "here", threads |-> [t \in 1..threads |-> IF t = threads THEN Down(m) ELSE Turned(m, t)]],
       [mode |-> "here", threads |-> << Down(m) >>] >>
=============================================================================
