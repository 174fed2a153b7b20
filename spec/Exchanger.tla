----------------------------- MODULE Exchanger -----------------------------
(***************************************************************************)
(* Heat exchanger laws and the placement of the engine temperatures        *)
(***************************************************************************)
LOCAL INSTANCE Num

(* ---- laws -------------------------------------------------------------- *)
CapacityFlow(h) == h.cp \otimes h.m

(* a cold or hot exchanger of conductance UA that transfers h.Q: the outlet *)
(* approach of a one-stream exchanger of effectiveness 1 - exp(-NTU)        *)
ConductanceApproach(UA, h) ==
    LET C   == CapacityFlow(h)
        eff == NNeg(NExpM1(NNeg(UA \oslash C)))
    IN  (h.Q \oslash C) \otimes ((1 \oslash eff) \ominus 1)

(* a regenerator of conductance UA between temperatures Tk and Tl *)
RegenApproach(UA, h, Tk, Tl) ==
    LET half == (UA \oslash CapacityFlow(h)) \oslash 2
        eff  == half \oslash (1 \oplus half)
    IN  (1 \ominus eff) \otimes (Tl \ominus Tk)

(* ---- placement --------------------------------------------------------- *)
ColdApproach(a, imb) == IF imb \succeq 0 THEN R(a) ELSE a \ominus imb
HotApproach(a, imb) == IF imb \succeq 0 THEN a \oplus imb ELSE R(a)

(* (for nearly equal temperatures by its series) *)
LogMean(x, y) ==
    LET d == (x \ominus y) \oslash y
    IN  IF NAbs(d) \succ "2e-3" THEN (x \ominus y) \oslash NLn(x \oslash y)
        ELSE y \otimes NSum(<<1, Half(d), NNeg(NPow(d, 2) \oslash 12), NPow(d, 3) \oslash 24,
                             NNeg((19 \otimes NPow(d, 4)) \oslash 720)>>)

(* all temperatures of an engine whose components have approaches a *)
Place(sink, source, a, imb) ==
    LET Tk == sink \oplus a.chx
        Tl == source \ominus a.hhx
        c  == ColdApproach(a.regen, imb)
        h  == HotApproach(a.regen, imb)
    IN  [sink |-> R(sink), source |-> R(source), chx |-> Tk, hhx |-> Tl,
         cold |-> Tk \oplus c,
         hot  |-> Tl \ominus h,
         avg  |-> LogMean(Tl \ominus Half(h), Tk \oplus Half(c))]

(* ---- convergence ------------------------------------------------------- *)
(* a change counts as converged when it is below both tolerances *)
Settled(old, new, abs, rel) ==
    LET d == NAbs(new \ominus old)
    IN  /\ d \prec abs
        /\ NAbs(d \oslash old) \prec rel
=============================================================================
