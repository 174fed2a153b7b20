------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Histories of engines: a base engine, and others that differ from it in   *)
(* one respect each, in the order of module HistoryPlan.                    *)
(***************************************************************************)
EXTENDS DocValues, HistoryPlan, Json

Count == NRound(IOEnv.COUNT)
Shard == NRound(IOEnv.SHARD)
Size_ == 8
Threads == 4

(* engines differ a little, or so little that a coarse look takes them for equal *)
Bit(j) == R(<<"1.01", "1.000000001", "0.99", "1.00001">>[1 + (j % 4)])

(* ---- engines that are described by documents ------------------------------ *)
Leaf(d, p) == LET v == AtPath(d, p) IN v.t \in {"n", "i"} /\ v.v # "Infinity"
Leaves(d) == SelectSeq(Paths(d), LAMBDA p : Leaf(d, p))
Other(d, i, j) ==
    LET ls == Leaves(d)
        p == ls[1 + ((13 * i + 5 * j + 7 * Shard) % Len(ls))]
        v == AtPath(d, p)
        x == IF v.t = "i" THEN I(ToString(NRound(v.v) + 1)) ELSE N(NStr(v.v \otimes Bit(i + j)))
    IN  Change(d, p, Replace(x))
Want(i) == [SupportedWant(i + 5 * Shard) EXCEPT !.gas = 1 + ((i + Shard) % 2)]
\* an accurate cycle, so that the loops come to an end
Exact(d) == Change(Change(d, <<"solver", "ode", "tolerance", "abs">>, Replace(N("1e-7"))),
                   <<"solver", "ode", "tolerance", "rel">>, Replace(N("1e-7")))
Documents_(i) ==
    LET want == Want(i)
        base == Exact(Document("modern", i, want))
        another(c) == Exact(Document("modern", i, [want EXCEPT ![c] = 3 - @]))
    IN  [j \in 1..Size_ |-> CASE j = 1 -> base
                          [] j = 2 -> another("gas")
                          [] j = 3 -> another(<<"chx", "hhx", "regen", "ws">>[1 + (i % 4)])
                          [] OTHER -> Other(base, i, j)]
ByConfig(i) == LET ds == Documents_(i) IN [j \in 1..Size_ |-> [via |-> "api", doc |-> ds[j]]]
\* the same through the interface below
ByHand(i) ==
    LET ds == Documents_(i)
    IN  [j \in 1..Size_ |-> [via |-> "hand", engine |-> [detail |-> FALSE, series |-> TRUE] @@ EngineOf(ds[j]) @@
                                                    [solver |-> <<"lu", "qr", "svd", "lu">>[1 + (i % 4)]]]]

(* ---- engines with components and gases of one's own ------------------------ *)
Custom == [AnyOptions EXCEPT !.n = <<40, 60>>, !.ode = "1e-6", !.hx = <<"fc", "law", "fa">>]
Variants(e, i) ==
    LET b == Bit(i) IN
    <<e,
      [e EXCEPT !.in.p = Mul(@, b)], [e EXCEPT !.in.th = Mul(@, b)], [e EXCEPT !.in.ts = Mul(@, b)],
      [e EXCEPT !.ws.f = Mul(@, b)], [e EXCEPT !.ws.Rc = IF @ = "Infinity" THEN "1" ELSE "Infinity"],
      [e EXCEPT !.regen.vol = Mul(@, b)], [e EXCEPT !.chx.R_hyd = Mul(@, b)], [e EXCEPT !.hhx.vol = Mul(@, b)],
      [e EXCEPT !.fluid = IF @.kind = "virial" THEN [@ EXCEPT !.cv = Mul(@, b)]
                          ELSE [kind |-> IF @.kind = "helium" THEN "hydrogen" ELSE "helium"]],
      [e EXCEPT !.set.n = ToString(NRound(@) + 1)], [e EXCEPT !.set.orel = Mul(@, "1e-2"), !.set.oabs = Mul(@, "1e-2")],
      [e EXCEPT !.set.irel = Mul(@, "1e-2"), !.set.iabs = Mul(@, "1e-2")],
      [e EXCEPT !.set.drel = "1e-8", !.set.dabs = "1e-8"], [e EXCEPT !.set.omax = "1"], [e EXCEPT !.set.imax = "1"],
      [e EXCEPT !.solver = IF @ = "lu" THEN "qr" ELSE "lu"], [e EXCEPT !.ws = Ws(Seed, i + 1000, Custom)],
      [e EXCEPT !.regen = Hx(Seed, i + 1000, "regen", Custom)], [e EXCEPT !.ws.Wc = Mul(@, b), !.hhx.Q = Mul(@, b)]>>
ByParts(i) ==
    LET vs == Variants(Engine(Seed, i, Custom), i)
        n == Len(vs) - 1
    IN  [j \in 1..Size_ |-> [via |-> "hand", engine |-> [detail |-> TRUE] @@
                          vs[IF j = 1 THEN 1 ELSE 2 + ((7 * (i + 5 * Shard) + 3 * j) % n)]]]

(* ---- engines whose flow directions are a matter of where the search starts -- *)
Ambiguous(i) ==
    [j \in 1..Size_ |-> [via |-> "hand", engine |-> [detail |-> TRUE] @@
        (LET k == 100 * i + j
         IN  IF j % 2 = 1 THEN [FlipEngine(Seed, k) EXCEPT !.set.imax = "1", !.set.omax = "2", !.solver = "lu"]
             ELSE Engine(Seed, k, [Custom EXCEPT !.modes = <<"cooler">>]))]]

History(i) ==
    [fam |-> "history", phases |-> Phases(Size_, Threads),
     engines |-> CASE i % 4 = 0 -> ByConfig(i) [] i % 4 = 1 -> ByHand(i) [] i % 4 = 2 -> Ambiguous(i) [] OTHER -> ByParts(i)]

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> History(i)])
=============================================================================
