------------------------------- MODULE GenCfg -------------------------------
(***************************************************************************)
(* Configuration documents: complete ones with random values, and every    *)
(* single damage to a set of complete ones that covers all models.         *)
(***************************************************************************)
EXTENDS DocValues, Json

Count == NRound(IOEnv.COUNT)
Shard == NRound(IOEnv.SHARD)
Shards == NRound(IOEnv.SHARDS)
Family == IOEnv.FAMILY

(* ---- complete documents ---------------------------------------------------- *)
(* any model of any component *)
AnyWant(i) ==
    LET any(tag, n) == 1 + (NRound(NUniform(Seed, i, tag) \otimes 1000) % n)
    IN  [chx |-> any("m1", 4), hhx |-> any("m2", 6), regen |-> any("m3", 4), ws |-> any("m4", 4), gas |-> any("m5", 2),
         model |-> any("m6", 4), legacyGas |-> any("m7", 3), infinite |-> FALSE, far |-> FALSE]

Formats(want) == IF want.infinite THEN <<"toml">> ELSE <<"toml", "json", "yaml">>

Meaning(i) ==
    LET want == [SupportedWant(i) EXCEPT !.far = i % 4 # 0]
        d == Document("modern", i, want)
    IN  [what |-> "modern", formats |-> Formats(want), doc |-> d, engine |-> EngineOf(d), run |-> i % 4 = 0,
         T |-> U(Seed, i, "T", 300, 900), P |-> LU(Seed, i, "P", "1e5", "1e7"),
         states |-> [chx |-> State_(i, "chx"), hhx |-> State_(i, "hhx"), regen |-> State_(i, "regen")],
         times |-> [k \in 1..4 |-> U(Seed, i, "t" \o ToString(k), 0, "0.1")]]

LegacyMeaning(i) ==
    LET want == [(IF i % 3 = 0 THEN AnyWant(i) ELSE SupportedWant(i \div 3)) EXCEPT !.far = i % 4 # 0]
        d == Document("legacy", i, want)
        m == Modernised(d)
    IN  [what |-> "legacy", formats |-> Formats(want), doc |-> d, modern |-> m, run |-> Implemented(m) /\ i % 4 = 0] @@
        (IF Implemented(m) THEN
            [engine |-> EngineOf(m), T |-> U(Seed, i, "T", 300, 900), P |-> LU(Seed, i, "P", "1e5", "1e7"),
             states |-> [chx |-> State_(i, "chx"), hhx |-> State_(i, "hhx"), regen |-> State_(i, "regen")],
             times |-> [k \in 1..4 |-> U(Seed, i, "t" \o ToString(k), 0, "0.1")]]
         ELSE [none |-> 0])

(* ---- damaged documents ------------------------------------------------------ *)
(* six pairs of documents that contain every model of every component          *)
CoverWant(b) == [chx |-> 1 + (b % 4), hhx |-> 1 + (b % 6), regen |-> 1 + ((b + 1) % 4), ws |-> 1 + ((b + 3) % 4),
                 gas |-> 1 + (b % 2), model |-> 1 + ((b + 2) % 4), legacyGas |-> 1 + ((b + 2) % 3), infinite |-> FALSE, far |-> FALSE]

(* (a list of the right length can stand for a table, and a fraction for a     *)
(* natural number: both can be read)                                           *)
Wrong == <<W("abc"), W("fixed_approach"), T(<<>>), T(<<E("x", I("1"))>>), [t |-> "l", f |-> <<W("abc")>>], I("7"),
           [t |-> "z"], I("-3"), I("4294967297"), I("8589934622")>>

(* keys that select a model: one more of them beside the first is one too many *)
MoreModels(kind, p) ==
    IF kind = "modern" /\ Len(p) = 4 /\ p[2] = "components"
    THEN LET comp == p[3] ms == Models[comp]
         IN  [j \in DOMAIN ms |-> E(ms[j].modern, Fill(ms[j].s, j, "more", comp, CoverWant(0)))]
    ELSE IF kind = "modern" /\ Len(p) = 3 /\ p[2] = "fluid"
    THEN <<E("helium", T(<<E("model", W("ideal_gas"))>>)), E("hydrogen", T(<<E("model", W("ideal_gas"))>>))>>
    ELSE <<>>

Edits(kind, p) ==
    LET more == SelectSeq(MoreModels(kind, p), LAMBDA e : e.k # p[Len(p)])
    IN  <<Delete, Rename(p[Len(p)] \o "_x"), Rename("x")>>
        \o [j \in DOMAIN Wrong |-> Replace(Wrong[j])]
        \o [j \in DOMAIN more |-> After(more[j].k, more[j].v)]
        \o [j \in DOMAIN more |-> Before(more[j].k, more[j].v)]

RECURSIVE Flatten(_, _)
Flatten(f, n) == IF n = 0 THEN <<>> ELSE Flatten(f, n - 1) \o f[n]

Damages(kind, b) ==
    LET d == Document(kind, b, CoverWant(b))
        ps == Paths(d)
        of == [j \in DOMAIN ps |->
                LET es == Edits(kind, ps[j])
                IN  [m \in DOMAIN es |-> [what |-> "damaged", kind |-> kind, formats |-> <<"toml", "json", "yaml">>,
                                          path |-> ps[j], edit |-> es[m].op, doc |-> Change(d, ps[j], es[m])]]]
        all == Flatten(of, Len(of))
    \* nothing is demanded of a damaged document that is still complete
    IN  SelectSeq(all, LAMBDA x : ~Accepts(Schema(kind), x.doc))

(* not implemented, in one place or several *)
Unsupported(i) ==
    LET base == SupportedWant(i)
        any(tag, lo, n) == lo + (NRound(NUniform(Seed, i, tag) \otimes 1000) % n)
        want == CASE i % 5 = 0 -> [base EXCEPT !.chx = any("u1", 3, 2)]
                  [] i % 5 = 1 -> [base EXCEPT !.hhx = any("u2", 3, 4)]
                  [] i % 5 = 2 -> [base EXCEPT !.regen = any("u3", 3, 2)]
                  [] i % 5 = 3 -> [base EXCEPT !.ws = any("u4", 3, 2)]
                  [] i % 5 = 4 -> [base EXCEPT !.model = <<1, 2, 4>>[any("u5", 1, 3)]]
    IN  [what |-> "unsupported", formats |-> <<"toml">>, doc |-> Document("modern", i, [want EXCEPT !.infinite = TRUE])]

Damaged == [b \in 1..12 |-> IF b % Shards = Shard % Shards
                            THEN Damages(IF b <= 6 THEN "modern" ELSE "legacy", b) ELSE <<>>]

(* ---- the defaults ------------------------------------------------------------ *)
Defaults(i) ==
    [what |-> "defaults", formats |-> <<"toml">>, doc |-> Document("modern", i, SupportedWant(i)),
     P |-> LU(Seed, i, "P", "1e5", "1e7"),
     states |-> [chx |-> State_(i, "chx"), hhx |-> State_(i, "hhx"), regen |-> State_(i, "regen")],
     times |-> [k \in 1..8 |-> U(Seed, i, "t" \o ToString(k), 0, "0.1")]]

ASSUME CompleteOnes == \A b \in 1..6 : /\ Accepts(ModernSchema, Document("modern", b, CoverWant(b)))
                                       /\ Accepts(LegacySchema, Document("legacy", b, CoverWant(b)))
                                       /\ Accepts(ModernSchema, Modernised(Document("legacy", b, CoverWant(b))))

All == CASE Family = "meaning" -> [i \in 1..Count |-> IF i % 16 = 0 THEN Defaults(i) ELSE Meaning(i)]
         [] Family = "legacy"  -> [i \in 1..Count |-> LegacyMeaning(i)]
         [] Family = "damaged" -> Flatten(Damaged, 12) \o [i \in 1..Count |-> Unsupported(i)]

ASSUME ndJsonSerialize(IOEnv.OUT, All)
=============================================================================
