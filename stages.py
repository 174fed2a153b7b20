"""Which stages decide which property.

count: {tier: (scenarios per shard, shards)}
"""


def count(quick, thorough, shards=(4, 24)):
    return {"quick": (quick, shards[0]), "thorough": (thorough, shards[1])}


def runs(family="any", quick=60, thorough=200, shards=(4, 24), **kw):
    """Random engines, the whole cycle of each against module TraceRun"""
    return {"name": f"run-{family}", "gen": "GenRun", "family": family, "driver": "run", "spec": "TraceRun",
            "count": count(quick, thorough, shards), **kw}


def wild(family, quick=300, thorough=2000):
    """Engines far from ordinary ones, and with unusable parts: they have to end"""
    return {"name": f"wild-{family}", "gen": "GenWild", "family": family, "driver": "run", "spec": "TraceRun",
            "count": count(quick, thorough), "limit": 120}


def iters(family, quick=150, thorough=1000, shards=(2, 8)):
    """Engines whose iterations can be foretold, against the machine of module Engine"""
    return {"name": f"iter-{family}", "gen": "GenIter", "family": family, "driver": "run", "spec": "TraceIter",
            "count": count(quick, thorough, shards)}


def calls(quick=150, thorough=500):
    """The questions engines ask their components against module TraceCalls"""
    return {"name": "calls", "gen": "GenRun", "family": "calls", "driver": "run", "spec": "TraceCalls",
            "count": count(quick, thorough)}


def laws(family, quick, thorough, shards=(2, 24)):
    """Calls to single components and gases against module TraceLaw"""
    return {"name": f"law-{family}", "gen": "GenLaw", "family": family, "driver": "direct", "spec": "TraceLaw",
            "count": count(quick, thorough, shards)}


def relations(family, quick, thorough, shards=(4, 24)):
    """Groups of engines whose results are related, against module TraceRel"""
    return {"name": f"rel-{family}", "gen": "GenRel", "family": family, "driver": "run", "spec": "TraceRel",
            "count": count(quick, thorough, shards), "context": "grp", "limit": 150}


def steps(family="steps", quick=150, thorough=1000, shards=(2, 8)):
    """Updates of an engine's state with arbitrary cycles, against module TraceStep"""
    return {"name": f"step-{family}", "gen": "GenStep", "family": family, "driver": "step", "spec": "TraceStep",
            "count": count(quick, thorough, shards), "optional": True}


def documents(family, quick, thorough, shards=(4, 24)):
    """Configuration documents and the engines built from them, against module TraceCfg"""
    return {"name": f"cfg-{family}", "gen": "GenCfg", "family": family, "driver": "config", "spec": "TraceCfg",
            "count": count(quick, thorough, shards)}


def histories(quick=9, thorough=60):
    """Many engines in one process, against module TraceHist"""
    return {"name": "history", "gen": "GenHist", "family": "history", "driver": "history", "spec": "TraceHist",
            "count": count(quick, thorough), "context": "fam", "threads": 1, "limit": 300}


ITER = [iters("onelaw", 1, 1, (1, 1)), iters("laws"), iters("affine"), iters("passes", 100, 500),
        iters("long", 12, 60), iters("slow", 10, 60)]
ENGINE_MODEL = {"name": "engine", "module": "MCEngine", "cfg": {"quick": "MCEngine", "thorough": "MCEngine2"}}
ENGINE_PROOF = {"name": "proof", "proof": "EngineProof"}
HISTORY_MODEL = {"name": "histories", "module": "MCHistory", "cfg": {"quick": "MCHistory", "thorough": "MCHistory2"}}
FLOW_MODEL = {"name": "flow", "module": "FlowDir", "cfg": "MCFlowDir"}

COARSE = runs("coarse", 100, 600)

RULE = ("scenarios drawn by the specification (module Scenarios) from the seed; a scenario counts when it differs "
        "from every other one of the run")

CHECKS = {
    "C01": {"level": "model_checking", "stages": [ENGINE_MODEL, ENGINE_PROOF, *ITER, runs(), runs("loose", 150, 500), steps()]},
    "C02": {"level": "model_checking", "stages": [ENGINE_MODEL, ENGINE_PROOF, *ITER, steps()]},
    "C03": {"level": "exploration", "rule": RULE, "stages": [runs(), runs("loose", 150, 500), runs("slow", 20, 150), COARSE]},
    "C04": {"level": "exploration", "rule": RULE, "stages": [runs(), steps(), COARSE]},
    "C05": {"level": "exploration", "rule": RULE, "stages": [runs(), runs("ode", 60, 300), COARSE]},
    "C06": {"level": "exploration", "rule": RULE, "stages": [runs(), runs("slow", 20, 150), COARSE]},
    "C07": {"level": "exploration", "rule": RULE, "stages": [runs(), steps(), COARSE]},
    "C08": {"level": "model_checking", "stages": [FLOW_MODEL, runs(quick=40), runs("flip", 30, 200, limit=120), COARSE]},
    "C09": {"level": "exploration", "rule": RULE, "stages": [laws("drive", 400, 2000)]},
    "C10": {"level": "exploration", "rule": RULE, "stages": [laws("gas", 100, 500)]},
    "C11": {"level": "exploration", "rule": RULE, "stages": [documents("meaning", 48, 256)]},
    "C12": {"level": "exploration", "rule": RULE, "stages": [documents("legacy", 48, 192)]},
    "C13": {"level": "exploration", "rule": RULE, "stages": [documents("damaged", 20, 100, (12, 12))]},
    "C14": {"level": "exploration", "rule": RULE, "stages": [relations("solver", 40, 150)]},
    "C15": {"level": "exploration", "rule": RULE, "stages": [HISTORY_MODEL, histories()]},
    "C16": {"level": "exploration", "rule": RULE, "stages": [runs(), runs("nodrop", 30, 100), steps(), COARSE]},
    "C17": {"level": "exploration", "rule": RULE, "stages": [runs(quick=30), runs("grid", 300, 1000), COARSE]},
    "C18": {"level": "exploration", "rule": RULE, "stages": [laws("hx", 600, 2000)]},
    "C19": {"level": "exploration", "rule": RULE, "stages": [runs(), steps(), steps("place", 40, 400), COARSE]},
    "C20": {"level": "exploration", "rule": RULE, "stages": [relations("scale", 50, 200)]},
    "C21": {"level": "exploration", "rule": RULE, "stages": [runs(), runs("flip", 30, 200, limit=120), wild("extreme"),
                                                              wild("fault"), iters("laws"), steps()]},
    "C22": {"level": "exploration", "rule": RULE, "stages": [calls(), steps()]},
    "C23": {"level": "exploration", "rule": RULE, "stages": [relations("resolution", 60, 300)]},
    "C24": {"level": "exploration", "rule": RULE, "stages": [relations("bystanders", 60, 250)]},
    "C25": {"level": "exploration", "rule": RULE, "stages": [relations("mirror", 100, 500), relations("shift", 100, 500)]},
    "C26": {"level": "exploration", "rule": RULE, "stages": [relations("gas", 60, 300)]},
}
