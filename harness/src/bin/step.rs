//! Takes the state of an engine through chosen cycles, one update at a time

use harness::*;
use serde_json::json;
use sett_rs::{fluid::Fluid, types::ConvergenceTolerance, Engine, LuSolver};

/// Any engine, to be turned into the one of the scenario
fn some_engine() -> Engine<AnyFluid> {
    let hx = |dt: &str| json!({"kind": "fa", "vol": "1e-4", "R_hyd": "0", "DT": dt});
    let sc = json!({"ws": {"kind": "sin", "f": 50, "phase": 90, "vcc": 1e-4, "vsc": 1e-4, "vce": 1e-4, "vse": 1e-4},
        "chx": hx("40"), "regen": hx("10"), "hhx": hx("100"), "fluid": {"kind": "helium"},
        "in": {"p": 1e6, "ts": 300, "th": 900},
        "set": {"n": 2, "iabs": "1e9", "irel": "1e9", "oabs": "1e9", "orel": "1e9", "dabs": "1e-3", "drel": "1e-3",
                "imax": 1, "omax": 1}});
    match Engine::run::<LuSolver>(
        make_components(&sc),
        AnyFluid::new(&sc["fluid"]),
        make_inputs(&sc),
        make_settings(&sc),
    ) {
        Ok(e) => e,
        Err(_) => panic!("an engine with any tolerance does not run"),
    }
}

fn series(v: &J) -> Vec<f64> {
    v.as_array().unwrap().iter().map(num).collect()
}

macro_rules! set {
    ($to:expr, $from:expr, $($field:ident),+) => { $($to.$field = num(&$from[stringify!($field)]);)+ };
}

macro_rules! get {
    ($from:expr, $($field:ident),+) => { json!({$(stringify!($field): st($from.$field)),+}) };
}

fn steps(i: usize, sc: &J) -> Vec<J> {
    let mut events = vec![];
    let log = Log::default();
    let Engine { mut state, mut values, .. } = some_engine();
    let components = logged_components(sc, &log);
    let s = &sc["state"];
    state.fluid = AnyFluid::new(&sc["fluid"]);
    set!(state.pres, s["pres"], avg, max, min, t_zero);
    set!(state.temp, s["temp"], sink, chx, hhx, source);
    set!(state.temp.regen, s["temp"], cold, avg, hot);
    set!(state.mass_flow, s["mass"], chx, regen, hhx);
    set!(state.heat_flow, s["heat"], chx, regen, hhx);
    state.regen_imbalance.0 = num(&s["imb"]);
    let tol = ConvergenceTolerance { abs: num(&sc["tol"]["abs"]), rel: num(&sc["tol"]["rel"]) };
    let fluid = AnyFluid::new(&sc["fluid"]);
    for (k, c) in sc["cycles"].as_array().unwrap().iter().enumerate() {
        values.time = series(&c["t"]);
        values.P = series(&c["P"]);
        values.T_c = series(&c["Tc"]);
        values.T_e = series(&c["Te"]);
        values.m_dot_ck = series(&c["ck"]);
        values.m_dot_kr = series(&c["kr"]);
        values.m_dot_rl = series(&c["rl"]);
        values.m_dot_le = series(&c["le"]);
        values.Q_dot_k = series(&c["Qk"]);
        values.Q_dot_r = series(&c["Qr"]);
        values.Q_dot_l = series(&c["Ql"]);
        log.borrow_mut().clear();
        let (out, new) = match state.update(&components, &values, tol) {
            Ok(s) => ("changed", s),
            Err(s) => ("settled", s),
        };
        state = new;
        let calls: Vec<J> = log
            .borrow_mut()
            .drain(..)
            .filter(|c| c["ev"] == "call" && c["op"] == "approach")
            .map(|mut c| {
                let (t, p) = (num(&c["hx"]["temp"]), num(&c["hx"]["pres"]));
                c["own"] = json!({"d": st(fluid.dens(t, p)), "cp": st(fluid.cp(t, p))});
                c
            })
            .collect();
        let (t, r) = (&state.temp, &state.temp.regen);
        events.push(json!({"ev": "step", "k": k + 1, "out": out, "calls": calls, "state": {
            "pres": get!(state.pres, avg, max, min, t_zero),
            "temp": {"sink": st(t.sink), "chx": st(t.chx), "cold": st(r.cold), "avg": st(r.avg), "hot": st(r.hot),
                     "hhx": st(t.hhx), "source": st(t.source)},
            "mass": get!(state.mass_flow, chx, regen, hhx), "heat": get!(state.heat_flow, chx, regen, hhx),
            "imb": st(state.regen_imbalance.0)}}));
    }
    let engine = Engine { components: make_components(sc), state, values };
    report(i, sc, engine, &Log::default(), &mut events);
    events
}

fn placements(sc: &J) -> Vec<J> {
    let mut imbalance = some_engine().state.regen_imbalance;
    sc["places"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            imbalance.0 = num(&p["imb"]);
            let r = imbalance.regen_temp(num(&p["tk"]), num(&p["tl"]), num(&p["a"]));
            json!({"ev": "placed", "at": p, "cold": st(r.cold), "avg": st(r.avg), "hot": st(r.hot)})
        })
        .collect()
}

fn one(i: usize, sc: &J) -> Vec<J> {
    let mut events = vec![json!({"ev": "begin", "i": i, "sc": sc})];
    let r = guarded(|| {
        if sc["what"] == "place" {
            let mut out = placements(sc);
            out.push(finish(i, "ok", ""));
            out
        } else {
            steps(i, sc)
        }
    });
    match r {
        Ok(mut more) => events.append(&mut more),
        Err(msg) => events.push(finish(i, "panic", &msg)),
    }
    events
}

fn hang(i: usize, sc: &J) -> Vec<J> {
    vec![json!({"ev": "begin", "i": i, "sc": sc}), finish(i, "hang", "")]
}

fn main() {
    drive(one, hang);
}
