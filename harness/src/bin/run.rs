//! Runs engines and writes the whole of each result, point by point, together
//! with the properties of the fluid and the working spaces at those points.

use harness::*;
use serde_json::json;
use sett_rs::fluid::Fluid;

/// The cycle of an engine whose components have the given temperatures
///
/// `answers` are the approaches that the regenerator has given so far.
fn cycle_at(sc: &J, tk: f64, tl: f64, avg: f64, answers: &[f64]) -> J {
    let (ts, th) = (num(&sc["in"]["ts"]), num(&sc["in"]["th"]));
    let fits = |a: &&f64| (regen_mean(tk, tl, **a) - avg).abs() < 1e-8 * avg;
    let approach = answers.iter().rev().find(fits).copied().unwrap_or_else(|| {
        // the mean regenerator temperature grows with the approach
        let (mut lo, mut hi) = (-100., tl - tk);
        for _ in 0..200 {
            let mid = 0.5 * (lo + hi);
            if regen_mean(tk, tl, mid) < avg {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        0.5 * (lo + hi)
    });
    let mut sc = sc.clone();
    for (comp, dt) in [("chx", tk - ts), ("regen", approach), ("hhx", th - tl)] {
        let vol = sc[comp]["vol"].clone();
        sc[comp] = json!({"kind": "fa", "vol": vol, "R_hyd": 0, "DT": st(dt)});
    }
    sc["log"] = J::Null;
    for (key, value) in [("oabs", "1e9"), ("orel", "1e9"), ("omax", "2")] {
        sc["set"][key] = J::from(value);
    }
    match execute(&sc, &Log::default()) {
        Ok(Ok(e)) => {
            let s = &e.state;
            json!({"ev": "cycle", "out": "ok", "tk": st(s.temp.chx), "tl": st(s.temp.hhx), "avg": st(s.temp.regen.avg),
                "pres": {"avg": st(s.pres.avg), "max": st(s.pres.max), "min": st(s.pres.min),
                         "zero": st(s.pres.t_zero)},
                "m": {"chx": st(s.mass_flow.chx), "regen": st(s.mass_flow.regen), "hhx": st(s.mass_flow.hhx)},
                "Q": {"chx": st(s.heat_flow.chx), "regen": st(s.heat_flow.regen), "hhx": st(s.heat_flow.hhx)}})
        }
        _ => json!({"ev": "cycle", "out": "failed"}),
    }
}

/// The calls, preceded by the cycles that they refer to
fn with_cycles(sc: &J, calls: Vec<J>) -> Vec<J> {
    let fluid = AnyFluid::new(&sc["fluid"]);
    let mut cycles: Vec<((String, String, String), J)> = vec![];
    let mut out = vec![];
    let mut answers = vec![10.];
    for mut call in calls {
        let op = call["op"].as_str().unwrap_or("").to_string();
        let answer = (call["comp"] == "regen" && (op == "initial" || op == "approach")).then(|| num(&call["ret"]));
        if call["ev"] == "call" && op != "initial" {
            let h = call["hx"].clone();
            let (t, p) = (num(&h["temp"]), num(&h["pres"]));
            call["own"] = json!({"d": st(fluid.dens(t, p)), "cp": st(fluid.cp(t, p))});
            if call["comp"] == "regen" {
                let key = (call["a"].to_string(), call["b"].to_string(), h["temp"].to_string());
                // a cycle that comes back is listed again
                if cycles.last().is_none_or(|(k, _)| *k != key) {
                    let known = cycles.iter().find(|(k, _)| *k == key).map(|(_, c)| c.clone());
                    let c = known.unwrap_or_else(|| cycle_at(sc, num(&call["a"]), num(&call["b"]), t, &answers));
                    cycles.push((key, c));
                }
            }
        }
        answers.extend(answer);
        out.push(call);
    }
    cycles.into_iter().map(|(_, c)| c).chain(out).collect()
}

/// How a failed run ends if it may settle less exactly
///
/// An iteration that cannot come closer than the noise of the integration
/// ends or fails by chance.
fn loosely(i: usize, sc: &J) -> J {
    let mut sc = sc.clone();
    for key in ["iabs", "irel", "oabs", "orel"] {
        sc["set"][key] = st(1e3 * num(&sc["set"][key]));
    }
    run_one(i, &sc).last().unwrap()["out"].clone()
}

fn one(i: usize, sc: &J) -> Vec<J> {
    let mut events = run_one(i, sc);
    if let Some(end) = events.last_mut().filter(|e| !sc["grp"].is_null() && (e["out"] == "inner" || e["out"] == "outer")) {
        end["loose"] = loosely(i, sc);
    }
    if sc["log"].is_null() {
        return events;
    }
    let (calls, others): (Vec<J>, Vec<J>) =
        events.into_iter().partition(|e| e["ev"] == "call" || e["ev"] == "wscall");
    let mut others = others.into_iter();
    let mut all = vec![others.next().unwrap()];
    all.extend(with_cycles(sc, calls));
    all.extend(others);
    all
}

fn hang(i: usize, sc: &J) -> Vec<J> {
    vec![json!({"ev": "begin", "i": i, "sc": sc}), finish(i, "hang", "")]
}

fn main() {
    drive(one, hang);
}
