//! Calls the functions of single components and fluids

use harness::*;
use serde_json::json;

/// What an exchanger reports in a state
fn exchanger(comp: &str, spec: &J, s: &J) -> J {
    match comp {
        "chx" => chx_out(&*make_chx(spec), s),
        "hhx" => hhx_out(&*make_hhx(spec), s),
        _ => regen_out(&*make_regen(spec), s),
    }
}

fn calls(sc: &J) -> Vec<J> {
    match sc["what"].as_str().unwrap() {
        "fluid" => {
            let f = AnyFluid::new(&sc["fluid"]);
            let e = num(&sc["e"]);
            sc["states"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let (t, p) = (num(&s["T"]), num(&s["P"]));
                    json!({"ev": "props", "at": fluid_at(&f, t, p),
                        "Tu": fluid_at(&f, t * (1. + e), p), "Td": fluid_at(&f, t * (1. - e), p),
                        "Pu": fluid_at(&f, t, p * (1. + e)), "Pd": fluid_at(&f, t, p * (1. - e))})
                })
                .collect()
        }
        "ws" => {
            let w = make_ws(&sc["ws"]);
            let p = &sc["pres"];
            let s = ws_state(num(&p["avg"]), num(&p["max"]), num(&p["min"]), num(&p["zero"]));
            let mut out = vec![ws_out(&*w, &s)];
            let vols = w.volumes(&s);
            let (h, period) = (num(&sc["h"]), num(&sc["period"]));
            for t in sc["times"].as_array().unwrap() {
                let t = num(t);
                out.push(json!({"ev": "volumes", "t": st(t), "at": volumes_at(&vols, t), "up": volumes_at(&vols, t + h),
                    "down": volumes_at(&vols, t - h), "next": volumes_at(&vols, t + period)}));
            }
            out
        }
        "hx" => {
            let comp = sc["comp"].as_str().unwrap();
            sc["states"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let mut more = sc["hx"].clone();
                    if !sc["more"].is_null() {
                        more["UA"] = sc["more"].clone();
                    }
                    json!({"ev": "exchanger", "state": s, "out": exchanger(comp, &sc["hx"], s),
                           "more": exchanger(comp, &more, s)})
                })
                .collect()
        }
        other => panic!("unknown call {other}"),
    }
}

fn one(i: usize, sc: &J) -> Vec<J> {
    let mut events = vec![json!({"ev": "begin", "i": i, "sc": sc})];
    match guarded(|| calls(sc)) {
        Ok(mut more) => {
            events.append(&mut more);
            events.push(json!({"ev": "end", "i": i, "out": "ok", "msg": ""}));
        }
        Err(msg) => events.push(json!({"ev": "end", "i": i, "out": "panic", "msg": msg})),
    }
    events
}

fn hang(i: usize, sc: &J) -> Vec<J> {
    vec![json!({"ev": "begin", "i": i, "sc": sc}), json!({"ev": "end", "i": i, "out": "hang", "msg": ""})]
}

fn main() {
    drive(one, hang);
}
