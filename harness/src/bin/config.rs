//! Reads configuration documents and reports what became of them

use harness::{docs::*, *};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use sett_rs::{
    api::{run_engine, RunResults},
    chx, fluid, hhx, regen,
    types::{RunInputs, RunSettings},
    ws, Components, Config, Engine, Legacy, LuSolver,
};

// ---- what became of them ------------------------------------------------------

fn read<'de, T: serde::Deserialize<'de>>(doc: &str, format: &str) -> (String, Option<T>) {
    match guarded(|| parse_config::<T>(doc, format)) {
        Ok(Ok(c)) => ("ok".into(), Some(c)),
        Ok(Err(_)) => ("refused".into(), None),
        Err(_) => ("panic".into(), None),
    }
}

fn components_out(c: &Components, sc: &J) -> J {
    let s = ws_state(2e6, 3e6, 1e6, 1.5e6);
    let vols = c.ws.volumes(&s);
    let times: Vec<J> =
        sc["times"].as_array().unwrap().iter().map(|t| volumes_at(&vols, num(t))).collect();
    json!({"chx": chx_out(&*c.chx, &sc["states"]["chx"]), "hhx": hhx_out(&*c.hhx, &sc["states"]["hhx"]),
           "regen": regen_out(&*c.regen, &sc["states"]["regen"]), "ws": ws_out(&*c.ws, &s), "volumes": times})
}

fn settings_out(s: &RunSettings, i: &RunInputs) -> J {
    json!({"n": s.resolution.to_string(), "iabs": st(s.loop_tol.inner.abs), "irel": st(s.loop_tol.inner.rel),
           "oabs": st(s.loop_tol.outer.abs), "orel": st(s.loop_tol.outer.rel), "dabs": st(s.ode_tol.abs),
           "drel": st(s.ode_tol.rel), "imax": s.max_iters.inner.to_string(), "omax": s.max_iters.outer.to_string(),
           "p": st(i.pres_zero), "ts": st(i.temp_sink), "th": st(i.temp_source)})
}

fn by_hand(engine: &J) -> J {
    outcome(guarded(|| {
        let e = Engine::run::<LuSolver>(
            make_components(engine),
            AnyFluid::new(&engine["fluid"]),
            make_inputs(engine),
            make_settings(engine),
        )?;
        Ok(RunResults::from(e))
    }))
}

/// Run the engine with its inputs moved by a rounding error or two, which shows
/// whether its results are determined at all
fn by_hand_nearby(engine: &J) -> Vec<J> {
    let moved = |key: &str, by: f64| {
        let mut e = engine.clone();
        e["in"][key] = json!(st(num(&engine["in"][key]) * (1.0 + by)));
        by_hand(&e)
    };
    vec![moved("p", 4e-16), moved("p", -4e-16), moved("th", 4e-16), moved("ts", -4e-16)]
}

/// Read the document as a modern configuration (`legacy`: after conversion)
fn config(sc: &J, key: &str, format: &str, legacy: bool) -> (String, Option<Config>) {
    let Some(doc) = text(&sc[key], format) else { return ("inexpressible".into(), None) };
    if legacy {
        let (out, c) = read::<Legacy>(&doc, format);
        (out, c.map(Config::from))
    } else {
        read::<Config>(&doc, format)
    }
}

/// The numbers in a text
fn numbers(text: &str) -> Vec<String> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || "+-._".contains(c)))
        .filter(|w| w.parse::<f64>().is_ok())
        .map(String::from)
        .collect()
}

/// The lists of numbers in a text, each with the name before it: `name: [1, 2]`
fn lists(text: &str) -> Value {
    let mut found = Vec::new();
    for (at, _) in text.match_indices('[') {
        let name = text[..at].trim_end().trim_end_matches(':');
        let start = name.rfind(|c: char| !(c.is_alphanumeric() || c == '_')).map_or(0, |i| i + 1);
        let body = &text[at + 1..at + text[at..].find(']').unwrap_or(text.len() - at)];
        if !name[start..].is_empty() {
            found.push(json!([&name[start..], numbers(body)]));
        }
    }
    found.into()
}

/// What `run_from_config` prints about a document, in a process of its own
fn print_apart(doc: &str, format: &str, legacy: bool) -> (String, Vec<String>, Value) {
    static FILES: AtomicUsize = AtomicUsize::new(0);
    let name = format!("document-{}-{}", std::process::id(), FILES.fetch_add(1, Ordering::SeqCst));
    let path = std::env::temp_dir().join(name);
    std::fs::write(&path, doc).expect("a file for the document");
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--print", format, if legacy { "legacy" } else { "modern" }])
        .arg(&path)
        .stderr(std::process::Stdio::null())
        .output()
        .expect("a process of its own");
    let _ = std::fs::remove_file(&path);
    let out = if child.status.success() { "ok" } else { "failed" };
    let text = String::from_utf8_lossy(&child.stdout);
    (out.into(), numbers(&text), lists(&text))
}

fn print(format: &str, kind: &str, path: &str) {
    let doc = std::fs::read_to_string(path).unwrap();
    if kind == "legacy" {
        sett_rs::run_from_config(parse_config::<Legacy>(&doc, format).unwrap());
    } else {
        sett_rs::run_from_config(parse_config::<Config>(&doc, format).unwrap());
    }
}

fn meaning(sc: &J, format: &str, legacy: bool) -> Vec<J> {
    let read = || config(sc, "doc", format, legacy);
    let (out, c) = read();
    let mut events = vec![];
    let mut e = json!({"ev": "read", "format": format, "out": out});
    if legacy {
        let (modern_out, modern) = config(sc, "modern", format, false);
        e["modern"] = J::from(modern_out);
        e["same"] = J::from(c.is_some() && c == modern);
    }
    events.push(e);
    let Some(c) = c else { return events };
    if sc["engine"].is_null() {
        return events;
    }
    let built = guarded(|| {
        let fluid_name = match &c.engine.fluid {
            fluid::Config::Hydrogen(_) => "hydrogen",
            fluid::Config::Helium(_) => "helium",
            #[allow(unreachable_patterns)]
            _ => "other",
        };
        let components = Components::from(c.engine.components);
        let settings = settings_out(&c.solver.into(), &c.conditions.into());
        json!({"c": components_out(&components, sc), "s": settings, "gas": fluid_name})
    });
    let mut e = json!({"ev": "built", "format": format, "ok": built.is_ok()});
    if let Ok(b) = built {
        e["b"] = b;
    }
    events.push(e);
    if sc["run"].as_bool().unwrap_or(false) {
        let run = outcome(guarded(|| run_engine(read().1.unwrap())));
        let api = run["out"].clone();
        let hand = by_hand(&sc["engine"]);
        let nearby = if run == hand { vec![] } else { by_hand_nearby(&sc["engine"]) };
        events.push(json!({"ev": "ran", "format": format, "api": run, "hand": hand, "nearby": nearby}));
        let figures = guarded(|| run_engine(read().1.unwrap()).map(|r| format!("{r:?}")));
        let figures = figures.ok().and_then(|r| r.ok()).unwrap_or_default();
        let (out, printed, list) = print_apart(&text(&sc["doc"], format).unwrap(), format, legacy);
        events.push(json!({"ev": "printed", "format": format, "api": api, "out": out, "printed": printed,
                           "figures": numbers(&figures), "lists": list, "known": lists(&figures)}));
    }
    events
}

fn defaults(sc: &J) -> Vec<J> {
    let base = || config(sc, "doc", "toml", false).1.expect("a complete document").engine.components;
    let mut events = vec![];
    let mut both = |name: &str, a: J, b: J| {
        events.push(json!({"ev": "default", "name": name, "conf": a, "comp": b}));
    };
    let s = &sc["states"];
    macro_rules! exchanger {
        ($comp:ident, $out:ident, $model:ident) => {
            let mut c = base();
            c.$comp = $comp::Config::$model(Default::default());
            let c = Components::from(c);
            let d = $comp::$model::default();
            let key = stringify!($comp);
            both(&format!("{key} {}", stringify!($model)), $out(&*c.$comp, &s[key]), $out(&d, &s[key]));
        };
    }
    exchanger!(chx, chx_out, FixedApproach);
    exchanger!(hhx, hhx_out, FixedApproach);
    exchanger!(regen, regen_out, FixedApproach);
    exchanger!(chx, chx_out, FixedConductance);
    exchanger!(hhx, hhx_out, FixedConductance);
    exchanger!(regen, regen_out, FixedConductance);
    let drive = |w: &dyn ws::WorkingSpaces| {
        let s = ws_state(2e6, 3e6, 1e6, 1.5e6);
        let vols = w.volumes(&s);
        let mut o = ws_out(w, &s);
        for (k, t) in sc["times"].as_array().unwrap().iter().enumerate() {
            for (key, x) in volumes_at(&vols, num(t)).as_object().unwrap() {
                o[format!("{key}{k}")] = x.clone();
            }
        }
        o
    };
    macro_rules! spaces {
        ($config:ident, $model:ident) => {
            let mut c = base();
            c.ws = ws::Config::$config(Default::default());
            let c = Components::from(c);
            both(stringify!($model), drive(&*c.ws), drive(&ws::$model::default()));
        };
    }
    spaces!(Rhombic, RhombicDrive);
    events
}

fn one(i: usize, sc: &J) -> Vec<J> {
    let mut begin = sc.clone();
    begin.as_object_mut().unwrap().retain(|k, _| k != "doc" && k != "modern");
    let mut events = vec![json!({"ev": "begin", "i": i, "sc": begin})];
    let what = sc["what"].as_str().unwrap();
    let r = guarded(|| {
        if what == "defaults" {
            return defaults(sc);
        }
        let mut out = vec![];
        for f in sc["formats"].as_array().unwrap() {
            let f = f.as_str().unwrap();
            match what {
                "modern" => out.append(&mut meaning(sc, f, false)),
                "legacy" => out.append(&mut meaning(sc, f, true)),
                "damaged" => {
                    let (o, _) = config(sc, "doc", f, sc["kind"] == "legacy");
                    out.push(json!({"ev": "read", "format": f, "out": o}));
                }
                _ => {
                    let (o, c) = config(sc, "doc", f, false);
                    let ran = c.map_or("refused".into(), |c| outcome(guarded(|| run_engine(c)))["out"].clone());
                    out.push(json!({"ev": "tried", "format": f, "out": o, "ran": ran}));
                    if o == "ok" {
                        let (o, printed, _) = print_apart(&text(&sc["doc"], f).unwrap(), f, false);
                        out.push(json!({"ev": "printed", "format": f, "api": ran, "out": o,
                                        "printed": printed, "figures": []}));
                    }
                }
            }
        }
        out
    });
    match r {
        Ok(mut more) => {
            events.append(&mut more);
            events.push(json!({"ev": "end", "i": i, "out": "ok", "msg": ""}));
        }
        Err(msg) => events.push(json!({"ev": "end", "i": i, "out": "panic", "msg": msg})),
    }
    events
}

fn hang(i: usize, sc: &J) -> Vec<J> {
    vec![json!({"ev": "begin", "i": i, "sc": sc}), json!({"ev": "end", "i": i, "out": "hang", "msg": ""})]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--print" {
        return print(&args[2], &args[3], &args[4]);
    }
    drive(one, hang);
}
