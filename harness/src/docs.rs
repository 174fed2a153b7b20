//! Writes configuration documents and the outcome of running them

use crate::{strs, J};
use serde_json::json;
use sett_rs::{api::RunResults, types::RunError};

// ---- writing documents ------------------------------------------------------

pub fn entries(v: &J) -> Vec<(&str, &J)> {
    v["f"].as_array().unwrap().iter().map(|e| (e["k"].as_str().unwrap(), &e["v"])).collect()
}

/// A number that the format can express
fn number(text: &str, format: &str) -> String {
    match (text, format) {
        ("Infinity", "toml") => "inf".into(),
        ("Infinity", _) => panic!("no infinity in {format}"),
        (t, _) if t.contains(['.', 'e', 'E']) => t.replace('E', "e"),
        (t, _) => format!("{t}.0"),
    }
}

fn json_text(v: &J) -> String {
    match v["t"].as_str().unwrap() {
        "n" => number(v["v"].as_str().unwrap(), "json"),
        "i" => v["v"].as_str().unwrap().into(),
        "w" => format!("{:?}", v["v"].as_str().unwrap()),
        "z" => "null".into(),
        "l" => format!("[{}]", list(v).iter().map(|x| json_text(x)).collect::<Vec<_>>().join(", ")),
        _ => {
            let all: Vec<_> =
                entries(v).iter().map(|(k, x)| format!("{k:?}: {}", json_text(x))).collect();
            format!("{{{}}}", all.join(", "))
        }
    }
}

fn list(v: &J) -> Vec<&J> {
    v["f"].as_array().unwrap().iter().collect()
}

fn toml_value(v: &J) -> Option<String> {
    Some(match v["t"].as_str().unwrap() {
        "n" => number(v["v"].as_str().unwrap(), "toml"),
        "i" => v["v"].as_str().unwrap().into(),
        "w" => format!("{:?}", v["v"].as_str().unwrap()),
        "z" => return None, // there is no null
        "l" => {
            let all: Option<Vec<_>> = list(v).iter().map(|x| toml_value(x)).collect();
            format!("[{}]", all?.join(", "))
        }
        _ => {
            let all: Option<Vec<_>> = entries(v)
                .iter()
                .map(|(k, x)| toml_value(x).map(|x| format!("{k} = {x}")))
                .collect();
            format!("{{ {} }}", all?.join(", "))
        }
    })
}

/// Tables down to a depth get a header each
fn toml_text(v: &J, path: &str, depth: usize, out: &mut String) -> Option<()> {
    let (mut plain, mut nested) = (vec![], vec![]);
    for (k, x) in entries(v) {
        if x["t"] == "t" && depth > 0 {
            nested.push((k, x));
        } else {
            plain.push((k, x));
        }
    }
    if !path.is_empty() {
        out.push_str(&format!("[{path}]\n"));
    }
    for (k, x) in plain {
        out.push_str(&format!("{k} = {}\n", toml_value(x)?));
    }
    for (k, x) in nested {
        let p = if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
        toml_text(x, &p, depth - 1, out)?;
    }
    Some(())
}

fn yaml_text(v: &J, indent: usize) -> String {
    let pad = "  ".repeat(indent);
    entries(v)
        .iter()
        .map(|(k, x)| {
            if x["t"] == "t" && !x["f"].as_array().unwrap().is_empty() {
                format!("{pad}{k}:\n{}", yaml_text(x, indent + 1))
            } else {
                format!("{pad}{k}: {}\n", json_text(x))
            }
        })
        .collect()
}

/// `None` if the format cannot express the document
pub fn text(v: &J, format: &str) -> Option<String> {
    match format {
        "toml" => {
            let mut out = String::new();
            toml_text(v, "", 3, &mut out)?;
            Some(out)
        }
        "yaml" => Some(yaml_text(v, 0)),
        _ => Some(json_text(v)),
    }
}

/// All figures of a result, in groups of the same kind
pub fn figures(r: &RunResults) -> J {
    let (t, p, q, w, v) = (&r.temperature, &r.pressure, &r.heat_flow, &r.power, &r.values);
    json!([
        strs(&[t.sink, t.chx, t.regen_cold, t.regen_avg, t.regen_hot, t.hhx, t.source]),
        strs(&[p.avg, p.max, p.min, p.t_zero]),
        strs(&[q.input, q.rejection, q.chx, q.hhx, w.ideal_indicated, w.indicated, w.shaft, w.net]),
        strs(&[q.regen]),
        strs(&[r.mass_flow.chx, r.mass_flow.regen, r.mass_flow.hhx]),
        strs(&[r.shaft_torque]),
        strs(&[r.efficiency.mechanical]),
        strs(&v.time),
        strs(&v.P),
        strs(&v.P_c),
        strs(&v.P_e),
        strs(&v.T_c),
        strs(&v.T_e),
        strs(&v.m_dot_ck),
        strs(&v.m_dot_kr),
        strs(&v.m_dot_rl),
        strs(&v.m_dot_le),
        strs(&v.Q_dot_k),
        strs(&v.Q_dot_l),
        strs(&v.Q_dot_r),
    ])
}

pub fn outcome(r: Result<Result<RunResults, RunError>, String>) -> J {
    match r {
        Ok(Ok(r)) => json!({"out": "ok", "fig": figures(&r)}),
        Ok(Err(RunError::InnerLoop)) => json!({"out": "inner"}),
        Ok(Err(RunError::OuterLoop)) => json!({"out": "outer"}),
        #[allow(unreachable_patterns)]
        Ok(Err(_)) => json!({"out": "other"}),
        Err(_) => json!({"out": "panic"}),
    }
}

