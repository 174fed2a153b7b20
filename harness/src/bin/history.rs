//! Runs many engines in one process, one after another and at the same time,
//! and each of them in a process of its own

use harness::{docs::*, *};
use serde_json::json;
use sett_rs::{api::run_engine, Config};
use std::{
    hash::{Hash, Hasher},
    io::{Read, Write},
    process::{Command, Stdio},
    sync::{Arc, Barrier, Mutex},
};

/// Every bit of the outcome of an engine
fn fingerprint(e: &J) -> (String, String) {
    let all = if e["via"] == "api" {
        let doc = text(&e["doc"], "toml").expect("a document");
        let r = outcome(guarded(|| run_engine(parse_config::<Config>(&doc, "toml").expect("a complete document"))));
        vec![r]
    } else {
        run_one(0, &e["engine"])
    };
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    J::from(all.clone()).to_string().hash(&mut hasher);
    let out = all.last().unwrap()["out"].as_str().unwrap_or("none").to_string();
    (format!("{:016x}", hasher.finish()), out)
}

/// The same in a new process, with or without the environment of this one
fn apart(e: &J, bare: bool) -> (String, String) {
    let mut c = Command::new(std::env::current_exe().expect("a program"));
    c.arg("--apart").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if bare {
        c.env_clear().current_dir("/");
    }
    let mut child = c.spawn().expect("a process");
    child.stdin.take().unwrap().write_all(e.to_string().as_bytes()).expect("a pipe");
    let out = child.wait_with_output().expect("a result").stdout;
    let text = String::from_utf8_lossy(&out).to_string();
    match text.split_once(' ') {
        Some((fp, out)) => (fp.to_string(), out.to_string()),
        None => ("none".into(), "crash".into()),
    }
}

fn one(i: usize, sc: &J) -> Vec<J> {
    let engines = Arc::new(sc["engines"].as_array().unwrap().clone());
    let events = Arc::new(Mutex::new(vec![json!({"ev": "begin", "i": i, "sc": {"fam": sc["fam"], "phases": sc["phases"],
        "engines": engines.len()}})]));
    for (p, phase) in sc["phases"].as_array().unwrap().iter().enumerate() {
        let mode = phase["mode"].as_str().unwrap().to_string();
        let threads = phase["threads"].as_array().unwrap().clone();
        let barrier = Arc::new(Barrier::new(threads.len()));
        let all: Vec<_> = threads
            .into_iter()
            .enumerate()
            .map(|(th, ids)| {
                let (engines, events, barrier, mode) = (engines.clone(), events.clone(), barrier.clone(), mode.clone());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        barrier.wait();
                        for id in ids.as_array().unwrap() {
                            let k = num(id) as usize;
                            let say = |e: J| events.lock().unwrap().push(e);
                            let (phase, th) = (p + 1, th + 1);
                            say(json!({"ev": "start", "phase": phase, "th": th, "k": k}));
                            let (fp, out) = match mode.as_str() {
                                "here" => fingerprint(&engines[k - 1]),
                                _ => apart(&engines[k - 1], mode == "bare"),
                            };
                            say(json!({"ev": "finish", "phase": phase, "th": th, "k": k, "fp": fp, "out": out}));
                        }
                    })
                    .expect("a thread")
            })
            .collect();
        for t in all {
            let _ = t.join();
        }
    }
    let mut events = events.lock().unwrap().clone();
    events.push(finish(i, "ok", ""));
    events
}

fn hang(i: usize, sc: &J) -> Vec<J> {
    vec![
        json!({"ev": "begin", "i": i, "sc": {"fam": sc["fam"], "phases": sc["phases"],
            "engines": sc["engines"].as_array().unwrap().len()}}),
        finish(i, "hang", ""),
    ]
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--apart") {
        std::panic::set_hook(Box::new(|_| {}));
        let mut text = String::new();
        std::io::stdin().read_to_string(&mut text).expect("a scenario");
        let (fp, out) = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || fingerprint(&serde_json::from_str(&text).expect("a scenario")))
            .expect("a thread")
            .join()
            .expect("an outcome");
        print!("{fp} {out}");
        return;
    }
    drive(one, hang);
}
