//! Conformance harness: executes histories of abstract actions on the real code.
//!
//! stdin: one run per line, {"cfg":..., "acts":[...]}; stdout: for each act a line "@@o <json>" with
//! what was observed, then "@@end".  A panic of the code under test is an observation.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

mod m_agent;
mod m_cmdlist;
mod m_config;
mod m_lisp;
mod m_editor;
mod m_history;
mod m_outhist;
mod m_safety;
mod m_secrets;
mod m_words;
mod util;

pub trait Sut {
    fn step(&mut self, act: &Value) -> Value;
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn make(module: &str, cfg: &Value, n: usize) -> Box<dyn Sut> {
    match module {
        "agent" => Box::new(m_agent::H::new(cfg, n)),
        "editor" => Box::new(m_editor::H::new(cfg, n)),
        "config" => Box::new(m_config::H::new(cfg, n)),
        "lisp" => Box::new(m_lisp::H::new(cfg, n)),
        "cmdlist" => Box::new(m_cmdlist::H::new(cfg, n)),
        "secrets" => Box::new(m_secrets::H::new(cfg, n)),
        "words" => Box::new(m_words::H::new(cfg, n)),
        "safety" => Box::new(m_safety::H::new(cfg, n)),
        "history" => Box::new(m_history::H::new(cfg, n)),
        "outhist" if cfg["mode"] == "ring" => Box::new(m_outhist::Ring::new(cfg)),
        "outhist" => Box::new(m_outhist::Session::new(cfg, n)),
        _ => panic!("unknown module {module}"),
    }
}

fn emit(s: &str) {
    let out = std::io::stdout();
    let mut o = out.lock();
    let _ = o.write_all(format!("\n{s}\n").as_bytes());
    let _ = o.flush();
}

fn main() {
    let me = std::env::args().next().unwrap_or_default();
    if !me.ends_with("/vh") && me != "vh" {
        if me.ends_with("/mcpstub") {
            m_agent::mcp();
        }
        m_words::stub();
    }
    let module = std::env::args().nth(1).expect("module");
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|p| p.into_inner()) = format!("{msg} at {loc}");
    }));
    let stdin = std::io::stdin();
    let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
    for (n, line) in lines.iter().enumerate() {
        let run: Value = serde_json::from_str(line).expect("run");
        let mut sut: Option<Box<dyn Sut>> = None;
        let acts = run["acts"].as_array().cloned().unwrap_or_default();
        for act in &acts {
            let r = catch_unwind(AssertUnwindSafe(|| {
                if sut.is_none() {
                    sut = Some(make(&module, &run["cfg"], n));
                }
                sut.as_mut().unwrap().step(act)
            }));
            match r {
                Ok(v) => emit(&format!("@@o {}", v)),
                Err(_) => {
                    let m = PANIC.lock().unwrap_or_else(|p| p.into_inner()).clone();
                    if m.contains("/verif/harness/") || m.contains("src/m_") {
                        eprintln!("harness bug: {m}");
                        std::process::exit(77);
                    }
                    emit(&format!("@@o {}", json!({ "panic": m })));
                    break;
                }
            }
        }
        let _ = catch_unwind(AssertUnwindSafe(|| drop(sut)));
        emit("@@end");
    }
    std::process::exit(0);
}
