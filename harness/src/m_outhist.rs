//! Output history: the store itself (mode ring), and a session that records and uses outputs (mode shell).
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::shell::Shell;
use dsh_types::Context;
use dsh_types::output_history::{OutputEntry, OutputHistory};
use nix::unistd::{getpgrp, getpid};
use serde_json::{Value, json};

const MARK: &str = "\n... (truncated)";

pub struct Ring {
    h: OutputHistory,
}

fn text(v: &Value) -> String {
    s(v, "c").repeat(i(v, "n") as usize)
}

/// [character, count, cut]
fn look(t: &str) -> (Value, Value, Value) {
    let (body, cut) = match t.strip_suffix(MARK) {
        Some(b) => (b, true),
        None => (t, false),
    };
    let first = body.chars().next();
    match first {
        None => (json!(""), json!(0), json!(cut)),
        Some(c) if body.chars().all(|x| x == c) => (json!(c.to_string()), json!(body.chars().count()), json!(cut)),
        _ => (json!(body), json!(-1), json!(cut)),
    }
}

fn show(e: &OutputEntry) -> Value {
    let (oc, on, ot) = look(&e.stdout);
    let (ec, en, et) = look(&e.stderr);
    json!([e.command.len(), oc, on, ot, ec, en, et, e.exit_code])
}

impl Ring {
    pub fn new(cfg: &Value) -> Self {
        Ring { h: Self::make(&cfg["lim"]) }
    }
    fn make(l: &Value) -> OutputHistory {
        OutputHistory::with_capacity(i(l, "n") as usize, i(l, "per") as usize, i(l, "tot") as usize)
    }
    fn state(&self) -> Value {
        json!({"ents": self.h.iter().map(show).collect::<Vec<_>>(), "total": self.h.total_size(), "len": self.h.len()})
    }
}

impl Sut for Ring {
    fn step(&mut self, a: &Value) -> Value {
        match s(a, "op").as_str() {
            "new" => {
                self.h = Self::make(&a["lim"]);
                self.state()
            }
            "push" => {
                let e = &a["e"];
                self.h.push(OutputEntry::new("k".repeat(i(e, "k") as usize), text(&e["o"]), text(&e["e"]), i(e, "x") as i32));
                self.state()
            }
            "clear" => {
                self.h.clear();
                self.state()
            }
            "get" => {
                let n = i(a, "i") as usize;
                let e = self.h.get(n);
                if e.map(|e| e.stdout.as_str()) != self.h.get_stdout(n) || e.map(|e| e.stderr.as_str()) != self.h.get_stderr(n) {
                    return json!({"mismatch": true});
                }
                match e {
                    None => json!({"none": true}),
                    Some(e) => json!({"one": [show(e)]}),
                }
            }
            o => panic!("src/m_: op {o}"),
        }
    }
}

pub struct Session {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    base: String,
}

fn lines(t: &str) -> Value {
    let z = t.ends_with('\n');
    let body = t.strip_suffix('\n').unwrap_or(t);
    let l: Vec<&str> = if t.is_empty() { vec![] } else { body.split('\n').collect() };
    json!({"l": l, "z": z})
}

/// a line of out --list:   [i] n lines, b bytes: first line
fn preview(l: &str) -> Option<Value> {
    let (i, rest) = l.strip_prefix("  [")?.split_once("] ")?;
    let (n, rest) = rest.split_once(" lines, ")?;
    let (b, first) = rest.split_once(" bytes: ")?;
    i.parse::<u32>().ok()?;
    b.parse::<u64>().ok()?;
    Some(json!({"n": n.parse::<u64>().ok()?, "first": first}))
}

impl Session {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = std::path::PathBuf::from(std::env::var("HOME").unwrap()).parent().unwrap().join(format!("r{n}"));
        std::fs::create_dir_all(&root).unwrap();
        std::env::set_current_dir(&root).unwrap();
        let path = std::env::var("PATH").unwrap();
        if !path.starts_with(&s(cfg, "bin")) {
            unsafe { std::env::set_var("PATH", format!("{}:{path}", s(cfg, "bin"))) };
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let mut shell = Shell::new(Environment::new());
        shell.set_signals();
        Session { shell, rt, base: root.to_string_lossy().to_string() }
    }
}

impl Sut for Session {
    fn step(&mut self, a: &Value) -> Value {
        let file = format!("{}/seen", self.base);
        let _ = std::fs::remove_file(&file);
        let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
        ctx.interactive = false;
        ctx.save_history = false;
        let Session { shell, rt, .. } = self;
        let line = s(a, "line");
        let r = rt.block_on(async { shell.eval_str(&mut ctx, line, false).await });
        let rc = match &r {
            Ok(c) => *c,
            Err(e) => return json!({"error": e.to_string()}),
        };
        let ents: Vec<Value> = shell
            .environment
            .read()
            .output_history
            .iter()
            .map(|e| json!({"o": lines(&e.stdout), "e": lines(&e.stderr), "x": e.exit_code}))
            .collect();
        let seen = std::fs::read_to_string(&file).ok();
        let seen: Vec<Value> = match (s(a, "read").as_str(), seen) {
            ("args", Some(t)) => t.split_terminator('\0').map(lines).collect(),
            ("list", Some(t)) => t.lines().filter_map(preview).collect(),
            ("file", Some(t)) => vec![lines(&t)],
            _ => vec![],
        };
        json!({"rc": rc, "ents": ents, "seen": seen})
    }
}
