//! Secrets and the history: a shell with a real history file; what reaches any file is looked at.
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::history::History;
use doge_shell::shell::Shell;
use dsh_types::Context;
use nix::unistd::{getpgrp, getpid};
use parking_lot::Mutex;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct H {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    name: String,
    bg: bool,
    idle: usize,
    root: PathBuf,
}

fn quote(t: &str) -> String {
    format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))
}

fn found(dir: &Path, secrets: &[String]) -> Option<String> {
    for e in std::fs::read_dir(dir).ok()?.flatten() {
        let p = e.path();
        let ft = e.file_type().ok()?;
        if p.file_name().is_some_and(|f| f == "stderr") {
            continue; // what the commands said
        }
        if ft.is_dir() {
            if let Some(x) = found(&p, secrets) {
                return Some(x);
            }
        } else if ft.is_file() {
            let c = std::fs::read(&p).unwrap_or_default();
            for s in secrets {
                if !s.is_empty() && c.windows(s.len()).any(|w| w == s.as_bytes()) {
                    return Some(p.to_string_lossy().to_string());
                }
            }
        }
    }
    None
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = PathBuf::from(std::env::var("HOME").unwrap()).parent().unwrap().to_path_buf();
        std::env::set_current_dir(root.join("work")).unwrap();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let mut h = H { shell: Shell::new(Environment::new()), rt, name: format!("vh_sec_{n}"), bg: b(cfg, "bg"), idle: 0, root };
        h.open();
        h
    }
    fn open(&mut self) {
        let mut hist = History::from_file(&self.name).unwrap();
        hist.load_recent(10000).unwrap();
        if self.bg {
            self.idle = threads();
            hist.start_background_writer();
        }
        self.shell.cmd_history = Some(Arc::new(Mutex::new(hist)));
    }
    fn close(&mut self) {
        self.shell.cmd_history = None;
        for _ in 0..2000 {
            if !self.bg || threads() <= self.idle {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    }
    fn lisp(&self, src: &str) -> Result<String, String> {
        self.shell.lisp_engine.borrow().run(src).map(|v| v.to_string()).map_err(|e| e.to_string())
    }
}

fn stmt(a: &Value) -> String {
    match s(a, "op").as_str() {
        "mode" => format!("(secret-history-mode {})", quote(&s(a, "v"))),
        "kw" => format!("(secret-add-keyword {})", quote(&s(a, "v"))),
        "pat" => format!("(secret-add-pattern {})", quote(&s(a, "v"))),
        "set" => format!("(secret-set {} {})", quote(&s(a, "k")), quote(&s(a, "v"))),
        "get" => format!("(secret-get {})", quote(&s(a, "k"))),
        "clear" => "(secret-clear)".to_string(),
        o => panic!("src/m_: op {o}"),
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        match s(a, "op").as_str() {
            "line" => {
                let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
                ctx.interactive = false;
                ctx.save_history = b(a, "save");
                let line = s(a, "line");
                let H { shell, rt, .. } = self;
                let r = rt.block_on(async { shell.eval_str(&mut ctx, line.clone(), false).await });
                let code = r.unwrap_or(1);
                if b(a, "save") {
                    shell.record_history_outcome(&line, code, std::time::Duration::from_millis(1));
                }
                let mark = s(a, "mark");
                let mem: Vec<String> = {
                    let h = shell.cmd_history.as_ref().unwrap().lock();
                    h.iter().map(|e| e.entry.clone()).filter(|t| t.ends_with(&mark)).collect()
                };
                // a new session sees the same
                self.close();
                let mut db = History::from_file(&self.name).unwrap();
                db.load_recent(10000).unwrap();
                let disk: Vec<(String, i64)> = db
                    .iter()
                    .filter(|e| e.entry.ends_with(&mark))
                    .map(|e| (e.entry.clone(), e.exit_code.map(|x| x as i64).unwrap_or(-1)))
                    .collect();
                drop(db);
                let leak = found(&self.root, &strs(&a["secrets"]));
                self.open();
                let texts: Vec<String> = disk.iter().map(|d| d.0.clone()).collect();
                json!({"mem": mem, "same": texts == mem, "x": disk.iter().map(|d| d.1 == code as i64).collect::<Vec<_>>(), "leak": leak.is_some()})
            }
            "reload" => {
                let dir = PathBuf::from(std::env::var("XDG_CONFIG_HOME").unwrap()).join("dsh");
                std::fs::create_dir_all(&dir).unwrap();
                let mut text: String = a["stmts"].as_array().unwrap().iter().map(|x| stmt(x) + "\n").collect();
                if b(a, "fail") {
                    text += "(no-such-function)\n";
                }
                std::fs::write(dir.join("config.lisp"), text).unwrap();
                let r = self.shell.lisp_engine.borrow().run_config_lisp();
                let _ = std::fs::remove_file(dir.join("config.lisp"));
                json!({"ok": r.is_ok(), "mode": self.lisp("(secret-history-mode)").unwrap_or_default().trim_matches('"')})
            }
            "get" => {
                let r = self.lisp(&stmt(a)).unwrap_or_default();
                let leak = found(&self.root, &strs(&a["secrets"]));
                json!({"v": r.trim_matches('"'), "leak": leak.is_some()})
            }
            "restart" => {
                self.close();
                self.shell = Shell::new(Environment::new());
                self.open();
                json!({"ok": true})
            }
            _ => {
                let r = self.lisp(&stmt(a));
                json!({"ok": r.is_ok(), "mode": self.lisp("(secret-history-mode)").unwrap_or_default().trim_matches('"')})
            }
        }
    }
}
