//! A shell session in this process that evaluates command lines (non-interactive, as `dsh -c` does).
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::shell::Shell;
use dsh_types::Context;
use nix::unistd::{getpgrp, getpid};
use serde_json::{Value, json};

pub struct H {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    base: String,
    log: String,
}

fn children_left() -> bool {
    let mut any = false;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for t in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("children")) {
                for p in s.split_whitespace() {
                    let st = std::fs::read_to_string(format!("/proc/{p}/stat")).unwrap_or_default();
                    if !st.contains(") Z ") && !st.is_empty() {
                        any = true;
                    }
                }
            }
        }
    }
    any
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = std::path::PathBuf::from(std::env::var("HOME").unwrap()).parent().unwrap().join(format!("r{n}"));
        let base = root.to_string_lossy().to_string();
        for d in strs(&cfg["dirs"]) {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        std::env::set_current_dir(root.join(s(cfg, "cwd"))).unwrap();
        let log = format!("{base}/log");
        unsafe {
            std::env::set_var("VLOG", &log);
            if n == 0 {
                let path = std::env::var("PATH").unwrap();
                std::env::set_var("PATH", format!("{}:{}", s(cfg, "bin"), path));
            }
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let env = Environment::new();
        let mut shell = Shell::new(env);
        shell.set_signals();
        H { shell, rt, base, log }
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let _ = std::fs::write(&self.log, "");
        let line = s(a, "line").replace("{B}", &self.base);
        let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
        ctx.interactive = false;
        ctx.save_history = false;
        let H { shell, rt, .. } = self;
        let r = rt.block_on(async { shell.eval_str(&mut ctx, line, false).await });
        let rc = match &r {
            Ok(c) => *c,
            Err(_) => 1,
        };
        for _ in 0..1500 {
            if !children_left() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        let log = std::fs::read_to_string(&self.log).unwrap_or_default();
        let cwd = std::env::current_dir().unwrap();
        let rel = cwd
            .strip_prefix(std::path::Path::new(&self.base).canonicalize().unwrap())
            .map(|p| p.to_string_lossy().to_string())
            .unwrap_or_else(|_| cwd.to_string_lossy().to_string());
        json!({"log": log.lines().collect::<Vec<_>>(), "rc": rc, "cwd": rel, "err": r.err().map(|e| e.to_string()).unwrap_or_default()})
    }
}
