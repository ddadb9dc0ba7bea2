//! A shell session in this process whose commands are a stub (this executable under other names) that records its
//! arguments, its environment and the file it was started from.
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::shell::Shell;
use dsh_types::Context;
use nix::unistd::{getpgrp, getpid};
use serde_json::{Value, json};
use std::path::{Path, PathBuf};

/// The stub: VWLOG names the log, VWKEYS the variables to record.
pub fn stub() -> ! {
    use std::io::Write;
    let from = unsafe { std::ffi::CStr::from_ptr(nix::libc::getauxval(nix::libc::AT_EXECFN) as *const nix::libc::c_char) };
    let from = PathBuf::from(from.to_string_lossy().to_string());
    let args: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().to_string()).collect();
    let mut env = std::collections::BTreeMap::new();
    let mut dup = false;
    for (k, v) in std::env::vars_os() {
        let k = k.to_string_lossy().to_string();
        dup |= env.insert(k, v.to_string_lossy().to_string()).is_some();
    }
    let cwd = std::env::current_dir().map(|c| c.to_string_lossy().to_string()).unwrap_or_default();
    let log = env.get("VWLOG").cloned().unwrap_or_default();
    let from: PathBuf = std::env::current_dir().unwrap_or_default().join(from).components().collect();
    let line = json!({"from": from.parent(), "name": from.file_name().map(|n| n.to_string_lossy().to_string()), "args": args, "env": env, "cwd": cwd, "dup": dup});
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(log).unwrap();
    f.write_all(format!("{line}\n").as_bytes()).unwrap();
    std::process::exit(if std::env::args().next().is_some_and(|a| a.ends_with("x3")) { 3 } else { 0 })
}

pub struct H {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    base: String,
    log: String,
    keys: Vec<String>,
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = Path::new(&std::env::var("HOME").unwrap()).parent().unwrap().join(format!("r{n}"));
        let _ = std::fs::create_dir_all(&root);
        let root = root.canonicalize().unwrap();
        let base = root.to_string_lossy().to_string();
        for d in strs(&cfg["dirs"]) {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for f in strs(&cfg["files"]) {
            std::fs::write(root.join(f), "").unwrap();
        }
        let log = format!("{base}.log");
        std::env::set_current_dir(root.join(s(cfg, "cwd"))).unwrap();
        let me = std::env::current_exe().unwrap();
        for l in strs(&cfg["stubs"]) {
            std::os::unix::fs::symlink(&me, root.join(l)).unwrap();
        }
        unsafe {
            for k in strs(&cfg["unset"]) {
                std::env::remove_var(k);
            }
            std::env::set_var("VWLOG", &log);
            for kv in cfg["env"].as_array().unwrap() {
                std::env::set_var(kv[0].as_str().unwrap(), kv[1].as_str().unwrap().replace("{B}", &base));
            }
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let mut shell = Shell::new(Environment::new());
        shell.set_signals();
        H { shell, rt, base, log, keys: strs(&cfg["keys"]) }
    }

    fn rel(&self, t: &str) -> String {
        t.replace(&self.base, "{B}")
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let path = |k: &str| PathBuf::from(s(a, k).replace("{B}", &self.base));
        match s(a, "op").as_str() {
            "mk" => {
                let p = path("d").join(s(a, "n"));
                let _ = std::fs::remove_file(&p);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                if a["x"] == true {
                    std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &p).unwrap();
                } else {
                    std::fs::write(&p, "#!/bin/sh\nexit 7\n").unwrap();
                }
                return json!({"rc": 0});
            }
            "rm" => {
                let _ = std::fs::remove_file(path("d").join(s(a, "n")));
                return json!({"rc": 0});
            }
            "touch" => {
                let p = path("d").join(s(a, "n"));
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, "").unwrap();
                return json!({"rc": 0});
            }
            "put" => {
                let p = path("d").join(s(a, "n"));
                match a["bytes"].as_str() {
                    Some(t) => std::fs::write(p, t.replace("{B}", &self.base).as_bytes()).unwrap(),
                    None => drop(std::fs::remove_file(p)),
                }
                return json!({"rc": 0});
            }
            "lisp" => {
                let r = self.shell.lisp_engine.borrow().run(&s(a, "line").replace("{B}", &self.base));
                let err = r.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
                return json!({"rc": i32::from(r.is_err()), "err": err});
            }
            _ => {}
        }
        let _ = std::fs::write(&self.log, "");
        let line = s(a, "line").replace("{B}", &self.base);
        let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
        ctx.interactive = false;
        ctx.save_history = false;
        let H { shell, rt, .. } = self;
        let r = rt.block_on(async { shell.eval_str(&mut ctx, line, false).await });
        let rc = *r.as_ref().unwrap_or(&1);
        let log = std::fs::read_to_string(&self.log).unwrap_or_default();
        let runs: Vec<Value> = log
            .lines()
            .map(|l| {
                let v: Value = serde_json::from_str(l).unwrap();
                let env: Vec<String> = self
                    .keys
                    .iter()
                    .map(|k| v["env"][k].as_str().map(|t| self.rel(t)).unwrap_or("<none>".into()))
                    .collect();
                json!({"from": self.rel(v["from"].as_str().unwrap_or("")), "name": v["name"], "cwd": self.rel(&s(&v, "cwd")), "dup": v["dup"],
                       "args": strs(&v["args"]).iter().map(|t| self.rel(t)).collect::<Vec<_>>(), "env": env})
            })
            .collect();
        json!({"rc": rc, "runs": runs, "err": r.err().map(|e| e.to_string()).unwrap_or_default()})
    }
}

impl Drop for H {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
    }
}
