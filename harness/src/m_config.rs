//! The configuration file and what it changes.
use crate::Sut;
use crate::util::*;
use doge_shell::command_palette::REGISTRY;
use doge_shell::environment::Environment;
use doge_shell::lisp::Value as Lisp;
use doge_shell::shell::Shell;
use doge_shell::suggestion::SuggestionMode;
use dsh_types::Context;
use dsh_types::mcp::McpTransport;
use nix::unistd::{getpgrp, getpid};
use serde_json::{Map, Value, json};
use std::path::PathBuf;

pub struct H {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    keys: Vec<String>,
    builtin: bool,
    before: Vec<(std::ffi::OsString, std::ffi::OsString)>,
}

fn fresh() -> Shell {
    REGISTRY.write().restore_actions(Default::default());
    Shell::new(Environment::new())
}

impl H {
    pub fn new(cfg: &Value, _n: usize) -> Self {
        let keys = strs(&cfg["keys"]);
        for k in &keys {
            unsafe { std::env::remove_var(k) };
        }
        unsafe {
            std::env::set_var("PATH", strs(&cfg["base"]).join(":"));
            std::env::remove_var("Z_EXCLUDE");
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        H { shell: fresh(), rt, keys, builtin: b(cfg, "builtin"), before: std::env::vars_os().collect() }
    }

    fn load(&mut self, a: &Value) -> bool {
        let dir = PathBuf::from(std::env::var("XDG_CONFIG_HOME").unwrap()).join("dsh");
        std::fs::create_dir_all(&dir).unwrap();
        let file = dir.join("config.lisp");
        if b(a, "missing") {
            let _ = std::fs::remove_file(&file);
        } else {
            std::fs::write(&file, s(a, "text")).unwrap();
        }
        let ok = if self.builtin && s(a, "op") == "reload" {
            let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
            ctx.interactive = false;
            ctx.save_history = false;
            let H { shell, rt, .. } = self;
            // at strict every command would be asked for
            let was = shell.environment.read().safety_level.read().clone();
            if was == doge_shell::safety::SafetyLevel::Strict {
                let r = rt.block_on(async { shell.lisp_engine.borrow().run_config_lisp() });
                r.is_ok()
            } else {
                rt.block_on(async { shell.eval_str(&mut ctx, "reload".to_string(), false).await }).is_ok_and(|x| x == 0)
            }
        } else {
            self.shell.lisp_engine.borrow().run_config_lisp().is_ok()
        };
        let _ = std::fs::remove_file(&file);
        ok
    }

    fn symbol(&self, k: &str) -> String {
        let e = self.shell.lisp_engine.borrow();
        match e.run(k) {
            Err(_) => "-".to_string(),
            Ok(Lisp::NativeFunc(_)) => "native".to_string(),
            Ok(Lisp::Lambda(_)) => format!("fn:{}", e.run(&format!("({k})")).map(|v| v.to_string()).unwrap_or("?".into())),
            Ok(v) => v.to_string(),
        }
    }

    fn hooks(&self, k: &str) -> Value {
        match self.shell.lisp_engine.borrow().run(&format!("*{k}-hooks*")) {
            Ok(Lisp::List(l)) => l.into_iter().map(|v| json!(v.to_string())).collect(),
            _ => json!("?"),
        }
    }

    fn state(&self) -> Value {
        let e = self.shell.environment.read();
        let map = |f: &dyn Fn(&str) -> Option<String>| -> Value {
            let m: Map<String, Value> = self.keys.iter().map(|k| (k.clone(), json!(f(k).unwrap_or("-".into())))).collect();
            Value::Object(m)
        };
        let child = e.child_process_env();
        let acts: Vec<(String, String)> =
            REGISTRY.read().get_all().iter().map(|a| (a.name().to_string(), a.description().to_string())).collect();
        let p = e.input_preferences;
        let mc: Vec<String> = e
            .mcp_servers()
            .iter()
            .map(|m| {
                let t = match m.transport {
                    McpTransport::Stdio { .. } => "stdio",
                    McpTransport::Sse { .. } => "sse",
                    McpTransport::Http { .. } => "http",
                };
                format!("{}:{}", m.label, t)
            })
            .collect();
        let co: Vec<String> = e
            .autocompletion
            .iter()
            .map(|c| format!("{}:{}", c.target, if c.cmd.is_some() { "cmd" } else if c.candidates.is_some() { "list" } else { "?" }))
            .collect();
        let di: Vec<String> = e.direnv_roots.iter().map(|d| d.path.clone()).collect();
        let mut extra = vec![];
        // nothing but what is looked at changed
        if child.get("PATH").cloned().unwrap_or_default() != e.paths.join(":") {
            extra.push(format!("PATH {:?}", child.get("PATH")));
        }
        for (k, v) in &e.alias {
            if !self.keys.contains(k) {
                extra.push(format!("alias {k} {v}"));
            }
        }
        for (k, _) in &e.variables {
            if !self.keys.contains(k) && k != "SAFETY_LEVEL" {
                extra.push(format!("variable {k}"));
            }
        }
        if e.variables.get("SAFETY_LEVEL").cloned().unwrap_or_default() != format!("{:?}", *e.safety_level.read()).to_lowercase() {
            extra.push("SAFETY_LEVEL".to_string());
        }
        if e.startup_mode {
            extra.push("startup".to_string());
        }
        let now: Vec<_> = std::env::vars_os().collect();
        for (k, v) in &self.before {
            if !now.iter().any(|(a, b)| a == k && b == v) {
                extra.push(format!("process environment {k:?}"));
            }
        }
        if now.len() != self.before.len() {
            extra.push(format!("process environment: {} variables", now.len()));
        }
        for k in ["zz", "yy", "zz-f", "zq"] {
            if self.shell.lisp_engine.borrow().run(k).is_ok() && k != "zz-f" {
                extra.push(format!("symbol {k}"));
            }
        }
        let mut st = json!({
            "al": map(&|k| e.alias.get(k).cloned()),
            "ab": map(&|k| e.abbreviations.get(k).cloned()),
            "va": map(&|k| e.variables.get(k).cloned()),
            "en": map(&|k| child.get(k).cloned()),
            "sy": map(&|k| Some(self.symbol(k))),
            "ac": map(&|k| acts.iter().find(|a| a.0 == k).map(|a| a.1.clone())),
            "hk": {"pre-exec": self.hooks("pre-exec"), "post-exec": self.hooks("post-exec"), "on-chdir": self.hooks("on-chdir")},
            "pa": e.paths, "ew": e.execute_allowlist(), "mc": mc,
            "pr": {"pair": p.auto_pair, "notify": p.auto_notify_enabled, "thr": p.auto_notify_threshold, "expl": p.ai_explanation,
                   "ghost": p.suggestion_mode == SuggestionMode::Ghost, "ai": p.ai_backfill, "fix": p.auto_fix},
            "lv": format!("{:?}", *e.safety_level.read()).to_lowercase(),
            "co": co, "di": di, "zx": e.z_exclude,
        });
        if !extra.is_empty() {
            st["extra"] = json!(extra);
        }
        st
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let ok = match s(a, "op").as_str() {
            "eval" => self.shell.lisp_engine.borrow().run(&s(a, "text")).is_ok(),
            "reload" => self.load(a),
            "start" => {
                self.shell = fresh();
                self.load(a)
            }
            o => panic!("src/m_: op {o}"),
        };
        json!({"ok": ok, "c": self.state()})
    }
}
