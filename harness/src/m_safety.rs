//! The safety gate in a session; a terminal of our own answers its questions.
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::safety::{SafetyGuard, SafetyResult};
use doge_shell::shell::Shell;
use dsh_types::Context;
use nix::unistd::{getpgrp, getpid};
use serde_json::{Value, json};
use std::io::Write;
use std::os::fd::{AsRawFd, IntoRawFd};
use std::sync::OnceLock;
use std::time::Duration;

const KEYS: usize = 12;
static MASTER: OnceLock<i32> = OnceLock::new();

/// A new terminal becomes the controlling terminal and stdin of this process (a session leader).
fn terminal() -> i32 {
    *MASTER.get_or_init(|| {
        let p = nix::pty::openpty(None, None).unwrap();
        let master = p.master.into_raw_fd();
        unsafe {
            libc_ioctl_sctty(p.slave.as_raw_fd());
            nix::libc::dup2(p.slave.as_raw_fd(), 0);
        }
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            while unsafe { nix::libc::read(master, buf.as_mut_ptr() as *mut _, 4096) } > 0 {}
        });
        master
    })
}

unsafe fn libc_ioctl_sctty(fd: i32) {
    unsafe { nix::libc::ioctl(fd, nix::libc::TIOCSCTTY as _, 0) };
}

/// keys that nobody asked for, up to a mark
fn left(master: i32) -> usize {
    let _ = crossterm::terminal::enable_raw_mode();
    unsafe { nix::libc::write(master, b"Q".as_ptr() as *const _, 1) };
    let mut n = 0;
    let end = std::time::Instant::now() + Duration::from_secs(10);
    while std::time::Instant::now() < end {
        match crossterm::event::poll(Duration::from_millis(500)) {
            Ok(true) => {}
            _ => continue,
        }
        if let Ok(crossterm::event::Event::Key(k)) = crossterm::event::read() {
            if k.code == crossterm::event::KeyCode::Char('Q') {
                break;
            }
            n += 1;
        }
    }
    let _ = crossterm::terminal::disable_raw_mode();
    n
}

pub struct H {
    shell: Shell,
    rt: tokio::runtime::Runtime,
    log: String,
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = std::path::PathBuf::from(std::env::var("HOME").unwrap()).parent().unwrap().join(format!("r{n}"));
        std::fs::create_dir_all(&root).unwrap();
        std::env::set_current_dir(&root).unwrap();
        let log = root.join("log").to_string_lossy().to_string();
        unsafe {
            std::env::set_var("VLOG", &log);
            std::env::set_var("PATH", s(cfg, "bin"));
        }
        for (k, v) in cfg["vars"].as_object().unwrap() {
            unsafe { std::env::set_var(k, v.as_str().unwrap()) };
        }
        terminal();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let env = Environment::new();
        {
            let mut e = env.write();
            for (k, v) in cfg["aliases"].as_object().unwrap() {
                e.alias.insert(k.clone(), v.as_str().unwrap().to_string());
            }
        }
        let mut shell = Shell::new(env);
        shell.set_signals();
        H { shell, rt, log }
    }
    fn ran(&self) -> Vec<String> {
        std::fs::read_to_string(&self.log).unwrap_or_default().lines().map(|l| l.to_string()).collect()
    }
    fn lisp(&self, src: &str) -> Result<String, String> {
        self.shell.lisp_engine.borrow().run(src).map(|v| v.to_string()).map_err(|e| e.to_string())
    }
}

fn quote(t: &str) -> String {
    format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))
}

fn asks(r: SafetyResult) -> Value {
    match r {
        SafetyResult::Allowed => json!({"ask": false}),
        SafetyResult::Confirm(_) => json!({"ask": true}),
        SafetyResult::Denied(m) => json!({"denied": m}),
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let _ = std::fs::write(&self.log, "");
        let env = self.shell.environment.clone();
        match s(a, "op").as_str() {
            "level" => {
                let r = self.lisp(&format!("(safety-level {})", quote(&s(a, "l"))));
                let now = self.lisp("(safety-level)").unwrap_or_default();
                let var = env.read().get_var("SAFETY_LEVEL");
                if r.is_ok() && var.as_deref() != Some(now.trim_matches('"')) {
                    return json!({"var": var, "level": now});
                }
                json!({"ok": r.is_ok(), "level": now.trim_matches('"')})
            }
            "allow" if s(a, "t").contains('"') => {
                env.read().add_execute_allowlist_entry(s(a, "t"));
                json!({"ok": true})
            }
            "allow" => json!({"ok": self.lisp(&format!("(chat-execute-add {})", quote(&s(a, "t")))).is_ok()}),
            "clear" => json!({"ok": self.lisp("(chat-execute-clear)").is_ok()}),
            "line" => {
                let master = terminal();
                let keys = s(a, "k").repeat(KEYS);
                unsafe { nix::libc::write(master, keys.as_ptr() as *const _, keys.len()) };
                let mut ctx = Context::new_safe(getpid(), getpgrp(), true);
                ctx.interactive = false;
                ctx.save_history = false;
                let H { shell, rt, .. } = self;
                let line = s(a, "line");
                let r = rt.block_on(async { shell.eval_str(&mut ctx, line, false).await });
                let asked = KEYS - left(master);
                let _ = std::io::stdout().flush();
                match r {
                    Ok(rc) => json!({"rc": rc, "asks": asked, "ran": self.ran()}),
                    Err(e) => json!({"error": e.to_string(), "asks": asked, "ran": self.ran()}),
                }
            }
            "lisp" => {
                let argv: Vec<String> = strs(&a["argv"]).iter().map(|t| quote(t)).collect();
                let r = self.lisp(&format!("(command {})", argv.join(" ")));
                let blocked = matches!(&r, Err(e) if e.contains("SafetyGuard"));
                if let (Err(e), false) = (&r, blocked) {
                    return json!({"error": e});
                }
                json!({"blocked": blocked, "ran": self.ran()})
            }
            "setenv" => {
                let (f, k) = (s(a, "f"), s(a, "key"));
                let value = format!("v{}", i(a, "n"));
                let r = self.lisp(&format!("({f} {} {})", quote(&k), quote(&value)));
                let e = env.read();
                let now = if f == "vset" { e.variables.get(&k).cloned() } else { e.system_env_vars.get(&k).cloned() };
                json!({"blocked": r.is_err(), "set": now.as_deref() == Some(value.as_str())})
            }
            "cmd" => {
                let argv = strs(&a["argv"]);
                let e = env.read();
                let (l, al) = (e.safety_level.read().clone(), e.execute_allowlist.read().clone());
                asks(SafetyGuard::new().check_command(&l, &argv[0], &argv[1..], &al))
            }
            "tool" => {
                let e = env.read();
                let (l, al) = (e.safety_level.read().clone(), e.execute_allowlist.read().clone());
                asks(SafetyGuard::new().check_mcp_tool(&s(a, "t"), &s(a, "json"), &l, &al))
            }
            o => panic!("src/m_: op {o}"),
        }
    }
}
