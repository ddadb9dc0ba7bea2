//! The line editor: key events into a Repl, as its event loop feeds them.
use crate::Sut;
use crate::util::*;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use doge_shell::environment::Environment;
use doge_shell::history::History;
use doge_shell::repl::Repl;
use doge_shell::shell::Shell;
use parking_lot::Mutex;
use serde_json::{Value, json};
use std::path::PathBuf;
use std::sync::{Arc, OnceLock};

pub struct H {
    repl: Option<Repl<'static>>,
    shell: *mut Shell,
    rt: tokio::runtime::Runtime,
}

fn tmode() -> nix::sys::termios::Termios {
    static PTY: OnceLock<nix::pty::OpenptyResult> = OnceLock::new();
    let p = PTY.get_or_init(|| nix::pty::openpty(None, None).unwrap());
    nix::sys::termios::tcgetattr(&p.slave).unwrap()
}

fn chars(t: &str) -> Vec<String> {
    t.chars().map(|c| c.to_string()).collect()
}

/// what is written to the terminal for the line, without colours
fn drawn(i: &doge_shell::input::Input) -> String {
    let mut out = Vec::new();
    i.print(&mut out, None);
    let t = String::from_utf8(out).unwrap_or_default();
    let (mut r, mut esc) = (String::new(), false);
    for c in t.chars() {
        match c {
            '\x1b' => esc = true,
            'm' if esc => esc = false,
            _ if esc => {}
            '\r' => {}
            _ => r.push(c),
        }
    }
    r
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = PathBuf::from(std::env::var("HOME").unwrap()).parent().unwrap().to_path_buf();
        let work = root.join(format!("work/e{n}"));
        std::fs::create_dir_all(&work).unwrap();
        std::env::set_current_dir(&work).unwrap();
        for f in strs(&cfg["files"]) {
            std::fs::write(f, "x").unwrap();
        }
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let _g = rt.enter();
        let env = Environment::new();
        {
            let mut e = env.write();
            e.paths = vec![work.join("none").to_string_lossy().to_string()];
            e.set_executable_names(strs(&cfg["cmds"]));
            e.input_preferences.auto_pair = b(cfg, "pair");
            e.input_preferences.transient_prompt = n % 2 == 0;
            for a in cfg["abbr"].as_array().unwrap() {
                e.abbreviations.insert(a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string());
            }
        }
        let mut shell = Shell::new(env);
        let mut h = History::from_file(&format!("vh_ed_{n}")).unwrap();
        for (k, c) in strs(&cfg["hist"]).into_iter().enumerate() {
            h.write_batch(vec![(c, 1000 + k as i64)]).unwrap();
        }
        shell.cmd_history = Some(Arc::new(Mutex::new(h)));
        let shell = Box::into_raw(Box::new(shell));
        let mut repl = Repl::new(unsafe { &mut *shell });
        repl.verif_terminal(tmode(), 80);
        drop(_g);
        H { repl: Some(repl), shell, rt }
    }
    fn send(&mut self, ev: Event) {
        let r = self.repl.as_mut().unwrap();
        if let Err(e) = self.rt.block_on(r.verif_event(ev)) {
            eprintln!("event: {e}");
        }
    }
    fn key(&mut self, c: KeyCode, m: KeyModifiers) {
        self.send(Event::Key(KeyEvent::new(c, m)));
    }
}

impl Drop for H {
    fn drop(&mut self) {
        let _g = self.rt.enter();
        self.repl = None;
        unsafe { drop(Box::from_raw(self.shell)) };
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        const C: KeyModifiers = KeyModifiers::CONTROL;
        const N: KeyModifiers = KeyModifiers::NONE;
        let mut ran = String::new();
        match s(a, "op").as_str() {
            "type" => {
                let c = s(a, "c").chars().next().unwrap();
                self.key(KeyCode::Char(c), if c.is_uppercase() { KeyModifiers::SHIFT } else { N })
            }
            "paste" => self.send(Event::Paste(strs(&a["t"]).concat())),
            "bs" => self.key(KeyCode::Backspace, N),
            "left" => self.key(KeyCode::Left, N),
            "^left" => self.key(KeyCode::Left, C),
            "right" => self.key(KeyCode::Right, N),
            "^right" => self.key(KeyCode::Right, C),
            "up" => self.key(KeyCode::Up, N),
            "down" => self.key(KeyCode::Down, N),
            "enter" => {
                let _ = self.repl.as_mut().unwrap().verif_take_executed();
                self.key(KeyCode::Enter, N);
                ran = self.repl.as_mut().unwrap().verif_take_executed();
            }
            "esc2" => {
                self.key(KeyCode::Esc, N);
                self.key(KeyCode::Esc, N);
            }
            o if o.starts_with('^') => self.key(KeyCode::Char(o.chars().nth(1).unwrap()), C),
            o => panic!("src/m_: op {o}"),
        }
        let r = self.repl.as_ref().unwrap();
        let i = r.verif_input();
        let (x, y) = i.cursor_pos(9, 2);
        let h = r.shell.cmd_history.as_ref().unwrap().lock();
        let newest = h.iter().last().map(|e| e.entry.clone()).unwrap_or_default();
        json!({"line": chars(i.as_str()), "drawn": chars(&drawn(i)), "cur": i.cursor(), "pend": chars(r.verif_pending()), "ran": chars(&ran),
               "newest": chars(&newest), "n": h.iter().count(), "pos": [x, y], "rows": i.line_count(9, 2)})
    }
}
