//! Command history: real `History` on a real SQLite file, sync or background writer.
use crate::Sut;
use crate::util::*;
use doge_shell::history::{Entry, History, HistoryMetadata, HistoryQuery, HistoryScope, HistoryStatusFilter};
use serde_json::{Value, json};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct H {
    h: Option<History>,
    name: String,
    bg: bool,
    base: String,
    min: i64,
}

/// Threads there are without a background writer
static IDLE: AtomicUsize = AtomicUsize::new(usize::MAX);
const T0: i64 = 1_700_000_000;

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let name = format!("vh_hist_{n}");
        let cwd = std::env::var("XDG_DATA_HOME").unwrap();
        let base = std::path::Path::new(&cwd).parent().unwrap().join("work").to_string_lossy().to_string();
        for d in ["p1/.git", "p1/sub", "p2"] {
            std::fs::create_dir_all(format!("{base}/{d}")).unwrap();
        }
        if !std::path::Path::new(&format!("{base}/p1/.git/HEAD")).exists() {
            let _ = std::process::Command::new("git").args(["init", "-q"]).arg(format!("{base}/p1")).output();
        }
        std::env::set_current_dir(format!("{base}/p2")).unwrap();
        // nothing else runs here: an earlier history has been closed
        IDLE.fetch_min(threads(), SeqCst);
        let mut x = H { h: None, name, bg: cfg["bg"].as_bool().unwrap_or(false), base, min: 0 };
        x.open(10000);
        x
    }

    fn open(&mut self, limit: usize) {
        let mut h = History::from_file(&self.name).expect("open");
        self.min = h.load_recent(limit).expect("load");
        if self.bg {
            h.start_background_writer();
        }
        self.h = Some(h);
    }

    /// End of the session: drop the history and wait until a background writer has drained its queue.
    fn close(&mut self) {
        self.h = None;
        if self.bg {
            for _ in 0..10000 {
                if threads() <= IDLE.load(SeqCst) {
                    return;
                }
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
            // threads that stay are not the writer
            IDLE.store(threads(), SeqCst);
        }
    }

    fn ctx(&self, c: &Option<String>) -> String {
        match c {
            None => "none".into(),
            Some(p) => p.strip_prefix(&self.base).map(|s| s.trim_start_matches('/').to_string()).unwrap_or(p.clone()),
        }
    }

    fn entry(&self, e: &Entry) -> Value {
        json!({"c": e.entry, "w": e.when - T0, "n": e.count, "k": self.ctx(&e.context), "x": e.exit_code.unwrap_or(-1),
               "d": e.duration_ms.map(|d| d as i64).unwrap_or(-1), "p": e.cwd.clone().unwrap_or("none".into()),
               "s": e.session_id.clone().unwrap_or("none".into())})
    }

    fn dump(&self) -> Value {
        let h = self.h.as_ref().unwrap();
        let mem: Vec<Value> = h.iter().map(|e| self.entry(e)).collect();
        json!({"mem": mem, "end": h.at_end()})
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let mut res = json!([]);
        match s(a, "op").as_str() {
            "write" => {
                let b: Vec<(String, i64)> = a["b"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| (e["c"].as_str().unwrap().to_string(), T0 + e["w"].as_i64().unwrap()))
                    .collect();
                self.h.as_mut().unwrap().write_batch(b).expect("write_batch");
            }
            "outcome" => {
                let md = HistoryMetadata {
                    exit_code: Some(i(a, "x") as i32),
                    duration_ms: Some(i(a, "d") as u64),
                    cwd: Some(s(a, "p")),
                    session_id: Some(s(a, "s")),
                    hostname: Some("h".into()),
                };
                self.h.as_mut().unwrap().record_outcome(&s(a, "c"), md).expect("record_outcome");
            }
            "other" => {
                // another session of the shell on the same database
                if self.bg {
                    // the other session runs after our queue is drained
                    let limit = 10000;
                    self.close();
                    self.open(limit);
                }
                let mut o = History::from_file(&self.name).expect("open");
                o.write_batch(vec![(s(a, "c"), T0 + i(a, "w"))]).expect("write");
            }
            "restart" => {
                self.close();
                self.open(i(a, "k") as usize);
            }
            "older" => {
                let min = self.min;
                let k = i(a, "k") as usize;
                let h = self.h.as_mut().unwrap();
                let e = h.load_older_than(min, k).expect("older");
                h.prepend(e);
            }
            "reload" => self.h.as_mut().unwrap().reload().expect("reload"),
            "cd" => std::env::set_current_dir(format!("{}/{}", self.base, s(a, "d"))).unwrap(),
            "word" => {
                let w = s(a, "v");
                self.h.as_mut().unwrap().search_word = if w.is_empty() { None } else { Some(w) };
            }
            "back" => {
                let r = self.h.as_mut().unwrap().back();
                res = json!(r.into_iter().collect::<Vec<_>>());
            }
            "forward" => {
                let r = self.h.as_mut().unwrap().forward();
                res = json!(r.into_iter().collect::<Vec<_>>());
            }
            "bottom" => self.h.as_mut().unwrap().reset_index(),
            "first" => {
                let r = self.h.as_ref().unwrap().search_first(&s(a, "v")).map(|x| x.to_string());
                res = json!(r.into_iter().collect::<Vec<_>>());
            }
            "recent" => res = json!(self.h.as_ref().unwrap().get_recent_context(i(a, "k") as usize)),
            "query" => {
                let q = &a["q"];
                let opt = |k: &str| {
                    let v = s(q, k);
                    if v.is_empty() { None } else { Some(v) }
                };
                let query = HistoryQuery {
                    text: opt("text"),
                    scope: match s(q, "scope").as_str() {
                        "session" => HistoryScope::Session,
                        "cwd" => HistoryScope::Cwd,
                        "project" => HistoryScope::Project,
                        _ => HistoryScope::Global,
                    },
                    status: match s(q, "status").as_str() {
                        "ok" => HistoryStatusFilter::Success,
                        "fail" => HistoryStatusFilter::Failure,
                        _ => HistoryStatusFilter::Any,
                    },
                    min_duration_ms: if i(q, "dur") >= 0 { Some(i(q, "dur") as u64) } else { None },
                    limit: if i(q, "lim") >= 0 { Some(i(q, "lim") as usize) } else { None },
                    current_cwd: Some(s(q, "who")),
                    current_project: Some(format!("{}/{}", self.base, s(q, "who"))),
                    current_session_id: Some(s(q, "who")),
                };
                let r = self.h.as_ref().unwrap().search_entries(&query);
                res = json!(r.iter().map(|e| e.entry.clone()).collect::<Vec<_>>());
            }
            o => panic!("src/m_: op {o}"),
        }
        let mut d = self.dump();
        d["r"] = res;
        d
    }
}

impl Drop for H {
    fn drop(&mut self) {
        self.close();
    }
}
