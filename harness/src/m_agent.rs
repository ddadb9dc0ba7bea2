//! An AI chat in a live shell: a model of our own on the loopback network asks for tools, a pipe answers the questions.
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::shell::Shell;
use dsh_types::Context;
use nix::unistd::{getpgrp, getpid};
use serde_json::{Value, json};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, Read, Write};
use std::net::TcpListener;
use std::os::fd::IntoRawFd;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default)]
struct Net {
    replies: VecDeque<Value>,
    requests: Vec<Value>,
}

struct World {
    net: Arc<Mutex<Net>>,
    port: u16,
    answers: std::fs::File,
}

static WORLD: OnceLock<Mutex<World>> = OnceLock::new();
static TOP: OnceLock<PathBuf> = OnceLock::new();

fn serve(listener: TcpListener, net: Arc<Mutex<Net>>) {
    for c in listener.incoming() {
        let Ok(mut c) = c else { continue };
        let mut r = std::io::BufReader::new(c.try_clone().unwrap());
        let (mut len, mut line) = (0, String::new());
        while r.read_line(&mut line).unwrap_or(0) > 0 && !line.trim().is_empty() {
            if let Some(v) = line.to_ascii_lowercase().strip_prefix("content-length:") {
                len = v.trim().parse().unwrap_or(0);
            }
            line.clear();
        }
        let mut body = vec![0; len];
        let _ = r.read_exact(&mut body);
        let mut n = net.lock().unwrap();
        n.requests.push(serde_json::from_slice(&body).unwrap_or(Value::Null));
        let m = n.replies.pop_front().unwrap_or(json!({"role": "assistant", "content": "nothing left"}));
        let t = json!({"choices": [{"index": 0, "message": m, "finish_reason": "stop"}]}).to_string();
        let _ = c.write_all(format!("HTTP/1.1 200 OK\r\ncontent-type: application/json\r\nconnection: close\r\ncontent-length: {}\r\n\r\n{t}", t.len()).as_bytes());
    }
}

fn world() -> &'static Mutex<World> {
    WORLD.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let net = Arc::new(Mutex::new(Net::default()));
        let n = net.clone();
        std::thread::spawn(move || serve(l, n));
        let (r, w) = nix::unistd::pipe().unwrap();
        unsafe { nix::libc::dup2(r.into_raw_fd(), 0) };
        Mutex::new(World { net, port, answers: w.into() })
    })
}

/// An MCP server with one tool, which records its calls
pub fn mcp() -> ! {
    let log = std::env::var("VWLOG").unwrap_or_default();
    for line in std::io::stdin().lock().lines().map_while(Result::ok) {
        let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
        let r = match v["method"].as_str().unwrap_or("") {
            "initialize" => json!({"protocolVersion": v["params"]["protocolVersion"], "capabilities": {"tools": {}}, "serverInfo": {"name": "m", "version": "1"}}),
            "tools/list" => json!({"tools": [{"name": "Ping Me", "description": "d", "inputSchema": {"type": "object"}}]}),
            "tools/call" => {
                let t = json!({"name": "mcp", "args": [v["params"]["name"], v["params"]["arguments"]["x"]]});
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&log).unwrap();
                f.write_all(format!("{t}\n").as_bytes()).unwrap();
                json!({"content": [{"type": "text", "text": "pong"}]})
            }
            _ => continue,
        };
        println!("{}", json!({"jsonrpc": "2.0", "id": v["id"], "result": r}));
    }
    std::process::exit(0)
}

pub struct H {
    shell: Shell,
    base: String,
    root: PathBuf,
    log: String,
    snap: BTreeMap<String, String>,
}

fn walk(root: &Path, p: &Path, out: &mut BTreeMap<String, String>) {
    let k = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
    let m = std::fs::symlink_metadata(p);
    let Ok(m) = m else { return };
    if m.is_symlink() {
        out.insert(k, format!("l{}", std::fs::read_link(p).unwrap().to_string_lossy()));
    } else if m.is_dir() {
        out.insert(k, "d".into());
        for e in std::fs::read_dir(p).unwrap().flatten() {
            walk(root, &e.path(), out);
        }
    } else {
        out.insert(k, format!("f{}", String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default())));
    }
}

impl H {
    pub fn new(cfg: &Value, n: usize) -> Self {
        let root = TOP.get_or_init(|| Path::new(&std::env::var("HOME").unwrap()).parent().unwrap().into()).join(format!("r{n}"));
        let _ = std::fs::create_dir_all(&root);
        let root = root.canonicalize().unwrap();
        let base = root.to_string_lossy().to_string();
        for d in strs(&cfg["dirs"]) {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for f in cfg["files"].as_array().unwrap() {
            std::fs::write(root.join(s(f, "p")), s(f, "t")).unwrap();
            if b(f, "x") {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(root.join(s(f, "p")), std::fs::Permissions::from_mode(0o755)).unwrap();
            }
        }
        for f in cfg["links"].as_array().unwrap() {
            std::os::unix::fs::symlink(s(f, "to").replace("{B}", &base), root.join(s(f, "p"))).unwrap();
        }
        let log = format!("{base}.log");
        std::env::set_current_dir(root.join("w")).unwrap();
        let me = std::env::current_exe().unwrap();
        for l in strs(&cfg["stubs"]) {
            std::os::unix::fs::symlink(&me, root.join("bin").join(l)).unwrap();
        }
        std::os::unix::fs::symlink("/bin/sh", root.join("bin/sh")).unwrap();
        let port = world().lock().unwrap().port;
        unsafe {
            std::env::remove_var("AI_CHAT_EXECUTE_ALLOWLIST");
            std::env::remove_var("DSH_EXECUTE_TOOL_CONFIG");
            std::env::set_var("VWLOG", &log);
            std::env::set_var("AI_CHAT_ALLOW_INSECURE_HTTP", "1");
            std::env::set_var("NO_PROXY", "127.0.0.1");
            std::env::set_var("AI_CHAT_BASE_URL", format!("http://127.0.0.1:{port}/v1"));
            std::env::set_var("AI_CHAT_API_KEY", "k");
            std::env::set_var("PATH", format!("{base}/bin"));
            std::env::set_var("HOME", format!("{base}/home"));
            std::env::set_var("XDG_CONFIG_HOME", format!("{base}/home/.config"));
            std::env::set_var("XDG_CACHE_HOME", format!("{base}/cache"));
            std::env::set_var("VD", "d");
            std::env::remove_var("VU");
        }
        let shell = Shell::new(Environment::new());
        if b(cfg, "mcp") {
            shell
                .lisp_engine
                .borrow()
                .run(&format!("(mcp-add-stdio \"srv\" \"{base}/bin/mcpstub\" '() '() \"{base}/cache\" \"d\")"))
                .unwrap();
        }
        let mut h = H { shell, base, root, log, snap: BTreeMap::new() };
        h.snap = h.shot();
        h
    }

    fn shot(&self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        for d in ["w", "out", "home/.config/dsh/skills"] {
            walk(&self.root, &self.root.join(d), &mut m);
        }
        m
    }

    fn rel(&self, t: &str) -> String {
        t.replace(&self.base, "{B}")
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let path = |k: &str| self.root.join(s(a, k));
        match s(a, "op").as_str() {
            "put" | "link" => {
                let p = path("p");
                let _ = std::fs::remove_file(&p);
                if p.is_dir() && !p.is_symlink() {
                } else if a["op"] == "put" {
                    // a file of two bytes that are no text stands for "bin"
                    let t = s(a, "t");
                    std::fs::write(&p, if t == "bin" { vec![0xff, 0xfe] } else { t.into_bytes() }).unwrap();
                } else {
                    std::os::unix::fs::symlink(s(a, "to").replace("{B}", &self.base), &p).unwrap();
                }
            }
            "lisp" => {
                let r = self.shell.lisp_engine.borrow().run(&s(a, "line").replace("{B}", &self.base));
                self.snap = self.shot();
                return json!({"rc": i32::from(r.is_err())});
            }
            "env" => unsafe {
                match s(a, "v").as_str() {
                    "" => std::env::remove_var("AI_CHAT_EXECUTE_ALLOWLIST"),
                    v => std::env::set_var("AI_CHAT_EXECUTE_ALLOWLIST", v.replace("{B}", &self.base)),
                }
            },
            "file" => std::fs::write(self.root.join("home/.config/dsh/openai-execute-tool.json"), s(a, "v").replace("{B}", &self.base)).unwrap(),
            _ => {
                let _ = std::fs::write(&self.log, "");
                let calls: Vec<Value> = a["calls"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, c)| json!({"id": format!("c{i}"), "type": "function", "function": {"name": s(c, "name"), "arguments": s(c, "args").replace("{B}", &self.base)}}))
                    .collect();
                let n = calls.len();
                let mut w = world().lock().unwrap();
                {
                    let mut net = w.net.lock().unwrap();
                    net.requests.clear();
                    net.replies = VecDeque::from([json!({"role": "assistant", "content": null, "tool_calls": calls}), json!({"role": "assistant", "content": "all done"})]);
                }
                for x in a["ans"].as_array().unwrap() {
                    w.answers.write_all(format!("{}\n", x.as_str().unwrap()).as_bytes()).unwrap();
                }
                let ctx = Context::new_safe(getpid(), getpgrp(), true);
                let r = dsh_builtin::execute_chat_message(&ctx, &mut self.shell, "please do", None);
                w.answers.write_all(b"END\n").unwrap();
                let (mut left, mut line) = (0, String::new());
                while std::io::stdin().read_line(&mut line).unwrap_or(0) > 0 && line.trim() != "END" {
                    left += 1;
                    line.clear();
                }
                let asked = a["ans"].as_array().unwrap().len() - left;
                let net = w.net.lock().unwrap();
                let ms = net.requests.last().map(|v| v["messages"].clone()).unwrap_or_default();
                let res: Vec<Value> = ms
                    .as_array()
                    .into_iter()
                    .flatten()
                    .filter(|m| m["role"] == "tool")
                    .map(|m| json!([m["tool_call_id"], self.rel(m["content"].as_str().unwrap_or("?"))]))
                    .collect();
                let now = self.shot();
                let mut diff: Vec<Value> = now.iter().filter(|(k, v)| self.snap.get(*k) != Some(v)).map(|(k, v)| json!([k, self.rel(v)])).collect();
                diff.extend(self.snap.keys().filter(|k| !now.contains_key(*k)).map(|k| json!([k, "gone"])));
                let runs: Vec<Value> = std::fs::read_to_string(&self.log)
                    .unwrap_or_default()
                    .lines()
                    .map(|l| {
                        let v: Value = serde_json::from_str(l).unwrap();
                        json!([v["name"], strs(&v["args"]).iter().map(|t| self.rel(t)).collect::<Vec<_>>(), v["cwd"].as_str().map(|t| self.rel(t))])
                    })
                    .collect();
                let tools: Vec<&str> = net.requests.first().and_then(|v| v["tools"].as_array()).into_iter().flatten().filter_map(|t| t["function"]["name"].as_str()).collect();
                let o = json!({"rc": i32::from(!format!("{r:?}").contains("ExitedWith(0)")), "n": n, "requests": net.requests.len(), "res": res, "asked": asked, "diff": diff, "runs": runs, "tools": tools});
                drop(net);
                self.snap = now;
                return o;
            }
        }
        self.snap = self.shot();
        json!({"rc": 0})
    }
}

impl Drop for H {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
    }
}
