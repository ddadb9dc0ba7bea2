//! The Lisp of the shell.
use crate::Sut;
use crate::util::*;
use doge_shell::environment::Environment;
use doge_shell::lisp::{LispEngine, Value as Lisp};
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::rc::Rc;

pub struct H {
    engine: Rc<RefCell<LispEngine>>,
    globals: Vec<String>,
}

fn enc(v: &Lisp) -> Value {
    match v {
        Lisp::True => json!({"b": true}),
        Lisp::False => json!({"b": false}),
        Lisp::Int(n) => json!({"i": n}),
        Lisp::String(t) => json!({"s": t}),
        Lisp::Symbol(y) => json!({"y": y.to_string()}),
        Lisp::List(l) => json!({"l": l.into_iter().map(|x| enc(&x)).collect::<Vec<_>>()}),
        Lisp::NativeFunc(_) | Lisp::Lambda(_) | Lisp::Macro(_) => json!({"f": v.to_string()}),
        other => json!({"other": other.to_string()}),
    }
}

impl H {
    pub fn new(cfg: &Value, _n: usize) -> Self {
        H { engine: LispEngine::new(Environment::new()), globals: strs(&cfg["globals"]) }
    }
}

impl Sut for H {
    fn step(&mut self, a: &Value) -> Value {
        let e = self.engine.borrow();
        let mut r = Err(anyhow::anyhow!("nothing"));
        // what comes before the last expression only sets it up
        for t in strs(&a["texts"]) {
            r = e.run(&t);
        }
        let g: Map<String, Value> =
            self.globals.iter().map(|k| (k.clone(), e.run(k).map(|v| enc(&v)).unwrap_or(json!({"none": true})))).collect();
        match r {
            Ok(v) => json!({"ok": true, "v": enc(&v), "show": v.to_string(), "g": g}),
            Err(_) => json!({"ok": false, "v": {"l": []}, "show": "", "g": g}),
        }
    }
}
