//! State which the data-driven procedures and handlers share with the interpreter.
use crate::dynp::Schema;
use fibers::sync::oneshot;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct World {
    pub schemas: Vec<Arc<Schema>>,
    pub plans: HashMap<String, Value>,
    pub proc_plans: HashMap<usize, Value>,
    pub held: HashMap<String, oneshot::Sender<()>>,
    pub log: Vec<Value>,
}
thread_local! {
    static LOCAL: RefCell<Option<World>> = const { RefCell::new(None) };
}
static GLOBAL: Mutex<Option<World>> = Mutex::new(None);

/// The world of the current scenario thread, or the process-wide one (multi-threaded runs).
pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    LOCAL.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(w) = l.as_mut() {
            f(w)
        } else {
            let mut g = GLOBAL.lock().unwrap_or_else(|e| e.into_inner());
            f(g.as_mut().expect("no world"))
        }
    })
}
pub fn set_local(w: Option<World>) -> Option<World> {
    LOCAL.with(|l| std::mem::replace(&mut *l.borrow_mut(), w))
}
pub fn set_global(w: Option<World>) -> Option<World> {
    std::mem::replace(&mut *GLOBAL.lock().unwrap_or_else(|e| e.into_inner()), w)
}
pub fn schema(n: usize) -> Arc<Schema> {
    with(|w| w.schemas[n].clone())
}
pub fn log(ev: Value) {
    with(|w| w.log.push(ev))
}
pub fn log_len() -> usize {
    with(|w| w.log.len())
}
pub fn plan(n: usize, token: &str) -> Value {
    with(|w| {
        w.plans
            .get(token)
            .or_else(|| w.proc_plans.get(&n))
            .cloned()
            .unwrap_or_else(|| json!({"status": 200, "header": "tok", "body": "echo"}))
    })
}
pub fn is_held(n: usize, token: &str) -> bool {
    plan(n, token)["hold"] == json!(true)
}
pub fn hold(token: String, tx: oneshot::Sender<()>) {
    with(|w| w.held.insert(token, tx));
}
pub fn release(token: &str) -> bool {
    match with(|w| w.held.remove(token)) {
        Some(tx) => tx.send(()).is_ok(),
        None => false,
    }
}
