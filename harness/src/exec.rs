//! Interpreter of scenarios: drives the real client, pool and server step by step, together with
//! raw peers, and records what can be observed from outside.
use crate::clock;
use crate::dynp::*;
use crate::fault;
use crate::http;
use crate::val::*;
use crate::world;
use fibers::fiber::{Scheduler, SchedulerHandle};
use fibers::io::poll::Poller;
use fibers::{Executor, Spawn, ThreadPoolExecutor};
use futures::{self, Async, Future, Poll};
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::{RpcClient, RpcServerBuilder};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type BoxFut = Box<dyn Future<Item = (), Error = ()> + Send>;
type Slot = Arc<Mutex<Option<BoxFut>>>;
struct SlotFuture(Slot);
impl Future for SlotFuture {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let mut slot = self.0.lock().unwrap();
        let r = match slot.as_mut() {
            None => return Ok(Async::Ready(())),
            Some(f) => f.poll(),
        };
        if !matches!(r, Ok(Async::NotReady)) {
            *slot = None;
        }
        r
    }
}

#[macro_export]
macro_rules! by_n {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            0 => $f::<0>($($a),*), 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*),
            6 => $f::<6>($($a),*), 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*),
            9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 11 => $f::<11>($($a),*),
            12 => $f::<12>($($a),*), 13 => $f::<13>($($a),*), 14 => $f::<14>($($a),*),
            15 => $f::<15>($($a),*), 16 => $f::<16>($($a),*), 17 => $f::<17>($($a),*),
            18 => $f::<18>($($a),*), 19 => $f::<19>($($a),*), 20 => $f::<20>($($a),*),
            21 => $f::<21>($($a),*), 22 => $f::<22>($($a),*), 23 => $f::<23>($($a),*),
            n => panic!("too many procedures: {n}"),
        }
    };
}
fn do_register<const N: usize>(b: &mut RpcServerBuilder, owner: usize) -> bool {
    b.register(Handler::<N>(owner), Dyn::<N>).is_ok()
}
fn do_call<const N: usize>(
    id: String,
    pool: Option<&RpcClientPoolHandle>,
    addr: SocketAddr,
    args: &Value,
    from: Value,
) -> BoxFut {
    let req = Req::<N>::from_json(args);
    let mut ev = req.log();
    ev["e"] = json!("issue");
    ev["id"] = json!(id);
    ev["proc"] = json!(N);
    ev["addr"] = from["addr"].clone();
    ev["pooled"] = from["pooled"].clone();
    world::log(ev);
    let fut: Box<dyn Future<Item = Resp<N>, Error = htrpc::Error> + Send> = match pool {
        None => Box::new(RpcClient::new(addr).call::<Dyn<N>>(req)),
        Some(h) => Box::new(h.client(addr).call::<Dyn<N>>(req)),
    };
    Box::new(fut.then(move |r| {
        let ev = match r {
            Ok(resp) => {
                let mut ev = resp.log();
                ev["e"] = json!("ret");
                ev["id"] = json!(id);
                ev["ok"] = json!(1);
                ev["tok"] = match resp.header.first() {
                    Some(Val::Str(s)) => json!(s),
                    _ => json!(""),
                };
                ev
            }
            Err(e) => {
                let err: String = format!("{e}").chars().filter(|c| c.is_ascii() && !c.is_control()).take(160).collect();
                json!({"e": "ret", "id": id, "ok": 0, "err": err})
            }
        };
        world::log(ev);
        Ok(())
    }))
}

fn set_linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

struct RawClient {
    s: Option<TcpStream>,
    buf: Vec<u8>,
    eof: bool,
    paused: bool,
    /// What has not been sent yet of a request; whether the response to the last one has no body;
    /// whether the end of the connection has been logged.
    rest: Vec<u8>,
    head: bool,
    ended: bool,
}
struct SConn {
    addr: String,
    s: Option<TcpStream>,
    buf: Vec<u8>,
    eof: bool,
}
struct PConn {
    c: Option<TcpStream>,
    s: Option<TcpStream>,
    up: Vec<u8>,
    down: Vec<u8>,
    up_sent: usize,
    down_sent: usize,
    c_eof: bool,
    s_eof: bool,
    c_eof_fwd: bool,
    s_eof_fwd: bool,
    cut: bool,
    /// number of segments forwarded so far in each direction
    segs: [usize; 2],
    wait: [usize; 2],
}
struct Proxy {
    l: TcpListener,
    to: SocketAddr,
    conns: Vec<PConn>,
    seg: Vec<usize>,
    gap: usize,
    cut: Option<(bool, usize, String)>,
}

pub struct Exec {
    base: u32,
    scheduler: Scheduler,
    poller: Poller,
    pub dead: bool,
    /// A time limit has been exceeded: the scenario is not continued.
    stuck: bool,
    servers: HashMap<String, Slot>,
    raws: HashMap<String, RawClient>,
    /// id -> (listener, address)
    listeners: HashMap<String, (TcpListener, String)>,
    hung: HashMap<String, (TcpListener, Vec<i32>)>,
    sconns: Vec<SConn>,
    by_tok: HashMap<String, usize>,
    proxies: HashMap<String, Proxy>,
    calls: HashMap<String, Slot>,
    pools: HashMap<String, (Slot, RpcClientPoolHandle)>,
    moved: u64,
    exotic: bool,
    /// IPv6 is there.
    v6: bool,
}

const LIMIT_NS: i64 = 12_000_000_000;
/// Number of time limits that have been exceeded so far (in all scenarios).
static SPINS: AtomicUsize = AtomicUsize::new(0);
pub static HANGS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn raw_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.chars().map(|c| c as u32 as u8).collect(),
        Value::Array(a) => a.iter().flat_map(raw_bytes_item).collect(),
        v => make_body(v),
    }
}
fn raw_bytes_item(v: &Value) -> Vec<u8> {
    match v {
        Value::Number(n) => vec![n.as_u64().unwrap() as u8],
        v => raw_bytes(v),
    }
}

/// Durations are given in milliseconds, or as "seconds": whole seconds beyond what traces can express.
fn duration(v: &Value) -> Option<Duration> {
    match v.as_str() {
        Some("max") => Some(Duration::new(u64::MAX, 999_999_999)),
        Some(s) => Some(Duration::from_secs(s.parse().unwrap())),
        None => v.as_u64().map(Duration::from_millis),
    }
}
fn milliseconds(v: &Value, default: u64) -> u64 {
    duration(v).map_or(default, |d| d.as_millis().min(2_000_000_000) as u64)
}

/// The chunked coding of a body: chunks of the given sizes, the rest in one more chunk, the end.
fn chunked_body(body: &[u8], sizes: &Value) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = body;
    for n in sizes.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).chain(Some(usize::MAX)) {
        let (a, b) = rest.split_at(n.min(rest.len()));
        if !a.is_empty() {
            out.extend_from_slice(format!("{:x}\r\n", a.len()).as_bytes());
            out.extend_from_slice(a);
            out.extend_from_slice(b"\r\n");
        }
        rest = b;
    }
    out.extend_from_slice(b"0\r\n\r\n");
    out
}

/// Builds a raw request: method, target, headers, body, cl ("auto" if absent, null: no header),
/// cut (number of bytes sent in fact; if negative, counted from the end).
fn build_request(op: &Value) -> (Vec<u8>, Vec<u8>, Value) {
    let body = make_body(&op["body"]);
    let method = op["method"].as_str().unwrap();
    let target = raw_bytes(&op["target"]);
    let mut b = method.as_bytes().to_vec();
    b.push(b' ');
    b.extend_from_slice(&target);
    b.extend_from_slice(b" HTTP/1.1\r\n");
    let mut headers: Vec<(Vec<u8>, Vec<u8>)> = op["headers"].as_array().map_or(vec![], |a| {
        a.iter().map(|h| (raw_bytes(&h[0]), raw_bytes(&h[1]))).collect()
    });
    let chunked = op.get("chunks").is_some();
    if chunked {
        headers.push((b"Transfer-Encoding".to_vec(), b"chunked".to_vec()));
    } else if op.get("cl").is_none() {
        let cl = (b"Content-Length".to_vec(), body.len().to_string().into_bytes());
        if op["cl_first"] == json!(true) {
            headers.insert(0, cl);
        } else {
            headers.push(cl);
        }
    }
    for (k, v) in &headers {
        b.extend_from_slice(k);
        b.extend_from_slice(op["colon"].as_str().unwrap_or(": ").as_bytes());
        b.extend_from_slice(v);
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    if chunked {
        b.extend_from_slice(&chunked_body(&body, &op["chunks"]));
    } else {
        b.extend_from_slice(&body);
    }
    let n = match op["cut"].as_i64() {
        None => b.len(),
        Some(k) if k < 0 => (b.len() as i64 + k).max(0) as usize,
        Some(k) => (k as usize).min(b.len()),
    };
    let full = n == b.len();
    let rest = b.split_off(n);
    let hs: Vec<Value> = headers.iter().map(|(k, v)| json!([bytes_json(k), bytes_json(v)])).collect();
    (b, rest, json!({"e": "req", "method": method, "target": bytes_json(&target), "headers": hs,
               "body": body_json(&body), "full": full as u32}))
}

/// Builds a response of a raw server: either `raw` octets of some `kind`, or status, reason, headers,
/// body, cl, cut as for requests.
fn build_response(op: &Value) -> (Vec<u8>, Value) {
    if op.get("raw").is_some() {
        let b = raw_bytes(&op["raw"]);
        let ev = json!({"e": "reply", "kind": op["kind"].as_str().unwrap_or("junk"), "full": 0,
            "status": 0, "headers": [], "body": body_json(b""), "problem": [], "ctype": "", "nolen": 0});
        return (b, ev);
    }
    let body = make_body(&op["body"]);
    let status = op["status"].as_u64().unwrap();
    let mut b = format!("HTTP/1.1 {} {}\r\n", status, op["reason"].as_str().unwrap_or("R")).into_bytes();
    let mut headers: Vec<(Vec<u8>, Vec<u8>)> = op["headers"].as_array().map_or(vec![], |a| {
        a.iter().map(|h| (raw_bytes(&h[0]), raw_bytes(&h[1]))).collect()
    });
    let chunked = op.get("chunks").is_some();
    if chunked {
        headers.push((b"Transfer-Encoding".to_vec(), b"chunked".to_vec()));
    } else if op.get("cl").is_none() {
        headers.push((b"Content-Length".to_vec(), body.len().to_string().into_bytes()));
    }
    for (k, v) in &headers {
        b.extend_from_slice(k);
        b.extend_from_slice(b": ");
        b.extend_from_slice(v);
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    if chunked {
        b.extend_from_slice(&chunked_body(&body, &op["chunks"]));
    } else if op["nobody"] != json!(true) {
        b.extend_from_slice(&body);
    }
    let n = match op["cut"].as_i64() {
        None => b.len(),
        Some(k) if k < 0 => (b.len() as i64 + k).max(0) as usize,
        Some(k) => (k as usize).min(b.len()),
    };
    let full = n == b.len();
    b.truncate(n);
    let h = http::Head { line: vec![], headers, len: 0 };
    let mut ev = response_event("reply", "", &h, &body);
    ev["status"] = json!(status);
    ev["full"] = json!(full as u32);
    ev["kind"] = json!("resp");
    ev["nolen"] = json!((!chunked && op.get("cl").is_some()) as u32);
    (b, ev)
}

impl Exec {
    pub fn new(base: u32, exotic: bool) -> Exec {
        let poller = Poller::new().expect("poller");
        Exec {
            base,
            scheduler: Scheduler::new(poller.handle()),
            poller,
            dead: false,
            stuck: false,
            servers: HashMap::new(),
            raws: HashMap::new(),
            listeners: HashMap::new(),
            hung: HashMap::new(),
            sconns: Vec::new(),
            by_tok: HashMap::new(),
            proxies: HashMap::new(),
            calls: HashMap::new(),
            pools: HashMap::new(),
            moved: 0,
            exotic,
            v6: std::net::TcpListener::bind("[::1]:0").is_ok(),
        }
    }
    fn handle(&self) -> SchedulerHandle {
        self.scheduler.handle()
    }
    /// Address number k: [ip, port] index pair or a plain number.
    fn addr(&self, v: &Value) -> SocketAddr {
        let (ip, port) = match v {
            Value::Array(a) => (a[0].as_u64().unwrap() as u32, a[1].as_u64().unwrap() as u32),
            v => (v.as_u64().unwrap() as u32, 0),
        };
        if ip == 9 && self.v6 {
            let p = 10000 + (self.base % 5000) * 4 + port;
            format!("[::1]:{p}").parse().unwrap()
        } else if self.exotic {
            let b = self.base;
            let s = format!("127.{}.{}.{}:{}", 1 + (b / 200) % 200, 1 + b % 200, 1 + ip, 21000 + port);
            s.parse().unwrap()
        } else {
            let p = 10000 + (self.base % 1400) * 14 + ip * 4 + port;
            format!("127.0.0.1:{p}").parse().unwrap()
        }
    }

    // ------------------------------------------------------------ running
    pub fn round(&mut self) {
        if self.dead {
            return;
        }
        let (scheduler, poller) = (&mut self.scheduler, &mut self.poller);
        let r = catch_unwind(AssertUnwindSafe(|| {
            scheduler.run_once(false);
            poller.poll(Some(Duration::from_millis(0))).expect("poll");
        }));
        if r.is_err() {
            self.dead = true;
            world::log(json!({"e": "panic"}));
            return;
        }
        self.pump();
    }
    fn is_quiet(&self) -> bool {
        self.scheduler.run_queue_len() == 0
    }
    pub fn settle(&mut self) {
        let mut idle = 0;
        let mut since = clock::real();
        let mut progress = since;
        while !self.dead {
            let before = (world::log_len(), self.moved);
            self.round();
            let still = before == (world::log_len(), self.moved);
            let quiet = still && self.is_quiet();
            let now = clock::real();
            if !still {
                progress = now;
            }
            if quiet {
                idle += 1;
                if idle > 60 && now - since > 1_500_000 {
                    break;
                }
                if idle > 40 {
                    std::thread::sleep(Duration::from_micros(60));
                }
            } else {
                idle = 0;
                since = now;
            }
            // Something wakes itself all the time without getting anywhere.
            let patience = if SPINS.load(Ordering::SeqCst) < 3 { 3_000_000_000 } else { 100_000_000 };
            if now - progress > patience {
                SPINS.fetch_add(1, Ordering::SeqCst);
                break;
            }
        }
    }
    fn wait(&mut self, mut cond: impl FnMut(&mut Exec) -> bool) -> bool {
        let start = clock::real();
        let mut n = 0u64;
        while !self.dead {
            if cond(self) {
                return true;
            }
            self.round();
            n += 1;
            if n % 200 == 0 {
                if clock::real() - start > LIMIT_NS {
                    HANGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    self.stuck = true;
                    return cond(self);
                }
                if n > 4000 {
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        }
        false
    }

    // ------------------------------------------------------------ raw peers
    fn pump(&mut self) {
        let mut tmp = [0u8; 65536];
        for r in self.raws.values_mut() {
            if r.paused || r.eof {
                continue;
            }
            if let Some(s) = r.s.as_mut() {
                match s.read(&mut tmp) {
                    Ok(0) => {
                        r.eof = true;
                        self.moved += 1;
                    }
                    Ok(n) => {
                        r.buf.extend_from_slice(&tmp[..n]);
                        self.moved += 1;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => {
                        r.eof = true;
                        self.moved += 1;
                    }
                }
            }
        }
        for (l, addr) in self.listeners.values() {
            if let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                s.set_nodelay(true).ok();
                world::log(json!({"e": "saccept", "addr": addr, "conn": self.sconns.len()}));
                self.sconns.push(SConn { addr: addr.clone(), s: Some(s), buf: vec![], eof: false });
                self.moved += 1;
            }
        }
        for (i, c) in self.sconns.iter_mut().enumerate() {
            if c.eof {
                continue;
            }
            let r = match c.s.as_mut() {
                None => continue,
                Some(s) => s.read(&mut tmp),
            };
            match r {
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
                Ok(0) | Err(_) => {
                    c.eof = true;
                    c.s = None;
                    self.moved += 1;
                    world::log(json!({"e": "sclosed", "addr": c.addr, "conn": i, "left": c.buf.len()}));
                }
                Ok(n) => {
                    self.moved += 1;
                    c.buf.extend_from_slice(&tmp[..n]);
                    while let Some(h) = http::head(&c.buf) {
                        let n = h.content_length();
                        if c.buf.len() < h.len + n {
                            break;
                        }
                        let (method, target, _) = h.parts();
                        let text = String::from_utf8_lossy(&target).into_owned();
                        let tok = text.split('?').next().unwrap().rsplit('/').next().unwrap().to_owned();
                        world::log(json!({"e": "sreq", "addr": c.addr, "conn": i, "method": method,
                            "tok": tok, "body": body_json(&c.buf[h.len..h.len + n])}));
                        self.by_tok.insert(tok, i);
                        c.buf.drain(..h.len + n);
                    }
                }
            }
        }
        for p in self.proxies.values_mut() {
            p.pump(&mut tmp, &mut self.moved);
        }
    }

    /// Servers, a pool and lines of calls (one after the other in each) on several threads, in real time.
    fn storm(&mut self, op: &Value) {
        static ALONE: Mutex<()> = Mutex::new(());
        let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        world::set_global(world::set_local(None));
        let mut x = ThreadPoolExecutor::with_thread_count(op["threads"].as_u64().unwrap() as usize).expect("threads");
        let mut addrs = HashMap::new();
        for a in op["servers"].as_array().unwrap() {
            let addr = self.addr(&a["addr"]);
            let mut b = RpcServerBuilder::new(addr);
            for (owner, p) in a["procs"].as_array().unwrap().iter().enumerate() {
                let n = p.as_u64().unwrap() as usize;
                let ok = by_n!(n, do_register, &mut b, owner);
                world::log(json!({"e": "register", "proc": n, "owner": owner, "ok": ok as u32}));
            }
            x.spawn(b.start(x.handle()).then(|_| Ok(())));
            addrs.insert(a["addr"].to_string(), addr);
        }
        let start = clock::real();
        let late = |s: i64| clock::real() - start > s * 1_000_000_000;
        let mut broken = false;
        for a in addrs.values() {
            while !broken && TcpStream::connect(a).is_err() {
                broken = x.run_once().is_err() || late(30);
            }
        }
        let p = RpcClientPool::with_pool_size(op["size"].as_u64().unwrap() as usize);
        let handle = p.handle();
        x.spawn(p.then(|_| Ok(())));
        let done = Arc::new(AtomicUsize::new(0));
        let mut lines = 0;
        for line in op["lines"].as_array().unwrap() {
            let calls: Vec<Value> = line.as_array().unwrap().clone();
            let (handle, addrs, done) = (handle.clone(), addrs.clone(), done.clone());
            lines += 1;
            x.spawn(
                futures::future::loop_fn(0, move |i| -> Box<dyn Future<Item = _, Error = ()> + Send> {
                    if i == calls.len() {
                        return Box::new(futures::finished(futures::future::Loop::Break(())));
                    }
                    let c = &calls[i];
                    let n = c["proc"].as_u64().unwrap_or(0) as usize;
                    let pool = if c["pool"].is_string() { Some(&handle) } else { None };
                    let from = json!({"addr": c["addr"].to_string(), "pooled": pool.is_some() as u32});
                    let id = c["id"].as_str().unwrap().to_owned();
                    let call = by_n!(n, do_call, id, pool, addrs[&c["addr"].to_string()], &c["args"], from);
                    Box::new(call.map(move |_| futures::future::Loop::Continue(i + 1)))
                })
                .then(move |_| {
                    done.fetch_add(1, Ordering::SeqCst);
                    Ok(())
                }),
            );
        }
        while !broken && done.load(Ordering::SeqCst) < lines && !late(60) {
            broken = x.run_once().is_err();
        }
        let left = lines - done.load(Ordering::SeqCst);
        if broken || left > 0 {
            world::log(json!({"e": "stuck", "lines": left, "broken": broken as u32}));
        }
        world::set_local(world::set_global(None));
    }

    /// Calls one after the other, all with the same idle connection: those which go as usual are
    /// summarised in one event; after the first which does not, its own events are left and no more are made.
    fn warm(&mut self, op: &Value) {
        let start = clock::real();
        let mut conn = Value::Null;
        let mut n = 0;
        let mark = world::log_len();
        let mut usual = true;
        while usual && n < op["n"].as_u64().unwrap() && clock::real() - start < 40_000_000_000 && !self.dead {
            let id = format!("{}-{n}", op["id"].as_str().unwrap());
            self.op(&json!({"op": "call", "id": id, "proc": 0, "addr": op["addr"], "pool": op["pool"],
                "args": {"path": [id.clone()], "body": ""}}));
            self.op(&json!({"op": "reply", "tok": id, "status": 200, "headers": [["x-tok", id.clone()]], "body": ""}));
            self.op(&json!({"op": "wait_call", "id": id}));
            let es: Vec<Value> = world::with(|w| w.log[mark..].to_vec());
            let names: Vec<&str> = es.iter().map(|e| e["e"].as_str().unwrap()).collect();
            usual = names == ["issue", "sreq", "reply", "ret"]
                && (n == 0 || es[1]["conn"] == conn)
                && es[1]["tok"] == json!(id)
                && es[3]["id"] == json!(id)
                && es[3]["ok"] == json!(1)
                && es[3]["tok"] == json!(id)
                && es[3]["status"] == json!(200)
                && es[3]["body"] == es[2]["body"];
            if usual {
                conn = es[1]["conn"].clone();
                n += 1;
                world::with(|w| w.log.truncate(mark));
                self.by_tok.remove(&id);
                self.calls.remove(&id);
            }
        }
        if n > 0 {
            let ev = json!({"e": "warm", "addr": op["addr"].to_string(), "conn": conn, "n": n});
            world::with(|w| w.log.insert(mark, ev));
        }
    }

    // ------------------------------------------------------------ operations
    pub fn run(&mut self, ops: &[Value]) {
        if !self.exotic && ops.iter().any(|op| op["addr"][0].as_u64().map_or(false, |ip| ip > 9)) {
            return; // there are not enough addresses
        }
        for op in ops {
            if self.dead || self.stuck {
                return;
            }
            self.op(op);
        }
    }
    fn op(&mut self, op: &Value) {
        let s = |k: &str| op[k].as_str().unwrap_or("").to_owned();
        match op["op"].as_str().expect("op") {
            "server" => {
                let addr = self.addr(&op["addr"]);
                let mut b = RpcServerBuilder::new(addr);
                for (owner, p) in op["procs"].as_array().unwrap().iter().enumerate() {
                    let n = p.as_u64().unwrap() as usize;
                    let ok = by_n!(n, do_register, &mut b, owner);
                    world::log(json!({"e": "register", "proc": n, "owner": owner, "ok": ok as u32}));
                }
                let id = s("id");
                let fut: BoxFut = Box::new(b.start(self.handle()).then(move |r| {
                    world::log(json!({"e": "serverdown", "id": id, "ok": r.is_ok() as u32}));
                    Ok(())
                }));
                let slot: Slot = Arc::new(Mutex::new(Some(fut)));
                self.handle().spawn(SlotFuture(slot.clone()));
                self.servers.insert(s("id"), slot);
                let up = self.wait(|_| TcpStream::connect(addr).is_ok());
                if !up && !self.dead {
                    world::log(json!({"e": "nolisten", "id": s("id")}));
                }
                self.settle();
            }
            "listen" => {
                let addr = self.addr(&op["addr"]);
                let l = TcpListener::bind(addr).unwrap_or_else(|e| panic!("bind {addr}: {e}"));
                l.set_nonblocking(true).unwrap();
                self.listeners.insert(s("id"), (l, op["addr"].to_string()));
                world::log(json!({"e": "net", "addr": op["addr"].to_string(), "st": "up"}));
            }
            "unlisten" => {
                self.listeners.remove(&s("id"));
                world::log(json!({"e": "net", "addr": op["addr"].to_string(), "st": "down"}));
                self.hung.remove(&s("id")).map(|(_, fds)| {
                    for fd in fds {
                        unsafe { libc::close(fd) };
                    }
                });
            }
            "hang" => {
                // A listener with a full backlog: connection attempts stay unanswered.
                let addr = self.addr(&op["addr"]);
                let l = TcpListener::bind(addr).expect("bind");
                unsafe { libc::listen(l.as_raw_fd(), 0) };
                let mut fds = Vec::new();
                for _ in 0..4 {
                    let fd = unsafe {
                        libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0)
                    };
                    let (ip, port) = match addr {
                        SocketAddr::V4(a) => (u32::from(*a.ip()), a.port()),
                        _ => unreachable!(),
                    };
                    let sa = libc::sockaddr_in {
                        sin_family: libc::AF_INET as u16,
                        sin_port: port.to_be(),
                        sin_addr: libc::in_addr { s_addr: ip.to_be() },
                        sin_zero: [0; 8],
                    };
                    unsafe {
                        libc::connect(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32)
                    };
                    fds.push(fd);
                }
                std::thread::sleep(Duration::from_millis(2));
                self.hung.insert(s("id"), (l, fds));
                world::log(json!({"e": "net", "addr": op["addr"].to_string(), "st": "hang"}));
            }
            "proxy" => {
                let l = TcpListener::bind(self.addr(&op["addr"])).expect("bind");
                l.set_nonblocking(true).unwrap();
                let seg = op["seg"]
                    .as_array()
                    .map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
                let cut = op["cut"].as_array().map(|a| {
                    (a[0] == "up", a[1].as_u64().unwrap() as usize, a[2].as_str().unwrap().to_owned())
                });
                self.proxies.insert(
                    s("id"),
                    Proxy {
                        l,
                        to: self.addr(&op["to"]),
                        conns: vec![],
                        seg,
                        gap: op["gap"].as_u64().unwrap_or(3) as usize,
                        cut,
                    },
                );
            }
            "wire" => self.log_wire(&s("id")),
            "pool" => {
                let mut p = RpcClientPool::with_pool_size(op["size"].as_u64().unwrap_or(1024) as usize);
                if op["size"].is_null() {
                    p = RpcClientPool::new();
                }
                if let Some(d) = duration(&op["suspend"]) {
                    p.set_suspended_duration(d);
                }
                if let Some(d) = duration(&op["timeout"]) {
                    p.set_connect_timeout(d);
                }
                let handle = p.handle();
                let fut: BoxFut = Box::new(p.then(|_| {
                    world::log(json!({"e": "pooldown"}));
                    Ok(())
                }));
                let slot: Slot = Arc::new(Mutex::new(Some(fut)));
                self.handle().spawn(SlotFuture(slot.clone()));
                self.pools.insert(s("id"), (slot, handle));
                self.settle();
                world::log(json!({"e": "pool", "size": op["size"].as_u64().unwrap_or(1024),
                    "suspend": milliseconds(&op["suspend"], 60000),
                    "timeout": milliseconds(&op["timeout"], 1000)}));
            }
            "drop_pool" => {
                let fut = self.pools.get(&s("id")).and_then(|p| p.0.lock().unwrap().take());
                world::log(json!({"e": "droppool", "id": s("id")}));
                drop(fut);
            }
            "call" => {
                let id = s("id");
                let n = op["proc"].as_u64().unwrap_or(0) as usize;
                let addr = self.addr(&op["addr"]);
                let pool = op["pool"].as_str().map(|p| self.pools[p].1.clone());
                let from = json!({"addr": op["addr"].to_string(), "pooled": pool.is_some() as u32});
                let fut = by_n!(n, do_call, id.clone(), pool.as_ref(), addr, &op["args"], from);
                let slot: Slot = Arc::new(Mutex::new(Some(fut)));
                self.handle().spawn(SlotFuture(slot.clone()));
                self.calls.insert(id, slot);
            }
            "wait_call" => {
                let slot = self.calls[&s("id")].clone();
                if !self.wait(|_| slot.lock().unwrap().is_none()) && !self.dead {
                    world::log(json!({"e": "hang", "id": s("id")}));
                }
            }
            "drop_call" => {
                let fut = self.calls.get(&s("id")).and_then(|c| c.lock().unwrap().take());
                world::log(json!({"e": "cancel", "id": s("id"), "live": fut.is_some() as u32}));
                drop(fut);
            }
            "pending" => {
                // Logs which of the calls have not finished yet.
                let mut ids: Vec<&String> = self
                    .calls
                    .iter()
                    .filter(|(_, s)| s.lock().unwrap().is_some())
                    .map(|(k, _)| k)
                    .collect();
                ids.sort();
                world::log(json!({"e": "pending", "ids": ids}));
            }
            "plan" => {
                let v = op["plan"].clone();
                match op["tok"].as_str() {
                    Some(t) => world::with(|w| w.plans.insert(t.to_owned(), v)),
                    None => world::with(|w| w.proc_plans.insert(op["proc"].as_u64().unwrap() as usize, v)),
                };
            }
            "release" => {
                let ok = world::release(&s("tok"));
                world::log(json!({"e": "release", "tok": s("tok"), "ok": ok as u32}));
            }
            "open" => {
                let addr = self.addr(&op["addr"]);
                match TcpStream::connect(addr) {
                    Ok(c) => {
                        c.set_nonblocking(true).unwrap();
                        c.set_nodelay(true).ok();
                        self.raws.insert(
                            s("id"),
                            RawClient { s: Some(c), buf: vec![], eof: false, paused: false, rest: vec![], head: false, ended: false },
                        );
                        world::log(json!({"e": "open", "c": s("id"), "ok": 1}));
                    }
                    Err(_) => {
                        self.raws.insert(
                            s("id"),
                            RawClient { s: None, buf: vec![], eof: true, paused: false, rest: vec![], head: false, ended: true },
                        );
                        world::log(json!({"e": "open", "c": s("id"), "ok": 0}))
                    }
                }
            }
            "pause" => self.raws.get_mut(&s("id")).unwrap().paused = op["on"] == json!(true),
            "send" => {
                let bytes = raw_bytes(&op["raw"]);
                let mut ev = op["ev"].clone();
                if !ev.is_object() {
                    ev = json!({"e": "send"});
                }
                self.send(op, bytes, ev)
            }
            "req" => {
                let (bytes, rest, ev) = build_request(op);
                if let Some(r) = self.raws.get_mut(&s("id")) {
                    r.rest = rest;
                    r.head = op["method"] == json!("HEAD");
                }
                self.send(op, bytes, ev)
            }
            "rest" => {
                let rest = self.raws.get_mut(&s("id")).map_or(vec![], |r| std::mem::take(&mut r.rest));
                self.send(op, rest, json!({"e": "rest"}))
            }
            "collect" => self.collect(),
            "shut" => {
                if let Some(c) = self.raws.get_mut(&s("id")).and_then(|r| r.s.as_ref()) {
                    let _ = c.shutdown(Shutdown::Write);
                }
                world::log(json!({"e": "shut", "c": s("id")}));
            }
            "close" | "reset" => {
                let how = s("op");
                if let Some(c) = self.raws.get_mut(&s("id")) {
                    if let (Some(c), true) = (&c.s, how == "reset") {
                        set_linger0(c);
                    }
                    c.s = None;
                    c.eof = true;
                }
                world::log(json!({"e": how, "c": s("id")}));
            }
            "recv" => self.recv(op),
            "leftover" => {
                let (n, eof) = self.raws.get(&s("id")).map_or((0, true), |r| (r.buf.len(), r.eof));
                world::log(json!({"e": "leftover", "c": s("id"), "n": n, "eof": eof as u32}));
            }
            "reply" => {
                // Waits for the request, then sends raw bytes on the connection it came on.
                let tok = s("tok");
                let t2 = tok.clone();
                let from = op["conn"].as_u64().map(|x| x as usize);
                if op["if"] == json!(true) && !self.by_tok.contains_key(&tok) {
                    return;
                }
                if from.is_none() && !self.wait(move |x| x.by_tok.contains_key(&t2)) {
                    world::log(json!({"e": "noreq", "tok": tok}));
                    return;
                }
                let i = from.unwrap_or_else(|| self.by_tok[&tok]);
                let (bytes, mut ev) = build_response(op);
                let seg: Vec<usize> = op["seg"]
                    .as_array()
                    .map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
                let gap = op["gap"].as_u64().unwrap_or(8);
                ev["xtok"] = if ev["tok"].is_null() { json!("") } else { ev["tok"].clone() };
                ev["tok"] = json!(tok);
                ev["conn"] = json!(i);
                world::log(ev);
                let mut at = 0;
                let mut k = 0;
                while at < bytes.len() {
                    let n = seg.get(k).copied().unwrap_or(bytes.len()).max(1).min(bytes.len() - at);
                    let end = at + n;
                    let start = clock::real();
                    while at < end && clock::real() - start < LIMIT_NS && !self.dead {
                        match self.sconns[i].s.as_mut() {
                            None => return,
                            Some(s) => match s.write(&bytes[at..end]) {
                                Ok(n) => at += n,
                                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                                Err(_) => return,
                            },
                        }
                        if at < end {
                            self.round();
                        }
                    }
                    k += 1;
                    if at < bytes.len() {
                        for _ in 0..gap {
                            self.round();
                        }
                    }
                }
            }
            "sclose" => {
                let i = match op["conn"].as_u64() {
                    Some(i) => Some(i as usize),
                    None => self.by_tok.get(&s("tok")).copied(),
                };
                if op["if"] == json!(true) && i.map_or(true, |i| i >= self.sconns.len() || self.sconns[i].s.is_none()) {
                    return;
                }
                if let Some(i) = i {
                    let how = s("how");
                    let left = self.sconns[i].eof;
                    if let Some(c) = self.sconns[i].s.as_ref() {
                        match how.as_str() {
                            "reset" => set_linger0(c),
                            "half" => {
                                let _ = c.shutdown(Shutdown::Write);
                            }
                            _ => {}
                        }
                    }
                    if how != "half" {
                        self.sconns[i].s = None;
                    }
                    world::log(json!({"e": "sclose", "conn": i, "how": how, "dead": left as u32}));
                } else {
                    world::log(json!({"e": "noreq", "tok": s("tok")}));
                }
            }
            "wait_req" => {
                let tok = s("tok");
                let t2 = tok.clone();
                if !self.wait(move |x| x.by_tok.contains_key(&t2)) && !self.dead {
                    world::log(json!({"e": "noreq", "tok": tok}));
                }
            }
            "wait_invoke" => {
                let tok = s("tok");
                let f = move |_: &mut Exec| {
                    world::with(|w| w.log.iter().any(|e| e["e"] == "invoke" && e["tok"] == json!(tok)))
                };
                if !self.wait(f) && !self.dead {
                    world::log(json!({"e": "noinvoke", "tok": s("tok")}));
                }
            }
            "tick" => {
                clock::advance(op["ms"].as_i64().unwrap() * 1_000_000);
                world::log(json!({"e": "tick", "ms": op["ms"]}));
                if op["quiet"] != json!(true) {
                    self.settle();
                }
            }
            "storm" => self.storm(op),
            "warm" => self.warm(op),
            // The next accepts of the server at the address fail.
            "accepts_fail" => {
                let errors = op["errors"].as_array().unwrap().iter().map(|e| e.as_i64().unwrap() as i32).collect();
                fault::accepts(self.addr(&op["addr"]).port(), errors);
            }
            "rounds" => {
                for _ in 0..op["n"].as_u64().unwrap() {
                    self.round();
                }
            }
            "settle" => self.settle(),
            "quiet" => {
                self.settle();
                world::log(json!({"e": "quiet"}));
            }
            "note" => world::log(op["ev"].clone()),
            x => panic!("unknown op {x}"),
        }
    }

    fn send(&mut self, op: &Value, bytes: Vec<u8>, mut ev: Value) {
        let id = op["id"].as_str().unwrap().to_owned();
        let seg: Vec<usize> = op["seg"]
            .as_array()
            .map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
        let gap = op["gap"].as_u64().unwrap_or(12);
        ev["c"] = json!(id);
        world::log(ev);
        let mut at = 0;
        let mut k = 0;
        let start = clock::real();
        while at < bytes.len() && !self.dead {
            let n = if seg.is_empty() { bytes.len() } else { seg[k % seg.len()].max(1) };
            let end = (at + n).min(bytes.len());
            while at < end && !self.dead {
                match self.raws.get_mut(&id).and_then(|r| r.s.as_mut()) {
                    None => return,
                    Some(s) => match s.write(&bytes[at..end]) {
                        Ok(n) => at += n,
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                            if clock::real() - start > LIMIT_NS {
                                world::log(json!({"e": "sendhang", "c": id}));
                                return;
                            }
                        }
                        Err(_) => return,
                    },
                }
                if at < end {
                    self.round();
                }
            }
            k += 1;
            if at < bytes.len() {
                for _ in 0..gap {
                    self.round();
                }
            }
        }
    }
    fn recv(&mut self, op: &Value) {
        let id = op["id"].as_str().unwrap().to_owned();
        let is_head = op["head"] == json!(true);
        let id2 = id.clone();
        let done = move |x: &mut Exec| match x.raws.get(&id2) {
            None => true,
            Some(r) => {
                r.eof
                    || http::head(&r.buf)
                        .map_or(false, |h| is_head || r.buf.len() >= h.len + h.content_length())
            }
        };
        let got = self.wait(done);
        if self.dead {
            return;
        }
        let ev = match self.raws.get_mut(&id) {
            None => json!({"e": "rclosed", "c": id, "n": 0}),
            Some(r) => match http::head(&r.buf) {
                Some(h) if is_head || r.buf.len() >= h.len + h.content_length() => {
                    let n = if is_head { 0 } else { h.content_length() };
                    let body = r.buf[h.len..h.len + n].to_vec();
                    r.buf.drain(..h.len + n);
                    response_event("resp", &id, &h, &body)
                }
                _ if got || r.eof => json!({"e": "rclosed", "c": id, "n": r.buf.len()}),
                _ => json!({"e": "rhang", "c": id, "n": r.buf.len()}),
            },
        };
        world::log(ev);
    }
    /// Waits until nothing happens any more, then logs what all raw clients have received.
    fn collect(&mut self) {
        self.settle();
        if self.dead {
            return;
        }
        let mut ids: Vec<String> = self.raws.keys().cloned().collect();
        ids.sort();
        let mut evs = Vec::new();
        for id in ids {
            let r = self.raws.get_mut(&id).unwrap();
            if r.s.is_none() {
                continue;
            }
            while let Some(h) = http::head(&r.buf) {
                let n = if r.head { 0 } else { h.content_length() };
                if r.buf.len() < h.len + n {
                    break;
                }
                let body = r.buf[h.len..h.len + n].to_vec();
                r.buf.drain(..h.len + n);
                evs.push(response_event("resp", &id, &h, &body));
            }
            if r.eof && !r.ended {
                r.ended = true;
                evs.push(json!({"e": "rclosed", "c": id, "n": r.buf.len()}));
            }
            evs.push(json!({"e": "leftover", "c": id, "n": r.buf.len(), "eof": r.eof as u32}));
        }
        evs.push(json!({"e": "squiet"}));
        for e in evs {
            world::log(e);
        }
    }
    fn log_wire(&mut self, id: &str) {
        let p = &self.proxies[id];
        let mut evs = Vec::new();
        for (k, c) in p.conns.iter().enumerate() {
            let (mut up, mut down): (&[u8], &[u8]) = (&c.up, &c.down);
            loop {
                let mut progressed = false;
                let mut method = String::new();
                if let Some(h) = http::head(up) {
                    let n = h.content_length();
                    let m = h.parts();
                    method = m.0.clone();
                    let have = n.min(up.len() - h.len);
                    evs.push(json!({"e": "wreq", "conn": k, "method": m.0, "target": bytes_json(&m.1),
                        "ver": m.2, "headers": h.log_headers(), "cl": h.content_lengths(),
                        "body": body_json(&up[h.len..h.len + have])}));
                    up = &up[h.len + have..];
                    progressed = true;
                }
                if let Some(h) = http::head(down) {
                    let n = if method == "HEAD" { 0 } else { h.content_length() };
                    let have = n.min(down.len() - h.len);
                    let body = down[h.len..h.len + have].to_vec();
                    evs.push(response_event("wresp", &k.to_string(), &h, &body));
                    down = &down[h.len + have..];
                    progressed = true;
                }
                if !progressed {
                    break;
                }
            }
            evs.push(json!({"e": "wend", "conn": k, "up": up.len(), "down": down.len()}));
        }
        for e in evs {
            world::log(e);
        }
    }
}
fn response_event(e: &str, c: &str, h: &http::Head, body: &[u8]) -> Value {
    let get = |name: &[u8]| {
        h.headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| String::from_utf8_lossy(v).into_owned())
            .unwrap_or_default()
    };
    let ctype = get(b"content-type");
    let problem = if ctype == "application/problem+json" {
        let v = serde_json::from_slice::<Value>(body).unwrap_or(Value::Null);
        json!([problem_value(&v)])
    } else {
        json!([])
    };
    json!({"e": e, "c": c, "status": h.status(), "headers": h.log_headers(), "cl": h.content_lengths(),
        "tok": get(b"x-tok"), "ctype": ctype, "problem": problem, "body": body_json(body)})
}
impl Proxy {
    fn pump(&mut self, tmp: &mut [u8], moved: &mut u64) {
        if let Ok((c, _)) = self.l.accept() {
            *moved += 1;
            c.set_nonblocking(true).unwrap();
            c.set_nodelay(true).ok();
            let s = TcpStream::connect(self.to).ok();
            if let Some(s) = &s {
                s.set_nonblocking(true).unwrap();
                s.set_nodelay(true).ok();
            }
            let c = if s.is_some() { Some(c) } else { None };
            self.conns.push(PConn {
                c,
                s,
                up: vec![],
                down: vec![],
                up_sent: 0,
                down_sent: 0,
                c_eof: false,
                s_eof: false,
                c_eof_fwd: false,
                s_eof_fwd: false,
                cut: false,
                segs: [0, 0],
                wait: [0, 0],
            });
        }
        let cut = self.cut.clone();
        for p in self.conns.iter_mut() {
            if p.cut || p.c.is_none() || p.s.is_none() {
                continue;
            }
            for dir in 0..2 {
                let is_up = dir == 0;
                let (src, dst) = if is_up { (&mut p.c, &mut p.s) } else { (&mut p.s, &mut p.c) };
                let (buf, sent, eof, eof_fwd) = if is_up {
                    (&mut p.up, &mut p.up_sent, &mut p.c_eof, &mut p.c_eof_fwd)
                } else {
                    (&mut p.down, &mut p.down_sent, &mut p.s_eof, &mut p.s_eof_fwd)
                };
                if !*eof {
                    match src.as_mut().unwrap().read(tmp) {
                        Ok(0) => *eof = true,
                        Ok(n) => {
                            *moved += 1;
                            buf.extend_from_slice(&tmp[..n]);
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                        Err(_) => *eof = true,
                    }
                }
                if *sent < buf.len() {
                    if p.wait[dir] > 0 {
                        p.wait[dir] -= 1;
                        *moved += 1;
                    } else {
                        let mut n = buf.len() - *sent;
                        if !self.seg.is_empty() {
                            n = n.min(self.seg[p.segs[dir] % self.seg.len()].max(1));
                        }
                        if let Some((u, at, _)) = &cut {
                            if *u == is_up {
                                n = n.min(at.saturating_sub(*sent));
                            }
                        }
                        if n > 0 {
                            if let Ok(m) = dst.as_mut().unwrap().write(&buf[*sent..*sent + n]) {
                                *sent += m;
                                *moved += 1;
                                p.segs[dir] += 1;
                                if !self.seg.is_empty() {
                                    p.wait[dir] = self.gap;
                                }
                            }
                        }
                    }
                }
                let mut do_cut = false;
                if let Some((u, at, _)) = &cut {
                    do_cut = *u == is_up && *sent >= *at && !*eof_fwd;
                }
                if *eof && *sent == buf.len() && !*eof_fwd {
                    *eof_fwd = true;
                    *moved += 1;
                    let _ = dst.as_ref().unwrap().shutdown(Shutdown::Write);
                }
                if do_cut {
                    let how = &cut.as_ref().unwrap().2;
                    *moved += 1;
                    p.cut = true;
                    match how.as_str() {
                        "reset" => {
                            set_linger0(p.c.as_ref().unwrap());
                            set_linger0(p.s.as_ref().unwrap());
                            p.c = None;
                            p.s = None;
                        }
                        "half" => {
                            // Stop forwarding in this direction, with a FIN; keep the other one.
                            p.cut = false;
                            *eof_fwd_mut(is_up, &mut p.c_eof_fwd, &mut p.s_eof_fwd) = true;
                            if is_up {
                                p.c_eof = true;
                                p.up.truncate(p.up_sent);
                                let _ = p.s.as_ref().unwrap().shutdown(Shutdown::Write);
                            } else {
                                p.s_eof = true;
                                p.down.truncate(p.down_sent);
                                let _ = p.c.as_ref().unwrap().shutdown(Shutdown::Write);
                            }
                        }
                        _ => {
                            p.c = None;
                            p.s = None;
                        }
                    }
                    break;
                }
            }
            if p.c_eof_fwd && p.s_eof_fwd {
                p.c = None;
                p.s = None;
            }
        }
    }
}
fn eof_fwd_mut<'a>(up: bool, a: &'a mut bool, b: &'a mut bool) -> &'a mut bool {
    if up { a } else { b }
}
