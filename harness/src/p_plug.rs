//! X01: a plugin client pairs every reply with its request. The client talks to scripted plugin processes that log what
//! they received and sent; an offline checker compares the results of the calls with that log.
use crate::cx::*;
use crate::p_file::Scratch;
use crate::p_err::same;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::tensor::Tensor;
use hodu_plugin::rpc::{TensorInput, TensorOutput};
use hodu_plugin_runtime::{
    backend, format, stop_plugin, CancellationHandle, ClientError, PluginCapabilities, PluginClient, PluginEntry, PluginRegistry,
    PluginSource, PluginType, Runtime, RuntimeError,
};
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
pub fn me() -> PathBuf {
    std::env::current_exe().expect("own path")
}

// ---------------------------------------------------------------- the scripted plugin (another process)

/// `hv fakeplugin SCRIPT LOG`: for the k-th request (other than a cancellation) perform the k-th list of actions.
pub fn fake_main(script: &str, log: &str) -> ! {
    let script: Value = serde_json::from_str(&std::fs::read_to_string(script).expect("script")).expect("script");
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(log).expect("log");
    let mut put = |v: Value| {
        let _ = log.write_all(format!("{}\n", v).as_bytes());
    };
    put(json!({"t": now(), "e": "start", "pid": std::process::id()}));
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
    let stdin = std::io::stdin();
    let mut input = std::io::BufReader::new(stdin.lock());
    let steps = script["steps"].as_array().cloned().unwrap_or_default();
    let stubborn = script["stubborn"].as_bool().unwrap_or(false);
    let mut k = 0;
    let mut prev = 0i64;
    let end = |stubborn: bool| -> ! {
        if stubborn {
            std::thread::sleep(Duration::from_secs(60));
        }
        std::process::exit(0)
    };
    // reads the next line; None at the end of the input
    fn next(input: &mut dyn BufRead, put: &mut dyn FnMut(Value)) -> Option<Value> {
        let mut line = String::new();
        match input.read_line(&mut line) {
            Ok(n) if n > 0 => {
                let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
                put(json!({"t": now(), "e": "recv", "v": v, "len": line.len(), "whole": line.ends_with('\n')}));
                Some(v)
            }
            _ => None,
        }
    }
    loop {
        let Some(req) = next(&mut input, &mut put) else { put(json!({"t": now(), "e": "eof"})); end(stubborn) };
        match req["method"].as_str() {
            Some("shutdown") => end(stubborn),
            Some("$/cancel") => continue,
            _ => {}
        }
        let id = req["id"].as_i64().unwrap_or(-1);
        let empty = vec![];
        for a in steps.get(k).and_then(|s| s.as_array()).unwrap_or(&empty) {
            match a["a"].as_str().unwrap_or("") {
                "line" => {
                    let mut bytes = a["s"].as_str().unwrap_or("").replace("$ID", &id.to_string()).replace("$PREV", &prev.to_string()).into_bytes();
                    if let Some(b) = a["raw"].as_array() {
                        bytes.extend(b.iter().map(|x| x.as_u64().unwrap_or(0) as u8));
                    }
                    if !a["cut"].as_bool().unwrap_or(false) {
                        bytes.push(b'\n');
                    }
                    put(json!({"t": now(), "e": "send", "c": a["c"], "v": a["v"], "id": id}));
                    let parts = a["parts"].as_u64().unwrap_or(1).max(1) as usize;
                    let size = bytes.len().div_ceil(parts).max(1);
                    for (i, part) in bytes.chunks(size).enumerate() {
                        if i > 0 {
                            std::thread::sleep(Duration::from_millis(2));
                        }
                        if out.write_all(part).is_err() {
                            put(json!({"t": now(), "e": "die"}));
                        }
                    }
                    put(json!({"t": now(), "e": "sent", "c": a["c"], "id": id}));
                }
                "sleep" => std::thread::sleep(Duration::from_millis(a["ms"].as_u64().unwrap_or(0))),
                "exit" => {
                    put(json!({"t": now(), "e": "die"}));
                    std::process::exit(a["code"].as_i64().unwrap_or(0) as i32)
                }
                "abort" => {
                    put(json!({"t": now(), "e": "die"}));
                    unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
                }
                "close_out" => {
                    put(json!({"t": now(), "e": "die"}));
                    unsafe { libc::close(1) };
                }
                "close_in" => {
                    put(json!({"t": now(), "e": "die"}));
                    unsafe { libc::close(0) };
                }
                "await_cancel" => loop {
                    match next(&mut input, &mut put) {
                        Some(v) if v["method"] == "$/cancel" => break,
                        Some(_) => {}
                        None => end(stubborn),
                    }
                },
                _ => {}
            }
        }
        prev = id;
        k += 1;
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: u64,
    pub e: String,
    pub v: Value,
}
pub fn read_log(p: &Path) -> Vec<Ev> {
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .map(|v| Ev { t: v["t"].as_u64().unwrap_or(0), e: v["e"].as_str().unwrap_or("").to_string(), v })
        .collect()
}

// ---------------------------------------------------------------- the calls

#[derive(Clone, Debug)]
enum Req {
    Init,
    LoadModel(String),
    SaveModel(String, String),
    LoadTensor(String),
    SaveTensor(String, String),
    Run(String, String, String, Vec<(String, String)>),
    Build(String, String, String, String, String),
    Targets,
}
use Req::*;
impl Req {
    fn wire(&self) -> (&'static str, Value) {
        match self {
            Init => ("initialize", json!({"plugin_version": hodu_plugin::PLUGIN_VERSION, "protocol_version": "1.0.0"})),
            LoadModel(p) => ("format.load_model", json!({"path": p})),
            SaveModel(a, b) => ("format.save_model", json!({"snapshot_path": a, "output_path": b})),
            LoadTensor(p) => ("format.load_tensor", json!({"path": p})),
            SaveTensor(a, b) => ("format.save_tensor", json!({"tensor_path": a, "output_path": b})),
            Run(l, s, d, i) => (
                "backend.run",
                json!({"library_path": l, "snapshot_path": s, "device": d,
                       "inputs": i.iter().map(|(n, p)| json!({"name": n, "path": p})).collect::<Vec<_>>()}),
            ),
            Build(s, t, d, f, o) => ("backend.build", json!({"snapshot_path": s, "target": t, "device": d, "format": f, "output_path": o})),
            Targets => ("backend.supported_targets", json!({})),
        }
    }
    /// a result of the type the call returns, and what the caller should see of it
    fn reply(&self, r: &mut Rng, tok: &str) -> (Value, Value) {
        let v = match self {
            Init => {
                let proto = ["1.0.0", "1.0.0", "1.7.3", "1.2", "1"][(r.below(5) as u64) as usize];
                let v = json!({"name": tok, "version": "3.1.4", "protocol_version": proto, "plugin_version": hodu_plugin::PLUGIN_VERSION,
                               "capabilities": [tok, "backend.run"], "devices": ["cpu", tok]});
                return (v.clone(), v);
            }
            LoadModel(_) => json!({"snapshot_path": format!("{}/m.hdss", tok)}),
            LoadTensor(_) => json!({"tensor_path": format!("{}/t.hdt", tok)}),
            Run(_, _, _, i) => json!({"outputs": i.iter().map(|(n, _)| json!({"name": n, "path": format!("{}-{}", tok, n)})).collect::<Vec<_>>()}),
            Targets => json!({"targets": [tok, "x86_64"], "formatted": format!("{}\n\t\"x\"", tok)}),
            // the result of these is thrown away
            SaveModel(..) | SaveTensor(..) | Build(..) => {
                let v = match (r.below(4) as u64) {
                    0 => Value::Null,
                    1 => json!({}),
                    2 => json!(tok),
                    _ => json!([1, {"x": tok}]),
                };
                return (v, Value::Null);
            }
        };
        (v.clone(), v)
    }
    fn wrong_type(&self) -> Option<Value> {
        match self {
            SaveModel(..) | SaveTensor(..) | Build(..) => None,
            _ => Some(json!({"nothing": 1})),
        }
    }
    fn call(&self, c: &mut PluginClient) -> Result<Value, ClientError> {
        fn v<T: serde::Serialize>(r: Result<T, ClientError>) -> Result<Value, ClientError> {
            r.map(|x| serde_json::to_value(x).expect("result"))
        }
        match self {
            Init => v(c.initialize()),
            LoadModel(p) => v(c.load_model(p)),
            SaveModel(a, b) => v(c.save_model(a, b)),
            LoadTensor(p) => v(c.load_tensor(p)),
            SaveTensor(a, b) => v(c.save_tensor(a, b)),
            Run(l, s, d, i) => v(c.run(l, s, d, i.iter().map(|(n, p)| TensorInput { name: n.clone(), path: p.clone() }).collect())),
            Build(s, t, d, f, o) => v(c.build(s, t, d, f, o)),
            Targets => v(c.list_targets()),
        }
    }
}
fn text(r: &mut Rng) -> String {
    match (r.below(8) as u64) {
        0 => String::new(),
        1 => "a b\"c\\d\n\te/\u{1}".into(),
        2 => "モデル/é😀.onnx".into(),
        3 => "../../x".into(),
        4 => "z".repeat(r.usize(1000, 5000)),
        _ => format!("/p/{}.bin", (r.below(1000) as u64)),
    }
}
fn some_req(r: &mut Rng) -> Req {
    match (r.below(9) as u64) {
        0 => Init,
        1 => LoadModel(text(r)),
        2 => SaveModel(text(r), text(r)),
        3 => LoadTensor(text(r)),
        4 => SaveTensor(text(r), text(r)),
        5 | 6 => {
            let n = r.usize(0, 4);
            Run(text(r), text(r), text(r), (0..n).map(|_| (text(r), text(r))).collect())
        }
        7 => Build(text(r), text(r), text(r), text(r), text(r)),
        _ => Targets,
    }
}

// ---------------------------------------------------------------- scripts

fn line(c: &str, s: Value, v: Value) -> Value {
    json!({"a": "line", "c": c, "s": s.to_string().replace("\"$ID\"", "$ID").replace("\"$PREV\"", "$PREV"), "v": v})
}
fn note(r: &mut Rng, tok: String) -> Value {
    let (m, p) = match (r.below(6) as u64) {
        0 => ("$/log", json!({"level": *r.pick(&["info", "warning", "error", "debug"]), "message": tok})),
        1 => ("$/progress", json!({"percent": (r.below(101) as u64), "message": tok})),
        2 => ("$/custom", json!([tok, null, 1.5])),
        3 => ("", json!(tok)),
        _ => ("$/progress", json!({"message": tok})),
    };
    // cli prints log messages of the last kind to its own stderr only without a handler
    let mut l = json!({"jsonrpc": "2.0", "method": m, "params": p.clone()});
    if r.chance(0.1) {
        l["extra"] = json!(1);
    }
    line("note", l, json!([m, p]))
}
/// One line that is neither a notification nor an answer the client can use.
fn bad_line(r: &mut Rng) -> Value {
    match (r.below(12) as u64) {
        0 => json!({"a": "line", "c": "bad", "s": "garbage $ID"}),
        1 => json!({"a": "line", "c": "bad", "s": "{\"jsonrpc\":\"2.0\",\"id\":$ID,\"result\":"}),
        2 => json!({"a": "line", "c": "bad", "s": ""}),
        3 => json!({"a": "line", "c": "bad", "s": "", "v": "bytes", "raw": [0xff, 0xfe, 0x80]}),
        4 => line("bad", json!({"jsonrpc": "2.0", "id": "$ID ".trim_end().to_string() + "x", "result": {}}), Value::Null),
        5 => line("bad", json!({"jsonrpc": "2.0", "id": 1_000_000 + (r.below(1000) as u64), "result": {}}), Value::Null),
        6 => line("bad", json!({"jsonrpc": "2.0", "id": null, "result": {}}), Value::Null),
        7 => line("bad", json!({"jsonrpc": "2.0", "id": -((r.below(5) as u64) as i64) , "result": {"x": 1}}), Value::Null),
        8 => line("bad", json!({"jsonrpc": "2.0", "id": 1.5, "result": {}}), Value::Null),
        9 => line("bad", json!({"id": "$ID", "result": {}}), Value::Null),
        10 => json!({"a": "line", "c": "bad", "s": "[".repeat(300)}),
        _ => json!({"a": "line", "c": "bad", "s": "{\"jsonrpc\":\"2.0\",\"id\":$ID,\"result\":{}} trailing"}),
    }
}

struct Plan {
    reqs: Vec<Req>,
    steps: Vec<Value>,
    cancel: Vec<Option<u64>>, // cancel this many ms after the start of the call
    idle_cancel: Vec<bool>,
    stubborn: bool,
    tokens: u64,
}

fn plan(r: &mut Rng, t: u64, hostile: u32, big: bool) -> Plan {
    let n = r.usize(2, 7);
    let mut p = Plan { reqs: vec![], steps: vec![], cancel: vec![], idle_cancel: vec![], stubborn: r.chance(0.02), tokens: 0 };
    let mut ends = false;
    let mut slow = 0; // only a few long waits in one case
    for k in 0..n {
        let q = if k == 0 && r.chance(0.5) { Init } else { some_req(r) };
        let mut s: Vec<Value> = vec![];
        let mut cancel = None;
        let mut tok = || {
            p.tokens += 1;
            format!("t{}", p.tokens)
        };
        let notes = |r: &mut Rng, s: &mut Vec<Value>, tok: &mut dyn FnMut() -> String| {
            let m = match (r.below(10) as u64) {
                0..=4 => 0,
                5..=8 => r.usize(1, 3),
                _ => r.usize(4, 60),
            };
            for _ in 0..m {
                let t = tok();
                s.push(note(r, t));
            }
        };
        notes(r, &mut s, &mut tok);
        // what comes before the answer
        if r.chance(0.25) {
            s.push(json!({"a": "sleep", "ms": (r.below(30) as u64)}));
        }
        if k > 0 && r.chance(0.3) {
            let t = tok();
            // an answer to the previous request, possibly its second one
            s.push(line("stale", json!({"jsonrpc": "2.0", "id": "$PREV", "result": {"snapshot_path": t, "tensor_path": t, "outputs": [], "targets": [], "formatted": t,
                "name": t, "version": "1", "protocol_version": "1.0.0", "plugin_version": "1", "capabilities": []}}), Value::Null));
        }
        if k > 0 && r.chance(0.15) {
            s.push(line("stale", json!({"jsonrpc": "2.0", "id": "$PREV", "error": {"code": -1, "message": tok()}}), Value::Null));
        }
        if r.chance(0.1) {
            s.push(line("skip", json!({"jsonrpc": "2.0", "other": 1}), Value::Null)); // neither id nor method
        }
        let h = if hostile == 0 { 0 } else { (r.below(100) as u64) };
        let own = |r: &mut Rng, tok: String| -> Value {
            let mut l = if r.chance(0.2) {
                let e = if r.chance(0.5) { json!({"code": -32000 - (r.below(8) as u64) as i64, "message": tok}) } else { json!({"code": r.range(-99999, 99999), "message": tok, "data": {"d": [1, tok]}}) };
                line("own_err", json!({"jsonrpc": "2.0", "id": "$ID", "error": e.clone()}), e)
            } else {
                let (w, v) = q.reply(r, &tok);
                line("own_ok", json!({"jsonrpc": "2.0", "id": "$ID", "result": w}), v)
            };
            if r.chance(0.15) {
                l["parts"] = json!(r.usize(2, 6));
            }
            l
        };
        if hostile > 0 && r.chance(0.12) {
            s.push(bad_line(r));
        }
        match h {
            _ if ends => {}
            0..=59 => s.push(own(r, tok())),
            60..=64 => {
                // the answer comes after the caller gave up
                if slow < 2 {
                    slow += 1;
                    s.push(json!({"a": "sleep", "ms": t + 100 + (r.below(400) as u64)}));
                    s.push(own(r, tok()));
                }
            }
            65..=68 if slow < 2 => slow += 1, // never answered
            69..=72 => {
                // malformed answers to the request
                let l = match ((r.below(4) as u64), q.wrong_type()) {
                    (0, _) => line("own_bad", json!({"jsonrpc": "2.0", "id": "$ID"}), Value::Null),
                    (1, Some(w)) => line("own_bad", json!({"jsonrpc": "2.0", "id": "$ID", "result": w}), Value::Null),
                    (2, _) => line("own_bad", json!({"jsonrpc": "2.0", "id": "$ID", "error": "no object"}), Value::Null),
                    _ => line("own_bad", json!({"jsonrpc": "2.0", "id": "$ID", "error": {"message": "no code"}}), Value::Null),
                };
                s.push(l);
                if r.chance(0.5) {
                    s.push(own(r, tok()));
                }
            }
            73..=77 => {
                ends = true;
                s.push(json!({"a": "exit", "code": (r.below(3) as u64)}));
            }
            78..=80 => {
                ends = true;
                s.push(json!({"a": "abort"}));
            }
            81..=83 => {
                // dies in the middle of a line, or after an unterminated one
                ends = true;
                let mut l = own(r, tok());
                l["cut"] = json!(true);
                if r.chance(0.6) {
                    let b = l["s"].as_str().unwrap_or("").to_string();
                    let at = r.usize(1, b.len() - 1);
                    let at = (0..=at).rev().find(|i| b.is_char_boundary(*i)).unwrap_or(0);
                    l["s"] = json!(b[..at]);
                    l["c"] = json!("bad");
                }
                s.push(l);
                s.push(json!({"a": "exit", "code": 0}));
            }
            84..=86 => {
                ends = true;
                s.push(own(r, tok()));
                s.push(json!({"a": "close_out"}));
            }
            87..=88 => {
                ends = true;
                s.push(own(r, tok()));
                s.push(json!({"a": "close_in"}));
                s.push(json!({"a": "sleep", "ms": 20_000}));
            }
            89..=94 => {
                // answered after the caller asked to cancel
                cancel = Some((r.below(20) as u64));
                s.push(json!({"a": "await_cancel"}));
                if r.chance(0.5) {
                    s.push(line("own_err", json!({"jsonrpc": "2.0", "id": "$ID", "error": {"code": -32007, "message": "Request cancelled"}}), json!({"code": -32007, "message": "Request cancelled"})));
                } else {
                    s.push(own(r, tok()));
                }
            }
            95..=96 => {
                s.push(own(r, tok()));
                s.push(own(r, tok())); // answered twice
            }
            97 if big && slow < 2 => {
                // does not read its input for a while, and the next request does not fit into the pipe
                slow += 1;
                s.push(own(r, tok()));
                s.push(json!({"a": "sleep", "ms": t + 300}));
            }
            _ => s.push(own(r, tok())),
        }
        if hostile > 0 && r.chance(0.06) {
            s.push(bad_line(r));
        }
        notes(r, &mut s, &mut tok);
        p.reqs.push(if big && r.chance(0.5) { LoadModel("y".repeat(r.usize(60_000, 400_000))) } else { q.clone() });
        if let (LoadModel(_), false) = (&p.reqs[k], matches!(q, LoadModel(_))) {
            // the result has to fit the request
            for a in s.iter_mut() {
                if a["c"] == "own_ok" {
                    let v = json!({"snapshot_path": format!("big{}", k)});
                    *a = line("own_ok", json!({"jsonrpc": "2.0", "id": "$ID", "result": v.clone()}), v);
                } else if a["c"] == "own_bad" {
                    *a = line("own_bad", json!({"jsonrpc": "2.0", "id": "$ID"}), Value::Null);
                }
            }
        }
        p.steps.push(Value::Array(s));
        p.cancel.push(cancel);
        p.idle_cancel.push(r.chance(0.1));
    }
    p
}

struct Called {
    start: u64,
    end: u64,
    res: Result<Value, ClientError>,
}
pub fn gone(pid: i64) -> bool {
    unsafe { libc::kill(pid as i32, 0) == -1 && *libc::__errno_location() == libc::ESRCH }
}
pub fn gone_soon(pid: i64, ms: u64) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(ms) {
        if gone(pid) {
            return true;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    false
}
pub struct Reaper(pub Arc<Mutex<Vec<i32>>>);
impl Drop for Reaper {
    fn drop(&mut self) {
        for p in self.0.lock().unwrap().iter() {
            unsafe { libc::kill(*p, libc::SIGKILL) };
        }
    }
}
pub fn spawn_fake(script: &Path, log: &Path) -> Child {
    Command::new(me())
        .arg("fakeplugin")
        .arg(script)
        .arg(log)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}

const HANG: Duration = Duration::from_secs(60);

fn exchange(cx: &mut Cx, hostile: u32, big: bool) -> R {
    let dir = Scratch::new();
    let t = 1500u64;
    let p = plan(&mut cx.rng, t, hostile, big);
    let n = p.reqs.len();
    cx.d(format!("{} calls; {}", n, trunc(&json!(p.steps).to_string(), 1500)));
    std::fs::write(dir.join("script"), json!({"steps": p.steps, "stubborn": p.stubborn}).to_string()).expect("write");
    let log = dir.join("log");
    let mut child = spawn_fake(&dir.join("script"), &log);
    let pid = child.id() as i64;
    let _reaper = Reaper(Arc::new(Mutex::new(vec![pid as i32])));
    let got: Arc<Mutex<Vec<Value>>> = Default::default();
    let mut client = PluginClient::new(&mut child).expect("pipes");
    client.set_timeout(Duration::from_millis(t));
    let g = got.clone();
    client.set_notification_handler(Box::new(move |m, p| g.lock().unwrap().push(json!([m, p]))));
    let handle = client.cancellation_handle();
    let (tx, rx) = mpsc::channel();
    let reqs = p.reqs.clone();
    let (cancels, idle) = (p.cancel.clone(), p.idle_cancel.clone());
    let seen = got.clone();
    let worker = std::thread::spawn(move || {
        let mut calls: Vec<Called> = vec![];
        let mut delivered = vec![];
        for (k, q) in reqs.iter().enumerate() {
            if idle[k] {
                let _ = handle.cancel(); // nothing is in progress
            }
            let canceller: Option<std::thread::JoinHandle<()>> = cancels[k].map(|ms| {
                let h: CancellationHandle = handle.clone();
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_millis(ms));
                    let _ = h.cancel();
                })
            });
            let start = now();
            let res = q.call(&mut client);
            calls.push(Called { start, end: now(), res });
            delivered.push(seen.lock().unwrap().len());
            if let Some(c) = canceller {
                let _ = c.join();
            }
        }
        drop(handle);
        let stop = now();
        stop_plugin(child, client);
        let _ = tx.send((calls, delivered, now() - stop));
    });
    let (calls, delivered, stop) = match rx.recv_timeout(HANG) {
        Ok(x) => x,
        Err(mpsc::RecvTimeoutError::Timeout) => bail!("a call never ends", "after {:?}; plugin log: {:?}", HANG, trunc(&format!("{:?}", read_log(&log)), 1500)),
        Err(_) => {
            let _ = worker.join();
            bail!("the client panics", "{}", last_panic())
        }
    };
    check!(gone(pid), "the plugin process is still there after it was stopped", "");
    check!(stop < 12_000_000_000, "stopping a plugin takes too long", "{} ms", stop / 1_000_000);
    let evs = read_log(&log);
    let got = got.lock().unwrap().clone();
    if std::env::var_os("HV_LOG").is_some() {
        for (k, c) in calls.iter().enumerate() {
            println!("call {} at {} .. {}: {:?}", k, c.start / 1000, c.end / 1000, c.res.as_ref().map(|v| trunc(&v.to_string(), 100)));
        }
        for e in &evs {
            println!("{} {}", e.t / 1000, trunc(&e.v.to_string(), 200));
        }
    }

    // what the plugin received
    let recv: Vec<&Ev> = evs.iter().filter(|e| e.e == "recv").collect();
    let mut ids: Vec<i64> = vec![];
    let mut seen_ids = std::collections::HashSet::new();
    let mut k = 0;
    for e in &recv {
        let v = &e.v["v"];
        check!(e.v["whole"] == true, "a request line is cut", "{}", v);
        check!(v["jsonrpc"] == "2.0" && v["method"].is_string(), "a request is malformed", "{}", v);
        let id = v["id"].as_i64();
        check!(id.is_some() && seen_ids.insert(id), "request ids are not distinct numbers", "{}", v);
        match v["method"].as_str().unwrap_or("") {
            "shutdown" => check!(k == n || !p.stubborn, "shutdown too early", ""),
            "$/cancel" => {
                check!(ids.last().is_some_and(|x| v["params"]["id"].as_i64() == Some(*x)), "a cancellation names another request", "{} while {:?}", v, ids.last());
                check!(p.cancel[k - 1].is_some(), "a cancellation is sent while nothing is in progress", "call {}", k - 1);
                cx.count("cancellations", 1);
            }
            m => {
                check!(k < n, "more requests than calls", "{}", v);
                let (wm, wp) = p.reqs[k].wire();
                check!(m == wm && v["params"] == wp, "a request is not what was asked", "{} expected {} {}", trunc(&v.to_string(), 300), wm, trunc(&wp.to_string(), 300));
                ids.push(id.unwrap_or(0));
                k += 1;
            }
        }
    }

    // what each call returned
    let mut bad_spent = 0usize;
    for (k, c) in calls.iter().enumerate() {
        let took = (c.end - c.start) / 1_000_000;
        check!(took <= t + 4000, "a call exceeds its time limit", "call {} took {} ms of {}", k, took, t);
        let id = ids.get(k).copied();
        // the first answer to this request
        let own = evs.iter().find(|e| e.e == "send" && id.is_some() && e.v["id"].as_i64() == id && e.v["c"].as_str().unwrap_or("").starts_with("own"));
        let done = own.and_then(|_| evs.iter().find(|e| e.e == "sent" && e.v["id"].as_i64() == id && e.v["c"].as_str().unwrap_or("").starts_with("own")));
        let class = own.map(|e| e.v["c"].as_str().unwrap_or("")).unwrap_or("none");
        let bad_sent = evs.iter().filter(|e| e.e == "send" && e.t < c.end && matches!(e.v["c"].as_str(), Some("bad") | Some("own_bad"))).count();
        // (the client may give up a connection over a line that is not text)
        let dead = evs.iter().any(|e| (e.e == "die" || e.e == "eof" || e.v["c"] == "bad" && e.v["v"] == "bytes") && e.t < c.end);
        match &c.res {
            Ok(v) => {
                check!(class == "own_ok" && own.is_some_and(|e| e.t < c.end), "a call returns a result that is not the answer to its request", "call {}: {} (own answer: {:?})", k, v, own);
                check!(*v == own.unwrap().v["v"], "a call returns a wrong result", "call {}: {} expected {}", k, v, own.unwrap().v["v"]);
                cx.count("results", 1);
                let floor = evs.iter().take_while(|e| !(e.e == "send" && e.v["id"].as_i64() == id && e.v["c"] == "own_ok")).filter(|e| e.e == "send" && e.v["c"] == "note").count();
                check!(delivered[k] >= floor, "notifications sent before an answer are not delivered with it", "call {}: {} of {}", k, delivered[k], floor);
            }
            Err(ClientError::Rpc(e)) => {
                check!(class == "own_err", "a call returns an error that is not the answer to its request", "call {}: {:?} (own answer: {:?})", k, e, own);
                let e = serde_json::to_value(e).expect("error");
                check!(e == own.unwrap().v["v"], "a call returns another error", "call {}: {} expected {}", k, e, own.unwrap().v["v"]);
                cx.count("errors", 1);
            }
            Err(ClientError::Timeout(d)) => {
                check!(took + 10 >= t && *d == Duration::from_millis(t), "a call times out early", "call {} after {} ms of {}", k, took, t);
                let usable = matches!(class, "own_ok" | "own_err") && done.is_some_and(|e| e.t < c.start + t * 1_000_000 / 3);
                check!(!usable, "a call times out although its answer came", "call {}: {:?}", k, own);
                cx.count("timeouts", 1);
            }
            Err(e) => {
                check!(!matches!(e, ClientError::ProtocolMismatch { .. } | ClientError::NoStdin | ClientError::NoStdout | ClientError::Serialize(_)), "a call fails for no reason", "call {}: {}", k, e);
                if bad_spent < bad_sent {
                    bad_spent += 1;
                } else {
                    check!(dead, "a call fails although nothing went wrong", "call {}: {} ({} bad lines, {} used)", k, e, bad_sent, bad_spent);
                }
                cx.count("failures", 1);
            }
        }
    }
    // notifications: in order, none invented, none lost in front of a later one
    let sent: Vec<&Value> = evs.iter().filter(|e| e.e == "send" && e.v["c"] == "note").map(|e| &e.v["v"]).collect();
    check!(got.len() <= sent.len() && got.iter().zip(&sent).all(|(a, b)| a == *b), "notifications are not delivered in order", "got {} sent {}", trunc(&json!(got).to_string(), 600), trunc(&json!(sent).to_string(), 600));
    cx.count("notifications", got.len() as u64);
    cx.count("calls", n as u64);
    Ok(())
}
fn polite(cx: &mut Cx) -> R {
    exchange(cx, 0, false)
}
fn hostile(cx: &mut Cx) -> R {
    exchange(cx, 1, false)
}
fn large(cx: &mut Cx) -> R {
    exchange(cx, 1, true)
}

/// A plugin that never reads: calls end in time whatever the size of the request.
fn deaf(cx: &mut Cx) -> R {
    let dir = Scratch::new();
    std::fs::write(dir.join("script"), json!({"steps": [[{"a": "sleep", "ms": 30_000}]]}).to_string()).expect("write");
    let mut child = spawn_fake(&dir.join("script"), &dir.join("log"));
    let pid = child.id() as i64;
    let _reaper = Reaper(Arc::new(Mutex::new(vec![pid as i32])));
    let mut client = PluginClient::new(&mut child).expect("pipes");
    let t = cx.rng.usize(100, 400) as u64;
    client.set_timeout(Duration::from_millis(t));
    let sizes: Vec<usize> = (0..cx.rng.usize(1, 4)).map(|_| cx.rng.usize(10, 500_000)).collect();
    cx.d(format!("limit {} ms, sizes {:?}", t, sizes));
    let (tx, rx) = mpsc::channel();
    let n = sizes.len();
    std::thread::spawn(move || {
        let mut out = vec![];
        for s in sizes {
            let t = Instant::now();
            out.push((client.load_model(&"q".repeat(s)).map(|r| r.snapshot_path), t.elapsed()));
        }
        let t0 = Instant::now();
        let _ = client.cancellation_handle().cancel();
        stop_plugin(child, client);
        let _ = tx.send((out, t0.elapsed()));
    });
    let (out, stop) = match rx.recv_timeout(HANG) {
        Ok(x) => x,
        Err(_) => bail!("a call to a plugin that does not read never ends", "limit {} ms", t),
    };
    for (r, d) in out {
        check!(matches!(r, Err(ClientError::Timeout(_))), "a call to a plugin that does not answer", "{:?}", r);
        check!(d < Duration::from_millis(t + 4000) && d + Duration::from_millis(10) >= Duration::from_millis(t), "the time limit of a call", "{:?} of {} ms", d, t);
    }
    check!(gone(pid) && stop < Duration::from_secs(12), "a plugin that does not read is not stopped", "{:?}", stop);
    cx.count("calls", n as u64);
    Ok(())
}

/// Which protocol versions a client accepts.
fn versions(cx: &mut Cx) -> R {
    let part = |r: &mut Rng| match (r.below(8) as u64) {
        0 => "0".to_string(),
        1..=3 => "1".to_string(),
        4 => (r.below(30) as u64).to_string(),
        5 => "4294967297".to_string(),
        6 => ["x", "", "-1", "1a", " 1", "१"][(r.below(6) as u64) as usize].to_string(),
        _ => "2".to_string(),
    };
    let m = cx.rng.usize(1, 4);
    let v = (0..m).map(|_| part(&mut cx.rng)).collect::<Vec<_>>().join(".");
    cx.d(format!("protocol {:?}", v));
    // ours is 1.0.0: any 1.* goes, everything else does not
    let major = v.split('.').next().unwrap_or("");
    let fine = major == "1";
    let dir = Scratch::new();
    let res = json!({"name": "p", "version": "1", "protocol_version": v, "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": []});
    let l = line("own_ok", json!({"jsonrpc": "2.0", "id": "$ID", "result": res}), Value::Null);
    std::fs::write(dir.join("script"), json!({"steps": [[l]]}).to_string()).expect("write");
    let mut child = spawn_fake(&dir.join("script"), &dir.join("log"));
    let _reaper = Reaper(Arc::new(Mutex::new(vec![child.id() as i32])));
    let mut client = PluginClient::new(&mut child).expect("pipes");
    client.set_timeout(Duration::from_secs(20));
    let r = client.initialize();
    stop_plugin(child, client);
    match r {
        Ok(_) => check!(fine, "an incompatible protocol is accepted", "{:?}", v),
        Err(ClientError::ProtocolMismatch { .. }) => check!(!fine, "a compatible protocol is refused", "{:?}", v),
        Err(e) => bail!("initialize fails", "{}", e),
    }
    Ok(())
}

// ---------------------------------------------------------------- managers

pub fn entry(name: &str, kind: PluginType, caps: PluginCapabilities, enabled: bool) -> PluginEntry {
    PluginEntry {
        name: name.into(),
        version: "1.0.0".into(),
        description: None,
        license: None,
        plugin_type: kind,
        capabilities: caps,
        binary: "bin".into(),
        source: PluginSource::CratesIo,
        installed_at: "2026".into(),
        plugin_version: "0".into(),
        enabled,
        dependencies: vec![],
    }
}
pub fn install(home: &Path, name: &str, args: &[&str], mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    let d = home.join(".hodu/plugins").join(name);
    std::fs::create_dir_all(&d).expect("dir");
    let q = |s: &str| format!("'{}'", s.replace('\'', "'\\''"));
    let cmd: Vec<String> = std::iter::once(q(&me().to_string_lossy())).chain(args.iter().map(|a| q(a))).collect();
    std::fs::write(d.join("bin"), format!("#!/bin/sh\nexec {} 2>/dev/null\n", cmd.join(" "))).expect("write");
    std::fs::set_permissions(d.join("bin"), std::fs::Permissions::from_mode(mode)).expect("mode");
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Good,
    Stubborn,
    InitError,
    InitWrong,
    InitSilent,
    InitGarbage,
    InitExit,
    Missing,
    NotExecutable,
    Disabled,
}
use How::*;
enum Mgr {
    B(backend::PluginManager),
    F(format::PluginManager),
    C(hodu_cli::plugins::PluginManager),
}
/// The error of a manager, as one word.
fn word<E: std::fmt::Debug>(e: &E) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}
impl Mgr {
    fn get(&mut self, how: u64, key: &str) -> Result<&mut PluginClient, String> {
        match (self, how) {
            (Mgr::B(m), 0) => m.get_plugin(key).map_err(|e| word(&e)),
            (Mgr::B(m), _) => m.get_for_device(key).map_err(|e| word(&e)),
            (Mgr::F(m), 0) => m.get_plugin(key).map_err(|e| word(&e)),
            (Mgr::F(m), 1) => m.get_for_model_extension(key).map_err(|e| word(&e)),
            (Mgr::F(m), _) => m.get_for_tensor_extension(key).map_err(|e| word(&e)),
            (Mgr::C(m), 0) => m.get_plugin(key).map_err(|e| word(&e)),
            (Mgr::C(m), 1) => m.get_backend_for_device(key).map_err(|e| word(&e)),
            (Mgr::C(m), _) => m.get_format_for_extension(key).map_err(|e| word(&e)),
        }
    }
    fn stop(&mut self, name: &str) -> bool {
        match self {
            Mgr::B(m) => m.shutdown_plugin(name).is_ok(),
            Mgr::F(m) => m.shutdown_plugin(name).is_ok(),
            Mgr::C(m) => m.shutdown_plugin(name).is_ok(),
        }
    }
    fn stop_all(&mut self) {
        match self {
            Mgr::B(m) => m.shutdown_all(),
            Mgr::F(m) => m.shutdown_all(),
            Mgr::C(m) => m.shutdown_all(),
        }
    }
    fn info(&self, name: &str) -> Option<String> {
        match self {
            Mgr::B(m) => m.get_info(name).map(|i| i.name.clone()),
            Mgr::F(m) => m.get_info(name).map(|i| i.name.clone()),
            Mgr::C(m) => m.get_info(name).map(|i| i.name.clone()),
        }
    }
}

fn managers(cx: &mut Cx) -> R {
    let home = Scratch::new();
    std::env::set_var("HOME", &home.0);
    let n = cx.rng.usize(1, 5);
    let mut reg = PluginRegistry::new();
    struct P {
        how: How,
        kind: PluginType,
        key: String,
        enabled: bool,
    }
    let mut ps = vec![];
    let mut slow = 0;
    for i in 0..n {
        let how = match (cx.rng.below(26) as u64) {
            0 if slow < 1 => Stubborn,
            1 => InitError,
            2 => InitWrong,
            3 if slow < 1 => InitSilent,
            4 => InitGarbage,
            5 => InitExit,
            6 => Missing,
            7 => NotExecutable,
            8..=10 => Disabled,
            _ => Good,
        };
        if matches!(how, Stubborn | InitSilent) {
            slow += 1;
        }
        let name = format!("p{}", i);
        let key = ["k1", "k2", "k3"][(cx.rng.below(3) as u64) as usize].to_string();
        let kind = [PluginType::Backend, PluginType::ModelFormat, PluginType::TensorFormat][(cx.rng.below(3) as u64) as usize];
        let up = if cx.rng.chance(0.3) { key.to_uppercase() } else { key.clone() };
        let caps = match kind {
            PluginType::Backend => PluginCapabilities::backend(true, true, vec!["other".into(), up], vec![]),
            PluginType::ModelFormat => PluginCapabilities::model_format(true, true, vec![format!(".{}", up)]),
            PluginType::TensorFormat => PluginCapabilities::tensor_format(true, true, vec![up]),
        };
        reg.upsert(entry(&name, kind, caps, how != Disabled));
        let init = |proto: &str| {
            line("own_ok", json!({"jsonrpc": "2.0", "id": "$ID", "result": {"name": name, "version": "1", "protocol_version": proto,
                "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": []}}), Value::Null)
        };
        let first = match how {
            InitError => json!([line("own_err", json!({"jsonrpc": "2.0", "id": "$ID", "error": {"code": -1, "message": "no"}}), Value::Null)]),
            InitWrong => json!([init("2.0.0")]),
            InitSilent => json!([{"a": "sleep", "ms": 30_000}]),
            InitGarbage => json!([{"a": "line", "s": "what?"}, {"a": "sleep", "ms": 20_000}]),
            InitExit => json!([{"a": "exit", "code": 3}]),
            _ => json!([note(&mut cx.rng, "hello".into()), init("1.0.0")]),
        };
        let mut steps = vec![first];
        for k in 0..30 {
            let v = json!({"snapshot_path": format!("{}#{}", name, k)});
            steps.push(json!([line("own_ok", json!({"jsonrpc": "2.0", "id": "$ID", "result": v}), Value::Null)]));
        }
        let (sp, lp) = (home.join(&format!("{}.script", name)), home.join(&format!("{}.log", name)));
        std::fs::write(&sp, json!({"steps": steps, "stubborn": how == Stubborn}).to_string()).expect("write");
        if how != Missing {
            install(&home.0, &name, &["fakeplugin", &sp.to_string_lossy(), &lp.to_string_lossy()], if how == NotExecutable { 0o644 } else { 0o755 });
        }
        ps.push(P { how, kind, key, enabled: how != Disabled });
    }
    let pids: Arc<Mutex<Vec<i32>>> = Default::default();
    let _reaper = Reaper(pids.clone());
    let rp = PluginRegistry::default_path().expect("path");
    check!(rp == home.join(".hodu/plugins.json"), "registry path", "{:?}", rp);
    if let Err(e) = reg.save(&rp) {
        bail!("registry save", "{}", e);
    }
    let which = (cx.rng.below(3) as u64);
    let secs = if ps.iter().any(|p| p.how == InitSilent) { 2 } else { 30 };
    let new = |s: u64| -> Result<Mgr, String> {
        Ok(match which {
            0 => Mgr::B(backend::PluginManager::with_timeout(s).map_err(|e| e.to_string())?),
            1 => Mgr::F(format::PluginManager::with_timeout(s).map_err(|e| e.to_string())?),
            _ => Mgr::C(hodu_cli::plugins::PluginManager::with_timeout(s).map_err(|e| e.to_string())?),
        })
    };
    let mut m = match new(secs) {
        Ok(m) => m,
        Err(e) => bail!("a manager cannot be created", "{}", e),
    };
    cx.d(format!("manager {} plugins {:?}", which, ps.iter().map(|p| (p.how, p.kind, &p.key)).collect::<Vec<_>>()));
    let logs = |i: usize| -> Vec<i64> { read_log(&home.join(&format!("p{}.log", i))).iter().filter(|e| e.e == "start").map(|e| e.v["pid"].as_i64().unwrap_or(0)).collect() };
    let mut running: std::collections::BTreeMap<usize, (i64, usize)> = Default::default(); // pid, calls made
    let ops = cx.rng.usize(2, 9);
    for _ in 0..ops {
        let how = (cx.rng.below(5) as u64);
        if how <= 3 {
            // find a plugin, by name or capability
            let by = if cx.rng.chance(0.5) { 0 } else { cx.rng.range(1, 2) as u64 };
            let (key, want): (String, Result<usize, &str>) = if by == 0 {
                let i = cx.rng.usize(0, n);
                (format!("p{}", i), if i < n { Ok(i) } else { Err("NotFound") })
            } else {
                let key = ["k1", "k2", "k3", "k4"][(cx.rng.below(4) as u64) as usize].to_string();
                let first = |kind: PluginType| ps.iter().position(|p| p.kind == kind && p.enabled && p.key == key);
                let want = match (which, by) {
                    (0, _) => first(PluginType::Backend).ok_or("NoBackendForDevice"),
                    (1, 1) => first(PluginType::ModelFormat).ok_or("NoFormatForExtension"),
                    (1, _) => first(PluginType::TensorFormat).ok_or("NoFormatForExtension"),
                    (_, 1) => first(PluginType::Backend).ok_or("NoBackendForDevice"),
                    _ => first(PluginType::ModelFormat).or(first(PluginType::TensorFormat)).ok_or("NoFormatForExtension"),
                };
                (if cx.rng.chance(0.3) { key.to_uppercase() } else { key }, want)
            };
            let want = want.and_then(|i| match ps[i].how {
                _ if running.contains_key(&i) => Ok(i),
                Good | Stubborn => Ok(i),
                Disabled => Err("Disabled"),
                Missing => Err("BinaryNotFound"),
                NotExecutable => Err("Spawn"),
                _ => Err("Client"),
            });
            let t0 = Instant::now();
            let before: Vec<usize> = (0..n).map(|i| logs(i).len()).collect();
            match (m.get(by, &key), want) {
                (Ok(c), Ok(i)) => {
                    let started = logs(i);
                    let r = running.entry(i).or_insert_with(|| (*started.last().unwrap_or(&0), 0));
                    pids.lock().unwrap().push(r.0 as i32);
                    check!(started.last() == Some(&r.0) && r.0 != 0, "a running plugin is started again", "p{}: {:?}", i, started);
                    let k = r.1;
                    r.1 += 1;
                    match c.load_model("x") {
                        Ok(v) => check!(v.snapshot_path == format!("p{}#{}", i, k), "the wrong plugin process answers", "{} expected p{}#{}", v.snapshot_path, i, k),
                        Err(e) => bail!("a call through a manager fails", "p{}: {}", i, e),
                    }
                    check!(m.info(&format!("p{}", i)).as_deref() == Some(&format!("p{}", i)), "plugin info", "{:?}", m.info(&format!("p{}", i)));
                }
                (Err(w), Err(e)) => check!(w == e, "the error of a manager", "{} expected {}", w, e),
                (a, b) => bail!("a manager finds the wrong plugin", "by {} {:?}: {:?} expected {:?}", by, key, a.map(|_| ()), b),
            }
            check!(t0.elapsed() < Duration::from_secs(secs + 10), "starting a plugin exceeds the time limit", "{:?} of {} s", t0.elapsed(), secs);
            for i in 0..n {
                let now = logs(i);
                if now.len() > before[i] && !running.contains_key(&i) {
                    check!(gone(now[now.len() - 1]), "a plugin that failed to start is left running", "p{} ({:?})", i, ps[i].how);
                    cx.count("failed starts", 1);
                }
            }
            cx.count("lookups", 1);
        } else if cx.rng.chance(0.8) {
            let i = cx.rng.usize(0, n);
            check!(m.stop(&format!("p{}", i)), "shutdown_plugin", "");
            if let Some((pid, _)) = running.remove(&i) {
                check!(gone(pid), "a plugin is still running after its manager shut it down", "p{} ({:?})", i, ps[i].how);
            }
            check!(m.info(&format!("p{}", i)).is_none(), "a stopped plugin has info", "");
        } else {
            m.stop_all();
            for (i, (pid, _)) in std::mem::take(&mut running) {
                check!(gone(pid), "a plugin is still running after shutdown_all", "p{}", i);
            }
        }
    }
    drop(m);
    for i in 0..n {
        for pid in logs(i) {
            check!(gone(pid), "a plugin is still running after its manager is gone", "p{} ({:?})", i, ps[i].how);
            cx.count("processes", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the runtime

/// `hv runserver DIR`: a backend built with the SDK; a run returns copies of its inputs, renamed, in reverse order.
pub fn run_server(dir: &str) -> ! {
    use hodu_plugin::rpc::{LoadModelParams, LoadModelResult, RpcError, RunParams, RunResult};
    use hodu_plugin_sdk::server::PluginServer;
    let (d, d2) = (PathBuf::from(dir), PathBuf::from(dir));
    let count = std::sync::atomic::AtomicU64::new(0);
    let server = PluginServer::new("runner", "1")
        .devices(vec!["cpu"])
        .method("backend.run", move |p: RunParams| -> Result<RunResult, RpcError> {
            let c = count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if p.snapshot_path.ends_with("slow.hdss") {
                std::thread::sleep(Duration::from_millis(30 + (now() % 40)));
            }
            let mut outputs = vec![];
            for (i, inp) in p.inputs.iter().enumerate().rev() {
                let path = d.join(format!("out-{}-{}-{}.hdt", std::process::id(), c, i));
                std::fs::copy(&inp.path, &path).map_err(|e| RpcError::internal_error(e.to_string()))?;
                outputs.push(TensorOutput { name: format!("{}|{}|{}", inp.name, p.device, p.snapshot_path), path: path.to_string_lossy().into() });
            }
            let mut log = std::fs::OpenOptions::new().create(true).append(true).open(d.join("paths")).map_err(|e| RpcError::internal_error(e.to_string()))?;
            for i in &p.inputs {
                let _ = log.write_all(format!("{}\n", i.path).as_bytes());
            }
            Ok(RunResult { outputs })
        })
        .method("format.load_model", move |p: LoadModelParams| -> Result<LoadModelResult, RpcError> {
            let to = d2.join("converted.hdss");
            std::fs::copy(&p.path, &to).map_err(|e| RpcError::internal_error(e.to_string()))?;
            Ok(LoadModelResult { snapshot_path: to.to_string_lossy().into() })
        });
    let _ = server.run();
    std::process::exit(0)
}

fn runtime(cx: &mut Cx) -> R {
    let home = Scratch::new();
    let tmp = home.join("tmp");
    let work = home.join("work");
    for d in [&tmp, &work] {
        std::fs::create_dir_all(d).expect("dir");
    }
    std::env::set_var("HOME", &home.0);
    let old_tmp = std::env::var_os("TMPDIR");
    std::env::set_var("TMPDIR", &tmp);
    let r = runtime_in(cx, &home, &tmp, &work);
    match old_tmp {
        Some(v) => std::env::set_var("TMPDIR", v),
        None => std::env::remove_var("TMPDIR"),
    }
    r
}
fn files_under(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            files_under(&p, out);
        }
        out.push(p);
    }
}
fn runtime_in(cx: &mut Cx, home: &Scratch, tmp: &Path, work: &Path) -> R {
    let mut reg = PluginRegistry::new();
    let w = work.to_string_lossy().to_string();
    reg.upsert(entry("off", PluginType::Backend, PluginCapabilities::backend(true, true, vec!["cpu".into()], vec![]), false));
    reg.upsert(entry("run", PluginType::Backend, PluginCapabilities::backend(true, true, vec!["cpu".into(), "odd::1".into()], vec![]), true));
    reg.upsert(entry("conv", PluginType::ModelFormat, PluginCapabilities::model_format(true, false, vec!["onnx".into()]), true));
    install(&home.0, "run", &["runserver", &w], 0o755);
    install(&home.0, "conv", &["runserver", &w], 0o755);
    if let Err(e) = reg.save(&PluginRegistry::default_path().expect("path")) {
        bail!("registry save", "{}", e);
    }
    let names = ["x", "input", "../../../escape", "a/b", "", "..", "/abs/name", "ключ 😀", "x\ny", &"n".repeat(300)];
    let threads = cx.rng.usize(1, 3);
    let mut plans: Vec<Vec<(Vec<(String, RT)>, String, String, bool)>> = vec![];
    for _ in 0..threads {
        let runs = cx.rng.usize(1, 3);
        plans.push(
            (0..runs)
                .map(|_| {
                    let n = cx.rng.usize(0, 4);
                    let slow = cx.rng.chance(0.6);
                    let backend = ["", "run", "missing", "off"][(cx.rng.below(4) as u64) as usize].to_string();
                    let device = ["cpu", "CPU", "odd::1"][(cx.rng.below(3) as u64) as usize].to_string();
                    let ins = (0..n)
                        .map(|_| {
                            let name = cx.rng.pick(&names).to_string();
                            let dt = *cx.rng.pick(&ALL);
                            let shape = gen_shape(&mut cx.rng, 0, 3, 60);
                            (name, gen_rt(&mut cx.rng, dt, &shape, Gen::Edge))
                        })
                        .collect();
                    (ins, backend, device, slow)
                })
                .collect(),
        );
    }
    cx.d(format!("{} runtimes {}", threads, trunc(&format!("{:?}", plans.iter().map(|p| p.iter().map(|(i, b, d, s)| (i.iter().map(|x| trunc(&x.0, 30)).collect::<Vec<_>>(), b, d, s)).collect::<Vec<_>>()).collect::<Vec<_>>()), 800)));
    for f in ["slow.hdss", "fast.hdss", "model.onnx", "model.ONNX"] {
        std::fs::write(work.join(f), "model").expect("write");
    }
    let work = work.to_path_buf();
    let wk = work.clone();
    let convert = cx.rng.chance(0.3);
    let go = move |plan: Vec<(Vec<(String, RT)>, String, String, bool)>| -> R {
        let mut rt = match Runtime::with_timeout(30) {
            Ok(r) => r,
            Err(e) => bail!("a runtime cannot be created", "{}", e),
        };
        check!(matches!(rt.load(work.join("absent.hdss")), Err(RuntimeError::FileNotFound(_))), "a missing model is loaded", "");
        check!(matches!(rt.load(work.join("paths.zzz")), Err(_)), "a model of an unknown format is loaded", "");
        if convert {
            match rt.load(work.join("model.ONNX")) {
                Ok(m) => check!(m.snapshot_path() == work.join("converted.hdss"), "the path of a converted model", "{:?}", m.snapshot_path()),
                Err(e) => bail!("a model does not load", "{}", e),
            }
        }
        for (ins, backend, device, slow) in plan {
            let path = work.join(if slow { "slow.hdss" } else { "fast.hdss" });
            let model = match rt.load(&path) {
                Ok(m) => m,
                Err(e) => bail!("a snapshot does not load", "{}", e),
            };
            check!(model.snapshot_path() == path, "the path of a snapshot", "{:?}", model.snapshot_path());
            let ts: Vec<Tensor> = ins.iter().map(|(_, m)| m.build().expect("tensor")).collect();
            let args: Vec<(&str, &Tensor)> = ins.iter().zip(&ts).map(|((n, _), t)| (n.as_str(), t)).collect();
            let outs = match rt.run(&model, &args, &device, &backend) {
                Ok(o) => o,
                Err(e) => bail!("a run fails", "{} (backend {:?} device {:?})", e, backend, device),
            };
            check!(outs.len() == ins.len(), "the outputs of a run", "{} of {}", outs.len(), ins.len());
            for (k, (name, t)) in outs.iter().enumerate() {
                let (n, m) = &ins[ins.len() - 1 - k];
                check!(*name == format!("{}|{}|{}", n, device, path.to_string_lossy()), "the name of an output", "{:?}", name);
                let g = match read(t) {
                    Ok(g) => g,
                    Err(e) if m.data.is_empty() => { let _ = e; continue }
                    Err(e) => bail!("an output cannot be read", "{}", e),
                };
                check!(t.dtype() == m.dt && shape_of(t) == m.shape && g.data.len() == m.data.len() && g.data.iter().zip(&m.data).all(|(a, b)| same(*a, *b)),
                    "an input arrives changed at the plugin", "{} became {}", m.show(), g.show());
            }
        }
        Ok(())
    };
    if threads == 1 {
        go(plans.pop().unwrap())?;
    } else {
        let rs: Vec<std::thread::Result<R>> = std::thread::scope(|s| {
            let hs: Vec<_> = plans.into_iter().map(|p| s.spawn(|| go(p))).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for r in rs {
            match r {
                Ok(r) => r?,
                Err(_) => bail!("a runtime panics", "{}", last_panic()),
            }
        }
    }
    // where the inputs were
    let paths = std::fs::read_to_string(wk.join("paths")).unwrap_or_default();
    for p in paths.lines() {
        let p = Path::new(p);
        check!(p.starts_with(tmp) && !p.components().any(|c| c == std::path::Component::ParentDir), "an input is written outside the temporary directory", "{:?}", p);
        cx.count("inputs", 1);
    }
    let mut left = vec![];
    files_under(tmp, &mut left);
    check!(left.is_empty(), "a run leaves files behind", "{:?}", left);
    Ok(())
}

pub const GROUPS: &[Family] = &[
    fam("polite", 250, 8000, polite),
    fam("hostile", 500, 16000, hostile),
    fam("large", 80, 2500, large),
    fam("deaf", 12, 300, deaf),
    fam("versions", 60, 1500, versions),
    fam("managers", 200, 6000, managers),
    fam("runtime", 150, 4000, runtime),
];

// ---------------------------------------------------------------- X02: the server

/// `hv sdkserver`: a server built with the SDK, with handlers of every kind.
pub fn sdk_server() -> ! {
    use hodu_plugin::rpc::RpcError;
    use hodu_plugin_sdk::server::{log_debug, log_error, log_info, log_warn, notify_log, notify_progress, PluginServer};
    #[derive(serde::Deserialize)]
    struct Add {
        a: i64,
        b: i64,
    }
    #[derive(serde::Deserialize)]
    struct FailP {
        code: i32,
        message: String,
        data: Option<Value>,
    }
    #[derive(serde::Deserialize)]
    struct NoteP {
        n: u64,
        tok: String,
        threads: u64,
    }
    let server = PluginServer::new("srv\"é", "9.8.7")
        .devices(vec!["cpu", "metal"])
        .model_extensions(vec!["onnx"])
        .method("echo", |v: Value| -> Result<Value, RpcError> { Ok(v) })
        .method("backend.run", |v: Value| -> Result<Value, RpcError> { Ok(json!({"outputs": [v]})) })
        .method("backend.run", |v: Value| -> Result<Value, RpcError> { Ok(json!({"outputs": [v]})) })
        .method("add", |p: Add| -> Result<i64, RpcError> { p.a.checked_add(p.b).ok_or_else(|| RpcError::invalid_params("overflow")) })
        .method("fail", |p: FailP| -> Result<(), RpcError> {
            Err(match p.data {
                Some(d) => RpcError::with_data(p.code, p.message, d),
                None => RpcError::new(p.code, p.message),
            })
        })
        .method("panic", |v: Value| -> Result<(), RpcError> {
            match v["how"].as_u64() {
                Some(0) => panic!("{}", v),
                Some(1) => panic!("plain"),
                Some(2) => std::panic::panic_any(7u32),
                _ => {
                    let x: Vec<u8> = vec![];
                    let _ = x[v["i"].as_u64().unwrap_or(0) as usize];
                    Ok(())
                }
            }
        })
        .method("unserialisable", |_: Value| -> Result<std::collections::HashMap<Vec<u8>, u8>, RpcError> { Ok([(vec![1], 2)].into_iter().collect()) })
        .method("sleep", |ms: u64| -> Result<u64, RpcError> {
            std::thread::sleep(Duration::from_millis(ms));
            Ok(ms)
        })
        .method("big", |n: u64| -> Result<String, RpcError> { Ok("ab\n".repeat(n as usize)) })
        .method("notify", |p: NoteP| -> Result<String, RpcError> {
            let go = |th: u64| {
                for i in 0..p.n {
                    let m = format!("{}/{}/{}\n\"{}\"", p.tok, th, i, "x".repeat((i as usize * 37) % 500));
                    match i % 7 {
                        0 => notify_progress(Some((i % 256) as u8), &m),
                        1 => notify_progress(None, &m),
                        2 => notify_log("trace", &m),
                        3 => log_info(&m),
                        4 => log_warn(&m),
                        5 => log_error(&m),
                        _ => log_debug(&m),
                    }
                }
            };
            if p.threads == 0 {
                go(0)
            } else {
                std::thread::scope(|s| {
                    for t in 0..p.threads {
                        let go = &go;
                        s.spawn(move || go(t));
                    }
                })
            }
            Ok(p.tok.clone())
        })
        .method_no_params("format.load_model", || -> Result<(), RpcError> { Err(RpcError::not_supported("x")) })
        .method_no_params("ping", || -> Result<&str, RpcError> { Ok("pong") })
        .method_no_params("unit", || -> Result<(), RpcError> { Ok(()) });
    std::process::exit(match server.run() {
        Ok(()) => 0,
        Err(_) => 3,
    })
}

#[derive(Clone, Debug)]
enum Exp {
    Result(Value),
    /// error with this code; message when given
    Error(i64, Option<Value>),
    /// any error
    AnyError,
    /// exactly one answer, of any kind
    Any,
}
#[derive(Clone, Debug)]
struct Wanted {
    id: Option<Value>, // None: any id
    e: Exp,
    may: bool, // need not be answered
}
fn answers(w: &Wanted, v: &Value) -> bool {
    if let Some(id) = &w.id {
        if v["id"] != *id {
            return false;
        }
    }
    let err = v.get("error");
    match &w.e {
        Exp::Result(x) => err.is_none() && v.get("result") == Some(x),
        Exp::Error(code, whole) => err.is_some_and(|e| e["code"].as_i64() == Some(*code) && whole.as_ref().is_none_or(|w| w == e)) && v.get("result").is_none(),
        Exp::AnyError => err.is_some() && v.get("result").is_none(),
        Exp::Any => true,
    }
}
fn some_json(r: &mut Rng, depth: usize) -> Value {
    match (r.below(if depth == 0 { 6 } else { 8 }) as u64) {
        0 => Value::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(r.range(-1_000_000, 1_000_000)),
        3 => json!(r.range(-1000, 1000) as f64 / 8.0),
        4 => json!(text(r)),
        5 => json!([u64::MAX, i64::MIN]),
        6 => Value::Array((0..r.usize(0, 4)).map(|_| some_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.usize(0, 4)).map(|i| (format!("k{}{}", i, ["", "\"", "é"][(r.below(3) as u64) as usize]), some_json(r, depth - 1))).collect()),
    }
}

fn serve(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.usize(1, 40);
    let mut input: Vec<u8> = vec![];
    let mut want: Vec<Wanted> = vec![];
    let mut notes: Vec<(String, u64, u64)> = vec![]; // token, threads, count
    let mut init = false;
    let mut shut = false;
    let mut desc = vec![];
    let mut next_id = 1i64;
    if r.chance(0.85) {
        let l = json!({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {"plugin_version": "1", "protocol_version": "1.0.0"}});
        input.extend(format!("{}\n", l).as_bytes());
        want.push(Wanted {
            id: Some(json!("init")),
            e: Exp::Result(json!({"name": "srv\"é", "version": "9.8.7", "protocol_version": "1.0.0", "plugin_version": hodu_plugin::PLUGIN_VERSION,
                "capabilities": ["backend.run", "format.load_model"], "model_extensions": ["onnx"], "devices": ["cpu", "metal"]})),
            may: false,
        });
        init = true;
    }
    for _ in 0..n {
        let id = match (r.below(12) as u64) {
            0 => json!(format!("s{}", next_id)),
            1 => json!(-next_id - 1000),
            2 if next_id > 3 => json!(r.range(1, next_id - 1)), // used before
            3 => json!([i64::MAX, i64::MIN, 0][(r.below(3) as u64) as usize]),
            4 => json!(["", "é\"\\", "null", "0"][(r.below(4) as u64) as usize]),
            _ => json!(next_id),
        };
        next_id += 1;
        let note_only = r.chance(0.06);
        let kind = (r.below(34) as u64);
        let mut e: Option<Exp>; // what the server should answer once initialised
        let mut line: Vec<u8>;
        let mut obj = json!({"jsonrpc": "2.0", "id": id});
        let mut structured = true;
        match kind {
            0..=7 => {
                let v = some_json(r, 3);
                obj["method"] = json!(if r.chance(0.2) { "backend.run" } else { "echo" });
                e = Some(if v.is_null() { Exp::Any } else if obj["method"] == "echo" { Exp::Result(v.clone()) } else { Exp::Result(json!({"outputs": [v.clone()]})) });
                obj["params"] = v;
            }
            8..=9 => {
                let (a, b) = (r.range(-1000, 1000), if r.chance(0.1) { i64::MAX } else { r.range(-9, 9) });
                obj["method"] = json!("add");
                obj["params"] = json!({"a": a, "b": b, "unknown": 1});
                e = Some(match a.checked_add(b) {
                    Some(s) => Exp::Result(json!(s)),
                    None => Exp::Error(-32602, Some(json!({"code": -32602, "message": "overflow"}))),
                });
            }
            10..=11 => {
                obj["method"] = json!("add");
                obj["params"] = match (r.below(5) as u64) {
                    0 => json!({"a": 1}),
                    1 => json!([]),
                    2 => json!({"a": "1", "b": 2}),
                    3 => json!({"a": 1.5, "b": 2}),
                    _ => Value::Null,
                };
                if obj["params"].is_null() && r.chance(0.5) {
                    obj.as_object_mut().unwrap().remove("params");
                }
                e = Some(Exp::Error(-32602, None));
            }
            12..=13 => {
                let mut p = json!({"code": r.range(-40000, 40000), "message": text(r)});
                if r.chance(0.5) {
                    let d = some_json(r, 2);
                    if !d.is_null() {
                        p["data"] = d;
                    }
                }
                obj["method"] = json!("fail");
                obj["params"] = p.clone();
                e = Some(Exp::Error(p["code"].as_i64().unwrap(), Some(p)));
            }
            14..=15 => {
                obj["method"] = json!("panic");
                obj["params"] = json!({"how": (r.below(4) as u64), "i": (r.below(9) as u64)});
                e = Some(Exp::Error(-32603, None));
            }
            16 => {
                obj["method"] = json!("unserialisable");
                obj["params"] = json!(1);
                e = Some(Exp::Error(-32603, None));
            }
            17 => {
                let ms = (r.below(30) as u64);
                obj["method"] = json!("sleep");
                obj["params"] = json!(ms);
                e = Some(Exp::Result(json!(ms)));
            }
            18 => {
                let k = (r.below(60_000) as u64);
                obj["method"] = json!("big");
                obj["params"] = json!(k);
                e = Some(Exp::Result(json!("ab\n".repeat(k as usize))));
            }
            19..=20 => {
                let tok = format!("tok{}", next_id);
                let (cnt, th) = ((r.below(40) as u64), (r.below(5) as u64));
                obj["method"] = json!("notify");
                obj["params"] = json!({"n": cnt, "tok": tok, "threads": th});
                e = Some(Exp::Result(json!(tok)));
                if init && !shut && !note_only {
                    notes.push((tok, th.max(1), cnt));
                }
            }
            21 => {
                obj["method"] = json!(["ping", "unit", "format.load_model"][(r.below(3) as u64) as usize]);
                e = Some(match obj["method"].as_str() {
                    Some("ping") => Exp::Result(json!("pong")),
                    Some("unit") => Exp::Result(Value::Null),
                    _ => Exp::Error(-32001, None),
                });
                if r.chance(0.5) {
                    obj["params"] = some_json(r, 1);
                }
            }
            22..=23 => {
                obj["method"] = json!(["", "nope", "Echo", "echo ", "rpc.discover", "$/cancel", "$/unknown", "backend.build"][(r.below(8) as u64) as usize]);
                obj["params"] = json!({"id": 1});
                e = Some(if obj["method"] == "$/cancel" { Exp::Any } else { Exp::Error(-32601, None) });
            }
            24 => {
                obj["method"] = json!("initialize");
                match (r.below(4) as u64) {
                    0 => {}
                    1 => obj["params"] = json!({"plugin_version": 3}),
                    _ => obj["params"] = json!({"plugin_version": "0", "protocol_version": "1.0.0"}),
                }
                e = Some(Exp::Error(-32600, None));
                if !init && !note_only && !shut {
                    let fine = obj["params"]["protocol_version"].is_string();
                    e = Some(if fine { Exp::Any } else { Exp::Error(-32602, None) });
                    line = obj.to_string().into_bytes();
                    line.push(b'\n');
                    input.extend(&line);
                    want.push(Wanted { id: Some(id), e: e.unwrap(), may: false });
                    init = fine;
                    continue;
                }
            }
            25 if r.chance(0.15) => {
                obj["method"] = json!("shutdown");
                if !note_only {
                    input.extend(format!("{}\n", obj).as_bytes());
                    desc.push("shutdown");
                    shut = true;
                    continue;
                }
                continue; // a shutdown without an id is not decided here
            }
            // requests that are not requests
            26 => {
                obj = json!({"id": id, "method": "echo", "params": [1]}); // no version
                e = Some(Exp::Error(-32600, None));
                structured = false;
            }
            27 => {
                obj["method"] = [json!(5), json!(null), json!(["echo"])][(r.below(3) as u64) as usize].clone();
                e = Some(Exp::Error(-32600, None));
                structured = false;
            }
            28 => {
                e = Some(Exp::Error(-32600, None)); // no method
                structured = false;
            }
            29 => {
                // an id that is none
                obj = json!({"jsonrpc": "2.0", "method": "echo", "params": 1});
                obj["id"] = [json!(null), json!(1.5), json!(true), json!([1]), json!({}), json!(u64::MAX)][(r.below(6) as u64) as usize].clone();
                line = obj.to_string().into_bytes();
                line.push(b'\n');
                input.extend(&line);
                if !shut {
                    want.push(Wanted { id: None, e: Exp::AnyError, may: false });
                }
                continue;
            }
            _ => {
                // not JSON, or not an object
                line = match (r.below(10) as u64) {
                    0 => b"garbage".to_vec(),
                    1 => vec![0xff, 0xfe, b'{', b'}'],
                    2 => b"{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"echo\",\"params\":".to_vec(),
                    3 => "[".repeat(500).into_bytes(),
                    4 => b"[]".to_vec(),
                    5 => b"[{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"ping\"}]".to_vec(),
                    6 => b"42".to_vec(),
                    7 => b"{}{}".to_vec(),
                    8 => b"\x00".to_vec(),
                    _ => {
                        // a mutated request
                        let mut b = json!({"jsonrpc": "2.0", "id": 7, "method": "echo", "params": [1, 2]}).to_string().into_bytes();
                        let at = r.usize(0, b.len() - 1);
                        b.truncate(at);
                        if b.is_empty() {
                            b.push(b'?');
                        }
                        b
                    }
                };
                line.push(b'\n');
                input.extend(&line);
                if !shut {
                    want.push(Wanted { id: None, e: Exp::AnyError, may: false });
                }
                continue;
            }
        }
        if note_only && structured {
            obj.as_object_mut().unwrap().remove("id");
        }
        let mut s = obj.to_string();
        if r.chance(0.1) {
            s = format!(" \t{} ", s);
        }
        line = s.into_bytes();
        match (r.below(12) as u64) {
            0 => line.extend(b"\r\n"),
            1 => line.extend(b"\n\n"),
            2 => line.extend(b"\n\r\n"),
            _ => line.push(b'\n'),
        }
        input.extend(&line);
        if shut || (note_only && structured) {
            continue;
        }
        if !init && structured {
            e = Some(Exp::AnyError);
        }
        want.push(Wanted { id: Some(id), e: e.take().unwrap(), may: false });
    }
    // the last line may lack its end
    if !shut && r.chance(0.3) {
        input.extend(json!({"jsonrpc": "2.0", "id": "last", "method": "ping"}).to_string().as_bytes());
        want.push(Wanted { id: Some(json!("last")), e: if init { Exp::Result(json!("pong")) } else { Exp::AnyError }, may: true });
    }
    // how it is written
    let mut chunks: Vec<Vec<u8>> = vec![];
    let mut rest = &input[..];
    while !rest.is_empty() {
        let k = match (r.below(4) as u64) {
            0 => 1,
            1 => r.usize(1, 40),
            2 => r.usize(1, 2000),
            _ => rest.len(),
        }
        .min(rest.len());
        chunks.push(rest[..k].to_vec());
        rest = &rest[k..];
        if chunks.len() > 200 {
            chunks.push(rest.to_vec());
            break;
        }
    }
    let pause = r.chance(0.2);
    let hold = r.chance(0.5); // keep the input open after a shutdown
    let listen = r.chance(0.8); // otherwise the output is read only at the end
    cx.d(trunc(&String::from_utf8_lossy(&input), 2500));
    let mut child = Command::new(me()).arg("sdkserver").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let _reaper = Reaper(Arc::new(Mutex::new(vec![child.id() as i32])));
    let mut stdin = child.stdin.take().expect("pipe");
    let mut stdout = child.stdout.take().expect("pipe");
    let (tx, rx) = mpsc::channel();
    let total = input.len();
    std::thread::spawn(move || {
        for c in chunks {
            if stdin.write_all(&c).is_err() {
                break;
            }
            if pause {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        if !(hold && shut) {
            drop(stdin);
        } else {
            std::thread::sleep(Duration::from_secs(40));
        }
    });
    std::thread::spawn(move || {
        if !listen && total < 20_000 {
            std::thread::sleep(Duration::from_millis(20));
        }
        let mut b = vec![];
        let _ = stdout.read_to_end(&mut b);
        let _ = tx.send(b);
    });
    let out = match rx.recv_timeout(Duration::from_secs(40)) {
        Ok(b) => b,
        Err(_) => bail!("the server does not end", "shutdown {} ", shut),
    };
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            _ if t0.elapsed() > Duration::from_secs(20) => bail!("the server closes its output and does not end", ""),
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    check!(status.code() == Some(0), "the server ends with an error", "{:?}", status);
    check!(out.is_empty() || out.last() == Some(&b'\n'), "the last line of the server is cut", "");
    let mut got_notes: std::collections::HashMap<(String, u64), Vec<u64>> = Default::default();
    let mut used = vec![false; want.len()];
    for l in out.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        let v: Value = match serde_json::from_slice(l) {
            Ok(v) => v,
            Err(e) => bail!("the server writes a line that is not JSON", "{}: {}", e, trunc(&String::from_utf8_lossy(l), 300)),
        };
        check!(v["jsonrpc"] == "2.0", "the server writes something else than messages", "{}", trunc(&v.to_string(), 300));
        if v.get("id").is_none() {
            let m = v["params"]["message"].as_str().unwrap_or("");
            let (head, tail) = m.split_once('\n').unwrap_or((m, ""));
            let f: Vec<&str> = head.split('/').collect();
            check!(f.len() == 3 && matches!(v["method"].as_str(), Some("$/log") | Some("$/progress")), "a notification nobody sent", "{}", trunc(&v.to_string(), 300));
            let (th, i): (u64, u64) = (f[1].parse().unwrap_or(99), f[2].parse().unwrap_or(9999));
            let lv = [("$/progress", None), ("$/progress", None), ("$/log", Some("trace")), ("$/log", Some("info")), ("$/log", Some("warn")), ("$/log", Some("error")), ("$/log", Some("debug"))][(i % 7) as usize];
            check!(v["method"] == lv.0 && v["params"]["level"].as_str() == lv.1 && (i % 7 != 0 || v["params"]["percent"].as_u64() == Some(i % 256)) && tail.len() == (i as usize * 37) % 500 + 2,
                "a notification is changed", "{}", trunc(&v.to_string(), 300));
            got_notes.entry((f[0].to_string(), th)).or_default().push(i);
            continue;
        }
        match (0..want.len()).find(|k| !used[*k] && want[*k].id.is_some() && answers(&want[*k], &v)).or_else(|| (0..want.len()).find(|k| !used[*k] && answers(&want[*k], &v))) {
            Some(k) => {
                // notifications of a request come before its answer
                if let Exp::Result(Value::String(t)) = &want[k].e {
                    if let Some((t, th, c)) = notes.iter().find(|x| x.0 == *t) {
                        for h in 0..*th {
                            let g = got_notes.get(&(t.clone(), h)).map(|v| v.len()).unwrap_or(0) as u64;
                            check!(g == *c, "a request is answered before its notifications", "{} of {}", g, c);
                        }
                    }
                }
                used[k] = true
            }
            None => {
                let same: Vec<&Wanted> = want.iter().filter(|w| w.id.as_ref() == Some(&v["id"])).collect();
                bail!("the server gives an answer nobody asked for, a wrong one or a second one", "{} (expected for this id: {})", trunc(&v.to_string(), 400), trunc(&format!("{:?}", same), 600))
            }
        }
    }
    for (k, u) in used.iter().enumerate() {
        check!(*u || want[k].may, "a request is not answered", "{:?}", want[k]);
    }
    for (t, th, c) in &notes {
        for h in 0..*th {
            let g = got_notes.remove(&(t.clone(), h)).unwrap_or_default();
            check!(g == (0..*c).collect::<Vec<_>>(), "notifications of a handler are lost or out of order", "{} {:?} of {}", t, g, c);
        }
    }
    check!(got_notes.is_empty(), "notifications nobody sent", "{:?}", got_notes.keys());
    cx.count("answers", used.iter().filter(|u| **u).count() as u64);
    cx.count("notifications", notes.iter().map(|n| n.1 * n.2).sum());
    cx.count(if shut { "shutdowns" } else { "ends of input" }, 1);
    Ok(())
}

pub const SERVER: &[Family] = &[fam("serve", 900, 30000, serve)];
