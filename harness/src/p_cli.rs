//! X04: the command line. The real `hodu` binary runs as a process in a scratch directory; the backends and format
//! plugins it starts are SDK servers that log what they were asked. After every command the exit status, the outputs,
//! the log and the whole scratch tree are compared with a model of the command.
use crate::cx::*;
use crate::p_err::same;
use crate::p_file::{mutate, Scratch};
use crate::p_plug::{entry, gone_soon, me};
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::format::{hdt, json as tjson};
use hodu_core::snapshot::{Snapshot, SnapshotConstant, SnapshotInput, SnapshotTensorId};
use hodu_core::types::{DType, Shape};
use hodu_plugin::rpc::*;
use hodu_plugin::PluginDType;
use hodu_plugin_runtime::{PluginCapabilities, PluginRegistry, PluginType};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the plugin (another process)

fn content(p: impl AsRef<Path>) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    match std::fs::read(p) {
        Ok(b) => {
            b.hash(&mut h);
            format!("{:016x}", h.finish())
        }
        Err(_) => "unreadable".into(),
    }
}

/// `hv cliplugin DIR NAME`: a backend and format plugin; DIR/behave says how its methods behave.
pub fn plugin_main(dir: &str, name: &str) -> ! {
    use hodu_plugin_sdk::server::PluginServer;
    let dir = PathBuf::from(dir);
    let name = name.to_string();
    let (d, n) = (dir.clone(), name.clone());
    let put = std::sync::Arc::new(move |mut v: Value| {
        v["who"] = json!(n);
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(d.join("log")) {
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
    });
    put(json!({"e": "start", "pid": std::process::id()}));
    let d = dir.clone();
    let behave = std::sync::Arc::new(move || -> Value { std::fs::read_to_string(d.join("behave")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null) });
    let fresh = {
        let d = dir.clone();
        std::sync::Arc::new(move |what: &str| {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            d.join(format!("{}-{}-{}", what, std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)))
        })
    };
    fn fail<T>(what: &str) -> Result<T, RpcError> {
        Err(RpcError::internal_error(format!("asked to fail: {}", what)))
    }
    fn stuck() {
        let parent = unsafe { libc::getppid() };
        for _ in 0..400 {
            std::thread::sleep(Duration::from_millis(50));
            if unsafe { libc::getppid() } != parent {
                std::process::exit(0);
            }
        }
    }
    let io = |e: std::io::Error| RpcError::internal_error(e.to_string());
    let (p1, p2, p3, p4, p5, p6, p7) = (put.clone(), put.clone(), put.clone(), put.clone(), put.clone(), put.clone(), put.clone());
    let (b1, b2, b3, b4, b5, b6) = (behave.clone(), behave.clone(), behave.clone(), behave.clone(), behave.clone(), behave.clone());
    let (f2, f3, f5, f7) = (fresh.clone(), fresh.clone(), fresh.clone(), fresh.clone());
    let server = PluginServer::new(&name, "1")
        .devices(vec!["cpu"])
        .model_extensions(vec!["onnx"])
        .tensor_extensions(vec!["npx"])
        .method("backend.build", move |p: BuildParams| -> Result<serde_json::Value, RpcError> {
            let v = b1();
            let lib = json!({"snapshot": content(&p.snapshot_path), "device": p.device, "target": p.target, "format": p.format, "version": v["version"], "who": v["who"], "complete": true, "filler": "z".repeat(3000)}).to_string();
            p1(json!({"e": "build", "snapshot": content(&p.snapshot_path), "device": p.device, "target": p.target, "format": p.format, "output": p.output_path}));
            let how = v["build"].as_str().unwrap_or("ok").to_string();
            match how.as_str() {
                "ok" => std::fs::write(&p.output_path, &lib).map_err(io)?,
                "silent" => {}
                _ => {
                    std::fs::write(&p.output_path, &lib[..lib.len() / 2]).map_err(io)?;
                    p1(json!({"e": "half"}));
                    match how.as_str() {
                        "crash" => std::process::exit(3),
                        "hang" => stuck(),
                        _ => {}
                    }
                    return fail("build");
                }
            }
            Ok(serde_json::Value::Null)
        })
        .method("backend.run", move |p: RunParams| -> Result<RunResult, RpcError> {
            let v = b2();
            let mut ins = vec![];
            for i in &p.inputs {
                let copy = f2("in");
                let ok = std::fs::copy(&i.path, &copy).is_ok();
                ins.push(json!({"name": i.name, "path": i.path, "copy": if ok { copy.to_string_lossy().to_string() } else { String::new() }}));
            }
            p2(json!({"e": "run", "library": std::fs::read_to_string(&p.library_path).unwrap_or_default(), "library_path": p.library_path, "snapshot": content(&p.snapshot_path), "device": p.device, "inputs": ins}));
            match v["run"].as_str().unwrap_or("ok") {
                "error" => return fail("run"),
                "crash" => std::process::exit(4),
                "hang" => stuck(),
                "slow" => std::thread::sleep(Duration::from_millis(1500)),
                _ => {}
            }
            let mut outputs = vec![];
            for o in v["outputs"].as_array().into_iter().flatten() {
                let path = f2("out");
                std::fs::copy(o["file"].as_str().unwrap_or(""), &path).map_err(io)?;
                outputs.push(TensorOutput { name: o["name"].as_str().unwrap_or("").into(), path: path.to_string_lossy().into() });
            }
            match v["run"].as_str().unwrap_or("ok") {
                "badfile" => {
                    let path = f2("bad");
                    std::fs::write(&path, b"\xff\xff\xff\xff\x0fnot a tensor").map_err(io)?;
                    outputs.push(TensorOutput { name: "bad".into(), path: path.to_string_lossy().into() });
                }
                "missing" => outputs.push(TensorOutput { name: "gone".into(), path: f2("gone").to_string_lossy().into() }),
                _ => {}
            }
            Ok(RunResult { outputs })
        })
        .method("format.load_model", move |p: LoadModelParams| -> Result<LoadModelResult, RpcError> {
            p3(json!({"e": "load_model", "path": p.path}));
            let to = f3("model");
            match b3()["load_model"].as_str().unwrap_or("ok") {
                "error" => return fail("load_model"),
                "crash" => std::process::exit(5),
                "missing" => {}
                _ => {
                    // the file is a snapshot behind a prefix
                    let b = std::fs::read(&p.path).map_err(io)?;
                    if !b.starts_with(b"ONNX") {
                        return fail("not an onnx file");
                    }
                    std::fs::write(&to, &b[4..]).map_err(io)?;
                }
            }
            Ok(LoadModelResult { snapshot_path: to.to_string_lossy().into() })
        })
        .method("format.save_model", move |p: SaveModelParams| -> Result<Value, RpcError> {
            p4(json!({"e": "save_model", "output": p.output_path}));
            match b4()["save_model"].as_str().unwrap_or("ok") {
                "error" => return fail("save_model"),
                "crash" => std::process::exit(5),
                _ => {}
            }
            let mut b = b"ONNX".to_vec();
            b.extend(std::fs::read(&p.snapshot_path).map_err(io)?);
            std::fs::write(&p.output_path, b).map_err(io)?;
            Ok(json!({}))
        })
        .method("format.load_tensor", move |p: LoadTensorParams| -> Result<LoadTensorResult, RpcError> {
            p5(json!({"e": "load_tensor", "path": p.path}));
            let to = f5("tensor");
            match b5()["load_tensor"].as_str().unwrap_or("ok") {
                "error" => return fail("load_tensor"),
                "crash" => std::process::exit(5),
                "missing" => {}
                _ => {
                    let b = std::fs::read(&p.path).map_err(io)?;
                    if !b.starts_with(b"NPX") {
                        return fail("not an npx file");
                    }
                    std::fs::write(&to, &b[3..]).map_err(io)?;
                }
            }
            Ok(LoadTensorResult { tensor_path: to.to_string_lossy().into() })
        })
        .method("format.save_tensor", move |p: SaveTensorParams| -> Result<Value, RpcError> {
            p6(json!({"e": "save_tensor", "output": p.output_path}));
            match b6()["save_tensor"].as_str().unwrap_or("ok") {
                "error" => return fail("save_tensor"),
                "crash" => std::process::exit(5),
                _ => {}
            }
            let mut b = b"NPX".to_vec();
            b.extend(std::fs::read(&p.tensor_path).map_err(io)?);
            std::fs::write(&p.output_path, b).map_err(io)?;
            Ok(json!({}))
        });
    let _ = (p7, f7);
    let _ = server.run();
    std::process::exit(0)
}

// ---------------------------------------------------------------- a scratch world and the commands in it

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn tree(d: &Path, out: &mut Tree) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        let kind = e.file_type();
        if kind.map(|k| k.is_dir()).unwrap_or(false) {
            out.insert(p.clone(), None);
            tree(&p, out);
        } else {
            let b = std::fs::read(&p).ok();
            out.insert(p, Some(b.unwrap_or_default()));
        }
    }
}

struct World {
    root: Scratch,
    base: PathBuf,
    home: PathBuf,
    tmp: PathBuf,
    work: PathBuf,
    be: PathBuf,
}
struct Done {
    code: i32,
    out: String,
    err: String,
    cmd: String,
}
impl World {
    /// home, temporary and working directories deep inside a scratch directory, with files that nobody may touch all around
    fn new() -> World {
        let root = Scratch::new();
        let base = root.join("a/b/c/d");
        let at = |s: &str| base.join(s);
        let w = World { home: at("home"), tmp: at("tmp"), work: at("work"), be: at("be"), base: base.clone(), root };
        for d in ["home/.hodu/plugins", "home/docs", "tmp", "work", "be", "outside/abs"] {
            std::fs::create_dir_all(at(d)).expect("dir");
        }
        for f in ["home/docs/thesis.txt", "home/.profile", "outside/keep", "outside/abs/keep", "tmp/keep", "tmp/hodu_input_x_1.hdt", "work/keep", "home/.hodu/plugins/.setup_shown"] {
            std::fs::write(at(f), "precious").expect("file");
        }
        let mut d = w.root.0.clone();
        for p in ["a", "b", "c", "d"] {
            d = d.join(p);
            std::fs::write(d.join("keep"), "precious").expect("file");
        }
        w
    }
    fn command(&self, args: &[String]) -> Command {
        let mut c = Command::new(me().with_file_name("hodu"));
        c.args(args).current_dir(&self.work).env("HOME", &self.home).env("TMPDIR", &self.tmp).env("NO_COLOR", "1").stdin(Stdio::null());
        c
    }
    fn hodu(&self, args: &[&str]) -> Result<Done, Fail> {
        self.hodu_then(args, None)
    }
    /// `signal`: send it once the log holds the given event
    fn hodu_then(&self, args: &[&str], signal: Option<(&str, i32)>) -> Result<Done, Fail> {
        let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let (fo, fe) = (self.root.join("stdout"), self.root.join("stderr"));
        let file = |p: &Path| std::fs::File::create(p).expect("output file");
        let before = self.log().len();
        let mut ch = self.command(&args).stdout(file(&fo)).stderr(file(&fe)).spawn().expect("the command line starts");
        let t0 = Instant::now();
        let mut pending = signal;
        let status = loop {
            if let Some(s) = ch.try_wait().expect("wait") {
                break s;
            }
            if let Some((ev, sig)) = pending {
                if self.log()[before..].iter().any(|v| v["e"] == ev) {
                    unsafe { libc::kill(ch.id() as i32, sig) };
                    pending = None;
                }
            }
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                let _ = ch.wait();
                bail!("a command does not end", "{:?}", args);
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        use std::os::unix::process::ExitStatusExt;
        let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
        let (out, err) = (text(&fo), text(&fe));
        let _ = std::fs::remove_file(&fo);
        let _ = std::fs::remove_file(&fe);
        let cmd = trunc(&format!("{:?}", args), 400);
        check!(!err.contains("panicked at") && !err.contains("RUST_BACKTRACE"), "a command panics", "{}: {}", cmd, trunc(&err, 400));
        let code = match (status.code(), status.signal()) {
            (Some(c), _) => c,
            (None, Some(s)) if signal.map(|x| x.1) == Some(s) => -s,
            (_, s) => bail!("a command dies", "{}: signal {:?} {}", cmd, s, trunc(&err, 300)),
        };
        // its plugins end with it
        for v in &self.log()[before..] {
            if v["e"] == "start" {
                check!(gone_soon(v["pid"].as_i64().unwrap_or(0), 20_000), "a plugin outlives its command", "{}: {}", cmd, v);
            }
        }
        Ok(Done { code, out, err, cmd })
    }
    fn log(&self) -> Vec<Value> {
        std::fs::read_to_string(self.be.join("log")).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
    }
    fn behave(&self, v: Value) {
        std::fs::write(self.be.join("behave"), v.to_string()).expect("behave");
    }
    fn see(&self) -> Tree {
        let mut t = Tree::new();
        tree(&self.root.0, &mut t);
        t
    }
    /// everything that differs between two looks at the tree, apart from what the plugins themselves keep
    fn changes(&self, a: &Tree, b: &Tree) -> Vec<(PathBuf, &'static str)> {
        let mut d = vec![];
        for (p, c) in b {
            match a.get(p) {
                None => d.push((p.clone(), "new")),
                Some(x) if x != c => d.push((p.clone(), "changed")),
                _ => {}
            }
        }
        for p in a.keys() {
            if !b.contains_key(p) {
                d.push((p.clone(), "gone"));
            }
        }
        d.retain(|(p, _)| !p.starts_with(&self.be));
        d
    }
    fn plugin(&self, name: &str) {
        crate::p_plug::install(&self.home, name, &["cliplugin", &self.be.to_string_lossy(), name], 0o755);
    }
    fn registry(&self) -> PathBuf {
        self.home.join(".hodu/plugins.json")
    }
}
fn fails(d: &Done, why: &str) -> R {
    check!(d.code != 0, "a command that cannot do its work succeeds", "{}: {}", why, d.cmd);
    check!(d.err.to_lowercase().contains("error") || d.code < 0, "a command fails without saying why", "{} exit {} {:?}", d.cmd, d.code, d.err);
    Ok(())
}
fn works(d: &Done) -> R {
    check!(d.code == 0, "a command fails", "{} exit {}: {}", d.cmd, d.code, trunc(&d.err, 400));
    Ok(())
}
fn equals(sig: &str, p: &Path, text: bool, m: &RT) -> R {
    let t = if text { tjson::load(p) } else { hdt::load(p) };
    let t = match t {
        Ok(t) => t,
        Err(e) => bail!(format!("{}: unreadable", sig), "{:?}: {}", p, e),
    };
    check!(t.dtype() == m.dt && shape_of(&t) == m.shape, sig, "{:?} {:?} instead of {:?} {:?}", t.dtype(), shape_of(&t), m.dt, m.shape);
    if m.data.is_empty() {
        return Ok(());
    }
    match read(&t) {
        Ok(g) => check!(g.data.len() == m.data.len() && g.data.iter().zip(&m.data).all(|(a, b)| same(*a, *b)), sig, "{} instead of {}", g.show(), m.show()),
        Err(e) => bail!(sig, "{}", e),
    }
    Ok(())
}
fn pd(dt: DType) -> PluginDType {
    format!("{}", dt).parse().expect("dtype")
}
fn some_tensor(r: &mut Rng, text: bool) -> RT {
    loop {
        let dt = *r.pick(ALL);
        // the JSON library does not read every F64 back exactly (R01)
        if !(text && dt == DType::F64) {
            let shape = gen_shape(r, 0, 3, 60);
            return gen_rt(r, dt, &shape, Gen::Edge);
        }
    }
}
fn store(m: &RT, p: &Path, text: bool) -> R {
    let t = m.build().map_err(|e| Fail::Bad("tensor".into(), e.to_string()))?;
    let r = if text { tjson::save(&t, p) } else { hdt::save(&t, p) };
    r.map_err(|e| Fail::Bad("save".into(), e.to_string()))
}
fn plain(name: &str) -> bool {
    let mut c = Path::new(name).components();
    matches!(c.next(), Some(Component::Normal(x)) if x == name) && c.next().is_none()
}

// ---------------------------------------------------------------- hodu run

const IN_NAMES: &[&str] = &["x", "input.0", "a/b", "../../up", "..", "", "ключ 😀", "sp ace", "x\ny", "%s", "long"];
const DEVICES: &[(&str, &str)] = &[
    ("cpu", "cpu"), ("CPU", "cpu"), ("cuda", "cuda::0"), ("cuda::0", "cuda::0"), ("cuda:1", "cuda::1"), ("CUDA::1", "cuda::1"), ("rocm", "rocm::0"), ("weird", "weird"),
    ("metal", "metal"), ("cuda::x", ""), ("cuda:", ""), ("cudax", ""), ("rocm:1", ""),
];

struct InArg {
    arg: Option<String>,
    name: String,
    model: Option<RT>,
}
/// One input argument; `model` is None when the command must refuse it.
fn input_arg(w: &World, r: &mut Rng, k: usize, spec: &SnapshotInput, bad: bool) -> Result<InArg, Fail> {
    let text = r.chance(0.5) && spec.dtype != DType::F64;
    let shape = spec.shape.dims().to_vec();
    let m = gen_rt(r, spec.dtype, &shape, Gen::Edge);
    let ext = if text { *r.pick(&["json", "json", "JSON", "Json"]) } else { *r.pick(&["hdt", "hdt", "HDT"]) };
    let p = w.work.join(format!("in{}.{}", k, ext));
    store(&m, &p, text)?;
    let mut name = spec.name.clone();
    let mut file = p.clone();
    let mut model = Some(m.clone());
    let mut arg = None;
    if bad {
        model = None;
        match r.below(8) {
            0 => {
                let mut s = shape.clone();
                if s.is_empty() || r.chance(0.3) { s.push(1) } else if r.chance(0.5) { s[0] += 1 } else { s.insert(0, 1) }
                store(&gen_rt(r, m.dt, &s, Gen::Edge), &p, text)?;
            }
            1 => {
                let mut dt = *r.pick(ALL);
                while dt == m.dt || (text && dt == DType::F64) {
                    dt = *r.pick(ALL);
                }
                store(&gen_rt(r, dt, &shape, Gen::Edge), &p, text)?;
            }
            2 => {
                let b = std::fs::read(&p).expect("read");
                std::fs::write(&p, &b[..r.below(b.len())]).expect("write");
            }
            3 => file = w.work.join("nothing.hdt"),
            4 => {
                file = w.work.join(format!("in{}.{}", k, r.pick(&["txt", "bin", "npy", "hdt2"])));
                std::fs::copy(&p, &file).expect("copy");
            }
            5 => {
                // data that does not fit the shape or type
                let q = w.work.join(format!("odd{}.json", k));
                let n = numel(&shape);
                let len = if r.chance(0.5) { n + r.usize(1, 3) } else if n > 0 { n - r.usize(1, n) } else { 1 };
                let data = match r.below(3) {
                    0 => vec![json!({}); n.max(1)],
                    1 => vec![json!([1]); n.max(1)],
                    _ => vec![if m.dt == DType::BOOL { json!(true) } else { json!(1) }; len],
                };
                let dims: Vec<Value> = shape.iter().map(|d| json!(d)).collect();
                std::fs::write(&q, json!({"shape": dims, "dtype": format!("{}", m.dt), "data": data}).to_string()).expect("write");
                file = q;
            }
            6 => arg = Some(file.to_string_lossy().to_string()),
            _ => name = format!("{}?", name),
        }
    }
    let arg = arg.unwrap_or_else(|| format!("{}={}", name, file.to_string_lossy()));
    Ok(InArg { arg: Some(arg), name: spec.name.clone(), model })
}

fn some_model(r: &mut Rng, k: u64) -> Snapshot {
    let mut s = Snapshot::new();
    if r.chance(0.5) {
        s.name = Some(format!("m{}", k));
    }
    let mut names: Vec<&str> = IN_NAMES.to_vec();
    r.shuffle(&mut names);
    for i in 0..r.below(4) {
        let shape = gen_shape(r, 0, 3, 40);
        let name = if names[i] == "long" { "n".repeat(180) } else { names[i].to_string() };
        s.inputs.push(SnapshotInput { name, id: SnapshotTensorId(i), shape: Shape::new(&shape), dtype: *r.pick(ALL) });
    }
    let data = (0..12).map(|_| r.below(256) as u8).collect();
    s.constants.push(SnapshotConstant { id: SnapshotTensorId(9), name: None, shape: Shape::new(&[3]), dtype: DType::F32, data });
    s
}

fn run(cx: &mut Cx) -> R {
    let w = World::new();
    let mut reg = PluginRegistry::new();
    let backend = |devs: &[&str]| PluginCapabilities::backend(true, true, devs.iter().map(|s| s.to_string()).collect(), vec![]);
    reg.upsert(entry("off", PluginType::Backend, backend(&["cpu", "weird", "metal"]), false));
    reg.upsert(entry("hodu-backend-one", PluginType::Backend, backend(&["cpu", "cuda::0", "CUDA::1"]), true));
    reg.upsert(entry("two", PluginType::Backend, backend(&["cpu", "weird", "rocm::0"]), true));
    reg.upsert(entry("conv", PluginType::ModelFormat, PluginCapabilities::model_format(true, true, vec!["onnx".into()]), true));
    for p in ["off", "hodu-backend-one", "two", "conv"] {
        w.plugin(p);
    }
    let models: Vec<Snapshot> = (0..2).map(|k| some_model(&mut cx.rng, k)).collect();
    let mut files = vec![];
    for (k, m) in models.iter().enumerate() {
        let p = w.work.join(format!("m{}.hdss", k));
        m.save(&p).map_err(|e| Fail::Bad("a snapshot does not save".into(), e.to_string()))?;
        let bytes = std::fs::read(&p).expect("read");
        std::fs::copy(&p, w.work.join(format!("copy{}.HDSS", k))).expect("copy");
        std::fs::write(w.work.join(format!("m{}.onnx", k)), [b"ONNX", &bytes[..]].concat()).expect("write");
        files.push(content(&p));
    }
    std::fs::write(w.work.join("broken.hdss"), "ff").expect("write");
    std::fs::write(w.work.join("broken.onnx"), "ff").expect("write");
    std::fs::write(w.work.join("m0"), "ff").expect("write");
    std::fs::write(w.work.join("m0.xyz"), "ff").expect("write");
    let mut built: HashSet<(String, usize, String, u64)> = HashSet::new();
    let mut version = 1u64;
    let steps = cx.rng.usize(2, 5);
    cx.d(format!("{:?}", models.iter().map(|m| m.inputs.iter().map(|i| (trunc(&i.name, 20), i.shape.dims().to_vec(), i.dtype)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    for step in 0..steps {
        let r = &mut cx.rng;
        if r.chance(0.2) {
            version += 1;
        }
        for p in reg.plugins.iter_mut() {
            p.version = format!("{}.0.0", version);
        }
        if let Err(e) = reg.save(&w.registry()) {
            bail!("registry save", "{}", e);
        }
        let mi = r.below(2);
        let odd = r.chance(0.12);
        let (file, mut good) = if odd {
            (r.pick(&["broken.hdss", "broken.onnx", "m0", "m0.xyz", "absent.hdss"]).to_string(), false)
        } else {
            (match r.below(4) { 0 => format!("copy{}.HDSS", mi), 1 => format!("m{}.onnx", mi), _ => format!("m{}.hdss", mi) }, true)
        };
        let (dev, norm) = if r.chance(0.6) { DEVICES[r.below(4)] } else { *r.pick(DEVICES) };
        let explicit = [None, None, None, Some("one"), Some("hodu-backend-one"), Some("two"), Some("off"), Some("nobody")][r.below(8)];
        let chosen: Option<String> = if norm.is_empty() {
            None
        } else {
            match explicit {
                None => reg.find_backend_by_device(norm).map(|p| p.name.clone()),
                Some("one") => Some("hodu-backend-one".into()),
                Some(n @ ("hodu-backend-one" | "two")) => Some(n.into()),
                Some(_) => None,
            }
        };
        good &= chosen.is_some();
        // the inputs
        let specs = &models[mi].inputs;
        let fault = r.chance(0.25) && !specs.is_empty();
        let at = if specs.is_empty() { 0 } else { r.below(specs.len()) };
        let mut ins: Vec<InArg> = vec![];
        for (k, s) in specs.iter().enumerate() {
            if fault && k == at && r.chance(0.2) {
                ins.push(InArg { arg: None, name: s.name.clone(), model: None });
                continue;
            }
            if r.chance(0.1) {
                // given twice: the last one counts
                let first = input_arg(&w, r, 100 + k, s, false)?;
                ins.push(first);
            }
            let a = input_arg(&w, r, k, s, fault && k == at)?;
            ins.push(a);
        }
        good &= !ins.iter().any(|i| i.model.is_none());
        // how the backend behaves
        let build = if r.chance(0.7) { "ok" } else { *r.pick(&["error", "silent", "crash", "hang", "hang"]) };
        let how = if r.chance(0.75) { "ok" } else { *r.pick(&["error", "crash", "badfile", "missing", "hang", "slow"]) };
        let mut onames = vec!["y", "out.1", "../../evil", "sub/dir", "ключ", "..", "/abs"];
        r.shuffle(&mut onames);
        let nout = r.below(4);
        let plain_only = r.chance(0.6);
        let mut outs: BTreeMap<String, (RT, PathBuf)> = BTreeMap::new();
        let save_format = r.pick(&["hdt", "hdt", "HDT", "json", "json", "Json", "txt"]).to_string();
        let text = save_format.to_lowercase() == "json";
        for (k, n) in onames.iter().enumerate().take(nout) {
            let mut n = n.to_string();
            if n == "/abs" {
                n = w.base.join("outside/abs/out").to_string_lossy().to_string();
            }
            if plain_only && !plain(&n) {
                n = format!("p{}", k);
            }
            let m = some_tensor(r, text);
            let p = w.be.join(format!("o{}-{}", step, k));
            store(&m, &p, false)?;
            outs.insert(n, (m, p));
        }
        let save = match r.below(5) { 0 => None, 1 => Some("s/deep/er".to_string()), 2 if r.chance(0.3) => Some("keep".to_string()), _ => Some(format!("save{}", step)) };
        let fmt = *r.pick(&["pretty", "json"]);
        let quiet = r.chance(0.2);
        let signal = match (build, how) {
            ("hang", _) if r.chance(0.6) => Some(("half", libc::SIGKILL)),
            (_, "hang") if r.chance(0.6) => Some(("run", libc::SIGKILL)),
            (_, "slow") => Some(("run", libc::SIGINT)),
            _ => None,
        };
        let mut args: Vec<String> = vec!["run".into(), file.clone(), "--device".into(), dev.into(), "--format".into(), fmt.into(), "--save-format".into(), save_format.clone()];
        for i in ins.iter() {
            if let Some(a) = &i.arg {
                if !a.contains(',') && r.chance(0.3) { args.push(format!("--inputs={}", a)) } else { args.push(format!("--input={}", a)) }
            }
        }
        if let Some(b) = explicit {
            args.push(format!("--backend={}", b));
        }
        if let Some(s) = &save {
            args.push(format!("--save={}", s));
        }
        if quiet {
            args.push("--quiet".into());
        }
        // an order of arguments that mixes -i and --inputs puts the latter last: give duplicates in one form only
        let mut seen = HashSet::new();
        if ins.iter().any(|i| !seen.insert(i.name.clone())) {
            for a in args.iter_mut() {
                if let Some(x) = a.strip_prefix("--inputs=") {
                    *a = format!("--input={}", x);
                }
            }
        }
        if build == "hang" || how == "hang" {
            args.push("--timeout=1".into());
        }
        let dry = r.chance(0.05);
        if dry {
            args.push("--dry-run".into());
        }
        cx.d(format!("{} {} {:?} v{} build {} run {} signal {:?} bad {} outs {:?}", args.join(" ").replace(&*w.work.to_string_lossy(), ""), norm, explicit, version, build, how, signal, !good, outs.keys().collect::<Vec<_>>()));
        w.behave(json!({"build": build, "run": how, "version": version, "who": chosen.clone(), "outputs": outs.iter().map(|(n, o)| json!({"name": n, "file": o.1.to_string_lossy()})).collect::<Vec<_>>()}));
        let before = w.log().len();
        let t0 = w.see();
        let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let d = w.hodu_then(&refs, signal)?;
        let log: Vec<Value> = w.log()[before..].to_vec();
        let events = |e: &str| log.iter().filter(|v| v["e"] == e).cloned().collect::<Vec<_>>();
        let (builds, runs) = (events("build"), events("run"));
        let key = chosen.clone().map(|c| (c, mi, norm.to_string(), version));
        // the files
        let cache = w.home.join(".hodu/cache");
        let saved = save.as_ref().map(|s| w.work.join(s));
        let killed = signal.is_some_and(|s| s.1 == libc::SIGKILL) && d.code < 0;
        for (p, what) in w.changes(&t0, &w.see()) {
            let ok = (p.starts_with(&cache) && what == "new")
                || saved.as_ref().is_some_and(|s| (p.starts_with(s) || s.starts_with(&p)) && what == "new")
                || (killed && p.starts_with(&w.tmp) && what == "new");
            check!(ok, "a run touches files of others", "{:?} {} ({})", p.strip_prefix(&w.root.0).unwrap_or(&p), what, d.cmd);
        }
        if killed {
            // what a killed command leaves in the temporary directory is not held against the next one
            for e in std::fs::read_dir(&w.tmp).into_iter().flatten().flatten() {
                if !["keep", "hodu_input_x_1.hdt"].contains(&&*e.file_name().to_string_lossy()) {
                    let _ = std::fs::remove_dir_all(e.path());
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
        if dry {
            check!(builds.is_empty() && runs.is_empty(), "a dry run runs", "{}", d.cmd);
            continue;
        }
        if !good {
            fails(&d, "the model, the device, the backend or an input is unusable")?;
            check!(runs.is_empty(), "a run with unusable arguments reaches the backend", "{}", d.cmd);
            cx.count("refused", 1);
            continue;
        }
        let key = key.expect("chosen");
        // the library
        if built.contains(&key) {
            check!(builds.is_empty(), "a cached library is built again", "{}", d.cmd);
        } else {
            check!(builds.len() == 1, "a missing library is not built once", "{} times: {} {}", builds.len(), d.cmd, d.err);
            let b = &builds[0];
            let triple = hodu_plugin::current_host_triple().to_string();
            check!(b["snapshot"] == json!(files[mi]) && b["device"] == json!(norm) && b["target"] == json!(triple) && b["format"] == json!("sharedlib") && b["who"] == json!(key.0),
                "a build for something else", "{} asked {}", d.cmd, b);
            if build != "ok" {
                fails(&d, "the build fails")?;
                check!(runs.is_empty(), "a library that was not built is run", "{}", d.cmd);
                cx.count("failed_builds", 1);
                continue;
            }
            built.insert(key.clone());
        }
        check!(runs.len() == 1, "a run does not reach the backend once", "{} times: {} {}", runs.len(), d.cmd, d.err);
        let q = &runs[0];
        let lib: Value = serde_json::from_str(q["library"].as_str().unwrap_or("")).unwrap_or(Value::Null);
        check!(lib["complete"] == json!(true), "an incomplete library is run", "{} {}", d.cmd, trunc(&q["library"].to_string(), 200));
        check!(lib["snapshot"] == json!(files[mi]) && lib["device"] == json!(norm) && lib["version"] == json!(version) && lib["who"] == json!(key.0),
            "a library built for something else is run", "{} (version {}) ran {}", d.cmd, version, trunc(&lib.to_string(), 300));
        check!(q["snapshot"] == json!(files[mi]) && q["device"] == json!(norm) && q["who"] == json!(key.0), "a run of something else", "{} asked {}", d.cmd, trunc(&q.to_string(), 400));
        let mut want: HashMap<String, RT> = HashMap::new();
        for i in &ins {
            want.insert(i.name.clone(), i.model.clone().expect("good"));
        }
        let given = q["inputs"].as_array().cloned().unwrap_or_default();
        check!(given.len() == want.len(), "the inputs of a run", "{} of {}: {}", given.len(), want.len(), d.cmd);
        let mut paths = HashSet::new();
        for g in &given {
            let Some(m) = want.get(g["name"].as_str().unwrap_or("?")) else { bail!("the inputs of a run", "unexpected {}", g) };
            let p = PathBuf::from(g["path"].as_str().unwrap_or(""));
            check!(paths.insert((g["name"].clone(), p.clone())), "the inputs of a run", "{} twice", g);
            check!(p.starts_with(&w.tmp) && !p.components().any(|c| c == Component::ParentDir), "an input is written outside the temporary directory", "{:?}", p);
            equals("an input arrives changed at the backend", Path::new(g["copy"].as_str().unwrap_or("")), false, m)?;
            cx.count("inputs", 1);
        }
        // the outputs
        if how != "ok" {
            if how == "slow" && d.code == 0 {
                // the interrupt came after the end
                continue;
            }
            fails(&d, &format!("the run ends with {}", how))?;
            cx.count("failed_runs", 1);
            continue;
        }
        let all_plain = outs.keys().all(|n| plain(n));
        let unsaveable = save.is_some() && (save.as_deref() == Some("keep") || !outs.is_empty() && save_format == "txt");
        if unsaveable {
            fails(&d, "the outputs cannot be saved")?;
            continue;
        }
        if save.is_some() && !all_plain {
            // refused, or saved under some other name inside the directory (checked above)
            cx.count("evil_outputs", 1);
            continue;
        }
        works(&d)?;
        if let Some(s) = &saved {
            let mut t = Tree::new();
            tree(s, &mut t);
            let mut exp: HashSet<PathBuf> = HashSet::new();
            for (n, (m, _)) in &outs {
                let p = s.join(format!("{}.{}", n, save_format.to_lowercase()));
                equals("a saved output differs", &p, text, m)?;
                exp.insert(p);
                cx.count("outputs", 1);
            }
            let before: HashSet<PathBuf> = t0.keys().filter(|p| p.starts_with(s)).cloned().collect();
            for p in t.keys() {
                check!(exp.contains(p) || before.contains(p), "an output nobody returned", "{:?}", p);
            }
        }
        if quiet {
            check!(d.out.is_empty(), "a quiet run prints", "{:?}", d.out);
        } else if fmt == "json" {
            let v: Value = serde_json::from_str(&d.out).unwrap_or(Value::Null);
            check!(v.as_object().map(|o| o.len()) == Some(outs.len()), "the printed outputs", "{} for {:?}", v, outs.keys());
            for (n, (m, _)) in &outs {
                check!(v[n]["shape"] == json!(m.shape) && v[n]["dtype"].as_str().map(|s| s.to_lowercase()) == Some(pd(m.dt).name().to_lowercase()), "the printed outputs", "{}: {} for {:?} {:?}", n, v[n], m.dt, m.shape);
            }
        } else {
            for n in outs.keys() {
                check!(d.out.contains(n.as_str()), "the printed outputs", "{} not in {:?}", n, trunc(&d.out, 300));
            }
        }
        cx.count("runs", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- hodu convert

fn convert(cx: &mut Cx) -> R {
    let w = World::new();
    let mut reg = PluginRegistry::new();
    reg.upsert(entry("fmt", PluginType::TensorFormat, PluginCapabilities::tensor_format(true, true, vec!["npx".into()]), true));
    reg.upsert(entry("load", PluginType::TensorFormat, PluginCapabilities::tensor_format(true, false, vec!["ro".into()]), true));
    reg.upsert(entry("conv", PluginType::ModelFormat, PluginCapabilities::model_format(true, true, vec!["onnx".into()]), true));
    for p in ["fmt", "load", "conv"] {
        w.plugin(p);
    }
    if let Err(e) = reg.save(&w.registry()) {
        bail!("registry save", "{}", e);
    }
    let model = cx.rng.chance(0.35);
    let steps = cx.rng.usize(1, 4);
    let exts: &[&str] = if model { &["hdss", "onnx", "HDSS", "Onnx"] } else { &["hdt", "json", "npx", "HDT", "Json", "NPX"] };
    let m = some_tensor(&mut cx.rng, true);
    let snap = some_model(&mut cx.rng, 0);
    let snap_bytes = snap.to_bytes().map_err(|e| Fail::Bad("snapshot".into(), e.to_string()))?;
    // what a file holds: the tensor or model, or something that is neither
    let first = *cx.rng.pick(exts);
    let mut cur = w.work.join(format!("f0.{}", first));
    let put = |p: &Path| -> R {
        match p.extension().and_then(|e| e.to_str()).unwrap_or("").to_lowercase().as_str() {
            "hdt" => store(&m, p, false)?,
            "json" => store(&m, p, true)?,
            "npx" => {
                store(&m, p, false)?;
                let b = std::fs::read(p).expect("read");
                std::fs::write(p, [b"NPX", &b[..]].concat()).expect("write");
            }
            "onnx" => std::fs::write(p, [b"ONNX", &snap_bytes[..]].concat()).expect("write"),
            _ => std::fs::write(p, &snap_bytes).expect("write"),
        }
        Ok(())
    };
    let holds = |p: &Path| -> R {
        match p.extension().and_then(|e| e.to_str()).unwrap_or("").to_lowercase().as_str() {
            "hdt" => equals("a converted tensor differs", p, false, &m),
            "json" => equals("a converted tensor differs", p, true, &m),
            "npx" => {
                let b = std::fs::read(p).unwrap_or_default();
                check!(b.starts_with(b"NPX"), "a converted tensor differs", "not an npx file");
                let q = w.be.join("check");
                std::fs::write(&q, &b[3..]).expect("write");
                equals("a converted tensor differs", &q, false, &m)
            }
            "onnx" => Ok(check!(std::fs::read(p).unwrap_or_default() == [b"ONNX", &snap_bytes[..]].concat(), "a converted model differs", "{:?}", p)),
            _ => Ok(check!(std::fs::read(p).unwrap_or_default() == snap_bytes, "a converted model differs", "{:?}", p)),
        }
    };
    put(&cur)?;
    cx.d(format!("{} {:?} {:?}", if model { "model" } else { "tensor" }, m.dt, m.shape));
    for k in 1..=steps {
        let r = &mut cx.rng;
        let ext = *r.pick(exts);
        let fault = if r.chance(0.35) { *r.pick(&["plugin error", "plugin crash", "plugin missing", "corrupt", "absent", "no extension", "unknown", "unsupported", "nowhere"]) } else { "" };
        let itself = fault.is_empty() && r.chance(0.1);
        let exists = r.chance(0.3);
        let dst = if itself { cur.clone() } else { w.work.join(format!("f{}.{}", k, ext)) };
        if exists && !itself {
            std::fs::write(&dst, "an older file").expect("write");
        }
        let (mut src, mut to) = (cur.clone(), dst.clone());
        let lower = |p: &Path| p.extension().and_then(|e| e.to_str()).unwrap_or("").to_lowercase();
        let (ie, oe) = (lower(&src), lower(&dst));
        let uses = [ie.as_str(), oe.as_str()].iter().any(|e| ["npx", "onnx"].contains(e));
        let loads = ["npx", "onnx"].contains(&ie.as_str());
        let mut behave = json!({});
        let mut bad = !fault.is_empty();
        match fault {
            "plugin error" | "plugin crash" => {
                let how = if fault == "plugin error" { "error" } else { "crash" };
                for e in ["load_model", "save_model", "load_tensor", "save_tensor"] {
                    behave[e] = json!(how);
                }
                bad = uses;
            }
            "plugin missing" => {
                behave = json!({"load_model": "missing", "load_tensor": "missing"});
                bad = loads;
            }
            "corrupt" => {
                src = w.work.join(format!("bad{}.{}", k, ie));
                let b = std::fs::read(&cur).expect("read");
                std::fs::write(&src, &b[..r.below(b.len().min(12))]).expect("write");
                // snapshots are copied as they are
                bad = !(ie == "hdss");
                if ie == "onnx" {
                    bad = !std::fs::read(&src).expect("read").starts_with(b"ONNX");
                }
            }
            "absent" => src = w.work.join(format!("absent.{}", ie)),
            "no extension" => if r.chance(0.5) {
                src = w.work.join("bare");
                std::fs::copy(&cur, &src).expect("copy");
            } else {
                to = w.work.join(format!("bare{}", k))
            },
            "unknown" => if r.chance(0.5) {
                src = w.work.join("f.unknown");
                std::fs::copy(&cur, &src).expect("copy");
            } else {
                to = w.work.join(format!("f{}.unknown", k))
            },
            "unsupported" => to = w.work.join(format!("f{}.ro", k)),
            "nowhere" => to = w.work.join(format!("no/such/dir/f{}.{}", k, ext)),
            _ => {}
        }
        cx.d(format!("{} -> {}{} fault {:?}", lower(&src), lower(&to), if itself { " (itself)" } else { "" }, fault));
        w.behave(behave);
        let t0 = w.see();
        let (a, b) = (src.to_string_lossy().to_string(), to.to_string_lossy().to_string());
        let mut args = vec!["convert", &a, "-o", &b];
        if cx.rng.chance(0.2) {
            args.push("-v");
        }
        let d = w.hodu(&args)?;
        for (p, what) in w.changes(&t0, &w.see()) {
            check!(p == to && what != "gone", "a conversion touches files of others", "{:?} {} ({} {})", p.strip_prefix(&w.root.0).unwrap_or(&p), what, d.cmd, fault);
            // a refused source leaves the destination as it was; a failure while saving may leave anything there
            if bad && (fault != "plugin error" && fault != "plugin crash" && fault != "nowhere" || loads) {
                bail!("a refused conversion writes its destination", "{:?} {} ({} {})", p, what, d.cmd, fault);
            }
        }
        if bad {
            fails(&d, fault)?;
            cx.count("refused", 1);
            continue;
        }
        works(&d)?;
        if fault == "corrupt" {
            continue;
        }
        if !itself || !model {
            holds(&src)?;
        }
        holds(&to)?;
        cx.count("conversions", 1);
        cur = to;
    }
    Ok(())
}

// ---------------------------------------------------------------- hodu inspect

fn inspect(cx: &mut Cx) -> R {
    let w = World::new();
    let mut reg = PluginRegistry::new();
    reg.upsert(entry("fmt", PluginType::TensorFormat, PluginCapabilities::tensor_format(true, true, vec!["npx".into()]), true));
    reg.upsert(entry("conv", PluginType::ModelFormat, PluginCapabilities::model_format(true, true, vec!["onnx".into()]), true));
    for p in ["fmt", "conv"] {
        w.plugin(p);
    }
    if let Err(e) = reg.save(&w.registry()) {
        bail!("registry save", "{}", e);
    }
    let kind = cx.rng.below(5);
    let ext = ["hdt", "json", "hdss", "npx", "onnx"][kind];
    let m = some_tensor(&mut cx.rng, kind == 1);
    let snap = if cx.rng.chance(0.5) { crate::p_file::some_snapshot(&mut cx.rng).unwrap_or_else(Snapshot::new) } else { some_model(&mut cx.rng, 1) };
    let p = w.work.join(format!("f.{}", if cx.rng.chance(0.2) { ext.to_uppercase() } else { ext.into() }));
    match kind {
        0 => store(&m, &p, false)?,
        1 => store(&m, &p, true)?,
        3 => {
            store(&m, &p, false)?;
            let b = std::fs::read(&p).expect("read");
            std::fs::write(&p, [b"NPX", &b[..]].concat()).expect("write");
        }
        _ => {
            let b = snap.to_bytes().map_err(|e| Fail::Bad("snapshot".into(), e.to_string()))?;
            std::fs::write(&p, if kind == 4 { [b"ONNX", &b[..]].concat() } else { b }).expect("write");
        }
    }
    let damaged = cx.rng.chance(0.5);
    let mut how = String::new();
    if damaged {
        let mut b = std::fs::read(&p).expect("read");
        how = mutate(&mut cx.rng, &mut b);
        std::fs::write(&p, b).expect("write");
    }
    let as_json = cx.rng.chance(0.5);
    let verbose = cx.rng.chance(0.5);
    let path = p.to_string_lossy().to_string();
    let mut args = vec!["inspect", &path];
    if as_json {
        args.extend(["--format", "json"]);
    }
    if verbose {
        args.push("-v");
    }
    cx.d(format!("{} {:?} {:?} json {} verbose {} damage {} inputs {:?}", ext, m.dt, m.shape, as_json, verbose, how, snap.inputs.iter().map(|i| trunc(&i.name, 20)).collect::<Vec<_>>()));
    w.behave(json!({}));
    let t0 = w.see();
    let d = w.hodu(&args)?;
    for (p, what) in w.changes(&t0, &w.see()) {
        bail!("an inspection touches files", "{:?} {} ({})", p, what, d.cmd);
    }
    if damaged {
        if d.code != 0 {
            fails(&d, "damaged")?;
        }
        cx.count("damaged", 1);
        return Ok(());
    }
    works(&d)?;
    cx.count("inspected", 1);
    let model = kind == 2 || kind == 4;
    if as_json {
        let v: Value = match serde_json::from_str(&d.out) {
            Ok(v) => v,
            Err(e) => bail!("the inspection of a file is not JSON", "{}: {}", e, trunc(&d.out, 200)),
        };
        if model {
            let s: Snapshot = match serde_json::from_value(v) {
                Ok(s) => s,
                Err(e) => bail!("the inspection of a model", "{}", e),
            };
            check!(s.to_bytes().ok() == snap.to_bytes().ok(), "the inspection of a model", "{}", trunc(&d.out, 300));
        } else {
            let size = numel(&m.shape) * m.dt.size_in_bytes();
            check!(v["shape"] == json!(m.shape) && v["size_bytes"] == json!(size) && v["dtype"].as_str().is_some_and(|s| s.to_lowercase().trim_start_matches("dtype[").trim_end_matches(']') == m.dt.to_string()) && v["file"] == json!(path)
                && (v["numel"].is_null() || v["numel"] == json!(numel(&m.shape))), "the inspection of a tensor", "{} for {:?} {:?}", v, m.dt, m.shape);
        }
    } else if model {
        for i in &snap.inputs {
            check!(d.out.contains(&i.name) && d.out.contains(&format!("{:?}", i.shape.dims())), "the inspection of a model", "{:?} not in {}", i.name, trunc(&d.out, 300));
        }
        for t in &snap.targets {
            check!(d.out.contains(&t.name), "the inspection of a model", "{:?} not in {}", t.name, trunc(&d.out, 300));
        }
        for (what, n) in [("Inputs", snap.inputs.len()), ("Outputs", snap.targets.len()), ("Graph", snap.nodes.len())] {
            check!(d.out.contains(&format!("{} ({})", what, n)), "the inspection of a model", "{} {} not in {}", what, n, trunc(&d.out, 300));
        }
    } else {
        check!(d.out.contains(&format!("{:?}", m.shape)) && d.out.to_lowercase().contains(&m.dt.to_string()), "the inspection of a tensor", "{} for {:?} {:?}", d.out, m.dt, m.shape);
    }
    Ok(())
}

// ---------------------------------------------------------------- hodu clean

fn clean(cx: &mut Cx) -> R {
    let w = World::new();
    let h = w.home.join(".hodu");
    let evil_abs = w.base.join("outside").to_string_lossy().to_string();
    let reg_present = cx.rng.chance(0.7);
    if reg_present {
        let mut reg = PluginRegistry::new();
        reg.upsert(entry("one", PluginType::Backend, PluginCapabilities::backend(true, true, vec!["cpu".into()], vec![]), true));
        w.plugin("one");
        if let Err(e) = reg.save(&w.registry()) {
            bail!("registry save", "{}", e);
        }
    }
    for b in ["one", "two", "hodu-backend-three-plugin", "one.two"] {
        if cx.rng.chance(0.7) {
            std::fs::create_dir_all(h.join("cache").join(b).join("deep")).expect("dir");
            std::fs::write(h.join("cache").join(b).join("lib.so"), "lib").expect("write");
            std::fs::write(h.join("cache").join(b).join("deep/x"), "lib").expect("write");
        }
    }
    for _ in 0..cx.rng.usize(1, 4) {
        let dry = cx.rng.chance(0.3);
        let names = ["one", "two", "three", "one.two", "none", "..", "../..", "../plugins", "../../docs", ".", "", "/", "one/..", "one/deep", "./one", "../cache", &evil_abs];
        let backend = match cx.rng.below(4) { 0 => None, 1 => Some(*cx.rng.pick(&names[..5])), _ => Some(*cx.rng.pick(&names)) };
        let all = cx.rng.chance(0.1) && backend.is_none();
        let mut args: Vec<String> = vec!["clean".into()];
        if let Some(b) = backend {
            args.push(format!("--backend={}", b));
        }
        if dry {
            args.push("--dry-run".into());
        }
        if all {
            args.push("--all".into());
        }
        cx.d(args.join(" ").replace(&*w.base.to_string_lossy(), "BASE"));
        let t0 = w.see();
        let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let d = w.hodu(&refs)?;
        let target: Option<PathBuf> = if dry {
            None
        } else if all {
            Some(h.clone())
        } else {
            match backend {
                None => Some(h.join("cache")),
                Some(b) if !plain(b) => None,
                Some(b) => {
                    let p = h.join("cache").join(b);
                    Some(if t0.contains_key(&p) { p } else { h.join("cache").join(format!("hodu-backend-{}-plugin", b)) })
                }
            }
        };
        let t1 = w.see();
        // creating its own directories and the marker of the first run is no damage
        let own = |p: &Path| p == w.home.join(".hodu") || p == w.home.join(".hodu/plugins") || p == w.home.join(".hodu/plugins/.setup_shown");
        for (p, what) in w.changes(&t0, &t1) {
            let inside = target.as_ref().is_some_and(|t| p.starts_with(t)) && what == "gone";
            check!(inside || (what == "new" && own(&p)), "a clean removes or changes something else", "{:?} {} ({})", p.strip_prefix(&w.root.0).unwrap_or(&p), what, d.cmd);
        }
        if let Some(b) = backend {
            if !plain(b) && d.code != 0 {
                fails(&d, "not a backend")?;
                continue;
            }
        }
        works(&d)?;
        if let Some(t) = &target {
            check!(!t1.keys().any(|p| p.starts_with(t) && !own(p)), "a clean leaves what it should remove", "{:?} ({})", t, d.cmd);
            cx.count("removed", 1);
        }
        if !h.exists() {
            break;
        }
        cx.count("cleans", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- hodu plugin

fn plugins(cx: &mut Cx) -> R {
    let w = World::new();
    let mut reg = PluginRegistry::new();
    let abs = w.base.join("outside").to_string_lossy().to_string();
    let names: Vec<String> = ["alpha", "hodu-backend-beta", "hodu-format-gamma", "delta", "../../docs", "beta"].iter().map(|s| s.to_string()).chain([abs]).collect();
    for (k, n) in names.iter().enumerate() {
        if (k >= 4 && cx.rng.chance(0.6)) || cx.rng.chance(0.15) {
            continue;
        }
        let (kind, caps) = match cx.rng.below(3) {
            0 => (PluginType::Backend, PluginCapabilities::backend(true, true, vec!["cpu".into()], vec![])),
            1 => (PluginType::ModelFormat, PluginCapabilities::model_format(true, true, vec!["onnx".into()])),
            _ => (PluginType::TensorFormat, PluginCapabilities::tensor_format(true, true, vec!["npx".into()])),
        };
        let mut e = entry(n, kind, caps, cx.rng.chance(0.8));
        for _ in 0..cx.rng.below(3) {
            if cx.rng.chance(0.4) {
                e.dependencies.push(cx.rng.pick(&["alpha", "hodu-backend-beta", "delta", "nobody"]).to_string());
            }
        }
        if plain(n) && cx.rng.chance(0.8) {
            w.plugin(n);
        }
        reg.upsert(e);
    }
    if reg.plugins.is_empty() {
        return Err(Fail::Skip);
    }
    if let Err(e) = reg.save(&w.registry()) {
        bail!("registry save", "{}", e);
    }
    w.behave(json!({}));
    cx.d(format!("{:?}", reg.plugins.iter().map(|p| (p.name.replace(&*w.base.to_string_lossy(), "BASE"), p.enabled, p.dependencies.clone())).collect::<Vec<_>>()));
    let mut model = reg.clone();
    let pdir = w.home.join(".hodu/plugins");
    for _ in 0..cx.rng.usize(2, 6) {
        let arg = cx.rng.pick(&["alpha", "beta", "gamma", "delta", "hodu-backend-beta", "hodu-format-gamma", "../../docs", "nobody", "", "..", names.last().expect("last").as_str()]).to_string();
        let what = *cx.rng.pick(&["enable", "disable", "remove", "list", "verify", "info", "doctor", "disable", "enable"]);
        let mut args = if what == "doctor" { vec!["doctor".to_string()] } else { vec!["plugin".to_string(), what.into()] };
        if !["list", "verify", "doctor"].contains(&what) {
            args.push(arg.clone());
        }
        cx.d(args.join(" ").replace(&*w.base.to_string_lossy(), "BASE"));
        let t0 = w.see();
        let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let d = w.hodu(&refs)?;
        let full = [arg.clone(), format!("hodu-backend-{}", arg), format!("hodu-format-{}", arg)].into_iter().find(|n| model.plugins.iter().any(|p| p.name == *n));
        let mut dir_gone: Option<PathBuf> = None;
        match (what, &full) {
            ("list", _) => {
                works(&d)?;
                for p in &model.plugins {
                    let want = format!("{} {}", if p.enabled { "●" } else { "○" }, p.name);
                    check!(d.out.contains(&want), "a plugin is missing from the list", "{:?} in {}", want, d.out);
                }
                check!(d.out.matches(['●', '○']).count() == model.plugins.len(), "a plugin too many in the list", "{}", d.out);
            }
            ("verify", _) => {
                works(&d)?;
                let bad: Vec<&str> = model
                    .plugins
                    .iter()
                    .filter(|p| !pdir.join(&p.name).join(&p.binary).exists() || (p.enabled && p.dependencies.iter().any(|x| !model.plugins.iter().any(|q| q.name == *x && q.enabled))))
                    .map(|p| p.name.as_str())
                    .collect();
                let want = if bad.is_empty() { format!("All {} plugins", model.plugins.len()) } else { format!("Verified {} plugins, {} with issues", model.plugins.len(), bad.len()) };
                check!(d.out.contains(&want), "verify finds something else", "{:?} instead of {:?}", d.out, want);
                for b in bad {
                    check!(d.out.contains(b), "verify finds something else", "{} not in {}", b, d.out);
                }
            }
            ("doctor", _) => {
                works(&d)?;
            }
            (_, None) => fails(&d, "no such plugin")?,
            ("info", Some(n)) => {
                let p = model.find(n).expect("found");
                if plain(n) {
                    let runs = pdir.join(n).join("bin").exists() && p.enabled;
                    if runs {
                        works(&d)?;
                        check!(d.out.contains(n.as_str()), "the information on a plugin", "{}", d.out);
                    } else {
                        fails(&d, "the plugin does not run")?;
                    }
                }
            }
            ("enable", Some(n)) => {
                works(&d)?;
                model.find_mut(n).expect("found").enabled = true;
            }
            ("disable", Some(n)) => {
                if model.plugins.iter().any(|p| p.enabled && p.dependencies.contains(n)) {
                    fails(&d, "others need it")?;
                } else {
                    works(&d)?;
                    model.find_mut(n).expect("found").enabled = false;
                }
            }
            (_, Some(n)) => {
                works(&d)?;
                model.plugins.retain(|p| p.name != *n);
                if plain(n) {
                    dir_gone = Some(pdir.join(n));
                    check!(!pdir.join(n).exists(), "a removed plugin stays", "{}", n);
                }
            }
        }
        let changes = w.changes(&t0, &w.see());
        for (p, c) in &changes {
            let ok = (*p == w.registry() && *c == "changed" && ["enable", "disable", "remove"].contains(&what) && full.is_some()) || dir_gone.as_ref().is_some_and(|g| p.starts_with(g) && *c == "gone");
            check!(ok, "a plugin command touches files of others", "{:?} {} ({})", p.strip_prefix(&w.root.0).unwrap_or(p), c, d.cmd);
        }
        let now = match PluginRegistry::load(&w.registry()) {
            Ok(r) => r,
            Err(e) => bail!("the registry is unreadable", "after {}: {}", d.cmd, e),
        };
        let show = |r: &PluginRegistry| serde_json::to_value(&r.plugins).unwrap_or(Value::Null);
        check!(show(&now) == show(&model), "the registry after a command", "after {}: {} instead of {}", d.cmd, trunc(&show(&now).to_string(), 500), trunc(&show(&model).to_string(), 500));
        cx.count(what, 1);
        if model.plugins.is_empty() {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- hodu plugin install (with a stand-in for cargo)

fn installs(cx: &mut Cx) -> R {
    use std::os::unix::fs::PermissionsExt;
    let w = World::new();
    let reg = PluginRegistry::new();
    if let Err(e) = reg.save(&w.registry()) {
        bail!("registry save", "{}", e);
    }
    // a cargo that only says whether the build worked
    let bin = w.root.join("cargo-bin");
    std::fs::create_dir_all(&bin).expect("dir");
    let script = |p: &Path, text: &str| {
        std::fs::write(p, text).expect("write");
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).expect("mode");
    };
    script(&bin.join("cargo"), "#!/bin/sh\ntest ! -e fail-build || { echo broken >&2; exit 101; }\nexit 0\n");
    let abs = w.base.join("outside/abs/plug").to_string_lossy().to_string();
    let mut model = reg.clone();
    let pdir = w.home.join(".hodu/plugins");
    w.behave(json!({}));
    for k in 0..cx.rng.usize(2, 5) {
        let r = &mut cx.rng;
        let src = w.work.join(format!("src{}", k));
        let debug = r.chance(0.5);
        let prof = if debug { "debug" } else { "release" };
        std::fs::create_dir_all(src.join("target").join(prof)).expect("dir");
        let package = r.pick(&["plug-a", "plug-b"]).to_string();
        let fault = if r.chance(0.3) { *r.pick(&["no cargo.toml", "no name", "build", "no binary", "bad manifest", "major", "minor", "no manifest"]) } else { "" };
        if fault != "no cargo.toml" {
            let q = *r.pick(&["[package]\nname = \"N\"\nversion = \"1\"\n", "# top\n[dependencies]\nname = \"no\"\n[package]\nedition='2021'\nname='N'\n", "[package]\n  name=\"N\"\n[lib]\nname = \"other\"\n"]);
            std::fs::write(src.join("Cargo.toml"), if fault == "no name" { "[package]\nversion = \"1\"\n".to_string() } else { q.replace('N', &package) }).expect("write");
        }
        if fault == "build" {
            std::fs::write(src.join("fail-build"), "").expect("write");
        }
        // without a manifest nothing says what the plugin is
        let with_manifest = fault != "no manifest";
        let q = |s: &str| format!("'{}'", s.replace('\'', "'\\''"));
        if fault != "no binary" {
            script(&src.join("target").join(prof).join(&package), &format!("#!/bin/sh\nexec {} cliplugin {} {} 2>/dev/null\n", q(&me().to_string_lossy()), q(&w.be.to_string_lossy()), q(&package)));
        }
        let name = if r.chance(0.5) { r.pick(&["plug-a", "other", "third.one"]).to_string() } else { r.pick(&["../../evil", "..", "/x", "", ".", "a/b", "./a", &abs, "plug-b"]).to_string() };
        let version = format!("{}.{}", r.below(3), r.below(3));
        let host: Vec<u32> = hodu_plugin::PLUGIN_VERSION.split('.').filter_map(|s| s.parse().ok()).collect();
        let pv = match fault { "major" => format!("{}.0.0", host[0] + 1), "minor" => format!("{}.{}.0", host[0], host[1] + 1), _ => hodu_plugin::PLUGIN_VERSION.to_string() };
        let (caps, kind): (Vec<&str>, PluginType) = match r.below(3) {
            0 => (vec!["backend.run", "backend.build"], PluginType::Backend),
            1 => (vec!["format.load_model"], PluginType::ModelFormat),
            _ => (vec!["format.load_tensor", "format.save_tensor"], PluginType::TensorFormat),
        };
        if with_manifest {
            let deps = if r.chance(0.3) { vec!["nobody"] } else { vec![] };
            let m = json!({"name": name, "version": version, "plugin_version": pv, "capabilities": caps, "devices": ["cpu"], "extensions": ["zz"], "description": "d", "license": "l", "dependencies": deps});
            std::fs::write(src.join("manifest.json"), if fault == "bad manifest" { "{".to_string() } else { m.to_string() }).expect("write");
        }
        let force = r.chance(0.4);
        let path = src.to_string_lossy().to_string();
        let mut args = vec!["plugin", "install", "--path", &path];
        if force {
            args.push("--force");
        }
        if debug {
            args.push("--debug");
        }
        cx.d(format!("{} as {:?} {} fault {:?} force {} manifest {}", package, name.replace(&*w.base.to_string_lossy(), "BASE"), kind_name(&kind), fault, force, with_manifest));
        let installed = model.find(&name).is_some();
        let t0 = w.see();
        let old = std::env::var_os("PATH").unwrap_or_default();
        std::env::set_var("PATH", std::env::join_paths([bin.clone()].into_iter().chain(std::env::split_paths(&old))).expect("path"));
        let d = w.hodu(&args);
        std::env::set_var("PATH", old);
        let d = d?;
        let changes = w.changes(&t0, &w.see());
        let now = match PluginRegistry::load(&w.registry()) {
            Ok(r) => r,
            Err(e) => bail!("the registry is unreadable", "after {}: {}", d.cmd, e),
        };
        let show = |r: &PluginRegistry| serde_json::to_value(&r.plugins).unwrap_or(Value::Null);
        if !fault.is_empty() || (installed && !force) || (!plain(&name) && d.code != 0) {
            fails(&d, fault)?;
            check!(show(&now) == show(&model), "a failed installation changes the registry", "{} {}", d.cmd, fault);
            for (p, c) in changes {
                bail!("a failed installation touches files", "{:?} {} ({} {})", p.strip_prefix(&w.root.0).unwrap_or(&p), c, d.cmd, fault);
            }
            cx.count("refused", 1);
            continue;
        }
        for (p, c) in &changes {
            // a name that is not a directory name is refused (above) or kept inside the plugins directory
            let ok = *p == w.registry() || (p.starts_with(&pdir) && *p != pdir && !p.components().any(|c| c == Component::ParentDir));
            check!(ok, "an installation touches files of others", "{:?} {} ({})", p.strip_prefix(&w.root.0).unwrap_or(p), c, d.cmd);
        }
        works(&d)?;
        if !plain(&name) {
            model = now;
            continue;
        }
        let Some(e) = now.find(&name) else { bail!("an installed plugin is not registered", "{}", d.cmd) };
        let b = pdir.join(&name).join(&e.binary);
        check!(std::fs::read(&b).ok().is_some() && std::fs::read(&b).ok() == std::fs::read(src.join("target").join(prof).join(&package)).ok(), "the installed binary", "{:?}", b);
        check!(std::fs::metadata(&b).map(|m| m.permissions().mode() & 0o111 == 0o111).unwrap_or(false), "the installed binary is not executable", "{:?}", b);
        check!(e.enabled, "an installed plugin is disabled", "{:?}", e);
        if with_manifest {
            check!(e.version == version && e.plugin_type == kind && e.plugin_version == pv && e.description.as_deref() == Some("d"), "the entry of an installed plugin", "{:?}", e);
            check!(std::fs::read(pdir.join(&name).join("manifest.json")).ok() == std::fs::read(src.join("manifest.json")).ok(), "the installed manifest", "{}", name);
            let c = &e.capabilities;
            let t = |o: Option<bool>| o.unwrap_or(false);
            let fine = match kind {
                PluginType::Backend => t(c.runner) && t(c.builder) && c.devices == ["cpu"],
                PluginType::ModelFormat => t(c.load_model) && !t(c.save_model) && c.model_extensions == ["zz"],
                _ => t(c.load_tensor) && t(c.save_tensor) && c.tensor_extensions == ["zz"],
            };
            check!(fine, "the capabilities of an installed plugin", "{:?} for {:?}", c, caps);
        }
        let rest = |r: &PluginRegistry| serde_json::to_value(r.plugins.iter().filter(|p| p.name != name).collect::<Vec<_>>()).unwrap_or(Value::Null);
        check!(rest(&now) == rest(&model) && now.plugins.iter().filter(|p| p.name == name).count() == 1, "an installation changes other plugins", "{}", d.cmd);
        model = now;
        cx.count("installed", 1);
    }
    Ok(())
}
fn kind_name(k: &PluginType) -> String {
    format!("{:?}", k)
}

// ---------------------------------------------------------------- hodu build

fn build(cx: &mut Cx) -> R {
    let w = World::new();
    let mut reg = PluginRegistry::new();
    let caps = |b: bool, devs: &[&str]| PluginCapabilities::backend(true, b, devs.iter().map(|s| s.to_string()).collect(), vec![]);
    reg.upsert(entry("off", PluginType::Backend, caps(true, &["cpu"]), false));
    reg.upsert(entry("runs", PluginType::Backend, caps(false, &["cpu", "weird"]), true));
    reg.upsert(entry("aot-one", PluginType::Backend, caps(true, &["cpu", "CUDA::0"]), true));
    reg.upsert(entry("two", PluginType::Backend, caps(true, &["cpu", "metal"]), true));
    reg.upsert(entry("conv", PluginType::ModelFormat, PluginCapabilities::model_format(true, true, vec!["onnx".into()]), true));
    for p in ["off", "runs", "aot-one", "two", "conv"] {
        w.plugin(p);
    }
    if let Err(e) = reg.save(&w.registry()) {
        bail!("registry save", "{}", e);
    }
    let snap = some_model(&mut cx.rng, 0);
    let bytes = snap.to_bytes().map_err(|e| Fail::Bad("snapshot".into(), e.to_string()))?;
    std::fs::write(w.work.join("m.hdss"), &bytes).expect("write");
    std::fs::write(w.work.join("M.HDSS"), &bytes).expect("write");
    std::fs::write(w.work.join("m.onnx"), [b"ONNX", &bytes[..]].concat()).expect("write");
    std::fs::write(w.work.join("bad.hdss"), "ff").expect("write");
    for k in 0..cx.rng.usize(1, 3) {
        let r = &mut cx.rng;
        let (file, ok) = if r.chance(0.15) { (*r.pick(&["bad.hdss", "absent.hdss", "keep", "m.xyz"]), false) } else { (*r.pick(&["m.hdss", "M.HDSS", "m.onnx"]), true) };
        let dev = *r.pick(&["cpu", "CPU", "cuda::0", "Metal", "weird", "none"]);
        let (bname, chosen) = *r.pick(&[(None, None), (None, None), (Some("one"), Some("aot-one")), (Some("two"), Some("two")), (Some("runs"), None), (Some("off"), None), (Some("nobody"), None), (Some("conv"), None)]);
        let auto = match dev { "cpu" | "CPU" | "cuda::0" => Some("aot-one"), "Metal" => Some("two"), _ => None };
        let who = if bname.is_some() { chosen } else { auto };
        let (out, f1) = *r.pick(&[("o.so", "sharedlib"), ("o.a", "staticlib"), ("o.o", "object"), ("o", "executable"), ("o.exe", "executable"), ("o.ptx", "ptx"), ("o.ll", "llvmir"), ("o.metallib", "metallib"), ("o.dylib", "sharedlib")]);
        let (farg, f2) = *r.pick(&[(None, None), (None, None), (Some("object"), Some("object")), (Some("StaticLib"), Some("staticlib"))]);
        let triple = if r.chance(0.3) { Some("riscv64gc-unknown-none-elf") } else { None };
        let how = if r.chance(0.8) { "ok" } else { *r.pick(&["error", "crash"]) };
        let outp = w.work.join(format!("k{}", k));
        std::fs::create_dir_all(&outp).expect("dir");
        let outp = outp.join(out);
        let mut args: Vec<String> = vec!["build".into(), file.into(), "-o".into(), outp.to_string_lossy().into(), "--device".into(), dev.into()];
        if let Some(b) = bname { args.push(format!("--backend={}", b)) }
        if let Some(f) = farg { args.push(format!("--format={}", f)) }
        if let Some(t) = triple { args.push(format!("--target={}", t)) }
        cx.d(format!("{} {} {}", args.join(" ").replace(&*w.base.to_string_lossy(), "BASE"), how, ok));
        w.behave(json!({"build": how, "version": 1}));
        let before = w.log().len();
        let t0 = w.see();
        let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let d = w.hodu(&refs)?;
        for (p, what) in w.changes(&t0, &w.see()) {
            check!(p == outp && what == "new", "a build touches files of others", "{:?} {} ({})", p, what, d.cmd);
        }
        let log: Vec<Value> = w.log()[before..].to_vec();
        let builds: Vec<&Value> = log.iter().filter(|v| v["e"] == "build").collect();
        let Some(who) = who.filter(|_| ok) else {
            // a disabled backend that is named is refused only when it is started
            fails(&d, "the model or the backend is unusable")?;
            check!(builds.is_empty(), "a build with unusable arguments reaches a backend", "{}", d.cmd);
            cx.count("refused", 1);
            continue;
        };
        check!(builds.len() == 1, "a build does not reach the backend once", "{} times: {} {}", builds.len(), d.cmd, d.err);
        let b = builds[0];
        let want_target = triple.map(|s| s.to_string()).unwrap_or_else(|| hodu_plugin::current_host_triple().to_string());
        check!(b["who"] == json!(who) && b["device"] == json!(dev.to_lowercase()) && b["target"] == json!(want_target) && b["format"] == json!(f2.unwrap_or(f1)) && b["output"] == json!(outp.to_string_lossy())
            && b["snapshot"] == json!(content(w.work.join("m.hdss"))), "a build of something else", "{} asked {}", d.cmd, b);
        if how != "ok" {
            fails(&d, "the build fails")?;
        } else {
            works(&d)?;
            cx.count("built", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the library's own loading and saving

fn tensors(cx: &mut Cx) -> R {
    use hodu_cli::tensor::{load_tensor_file, save_outputs};
    let w = Scratch::new();
    let text = cx.rng.chance(0.5);
    let m = some_tensor(&mut cx.rng, text);
    let ext = if text { *cx.rng.pick(&["json", "JSON", "Json"]) } else { *cx.rng.pick(&["hdt", "HDT"]) };
    let p = w.join(&format!("t.{}", ext));
    store(&m, &p, text)?;
    let same_data = |d: &hodu_plugin::TensorData| -> R {
        check!(d.shape == m.shape && d.dtype == pd(m.dt), "a loaded tensor differs", "{:?} {:?}", d.shape, d.dtype);
        let t = hodu_core::tensor::Tensor::from_bytes(&d.data, Shape::new(&d.shape), m.dt, hodu_core::types::Device::CPU);
        let t = match t {
            Ok(t) => t,
            Err(e) => bail!("a loaded tensor differs", "{}", e),
        };
        if !m.data.is_empty() {
            let g = read(&t).map_err(|e| Fail::Bad("a loaded tensor differs".into(), e))?;
            check!(g.data.iter().zip(&m.data).all(|(a, b)| same(*a, *b)), "a loaded tensor differs", "{} instead of {}", g.show(), m.show());
        }
        Ok(())
    };
    cx.d(format!("{} {}", ext, m.show()));
    match cx.rng.below(4) {
        0 => {
            let mut s = m.shape.clone();
            if s.is_empty() { s.push(1) } else { let k = cx.rng.below(s.len()); s[k] += 1 }
            check!(load_tensor_file(&p, &s, pd(m.dt)).is_err(), "a tensor of another shape is accepted", "{:?} for {:?}", m.shape, s);
        }
        1 => {
            let dt = *cx.rng.pick(ALL);
            if dt != m.dt {
                check!(load_tensor_file(&p, &m.shape, pd(dt)).is_err(), "a tensor of another type is accepted", "{:?} for {:?}", m.dt, dt);
            }
        }
        2 => {
            let mut b = std::fs::read(&p).expect("read");
            let how = mutate(&mut cx.rng, &mut b);
            std::fs::write(&p, b).expect("write");
            cx.d(how);
            if let Ok(d) = load_tensor_file(&p, &m.shape, pd(m.dt)) {
                check!(d.shape == m.shape && d.dtype == pd(m.dt) && d.data.len() == numel(&m.shape) * m.dt.size_in_bytes(), "an ill-formed tensor is accepted", "{:?} {:?} {} bytes", d.shape, d.dtype, d.data.len());
                // and it is what the file says, as read by the library itself
                let t = if text { tjson::load(&p) } else { hdt::load(&p) };
                check!(t.ok().and_then(|t| t.to_bytes().ok()) == Some(d.data.clone()), "a tensor file is read differently", "{}", m.show());
            }
        }
        _ => {
            let d = match load_tensor_file(&p, &m.shape, pd(m.dt)) {
                Ok(d) => d,
                Err(e) => bail!("a tensor file is refused", "{}", e),
            };
            same_data(&d)?;
            // and out again
            let fmt = *cx.rng.pick(&["hdt", "json", "HDT", "JSON"]);
            let to_text = fmt.to_lowercase() == "json";
            if to_text && m.dt == DType::F64 {
                return Ok(());
            }
            let name = cx.rng.pick(&["y", "ключ", "a b", "x.y", "../up", "sub/x"]).to_string();
            let dir = w.join("in/save");
            std::fs::create_dir_all(w.join("in")).expect("dir");
            let r = save_outputs(&HashMap::from([(name.clone(), d)]), &dir, fmt).is_ok();
            cx.d(format!("{} {}", name, fmt));
            let mut t = Tree::new();
            tree(&w.0, &mut t);
            for q in t.keys() {
                check!(*q == p || q.starts_with(&dir) || dir.starts_with(q), "an output is saved outside its directory", "{:?}", q);
            }
            if plain(&name) {
                check!(r, "an output is not saved", "{}", name);
                equals("a saved output differs", &dir.join(format!("{}.{}", name, fmt.to_lowercase())), to_text, &m)?;
            }
        }
    }
    cx.count("tensors", 1);
    Ok(())
}

pub const GROUPS: &[Family] = &[
    fam("run", 100, 3000, run),
    fam("convert", 100, 3000, convert),
    fam("inspect", 150, 4000, inspect),
    fam("clean", 80, 2000, clean),
    fam("plugins", 80, 2000, plugins),
    fam("installs", 60, 1500, installs),
    fam("build", 80, 2000, build),
    fam("tensors", 600, 20000, tensors),
];
