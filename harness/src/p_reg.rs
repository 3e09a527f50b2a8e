//! X03: the plugin registry keeps and finds exactly what was registered, and a failed or interrupted save keeps the old one.
use crate::cx::*;
use crate::p_file::Scratch;
use crate::p_plug::me;
use crate::rng::Rng;
use crate::{bail, check};
use hodu_plugin_runtime::{detect_plugin_type, DetectedPluginType, PluginCapabilities, PluginDetectError, PluginEntry, PluginRegistry, PluginSource, PluginType};
use serde_json::{json, Value};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::Duration;

fn word(r: &mut Rng) -> String {
    match r.below(14) {
        0 => String::new(),
        1 => "a\"b\\c\n\t\u{1}".into(),
        2 => "é😀ключ".into(),
        3 => "../x/../y".into(),
        4 => "w".repeat(r.usize(50, 3000)),
        _ => format!("{}-{}", r.pick(&["backend", "format", "x", "Hodu"]), r.below(30)),
    }
}
fn opt<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Option<T> {
    if r.chance(0.5) {
        Some(f(r))
    } else {
        None
    }
}
fn list(r: &mut Rng, f: impl Fn(&mut Rng) -> String) -> Vec<String> {
    (0..r.usize(0, 3)).map(|_| f(r)).collect()
}
fn device(r: &mut Rng) -> String {
    r.pick(&["cpu", "CPU", "Cpu", "metal", "cuda::0", "CUDA::0", "cuda::1", "cuda", "", "Ünit", "ünit"]).to_string()
}
fn ext(r: &mut Rng) -> String {
    r.pick(&["onnx", ".onnx", "ONNX", ".Onnx", "npy", ".npy", "tar.gz", "..x", "x", "", "."]).to_string()
}
const NAMES: &[&str] = &["a", "b", "c", "A", "a ", "", "hodu-backend-cpu", "é"];

pub fn some_entry(r: &mut Rng) -> PluginEntry {
    let b = |r: &mut Rng| r.chance(0.5);
    PluginEntry {
        name: r.pick(NAMES).to_string(),
        version: word(r),
        description: opt(r, word),
        license: opt(r, word),
        plugin_type: *r.pick(&[PluginType::Backend, PluginType::ModelFormat, PluginType::TensorFormat]),
        capabilities: PluginCapabilities {
            runner: opt(r, b),
            builder: opt(r, b),
            devices: list(r, device),
            targets: list(r, word),
            load_model: opt(r, b),
            save_model: opt(r, b),
            load_tensor: opt(r, b),
            save_tensor: opt(r, b),
            model_extensions: list(r, ext),
            tensor_extensions: list(r, ext),
        },
        binary: word(r),
        source: match r.below(3) {
            0 => PluginSource::CratesIo,
            1 => PluginSource::Git { url: word(r), tag: opt(r, word), subdir: opt(r, word) },
            _ => PluginSource::Local { path: word(r) },
        },
        installed_at: word(r),
        plugin_version: word(r),
        enabled: r.chance(0.7),
        dependencies: list(r, |r| r.pick(NAMES).to_string()),
    }
}
fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x)
}
fn names<'a>(it: impl Iterator<Item = &'a PluginEntry>) -> Vec<String> {
    it.map(|p| dbg(p)).collect()
}

/// every lookup agrees with the model
fn agrees(cx: &mut Cx, reg: &PluginRegistry, m: &[PluginEntry]) -> R {
    check!(dbg(&reg.plugins) == dbg(&m), "the registry does not hold what was registered", "{} expected {}", trunc(&dbg(&reg.plugins), 500), trunc(&dbg(&m), 500));
    for n in NAMES.iter().chain(&["zz"]) {
        check!(reg.find(n).map(dbg) == m.iter().find(|p| p.name == *n).map(dbg), "find", "{:?}", n);
        let want = match m.iter().find(|p| p.name == *n) {
            None => None,
            Some(p) => {
                let miss: Vec<String> = p.dependencies.iter().filter(|d| !m.iter().any(|q| q.name == **d && q.enabled)).cloned().collect();
                if miss.is_empty() { None } else { Some(miss) }
            }
        };
        check!(reg.check_dependencies(n).err() == want, "missing dependencies", "{:?}: {:?} expected {:?}", n, reg.check_dependencies(n), want);
    }
    let of = |k: PluginType, on: bool| -> Vec<String> { m.iter().filter(|p| p.plugin_type == k && (!on || p.enabled)).map(dbg).collect() };
    check!(names(reg.all_backends()) == of(PluginType::Backend, false) && names(reg.backends()) == of(PluginType::Backend, true), "backends", "");
    check!(names(reg.all_model_formats()) == of(PluginType::ModelFormat, false) && names(reg.model_formats()) == of(PluginType::ModelFormat, true), "model formats", "");
    check!(names(reg.all_tensor_formats()) == of(PluginType::TensorFormat, false) && names(reg.tensor_formats()) == of(PluginType::TensorFormat, true), "tensor formats", "");
    for _ in 0..4 {
        let d = device(&mut cx.rng);
        let w = m.iter().find(|p| p.plugin_type == PluginType::Backend && p.enabled && p.capabilities.devices.iter().any(|x| x.to_lowercase() == d.to_lowercase()));
        check!(reg.find_backend_by_device(&d).map(dbg) == w.map(dbg), "the backend of a device", "{:?}: {:?} expected {:?}", d, reg.find_backend_by_device(&d).map(|p| &p.name), w.map(|p| &p.name));
        let e = ext(&mut cx.rng);
        let norm = |s: &str| s.trim_start_matches('.').to_lowercase();
        let w = m.iter().find(|p| p.plugin_type == PluginType::ModelFormat && p.enabled && p.capabilities.model_extensions.iter().any(|x| norm(x) == norm(&e)));
        check!(reg.find_model_format_by_extension(&e).map(dbg) == w.map(dbg), "the model format of an extension", "{:?}", e);
        let w = m.iter().find(|p| p.plugin_type == PluginType::TensorFormat && p.enabled && p.capabilities.tensor_extensions.iter().any(|x| norm(x) == norm(&e)));
        check!(reg.find_tensor_format_by_extension(&e).map(dbg) == w.map(dbg), "the tensor format of an extension", "{:?}", e);
    }
    cx.count("comparisons", 1);
    Ok(())
}

fn histories(cx: &mut Cx) -> R {
    let dir = Scratch::new();
    let depth = cx.rng.usize(0, 2);
    let path = (0..depth).fold(dir.0.clone(), |p, i| p.join(format!("d{}", i))).join("plugins.json");
    let mut reg = PluginRegistry::new();
    let mut m: Vec<PluginEntry> = vec![];
    let mut saved: Option<Vec<PluginEntry>> = None;
    check!(reg.version == PluginRegistry::CURRENT_VERSION && reg.plugins.is_empty(), "a new registry", "{:?}", reg);
    let n = cx.rng.usize(2, 30);
    let mut ops = vec![];
    for _ in 0..n {
        let name = cx.rng.pick(NAMES).to_string();
        match cx.rng.below(12) {
            0..=4 => {
                let e = some_entry(&mut cx.rng);
                ops.push(format!("upsert {:?} {:?}", e.name, e.enabled));
                match m.iter_mut().find(|p| p.name == e.name) {
                    Some(p) => *p = e.clone(),
                    None => m.push(e.clone()),
                }
                reg.upsert(e);
            }
            5 => {
                ops.push(format!("enable {:?}", name));
                let w = m.iter_mut().find(|p| p.name == name).map(|p| p.enabled = true).is_some();
                check!(reg.enable(&name) == w, "enable", "{:?}", name);
            }
            6 => {
                ops.push(format!("disable {:?}", name));
                let w = m.iter_mut().find(|p| p.name == name).map(|p| p.enabled = false).is_some();
                check!(reg.disable(&name) == w, "disable", "{:?}", name);
            }
            7 => {
                ops.push(format!("remove {:?}", name));
                let w = m.iter().position(|p| p.name == name).map(|i| m.remove(i));
                check!(reg.remove(&name).map(|e| dbg(&e)) == w.map(|e| dbg(&e)), "remove", "{:?}", name);
            }
            8..=9 => {
                ops.push("save".into());
                if let Err(e) = reg.save(&path) {
                    bail!("a registry cannot be saved", "{}", e);
                }
                saved = Some(m.clone());
                let left: Vec<_> = std::fs::read_dir(path.parent().unwrap()).expect("dir").flatten().map(|e| e.file_name()).filter(|f| f != "plugins.json" && f != "d0" && f != "d1").collect();
                check!(left.is_empty(), "a save leaves files behind", "{:?}", left);
            }
            _ => {
                ops.push("load".into());
                match PluginRegistry::load(&path) {
                    Ok(x) => {
                        check!(x.version == PluginRegistry::CURRENT_VERSION, "the version of a loaded registry", "{}", x.version);
                        m = saved.clone().unwrap_or_default();
                        reg = x;
                    }
                    Err(e) => bail!("a saved registry does not load", "{}", e),
                }
            }
        }
        cx.desc = ops.join("; ");
        agrees(cx, &reg, &m)?;
    }
    Ok(())
}

/// files that are not what was saved: an error or a registry, never a panic
fn corrupt(cx: &mut Cx) -> R {
    let dir = Scratch::new();
    let path = dir.join("plugins.json");
    let mut reg = PluginRegistry::new();
    for _ in 0..cx.rng.usize(0, 3) {
        reg.upsert(some_entry(&mut cx.rng));
    }
    reg.save(&path).map_err(|e| Fail::Bad("a registry cannot be saved".into(), e.to_string()))?;
    let mut b = std::fs::read(&path).expect("read");
    let r = &mut cx.rng;
    let valid: Value = serde_json::from_slice(&b).expect("json");
    // what the file must contain to be a registry
    let must = match r.below(8) {
        0 => {
            let at = r.usize(0, b.len() - 1);
            b.truncate(at);
            Some(at == 0 || serde_json::from_slice::<Value>(&b).is_err())
        }
        1 => {
            b = vec![0xff, 0xfe];
            Some(true)
        }
        2 => {
            b = ["", "null", "[]", "{}", "{\"version\":1}", "{\"plugins\":[]}", "{\"version\":-1,\"plugins\":[]}", "{\"version\":1,\"plugins\":{}}"][r.below(8)].into();
            Some(true)
        }
        3 => {
            // a required field is missing, or of another type
            let mut v = valid.clone();
            let n = v["plugins"].as_array().map(|a| a.len()).unwrap_or(0);
            if n == 0 {
                return Err(Fail::Skip);
            }
            let i = r.below(n);
            let k = *r.pick(&["name", "version", "type", "capabilities", "binary", "source", "installed_at", "plugin_version"]);
            if r.chance(0.5) {
                v["plugins"][i].as_object_mut().unwrap().remove(k);
            } else {
                v["plugins"][i][k] = json!(17);
            }
            b = v.to_string().into_bytes();
            Some(true)
        }
        4 => {
            // optional fields may be missing, unknown ones present
            let mut v = valid.clone();
            for p in v["plugins"].as_array_mut().into_iter().flatten() {
                p["unknown"] = json!({"x": 1});
                p["enabled"] = json!(true);
                if r.chance(0.5) {
                    p.as_object_mut().unwrap().remove("enabled");
                }
            }
            b = v.to_string().into_bytes();
            Some(false)
        }
        5 => {
            b.extend(b" x");
            Some(true)
        }
        _ => {
            for _ in 0..r.usize(1, 4) {
                let at = r.usize(0, b.len() - 1);
                match r.below(3) {
                    0 => b[at] = r.below(256) as u8,
                    1 => {
                        b.remove(at);
                        if b.is_empty() {
                            b.push(b'x');
                        }
                    }
                    _ => b.insert(at, *r.pick(b"\"{}[],:0e\\")),
                }
            }
            None
        }
    };
    std::fs::write(&path, &b).expect("write");
    cx.d(trunc(&String::from_utf8_lossy(&b), 700));
    match (PluginRegistry::load(&path), must) {
        (Ok(x), Some(true)) => bail!("a damaged registry is loaded", "{}", trunc(&dbg(&x), 300)),
        (Err(e), Some(false)) => bail!("a registry with extra or omitted optional fields is refused", "{}", e),
        (Ok(x), m) => {
            if m == Some(false) {
                let w: Vec<PluginEntry> = reg.plugins.iter().cloned().map(|mut p| { p.enabled = true; p }).collect();
                check!(dbg(&x.plugins) == dbg(&w), "a registry with extra or omitted optional fields is read differently", "");
            }
            // whatever was read saves and loads the same
            let p2 = dir.join("again.json");
            check!(x.save(&p2).is_ok(), "a loaded registry cannot be saved", "");
            check!(PluginRegistry::load(&p2).map(|y| dbg(&y)).ok() == Some(dbg(&x)), "a loaded registry changes when saved", "");
        }
        (Err(_), _) => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- interrupted saves

/// `hv regsave PATH SEED WHICH LIMIT MODE`: saves registry A or B once under a file size limit (the signal kills, or is
/// ignored so that the write fails), or alternates between them for ever.
pub fn save_main(a: &[String]) -> ! {
    let path = Path::new(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let (x, y) = pair(seed);
    let limit: u64 = a[3].parse().unwrap();
    unsafe {
        let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
        match a[4].as_str() {
            "kill" => {
                libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
            }
            "fail" => {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            _ => loop {
                let _ = y.save(path);
                let _ = x.save(path);
            },
        }
    }
    let r = if a[2] == "0" { x.save(path) } else { y.save(path) };
    std::process::exit(if r.is_ok() { 0 } else { 7 })
}
fn pair(seed: u64) -> (PluginRegistry, PluginRegistry) {
    let mut r = Rng::new(seed);
    let mut one = || {
        let mut g = PluginRegistry::new();
        for _ in 0..r.usize(0, 6) {
            g.upsert(some_entry(&mut r));
        }
        g
    };
    (one(), one())
}
fn interrupted(cx: &mut Cx) -> R {
    let dir = Scratch::new();
    let path = dir.join("plugins.json");
    let seed = cx.rng.u64();
    let (a, b) = pair(seed);
    let (da, db) = (dbg(&a), dbg(&b));
    let existed = cx.rng.chance(0.8);
    if existed {
        a.save(&path).map_err(|e| Fail::Bad("a registry cannot be saved".into(), e.to_string()))?;
    }
    let old = if existed { da.clone() } else { dbg(&PluginRegistry::new()) };
    let mode = *cx.rng.pick(&["kill", "fail", "loop"]);
    let size = serde_json::to_string_pretty(&b).expect("json").len() as u64;
    let limit = match cx.rng.below(5) {
        0 => 0,
        1 => size + 10,
        2 => size.saturating_sub(1),
        _ => cx.rng.u64() % (size + 1),
    };
    cx.d(format!("{} existed {} limit {} of {} seed {}", mode, existed, limit, size, seed));
    let mut c = Command::new(me())
        .args(["regsave", &path.to_string_lossy(), &seed.to_string(), "1", &limit.to_string(), mode])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    if mode == "loop" {
        // other processes load meanwhile, then the writer is killed
        let reads = cx.rng.usize(0, 60);
        for _ in 0..reads {
            match PluginRegistry::load(&path) {
                Ok(x) => {
                    let d = dbg(&x);
                    if d != da && d != db && d != old {
                        let _ = c.kill();
                        let _ = c.wait();
                        bail!("a registry loaded during a save is neither the old nor the new one", "{}", trunc(&d, 300));
                    }
                }
                Err(e) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    bail!("a registry cannot be loaded during a save", "{}", e)
                }
            }
        }
        std::thread::sleep(Duration::from_micros(cx.rng.u64() % 8000));
        let _ = c.kill();
        cx.count("loads during saves", reads as u64);
    }
    let st = c.wait().expect("wait");
    let got = match PluginRegistry::load(&path) {
        Ok(x) => dbg(&x),
        Err(e) => bail!("an interrupted save destroys the registry", "{} ({:?})", e, st),
    };
    match (mode, st.code()) {
        ("loop", _) => check!(got == da || got == db || got == old, "an interrupted save leaves neither the old nor the new registry", "{}", trunc(&got, 300)),
        (_, Some(0)) => check!(got == db, "a save that succeeded is not there", "{}", trunc(&got, 300)),
        (_, Some(7)) => {
            check!(got == old, "a failed save changes the registry", "{}", trunc(&got, 300));
            cx.count("failed saves", 1);
        }
        _ => {
            check!(got == old || got == db, "an interrupted save leaves neither the old nor the new registry", "{}", trunc(&got, 300));
            cx.count("killed saves", 1);
        }
    }
    check!(limit > size || mode == "loop" || st.code() != Some(0) || limit == size, "a save that cannot be written succeeds", "");
    // and a later save works
    check!(a.save(&path).is_ok() && PluginRegistry::load(&path).map(|x| dbg(&x)).ok() == Some(da), "a save after an interrupted one", "");
    Ok(())
}

/// what kind of plugin a manifest describes
fn detect(cx: &mut Cx) -> R {
    let dir = Scratch::new();
    let r = &mut cx.rng;
    let caps = ["backend.run", "backend.build", "backend.", "backend", "format.load_model", "format.save_model", "format.load_tensor", "format.save_tensor", "format.x", "other"];
    let c: Vec<&str> = (0..r.usize(0, 3)).map(|_| *r.pick(&caps)).collect();
    let mut m = json!({"name": word(r), "version": word(r), "plugin_version": word(r), "capabilities": c});
    for k in ["name", "version", "plugin_version"] {
        if r.chance(0.15) {
            m.as_object_mut().unwrap().remove(k);
        }
    }
    let bin = dir.join("bin");
    let how = r.below(10);
    match how {
        0 => {}
        1 => std::fs::write(dir.join("manifest.json"), "{ not json").expect("write"),
        2 => std::fs::write(dir.join("manifest.json"), [0xff, 0xfe]).expect("write"),
        _ => std::fs::write(dir.join("manifest.json"), m.to_string()).expect("write"),
    }
    cx.d(format!("{} {}", how, m));
    let s = |k: &str, d: &str| m[k].as_str().unwrap_or(d).to_string();
    let (name, version, plugin_version) = (s("name", "unknown"), s("version", "0.0.0"), s("plugin_version", "0.1.0"));
    match (detect_plugin_type(&bin), how) {
        (Err(PluginDetectError::NotAPlugin), 0) | (Err(PluginDetectError::ParseError(_)), 1) | (Err(PluginDetectError::IoError(_)), 2) => {}
        (Ok(t), 3..) => {
            let has = |f: &dyn Fn(&str) -> bool| c.iter().any(|x| f(x));
            let w = if has(&|x| x.starts_with("backend.")) {
                DetectedPluginType::Backend { name, version, plugin_version }
            } else if has(&|x| x == "format.load_model" || x == "format.save_model") {
                DetectedPluginType::ModelFormat { name, version, plugin_version }
            } else if has(&|x| x == "format.load_tensor" || x == "format.save_tensor") {
                DetectedPluginType::TensorFormat { name, version, plugin_version }
            } else {
                return Ok(()); // nothing is promised
            };
            check!(dbg(&t) == dbg(&w), "the kind of a plugin", "{:?} expected {:?}", t, w);
        }
        (r, _) => bail!("the kind of a plugin that has none", "{:?}", r),
    }
    Ok(())
}

pub const GROUPS: &[Family] = &[
    fam("histories", 400, 20000, histories),
    fam("corrupt", 500, 20000, corrupt),
    fam("interrupted", 400, 12000, interrupted),
    fam("detect", 200, 6000, detect),
];
