//! X06: a backend's manifest, the host and the installed tools decide what can be built.
use crate::cx::*;
use crate::p_file::Scratch;
use crate::rng::Rng;
use crate::{bail, check};
use hodu_plugin_sdk::{check_build_capability, current_host_triple, host_matches_pattern, is_tool_available, BuildCapability, CompiledArtifact, PluginDType, PluginManifest, SupportedTarget};
use serde_json::{json, Value};
use std::os::unix::fs::PermissionsExt;

const TRIPLES: &[&str] = &["x86_64-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-apple-darwin", "x86_64-pc-windows-msvc", "wasm32", "", "x86_64-unknown-linux", "linux-gnu", "X86_64-unknown-linux-gnu"];
const TOOLS: &[&str] = &["good", "old", "broken", "absent", "noexec", "picky", "good2", "dies", "has space"];

/// literal, except for one star at the start or the end
fn admits(host: &str, pat: &str) -> bool {
    let (h, p): (Vec<char>, Vec<char>) = (host.chars().collect(), pat.chars().collect());
    if p.first() == Some(&'*') {
        let rest = &p[1..];
        h.len() >= rest.len() && h[h.len() - rest.len()..] == *rest
    } else if p.last() == Some(&'*') {
        let rest = &p[..p.len() - 1];
        h.len() >= rest.len() && h[..rest.len()] == *rest
    } else {
        h == p
    }
}

fn pattern(r: &mut Rng, host: &str) -> String {
    let base = if r.chance(0.6) { host.to_string() } else { r.pick(TRIPLES).to_string() };
    let n = base.len();
    match r.below(9) {
        0 => "*".into(),
        1 | 2 => format!("*{}", &base[r.usize(0, n)..]),
        3 | 4 => format!("{}*", &base[..r.usize(0, n)]),
        5 => base[..r.usize(0, n)].to_string(),
        6 => base[r.usize(0, n)..].to_string(),
        7 => format!("*{}x", &base[r.usize(0, n)..]),
        _ => base,
    }
}

struct Tools(Scratch);
impl Tools {
    fn new() -> Tools {
        let s = Scratch::new();
        for (n, body, mode) in [
            ("good", "exit 0", 0o755),
            ("good2", "echo 'good2 1.0'; exit 0", 0o755),
            ("old", "exit 2", 0o755),
            ("broken", "echo broken >&2; exit 1", 0o755),
            ("noexec", "exit 0", 0o644),
            ("picky", "[ \"$*\" = --version ]", 0o755),
            ("dies", "kill -9 $$", 0o755),
            ("has space", "exit 0", 0o755),
        ] {
            let p = s.join(n);
            std::fs::write(&p, format!("#!/bin/sh\n{}\n", body)).expect("tool");
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).expect("mode");
        }
        Tools(s)
    }
    fn has(t: &str) -> bool {
        ["good", "good2", "picky", "has space"].contains(&t)
    }
}

fn model(t: &SupportedTarget, host: &str) -> (bool, Vec<String>, Vec<String>) {
    if !t.host_only.is_empty() && !t.host_only.iter().any(|p| admits(host, p)) {
        return (false, vec![], vec![]);
    }
    let (mut found, mut missing) = (vec![], vec![]);
    for q in &t.requires {
        match q.split('|').find(|a| Tools::has(a)) {
            Some(a) => found.push(a.to_string()),
            None => missing.push(q.clone()),
        }
    }
    if missing.is_empty() { (true, found, missing) } else { (false, vec![], missing) }
}

fn judge(what: &str, got: &BuildCapability, t: &SupportedTarget, host: &str) -> R {
    let (can, found, missing) = model(t, host);
    check!(got.can_build == can, format!("{}: what can be built", what), "{:?}: {:?}, expected {} {:?} {:?}", t, got, can, found, missing);
    check!(got.missing_tools == missing, format!("{}: the missing tools", what), "{:?}: {:?}, expected {:?}", t, got, missing);
    if can {
        check!(got.available_tools == found, format!("{}: the tools found", what), "{:?}: {:?}, expected {:?}", t, got, found);
    }
    check!(got.reason.is_some() != can, format!("{}: a reason", what), "{:?}", got);
    if let Some(why) = &got.reason {
        check!(missing.iter().all(|m| why.contains(m.as_str())), format!("{}: the reason names the missing tools", what), "{:?}", got);
    }
    Ok(())
}

fn targets(cx: &mut Cx) -> R {
    let host = current_host_triple();
    let r = &mut cx.rng;
    let n = r.usize(0, 5);
    let mut ts: Vec<(SupportedTarget, bool, bool)> = vec![];
    for _ in 0..n {
        let triple = r.pick(TRIPLES).to_string();
        if ts.iter().any(|t| t.0.triple == triple) {
            continue;
        }
        let requires: Vec<String> = (0..if r.chance(0.3) { 0 } else { r.usize(1, 3) }).map(|_| (0..r.usize(1, 3)).map(|_| *r.pick(TOOLS)).collect::<Vec<_>>().join("|")).collect();
        let host_only: Vec<String> = (0..if r.chance(0.5) { 0 } else { r.usize(1, 3) }).map(|_| pattern(r, host)).collect();
        ts.push((SupportedTarget { triple, requires, host_only }, r.chance(0.5), r.chance(0.5)));
    }
    let words = |r: &mut Rng| -> Vec<String> { (0..r.usize(0, 3)).map(|_| r.pick(&["backend.run", "cpu", "x", "", "é\n\"\\", "format.load"]).to_string()).collect() };
    let lists: Vec<Option<Vec<String>>> = (0..4).map(|_| if r.chance(0.6) { Some(words(r)) } else { None }).collect();
    let texts: Vec<Option<String>> = (0..3).map(|_| if r.chance(0.6) { Some(r.pick(&["", "MIT", "a b", "ü\t"]).to_string()) } else { None }).collect();
    let mut m = serde_json::Map::new();
    let (name, version) = (r.pick(&["a", "backend-x", "é", ""]).to_string(), r.pick(&["1.0.0", "0.1", ""]).to_string());
    m.insert("name".into(), json!(name));
    m.insert("version".into(), json!(version));
    for (k, v) in ["capabilities", "devices", "extensions", "dependencies"].iter().zip(&lists) {
        if let Some(v) = v {
            m.insert(k.to_string(), json!(v));
        }
    }
    for (k, v) in ["description", "license", "plugin_version"].iter().zip(&texts) {
        if let Some(v) = v {
            m.insert(k.to_string(), json!(v));
        }
    }
    if !ts.is_empty() || r.chance(0.5) {
        m.insert("supported_targets".into(), Value::Array(ts.iter().map(|(t, a, b)| {
            let mut o = serde_json::Map::new();
            o.insert("triple".into(), json!(t.triple));
            if *a || !t.requires.is_empty() {
                o.insert("requires".into(), json!(t.requires));
            }
            if *b || !t.host_only.is_empty() {
                o.insert("host_only".into(), json!(t.host_only));
            }
            Value::Object(o)
        }).collect()));
    }
    if r.chance(0.3) {
        m.insert("later".into(), json!({"x": [1]}));
    }
    let mut text = serde_json::to_string_pretty(&Value::Object(m.clone())).unwrap();
    let damage = if r.chance(0.15) { r.usize(1, 4) } else { 0 };
    match damage {
        1 => text.truncate(text.rfind('}').unwrap()),
        2 => { let mut m = m.clone(); m.remove(*r.pick(&["name", "version"])); text = Value::Object(m).to_string(); },
        3 => { let mut m = m.clone(); m.insert(r.pick(&["devices", "supported_targets", "name"]).to_string(), json!(3)); text = Value::Object(m).to_string(); },
        4 => text.clear(),
        _ => {},
    }
    cx.d(format!("{} {}", damage, text));
    let tools = Tools::new();
    let file = tools.0.join("manifest.json");
    check!(PluginManifest::load_from(&file).is_err(), "a manifest that does not exist", "loads");
    std::fs::write(&file, &text).expect("manifest");
    let path = std::env::var_os("PATH").unwrap_or_default();
    struct Restore(std::ffi::OsString);
    impl Drop for Restore {
        fn drop(&mut self) {
            std::env::set_var("PATH", &self.0);
        }
    }
    let back = Restore(path.clone());
    let mut p = tools.0 .0.clone().into_os_string();
    p.push(":/usr/bin:/bin");
    std::env::set_var("PATH", &p);
    let got = PluginManifest::load_from(&file);
    if damage > 0 {
        check!(got.is_err(), "a damaged manifest", "loads as {:?}", got);
        return Ok(());
    }
    let man = match got { Ok(m) => m, Err(e) => bail!("a manifest is refused", "{}", e) };
    let l = |i: usize| lists[i].clone().unwrap_or_default();
    let t = |i: usize| texts[i].clone().unwrap_or_default();
    check!(man.name == name && man.version == version && man.description == t(0) && man.license == t(1) && man.plugin_version == t(2), "a manifest changes", "{:?}", man);
    check!(man.capabilities == l(0) && man.devices == l(1) && man.extensions == l(2) && man.dependencies == l(3), "a manifest changes", "{:?}", man);
    check!(man.supported_targets.len() == ts.len(), "a manifest changes", "{:?}", man);
    for (a, (b, ..)) in man.supported_targets.iter().zip(&ts) {
        check!(a.triple == b.triple && a.requires == b.requires && a.host_only == b.host_only, "a manifest changes", "{:?} is {:?}", b, a);
    }
    for triple in TRIPLES {
        let got = man.check_target(triple);
        match ts.iter().find(|t| t.0.triple == *triple) {
            Some((t, ..)) => judge("check_target", &got, t, host)?,
            None => {
                check!(!got.can_build && got.missing_tools.is_empty() && got.available_tools.is_empty(), "a target that is not listed", "{} {:?}", triple, got);
                let why = got.reason.unwrap_or_default();
                check!(why.contains(triple) && ts.iter().all(|t| why.contains(&t.0.triple)), "a target that is not listed: reason", "{} {:?}", triple, why);
            },
        }
    }
    let all = man.buildable_targets();
    check!(all.len() == ts.len(), "the list of targets", "{} of {}", all.len(), ts.len());
    let text = man.format_targets();
    let mut lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    check!(!lines.is_empty() && lines.remove(0) == format!("Host: {}", host), "the text of the targets", "{}", text);
    let shown: Vec<_> = ts.iter().map(|(t, ..)| format!("  {} {}", if model(t, host).0 { "✓" } else { "✗" }, t.triple)).collect();
    check!(lines == shown, "the text of the targets", "{:?}, expected {:?}", lines, shown);
    for ((a, c), (t, ..)) in all.iter().zip(&ts) {
        check!(a.triple == t.triple, "the list of targets", "{:?} in place of {:?}", a, t);
        judge("buildable_targets", c, t, host)?;
        judge("check_build_capability", &check_build_capability(t), t, host)?;
    }
    for t in TOOLS {
        check!(is_tool_available(t) == Tools::has(t), "is_tool_available", "{}", t);
    }
    cx.count("targets", (TRIPLES.len() + 2 * ts.len()) as u64);
    drop(back);
    Ok(())
}

fn patterns(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let h = r.pick(&[TRIPLES, &["", "a", "aa", "aba", "é-ü"][..]].concat()).to_string();
    let p = if h.is_ascii() { pattern(r, &h) } else { r.pick(&["*ü", "é*", "é-ü", "*-ü", "ü", "*"]).to_string() };
    cx.d(format!("{:?} {:?}", h, p));
    // a star on both sides is not part of the documented patterns
    if p.len() > 1 && p.starts_with('*') && p.ends_with('*') {
        return Err(Fail::Skip);
    }
    check!(host_matches_pattern(&h, &p) == admits(&h, &p), "host_matches_pattern", "{:?} {:?} gives {}", h, p, host_matches_pattern(&h, &p));
    // an artifact keeps what it is given, in order
    let n = cx.rng.usize(0, 4);
    let data: Vec<u8> = (0..cx.rng.usize(0, 50)).map(|i| i as u8).collect();
    let mut a = CompiledArtifact::new(h.clone(), p.clone(), data.clone());
    let mut want = vec![];
    for i in 0..n {
        let s: Vec<usize> = (0..cx.rng.usize(0, 3)).map(|_| cx.rng.usize(0, 9)).collect();
        let d = *cx.rng.pick(&[PluginDType::F32, PluginDType::BOOL, PluginDType::I64, PluginDType::BF16]);
        let inp = cx.rng.chance(0.5);
        a = if inp { a.with_input(format!("n{}", i), s.clone(), d) } else { a.with_output(format!("n{}", i), s.clone(), d) };
        want.push((inp, format!("n{}", i), s, d));
    }
    let got: Vec<_> = [(true, &a.inputs), (false, &a.outputs)].iter().flat_map(|(k, v)| v.iter().map(|t| (*k, t.name.clone(), t.shape.clone(), t.dtype))).collect();
    let mut exp: Vec<_> = want.iter().filter(|w| w.0).cloned().collect();
    exp.extend(want.iter().filter(|w| !w.0).cloned());
    check!(got == exp && a.data() == data && a.size() == data.len() && a.format == h && a.device == p && a.symbols.is_none(), "an artifact", "{:?}", a);
    Ok(())
}

pub const GROUPS: &[Family] = &[fam("targets", 400, 8000, targets), fam("patterns", 20000, 400000, patterns)];
