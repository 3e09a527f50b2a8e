//! R01: tensors come back identical from every format; R02: malformed input is refused or yields a well-formed object.
use crate::cx::*;
use crate::mem;
use crate::p_err::{diff_exact, same, wf};
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
use hodu_core::error::HoduResult;
use hodu_core::format::{hdss, hdt, json};
use hodu_core::snapshot::{CaptureBoard, Snapshot};
use hodu_core::tensor::Tensor;
use hodu_core::types::{DType, Device};
use hodu_plugin_sdk::{PluginDType, TensorData, TensorDataExt};
use std::collections::HashMap;
use std::path::PathBuf;

/// A scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("hv-{}-{}", std::process::id(), k));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn join(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn rd(sig: &str, t: &Tensor) -> Result<RT, Fail> {
    read(t).map_err(|e| Fail::Bad(format!("{}: unreadable", sig), e))
}

/// How an element of a JSON file comes back through the JSON library itself.
fn through_json(x: f64) -> f64 {
    serde_json::to_string(&x).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(f64::NAN)
}

fn identical(cx: &mut Cx, how: &str, got: HoduResult<Tensor>, m: &RT) -> R {
    let t = match got {
        Ok(t) => t,
        Err(e) => bail!(format!("{}: does not load back", how), "{} ({})", e, m.show()),
    };
    check!(t.dtype() == m.dt, format!("{}: dtype", how), "{:?} expected {:?}", t.dtype(), m.dt);
    check!(shape_of(&t) == m.shape, format!("{}: shape", how), "{:?} expected {:?}", shape_of(&t), m.shape);
    let g = if m.data.is_empty() { RT::new(m.dt, &m.shape, vec![]) } else { rd(how, &t)? };
    check!(g.data.len() == m.data.len(), format!("{}: elements", how), "{}", g.data.len());
    let mut misread = None;
    for i in 0..m.data.len() {
        if !same(g.data[i], m.data[i]) {
            if how.starts_with("JSON") && m.dt == DType::F64 && g.data[i].f().to_bits() == through_json(m.data[i].f()).to_bits() {
                misread = Some((m.data[i].f(), g.data[i].f()));
                continue;
            }
            bail!(format!("{}: value", how), "element {} is {:?}, saved {:?} of {}", i, g.data[i], m.data[i], m.show());
        }
    }
    cx.count("elements_compared", m.data.len() as u64);
    if let Some((a, b)) = misread {
        bail!("JSON: an F64 element is misread by the JSON library's default number parser", "{:e} comes back as {:e}", a, b);
    }
    Ok(())
}

fn gen_any(cx: &mut Cx) -> Result<(Tensor, RT), Fail> {
    let dt = *cx.rng.pick(ALL);
    if cx.rng.chance(0.06) {
        let mut s = gen_shape(&mut cx.rng, 1, 3, 20);
        let k = cx.rng.below(s.len());
        s[k] = 0;
        return Ok((Tensor::zeros(&s, dt).map_err(|e| Fail::Bad("zeros of an empty shape".into(), format!("{}", e)))?, RT::new(dt, &s, vec![])));
    }
    let s = gen_shape(&mut cx.rng, 0, 6, 60);
    let g = *cx.rng.pick(&[Gen::Edge, Gen::Edge, Gen::Finite, Gen::Small]);
    let lay = gen_lay(&mut cx.rng);
    gen_view(&mut cx.rng, dt, &s, g, lay)
}

fn save_load(cx: &mut Cx) -> R {
    let (t, m) = gen_any(cx)?;
    let grad = is_float(m.dt) && cx.rng.chance(0.3) && t.set_requires_grad(true).is_ok();
    let before = (shape_of(&t), t.strides(), t.offset(), t.is_requires_grad());
    let how = cx.rng.below(12);
    cx.d(format!("save {} {:?} {:?} strides {:?} offset {} grad {} {}", how, m.dt, m.shape, t.strides(), t.offset(), grad, crate::p_elem::vh(&m)));
    let dir = Scratch::new();
    let names = ["a", "", "weight.0/x", "\u{1F600}é\"\\\n", "A", "shape"];
    match how {
        0 => {
            let b = hdt::serialize(&t).map_err(|e| Fail::Bad("HDT: serialize".into(), format!("{}", e)))?;
            // the bytes depend on the elements, not on the layout they are stored in
            if !m.data.is_empty() && !m.data.iter().any(|v| matches!(v, V::F(x) if x.is_nan())) {
                let c = hdt::serialize(&m.t()).map_err(|e| Fail::Bad("HDT: serialize".into(), format!("{}", e)))?;
                check!(b == c, "HDT: bytes depend on the layout", "{} and {} bytes", b.len(), c.len());
            }
            identical(cx, "HDT bytes", hdt::deserialize(&b), &m)?;
        }
        1 | 2 => {
            let p = dir.join("t.hdt");
            if how == 2 {
                // over an older, longer file
                std::fs::write(&p, vec![0xa5u8; 5000]).unwrap();
            }
            hdt::save(&t, &p).map_err(|e| Fail::Bad("HDT: save".into(), format!("{}", e)))?;
            let b = hdt::serialize(&t).map_err(|e| Fail::Bad("HDT: serialize".into(), format!("{}", e)))?;
            check!(std::fs::read(&p).unwrap() == b, "HDT: file differs from the serialised tensor", "{} bytes", b.len());
            identical(cx, "HDT file", hdt::load(&p), &m)?;
        }
        3 | 7 => {
            let mut map = HashMap::new();
            let mut models: HashMap<String, RT> = HashMap::new();
            map.insert("a".to_string(), t.clone());
            models.insert("a".into(), m.clone());
            for _ in 0..cx.rng.below(4) {
                let (u, n) = gen_any(cx)?;
                let k = cx.rng.pick(&names).to_string();
                map.insert(k.clone(), u);
                models.insert(k, n);
            }
            let js = how == 7;
            let file = cx.rng.chance(0.5);
            let e = |w: &str, e: hodu_core::error::HoduError| Fail::Bad(format!("{} collection: {}", if js { "JSON" } else { "HDT" }, w), format!("{}", e));
            let got = match (js, file) {
                (false, false) => hdt::deserialize_many(&hdt::serialize_many(&map).map_err(|x| e("serialize", x))?).map_err(|x| e("does not load back", x))?,
                (true, false) => json::deserialize_many(&json::serialize_many(&map).map_err(|x| e("serialize", x))?).map_err(|x| e("does not load back", x))?,
                (false, true) => {
                    hdt::save_many(&map, dir.join("m")).map_err(|x| e("save", x))?;
                    hdt::load_many(dir.join("m")).map_err(|x| e("does not load back", x))?
                }
                (true, true) => {
                    json::save_many(&map, dir.join("m")).map_err(|x| e("save", x))?;
                    json::load_many(dir.join("m")).map_err(|x| e("does not load back", x))?
                }
            };
            let h = if js { "JSON collection" } else { "HDT collection" };
            let mut a: Vec<&String> = got.keys().collect();
            let mut b: Vec<&String> = models.keys().collect();
            a.sort();
            b.sort();
            check!(a == b, format!("{}: names", h), "{:?} expected {:?}", a, b);
            for (k, n) in &models {
                identical(cx, h, Ok(got[k].clone()), n)?;
            }
        }
        4 => identical(cx, "JSON text", json::serialize(&t).and_then(|s| json::deserialize(&s)), &m)?,
        5 | 6 => {
            let p = dir.join("t.json");
            if how == 6 {
                std::fs::write(&p, vec![b' '; 9000]).unwrap();
            }
            json::save(&t, &p).map_err(|e| Fail::Bad("JSON: save".into(), format!("{}", e)))?;
            identical(cx, "JSON file", json::load(&p), &m)?;
        }
        8 => {
            let name = *cx.rng.pick(&["t.hdt", "t.HDT", "t.json", "t.Json", "t", "t.bin", "a.json.hdt", ".json"]);
            let p = dir.join(name);
            t.save(&p).map_err(|e| Fail::Bad("save: by extension".into(), format!("{}", e)))?;
            let text = std::fs::read(&p).unwrap().first() == Some(&b'{') && name.to_lowercase().ends_with(".json") && name != ".json";
            identical(cx, if text { "JSON by extension" } else { "HDT by extension" }, Tensor::load(&p), &m)?;
        }
        9 => {
            let b = t.to_bytes().map_err(|e| Fail::Bad("bytes: to_bytes".into(), format!("{}", e)))?;
            check!(b.len() == m.data.len() * m.dt.size_in_bytes(), "bytes: length", "{}", b.len());
            identical(cx, "raw bytes", Tensor::from_bytes(&b, &m.shape[..], m.dt, Device::CPU), &m)?;
        }
        10 => {
            let b = t.to_bytes().map_err(|e| Fail::Bad("bytes: to_bytes".into(), format!("{}", e)))?;
            let d = <TensorData as TensorDataExt>::from_core_dtype(b.clone(), m.shape.clone(), m.dt);
            check!(d.is_valid() && d.numel() == m.data.len() && d.size_bytes() == b.len() && d.rank() == m.shape.len() && d.is_scalar() == m.shape.is_empty(), "tensor data: properties", "{:?}", d.shape);
            check!(d.dtype.size_in_bytes() == m.dt.size_in_bytes() && d.core_dtype() == m.dt, "tensor data: dtype", "{:?} for {:?}", d.dtype, m.dt);
            check!(d.dtype.name().parse::<PluginDType>() == Ok(d.dtype), "tensor data: dtype name", "{}", d.dtype.name());
            d.save(dir.join("d")).map_err(|e| Fail::Bad("tensor data: save".into(), format!("{:?}", e)))?;
            identical(cx, "tensor data file read as HDT", hdt::load(dir.join("d")), &m)?;
            hdt::save(&t, dir.join("e")).map_err(|e| Fail::Bad("HDT: save".into(), format!("{}", e)))?;
            let l = TensorData::load(dir.join("e")).map_err(|e| Fail::Bad("tensor data: load".into(), format!("{:?}", e)))?;
            check!(l.data == b && l.shape == m.shape && l.dtype == d.dtype, "tensor data: loaded differs", "{:?} {:?}", l.shape, l.dtype);
            let j: TensorData = serde_json::from_str(&serde_json::to_string(&d).unwrap()).map_err(|e| Fail::Bad("tensor data: message".into(), format!("{}", e)))?;
            check!(j.data == d.data && j.shape == d.shape && j.dtype == d.dtype, "tensor data: message differs", "");
            cx.count("elements_compared", m.data.len() as u64);
        }
        _ => {
            // through both formats, several times
            let mut u = t.clone();
            for _ in 0..3 {
                u = match cx.rng.below(3) {
                    0 => hdt::deserialize(&hdt::serialize(&u).map_err(|e| Fail::Bad("HDT: serialize".into(), format!("{}", e)))?),
                    1 if m.dt != DType::F64 => json::deserialize(&json::serialize(&u).map_err(|e| Fail::Bad("JSON: serialize".into(), format!("{}", e)))?),
                    _ => Tensor::from_bytes(&u.to_bytes().map_err(|e| Fail::Bad("bytes: to_bytes".into(), format!("{}", e)))?, &m.shape[..], m.dt, Device::CPU),
                }
                .map_err(|e| Fail::Bad("chain: does not load back".into(), format!("{}", e)))?;
            }
            identical(cx, "chain of formats", Ok(u), &m)?;
        }
    }
    check!((shape_of(&t), t.strides(), t.offset(), t.is_requires_grad()) == before, "save: changes the tensor", "{:?} {:?}", shape_of(&t), t.strides());
    if !m.data.is_empty() {
        if let Some(d) = diff_exact(&t, &m) {
            bail!("save: changes the tensor", "{}", d);
        }
    }
    Ok(())
}

/// Every bit pattern survives the binary forms (NaN payloads, negative zeros, subnormals).
fn bits(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let n = cx.rng.usize(1, 300);
    let how = cx.rng.below(3);
    cx.d(format!("bits {:?} {} {}", dt, n, how));
    let special: [u64; 12] = [0, 1, u64::MAX, 0x7ff0_0000_0000_0001, 0xfff8_0000_dead_beef, 0x7f80_0001, 0xffc0_1234, 0x7c01, 0xfe55, 0x7f, 0xff, 0x8000_0000_0000_0000];
    let raw: Vec<u64> = (0..n).map(|_| if cx.rng.chance(0.4) { *cx.rng.pick(&special) } else { cx.rng.u64() }).collect();
    macro_rules! go {
        ($t:ty, $from:expr, $to:expr) => {{
            let v: Vec<$t> = raw.iter().map(|&b| $from(b)).collect();
            let t = Tensor::from_slice(v.clone(), [n]).map_err(|e| Fail::Bad("bits: from_slice".into(), format!("{}", e)))?;
            let u = match how {
                0 => hdt::serialize(&t).and_then(|b| hdt::deserialize(&b)),
                1 => t.to_bytes().and_then(|b| Tensor::from_bytes(&b, [n], dt, Device::CPU)),
                _ => {
                    let d = Scratch::new();
                    hdt::save(&t, d.join("x.hdt")).and_then(|_| hdt::load(d.join("x.hdt")))
                }
            };
            let u = u.map_err(|e| Fail::Bad("bits: does not load back".into(), format!("{}", e)))?;
            let w = u.to_flatten_vec::<$t>().map_err(|e| Fail::Bad("bits: unreadable".into(), format!("{}", e)))?;
            for i in 0..n {
                check!($to(&w[i]) == $to(&v[i]), "bits: changed", "element {}: {:x} became {:x}", i, $to(&v[i]), $to(&w[i]));
            }
            // the raw bytes are the little-endian elements
            let b = t.to_bytes().map_err(|e| Fail::Bad("bits: to_bytes".into(), format!("{}", e)))?;
            let k = dt.size_in_bytes();
            for i in 0..n {
                let e = ($to(&v[i]) as u64).to_le_bytes();
                check!(b[i * k..(i + 1) * k] == e[..k], "bits: raw bytes", "element {}", i);
            }
        }};
    }
    match dt {
        DType::BOOL => go!(bool, |b| b & 1 == 1, |x: &bool| *x as u8),
        DType::F8E4M3 => go!(F8E4M3, |b| F8E4M3::from_bits(b as u8), |x: &F8E4M3| x.to_bits()),
        DType::F8E5M2 => go!(F8E5M2, |b| F8E5M2::from_bits(b as u8), |x: &F8E5M2| x.to_bits()),
        DType::BF16 => go!(bf16, |b| bf16::from_bits(b as u16), |x: &bf16| x.to_bits()),
        DType::F16 => go!(f16, |b| f16::from_bits(b as u16), |x: &f16| x.to_bits()),
        DType::F32 => go!(f32, |b| f32::from_bits(b as u32), |x: &f32| x.to_bits()),
        DType::F64 => go!(f64, |b| f64::from_bits(b), |x: &f64| x.to_bits()),
        DType::U8 => go!(u8, |b| b as u8, |x: &u8| *x),
        DType::U16 => go!(u16, |b| b as u16, |x: &u16| *x),
        DType::U32 => go!(u32, |b| b as u32, |x: &u32| *x),
        DType::U64 => go!(u64, |b| b, |x: &u64| *x),
        DType::I8 => go!(i8, |b| b as i8, |x: &i8| *x as u8),
        DType::I16 => go!(i16, |b| b as i16, |x: &i16| *x as u16),
        DType::I32 => go!(i32, |b| b as i32, |x: &i32| *x as u32),
        DType::I64 => go!(i64, |b| b as i64, |x: &i64| *x as u64),
    }
    cx.count("bit_patterns_compared", n as u64);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ malformed input

/// Some captured program with inputs, constants and targets.
pub fn some_snapshot(rng: &mut Rng) -> Option<Snapshot> {
    let b = if rng.chance(0.5) { CaptureBoard::with_name("p\u{e9}") } else { CaptureBoard::new() };
    b.open();
    let go = || -> HoduResult<()> {
        let s = [2usize, 3];
        let x = Tensor::input("x", &s, DType::F32)?;
        let c = Tensor::from_slice(vec![1.0f32, -2.0, 3.5, 0.25, f32::NAN, 7.0], [2, 3])?;
        let mut v = vec![x, c];
        for k in 0..6 {
            let a = v[(k * 7 + 1) % v.len()].clone();
            let o = match k {
                0 => a.add(&v[0])?,
                1 => a.mul_scalar(2.5f32)?,
                2 => a.slice(1, 0, Some(2), 1)?.sum(&[1], true)?.broadcast(&[2, 3])?,
                3 => a.transpose(0, 1)?.contiguous()?.reshape([2, 3])?,
                4 => a.relu()?,
                _ => a.exp()?,
            };
            v.push(o);
        }
        b.with_target("out", v[7].clone());
        b.with_target("c", v[1].clone());
        Ok(())
    };
    let r = go();
    b.close();
    r.ok()?;
    Some(b.capture())
}

pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) -> String {
    let mut d = String::new();
    for _ in 0..rng.usize(1, 3) {
        let n = b.len();
        let k = if n == 0 { 3 } else { rng.below(9) };
        let at = if n == 0 { 0 } else { match rng.below(3) { 0 => rng.below(n.min(16)), _ => rng.below(n) } };
        match k {
            0 => b.truncate(at),
            1 => b[at] ^= 1 << rng.below(8),
            2 => b[at] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'{', b'"', b'-', b'9', b'e']),
            3 => {
                let ins: &[u8] = rng.pick(&[&[0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01][..], &[0xff; 12][..], &[0x80; 9][..], &[0u8; 5][..], &[0x80, 0x80, 0x80, 0x80, 0x10][..], &[0xff, 0xff, 0xff, 0xff, 0x0f][..]]);
                b.splice(at..at, ins.iter().copied());
            }
            4 => {
                // a length or dimension becomes huge
                let ins: &[u8] = rng.pick(&[&[0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f][..], &[0x80, 0x80, 0x80, 0x80, 0x20][..], &[0xff, 0xff, 0x3f][..], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01][..]]);
                b.splice(at..at + 1, ins.iter().copied());
            }
            5 => {
                let e = (at + rng.usize(1, 8)).min(n);
                b.drain(at..e);
            }
            6 => {
                let e = (at + rng.usize(1, 20)).min(n);
                let c: Vec<u8> = b[at..e].to_vec();
                let to = rng.below(n);
                b.splice(to..to, c);
            }
            7 => b.extend((0..rng.usize(1, 10)).map(|_| rng.below(256) as u8).collect::<Vec<_>>()),
            _ => b[at] = rng.below(256) as u8,
        }
        d.push_str(&format!("{}@{} ", k, at));
    }
    d
}

/// `f` returns in bounded time and memory; whatever it yields satisfies `ok`.
fn bounded<T>(cx: &mut Cx, sig: &str, len: usize, f: impl FnOnce() -> Option<T>, ok: impl FnOnce(&T) -> Result<(), String>) -> R {
    let t0 = std::time::Instant::now();
    let (r, peak) = mem::peak_of(f);
    let dt = t0.elapsed().as_secs_f64();
    check!(peak <= (16 << 20) + 400 * len as isize, format!("{}: allocates without bound", sig), "{} bytes for an input of {}", peak, len);
    check!(dt < 20.0, format!("{}: takes too long", sig), "{} s for {} bytes", dt, len);
    match r {
        None => cx.count("refused", 1),
        Some(v) => {
            if let Err(e) = ok(&v) {
                bail!(format!("{}: ill-formed object accepted", sig), "{}", e);
            }
            cx.count("accepted_well_formed", 1);
        }
    }
    Ok(())
}
fn snapshot_ok(s: &Snapshot) -> Result<(), String> {
    for c in &s.constants {
        let n = c.shape.dims().iter().fold(c.dtype.size_in_bytes() as u128, |a, &d| a.saturating_mul(d as u128));
        if n != c.data.len() as u128 {
            return Err(format!("constant of shape {:?} {:?} with {} bytes", c.shape.dims(), c.dtype, c.data.len()));
        }
    }
    for n in &s.nodes {
        for l in n.input_layouts.iter().chain([&n.output_layout]) {
            if l.strides().len() != l.shape().ndim() {
                return Err(format!("layout of shape {:?} with strides {:?}", l.shape().dims(), l.strides()));
            }
        }
    }
    let b = s.to_bytes().map_err(|e| format!("{}", e))?;
    let t = Snapshot::from_bytes(&b).map_err(|e| format!("does not load back: {}", e))?;
    if format!("{:?}", t) != format!("{:?}", s) {
        return Err("loads back differently".into());
    }
    Ok(())
}

fn binary(cx: &mut Cx) -> R {
    let what = cx.rng.below(4);
    let src: Vec<u8> = match what {
        0 => { let (t, _) = gen_any(cx)?; hdt::serialize(&t).map_err(|_| Fail::Skip)? }
        1 => {
            let mut m = HashMap::new();
            for k in 0..cx.rng.below(4) {
                m.insert(format!("t{}", k), gen_any(cx)?.0);
            }
            hdt::serialize_many(&m).map_err(|_| Fail::Skip)?
        }
        2 => some_snapshot(&mut cx.rng).ok_or(Fail::Skip)?.to_bytes().map_err(|_| Fail::Skip)?,
        _ => (0..cx.rng.below(60)).map(|_| if cx.rng.chance(0.3) { 0xff } else { cx.rng.below(256) as u8 }).collect(),
    };
    let all = cx.rng.chance(0.05);
    let rounds = if all { src.len() } else { 25 };
    cx.d(format!("binary {} {} bytes truncations {} #{:x}", what, src.len(), all, crate::rng::hash_str(&format!("{:?}", src))));
    let dir = Scratch::new();
    for i in 0..rounds {
        let mut b = src.clone();
        let how = if all {
            b.truncate(i);
            format!("truncated to {}", i)
        } else {
            mutate(&mut cx.rng, &mut b)
        };
        let file = cx.rng.chance(0.1);
        let p = dir.join("f");
        if file {
            std::fs::write(&p, &b).unwrap();
        }
        // the reader the bytes were meant for, and sometimes another
        let rdr = if what == 3 || cx.rng.chance(0.1) { cx.rng.below(4) } else { what };
        let n = b.len();
        let add = |r: R| r.map_err(|e| match e { Fail::Bad(s, m) => Fail::Bad(s, format!("{} [{} of {} bytes: {}]", m, how, n, hex(&b))), o => o });
        add(match rdr {
            0 => bounded(cx, "HDT", n, || if file { hdt::load(&p).ok() } else { hdt::deserialize(&b).ok() }, wf),
            1 => bounded(cx, "HDT collection", n, || if file { hdt::load_many(&p).ok() } else { hdt::deserialize_many(&b).ok() }, |m| m.values().try_for_each(wf)),
            2 => bounded(cx, "snapshot", n, || if file { hdss::load(&p).ok() } else { hdss::from_bytes(&b).ok() }, snapshot_ok),
            _ => {
                let dt = *cx.rng.pick(ALL);
                let s = if cx.rng.chance(0.3) { vec![*cx.rng.pick(&[usize::MAX, 1 << 62, 1 << 61, 1 << 32, 0]), cx.rng.below(4), *cx.rng.pick(&[0, 1, 2, 1 << 33])] } else { gen_shape(&mut cx.rng, 0, 3, 30) };
                let want = s.iter().fold(dt.size_in_bytes() as u128, |a, &d| a.saturating_mul(d as u128)) == n as u128;
                bounded(cx, "raw bytes", n, || Tensor::from_bytes(&b, &s[..], dt, Device::CPU).ok(), |t| if want { wf(t) } else { Err(format!("{:?} {:?} from {} bytes", dt, s, n)) })
            }
        })?;
    }
    cx.count("inputs_tried", rounds as u64);
    Ok(())
}
fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(120).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 120 { s + "..." } else { s }
}

/// A JSON value with hostile contents.
fn hostile_json(rng: &mut Rng, depth: usize) -> String {
    match rng.below(if depth > 2 { 9 } else { 12 }) {
        0 => "null".into(),
        1 => "true".into(),
        2 => rng.pick(&["0", "-1", "1", "2", "1e400", "-1e400", "1e-400", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "4611686018427387904", "1.5", "-0.0", "255", "256", "-129", "99999999999999999999999999"]).to_string(),
        3 | 4 => format!("{}", rng.below(7)),
        5 => rng.pick(&["\"\"", "\"NaN\"", "\"inf\"", "\"-inf\"", "\"f32\"", "\"1\"", "\"\\ud800\"", "\"\\u0000\"", "\"F32\"", "\"nan\""]).to_string(),
        6 => format!("{}.5", rng.below(5)),
        7 => "[]".into(),
        8 => "{}".into(),
        9 | 10 => format!("[{}]", (0..rng.below(5)).map(|_| hostile_json(rng, depth + 1)).collect::<Vec<_>>().join(",")),
        _ => format!("{{{}}}", (0..rng.below(4)).map(|_| { let k = *rng.pick(&["shape", "dtype", "data", "x"]); format!("\"{}\":{}", k, hostile_json(rng, depth + 1)) }).collect::<Vec<_>>().join(",")),
    }
}
fn text(cx: &mut Cx) -> R {
    let what = cx.rng.below(4);
    let many = cx.rng.chance(0.3);
    let dt = *cx.rng.pick(ALL);
    let rounds = 20;
    let valid = {
        let s = gen_shape(&mut cx.rng, 0, 3, 12);
        let t = gen_rt(&mut cx.rng, dt, &s, Gen::Edge).t();
        if many {
            let mut m = HashMap::new();
            m.insert("a".to_string(), t.clone());
            m.insert("b".to_string(), t);
            json::serialize_many(&m)
        } else {
            json::serialize(&t)
        }
        .map_err(|e| Fail::Bad("JSON: serialize".into(), format!("{}", e)))?
    };
    let salt = cx.rng.u64();
    cx.d(format!("text {} many {} {:?} #{:x}", what, many, dt, salt));
    for _ in 0..rounds {
        let s: String = match what {
            0 => {
                let mut b = valid.clone().into_bytes();
                mutate(&mut cx.rng, &mut b);
                String::from_utf8_lossy(&b).into_owned()
            }
            1 => {
                let r = &mut cx.rng;
                let n = dt.to_string();
                let dts = if r.chance(0.8) { format!("\"{}\"", n) } else { hostile_json(r, 1) };
                let sh = if r.chance(0.6) { format!("[{}]", (0..r.below(4)).map(|_| if r.chance(0.8) { r.below(4).to_string() } else { hostile_json(r, 3) }).collect::<Vec<_>>().join(",")) } else { hostile_json(r, 1) };
                let da = if r.chance(0.8) { format!("[{}]", (0..r.below(9)).map(|_| if r.chance(0.7) { r.below(300).to_string() } else { hostile_json(r, 3) }).collect::<Vec<_>>().join(",")) } else { hostile_json(r, 1) };
                let one = format!("{{\"shape\":{},\"dtype\":{},\"data\":{}}}", sh, dts, da);
                if many { format!("{{\"a\":{}}}", one) } else { one }
            }
            2 => hostile_json(&mut cx.rng, 0),
            _ => {
                let k = *cx.rng.pick(&[1usize, 100, 127, 128, 129, 5000, 100000]);
                let c = *cx.rng.pick(&["[", "{\"a\":", "{\"data\":[", "-", "\"", "1"]);
                let mut s = c.repeat(k);
                if cx.rng.chance(0.3) {
                    s = format!("{{\"shape\":[1],\"dtype\":\"f32\",\"data\":[{}]}}", s);
                }
                s
            }
        };
        let n = s.len();
        // what the text says, if it is a plain valid tensor of integers
        let val: Option<serde_json::Value> = serde_json::from_str(&s).ok();
        let faithful = |v: &serde_json::Value, t: &Tensor| -> Result<(), String> {
            wf(t)?;
            let r = if t.size() == 0 { return Ok(()) } else { read(t)? };
            let data = v.get("data").and_then(|d| d.as_array()).ok_or("a tensor without data")?;
            let shape: Option<Vec<usize>> = v.get("shape").and_then(|d| d.as_array()).map(|a| a.iter().filter_map(|x| x.as_u64().map(|x| x as usize)).collect());
            if shape.as_ref() != Some(&r.shape) || data.len() != r.data.len() {
                return Err(format!("shape {:?} from {:?} with {} elements", r.shape, shape, data.len()));
            }
            if is_int(r.dt) {
                for (x, g) in data.iter().zip(&r.data) {
                    let e = x.as_i64().map(|x| x as i128).or(x.as_u64().map(|x| x as i128));
                    if e != Some(g.i()) {
                        return Err(format!("{} read as {:?}", x, g));
                    }
                }
            }
            Ok(())
        };
        let add = |r: R| r.map_err(|e| match e { Fail::Bad(a, m) => Fail::Bad(a, format!("{} [{}]", m, s.chars().take(200).collect::<String>())), o => o });
        add(if many {
            bounded(cx, "JSON collection", n, || json::deserialize_many(&s).ok(), |m| m.iter().try_for_each(|(k, t)| faithful(val.as_ref().and_then(|v| v.get(k)).ok_or("not JSON")?, t)))
        } else {
            bounded(cx, "JSON", n, || json::deserialize(&s).ok(), |t| faithful(val.as_ref().ok_or("not JSON")?, t))
        })?;
    }
    cx.count("inputs_tried", rounds);
    Ok(())
}

/// Protocol messages: hostile text is refused or read as what it says.
fn messages(cx: &mut Cx) -> R {
    use hodu_plugin::rpc::*;
    let salt = cx.rng.u64();
    cx.d(format!("messages #{:x}", salt));
    for _ in 0..40 {
        let r = &mut cx.rng;
        let id = if r.chance(0.5) { r.below(1000).to_string() } else { hostile_json(r, 2) };
        let base = match r.below(6) {
            0 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":{},\"id\":{}}}", hostile_json(r, 1), id),
            1 => format!("{{\"jsonrpc\":\"2.0\",\"result\":{},\"id\":{}}}", hostile_json(r, 1), id),
            2 => format!("{{\"jsonrpc\":\"2.0\",\"error\":{{\"code\":{},\"message\":\"x\"}},\"id\":{}}}", hostile_json(r, 2), id),
            3 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"$/progress\",\"params\":{{\"percent\":{},\"message\":{}}}}}", hostile_json(r, 2), hostile_json(r, 2)),
            4 => format!("{{\"data\":{},\"shape\":{},\"dtype\":\"{}\"}}", hostile_json(r, 2), hostile_json(r, 2), r.pick(&["F32", "BOOL", "I64", "U8", "f32"])),
            _ => hostile_json(r, 0),
        };
        let mut b = base.clone().into_bytes();
        if r.chance(0.5) {
            mutate(r, &mut b);
        }
        let n = b.len();
        let val: Option<serde_json::Value> = serde_json::from_slice(&b).ok();
        // what was accepted says the same when written again
        macro_rules! msg {
            ($t:ty) => {
                bounded(cx, stringify!($t), n, || serde_json::from_slice::<$t>(&b).ok(), |m| {
                    let w = serde_json::to_value(m).map_err(|e| format!("{}", e))?;
                    let again: $t = serde_json::from_value(w.clone()).map_err(|e| format!("does not load back: {}", e))?;
                    if serde_json::to_value(&again).ok() != Some(w.clone()) {
                        return Err("loads back differently".to_string());
                    }
                    let (Some(serde_json::Value::Object(v)), serde_json::Value::Object(w)) = (&val, &w) else { return Ok(()) };
                    for (k, x) in w {
                        match v.get(k) {
                            Some(y) if y == x => {}
                            _ if x.is_object() || x.is_array() => {}
                            y => return Err(format!("field {} is {} but the message says {:?}", k, x, y)),
                        }
                    }
                    Ok(())
                })
                .map_err(|e| match e { Fail::Bad(a, m) => Fail::Bad(a, format!("{} [{}]", m, String::from_utf8_lossy(&b))), o => o })?
            };
        }
        msg!(Request);
        msg!(Response);
        msg!(Notification);
        msg!(RpcError);
        msg!(InitializeResult);
        msg!(RunParams);
        msg!(RunResult);
        msg!(ProgressParams);
        msg!(LogParams);
        msg!(CancelParams);
        bounded(cx, "tensor data", n, || serde_json::from_slice::<TensorData>(&b).ok(), |d| {
            let want = d.shape.iter().fold(d.dtype.size_in_bytes() as u128, |a, &x| a.saturating_mul(x as u128)) == d.data.len() as u128;
            if d.is_valid() != want {
                return Err(format!("valid {} for shape {:?} {:?} with {} bytes", d.is_valid(), d.shape, d.dtype, d.data.len()));
            }
            Ok(())
        })?;
        // hostile shapes directly
        let sh: Vec<usize> = (0..cx.rng.below(4)).map(|_| *cx.rng.pick(&[0usize, 1, 2, 3, 1 << 31, 1 << 62, 1 << 63, usize::MAX])).collect();
        let d = TensorData::new(vec![0; cx.rng.below(9)], sh.clone(), *cx.rng.pick(&[PluginDType::U8, PluginDType::F16, PluginDType::F32, PluginDType::I64]));
        let want = sh.iter().fold(d.dtype.size_in_bytes() as u128, |a, &x| a.saturating_mul(x as u128)) == d.data.len() as u128 || sh.contains(&0) && d.data.is_empty();
        // a zero after an overflowing prefix is still no tensor anyone can hold: both answers are sound
        let over = sh.contains(&0) && sh.iter().fold(8u128, |a, &x| a.saturating_mul(x.max(1) as u128)) > u64::MAX as u128;
        if !over {
            check!(d.is_valid() == want, "tensor data: validity", "{} for {:?} {:?} with {} bytes", d.is_valid(), sh, d.dtype, d.data.len());
        } else {
            let _ = d.is_valid();
        }
        let dir = Scratch::new();
        let saved = TensorDataExt::save(&d, dir.join("x")).is_ok();
        check!(!saved || want, "tensor data: inconsistent data saved", "{:?} {:?} with {} bytes", sh, d.dtype, d.data.len());
    }
    cx.count("inputs_tried", 40);
    Ok(())
}

pub const FILES: &[Family] = &[fam("save_load", 1500, 40000, save_load), fam("bits", 400, 10000, bits)];
pub const MALFORMED: &[Family] = &[fam("binary", 500, 20000, binary), fam("text", 300, 15000, text), fam("messages", 100, 4000, messages)];
