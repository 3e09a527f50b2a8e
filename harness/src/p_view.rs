//! E07: views (shape operations) and every way of reading a tensor.
use crate::cx::*;
use crate::p_elem::describe;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
use hodu_core::tensor::Tensor;
use hodu_core::types::{DType, Device};

fn val(dt: DType, bytes: &[u8]) -> V {
    match dt {
        DType::BOOL => V::B(bytes[0] != 0),
        DType::F8E4M3 => V::F(F8E4M3::from_bits(bytes[0]).to_f64()),
        DType::F8E5M2 => V::F(F8E5M2::from_bits(bytes[0]).to_f64()),
        DType::BF16 => V::F(bf16::from_le_bytes(bytes.try_into().unwrap()).to_f64()),
        DType::F16 => V::F(f16::from_le_bytes(bytes.try_into().unwrap()).to_f64()),
        DType::F32 => V::F(f32::from_le_bytes(bytes.try_into().unwrap()) as f64),
        DType::F64 => V::F(f64::from_le_bytes(bytes.try_into().unwrap())),
        DType::U8 => V::I(bytes[0] as i128),
        DType::U16 => V::I(u16::from_le_bytes(bytes.try_into().unwrap()) as i128),
        DType::U32 => V::I(u32::from_le_bytes(bytes.try_into().unwrap()) as i128),
        DType::U64 => V::I(u64::from_le_bytes(bytes.try_into().unwrap()) as i128),
        DType::I8 => V::I(bytes[0] as i8 as i128),
        DType::I16 => V::I(i16::from_le_bytes(bytes.try_into().unwrap()) as i128),
        DType::I32 => V::I(i32::from_le_bytes(bytes.try_into().unwrap()) as i128),
        DType::I64 => V::I(i64::from_le_bytes(bytes.try_into().unwrap()) as i128),
    }
}
pub fn from_bytes_model(dt: DType, shape: &[usize], b: &[u8]) -> Option<RT> {
    let w = dt.size_in_bytes();
    if b.len() != w * numel(shape) {
        return None;
    }
    Some(RT { dt, shape: shape.to_vec(), data: b.chunks(w).map(|c| val(dt, c)).collect() })
}

fn nested(t: &Tensor, dt: DType) -> Option<Result<Vec<V>, String>> {
    // to_vecNd of the tensor's rank, for two representative element types
    macro_rules! go {
        ($ty:ty, $f:expr) => {{
            let shape = shape_of(t);
            let e = |x: hodu_core::error::HoduError| x.to_string();
            fn lens_ok(a: usize, b: usize) -> Result<(), String> {
                if a == b { Ok(()) } else { Err(format!("nested vector of length {} where the dimension is {}", a, b)) }
            }
            (|| -> Option<Result<Vec<V>, String>> {
                let mut out: Vec<V> = vec![];
                let r = (|| -> Result<bool, String> {
                    match shape.len() {
                        1 => {
                            let v = t.to_vec1d::<$ty>().map_err(e)?;
                            lens_ok(v.len(), shape[0])?;
                            out.extend(v.into_iter().map($f));
                        },
                        2 => {
                            let v = t.to_vec2d::<$ty>().map_err(e)?;
                            lens_ok(v.len(), shape[0])?;
                            for r in v {
                                lens_ok(r.len(), shape[1])?;
                                out.extend(r.into_iter().map($f));
                            }
                        },
                        3 => {
                            for a in t.to_vec3d::<$ty>().map_err(e)? {
                                lens_ok(a.len(), shape[1])?;
                                for b in a {
                                    lens_ok(b.len(), shape[2])?;
                                    out.extend(b.into_iter().map($f));
                                }
                            }
                        },
                        4 => {
                            for a in t.to_vec4d::<$ty>().map_err(e)? {
                                lens_ok(a.len(), shape[1])?;
                                for b in a {
                                    for c in b {
                                        lens_ok(c.len(), shape[3])?;
                                        out.extend(c.into_iter().map($f));
                                    }
                                }
                            }
                        },
                        5 => {
                            for a in t.to_vec5d::<$ty>().map_err(e)? {
                                for b in a {
                                    for c in b {
                                        for d in c {
                                            lens_ok(d.len(), shape[4])?;
                                            out.extend(d.into_iter().map($f));
                                        }
                                    }
                                }
                            }
                        },
                        6 => {
                            for a in t.to_vec6d::<$ty>().map_err(e)? {
                                for b in a {
                                    for c in b {
                                        for d in c {
                                            for g in d {
                                                lens_ok(g.len(), shape[5])?;
                                                out.extend(g.into_iter().map($f));
                                            }
                                        }
                                    }
                                }
                            }
                        },
                        7 => out.extend(t.to_vec7d::<$ty>().map_err(e)?.into_iter().flatten().flatten().flatten().flatten().flatten().flatten().map($f)),
                        8 => out.extend(t.to_vec8d::<$ty>().map_err(e)?.into_iter().flatten().flatten().flatten().flatten().flatten().flatten().flatten().map($f)),
                        _ => return Ok(false),
                    }
                    Ok(true)
                })();
                match r {
                    Ok(true) => Some(Ok(out)),
                    Ok(false) => None,
                    Err(m) => Some(Err(m)),
                }
            })()
        }};
    }
    match dt {
        DType::F32 => go!(f32, |x| V::F(x as f64)),
        DType::F16 => go!(f16, |x| V::F(x.to_f64())),
        DType::I32 => go!(i32, |x| V::I(x as i128)),
        DType::I64 => go!(i64, |x| V::I(x as i128)),
        DType::U8 => go!(u8, |x| V::I(x as i128)),
        DType::BOOL => go!(bool, V::B),
        _ => None,
    }
}

pub const READERS: &[&str] = &["flat", "nested", "contiguous", "bytes", "display", "same_dtype", "wider", "roundtrip", "op", "device"];

/// compare what one reader says with the model
pub fn check_reader(cx: &mut Cx, t: &Tensor, m: &RT, how: &str) -> R {
    let sig = |what: &str| format!("reading a view: {}", what);
    check!(shape_of(t) == m.shape, sig("shape"), "shape {:?}, expected {:?}", shape_of(t), m.shape);
    check!(t.dtype() == m.dt, sig("dtype"), "dtype {:?}, expected {:?}", t.dtype(), m.dt);
    check!(t.size() == m.data.len() && t.ndim() == m.shape.len(), sig("size"), "size {} ndim {}", t.size(), t.ndim());
    cx.count(&format!("reader {}", how), 1);
    let got = match how {
        "flat" => read(t),
        "nested" => match nested(t, m.dt) {
            None => return Ok(()),
            Some(r) => r.map(|d| RT { dt: m.dt, shape: m.shape.clone(), data: d }),
        },
        "contiguous" => t.contiguous().map_err(|e| e.to_string()).and_then(|c| {
            if !c.is_contiguous() {
                return Err("contiguous() is not contiguous".into());
            }
            read(&c)
        }),
        "bytes" => t.to_bytes().map_err(|e| e.to_string()).and_then(|b| from_bytes_model(m.dt, &m.shape, &b).ok_or(format!("{} bytes for {:?} {:?}", b.len(), m.dt, m.shape))),
        "roundtrip" => t.to_bytes().and_then(|b| Tensor::from_bytes(&b, m.shape.clone(), m.dt, Device::CPU)).map_err(|e| e.to_string()).and_then(|t| read(&t)),
        "device" => t.to_device(Device::CPU).map_err(|e| e.to_string()).and_then(|t| read(&t)),
        "same_dtype" => t.to_dtype(m.dt).map_err(|e| e.to_string()).and_then(|t| read(&t)),
        "wider" => {
            let w = if is_float(m.dt) { DType::F64 } else if m.dt == DType::U64 || m.dt == DType::BOOL { m.dt } else { DType::I64 };
            return expect(&sig("to_dtype"), t.to_dtype(w), &RT { dt: w, ..m.clone() }, EXACT);
        },
        "op" => {
            // any element-wise operation sees the same elements
            let e = t.eq(&m.t());
            let exp = RT { dt: DType::BOOL, shape: m.shape.clone(), data: m.data.iter().map(|v| V::B(!matches!(v, V::F(x) if x.is_nan()))).collect() };
            return expect(&sig("eq with a plain copy"), e, &exp, EXACT);
        },
        "display" => {
            if is_float(m.dt) || m.dt == DType::BOOL || m.shape.iter().any(|&d| d > 4) {
                let s = format!("{} {:?}", t, t);
                check!(!s.contains("<error>") && !s.contains("<none>"), sig("display"), "displays as {}", s);
                return Ok(());
            }
            let s = format!("{}", t);
            let nums: Vec<V> = s.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|x| !x.is_empty()).map(|x| V::I(x.parse().unwrap_or(i128::MAX))).collect();
            if nums.len() != m.data.len() {
                Err(format!("displays as {}", s))
            } else {
                Ok(RT { dt: m.dt, shape: m.shape.clone(), data: nums })
            }
        },
        _ => unreachable!(),
    };
    match got {
        Err(e) => bad(sig(how), e),
        Ok(g) => match diff(&g, m, EXACT) {
            None => Ok(()),
            Some(d) => bad(sig(how), format!("{}\n  got {}\n  expected {}", d, g.show(), m.show())),
        },
    }
}

pub fn slice_model(m: &RT, d: usize, start: i64, end: Option<i64>, step: i64) -> RT {
    // Python semantics
    let n = m.shape[d] as i64;
    let norm = |x: i64| if x < 0 { x + n } else { x };
    let idx: Vec<usize> = if step > 0 {
        let (s, e) = (norm(start).clamp(0, n), end.map(norm).unwrap_or(n).clamp(0, n));
        (0..).map(|k| s + k * step).take_while(|&i| i < e).map(|i| i as usize).collect()
    } else {
        let (s, e) = (norm(start).min(n - 1), end.map(norm).unwrap_or(-1).max(-1));
        (0..).map(|k| s + k * step).take_while(|&i| i > e && i >= 0).map(|i| i as usize).collect()
    };
    take(m, d, &idx)
}
/// np.take along one dimension
pub fn take(m: &RT, d: usize, idx: &[usize]) -> RT {
    let mut s = m.shape.clone();
    s[d] = idx.len();
    RT::from_fn(m.dt, &s, |ix| {
        let mut j = ix.to_vec();
        j[d] = idx[ix[d]];
        m.at(&j)
    })
}
fn neg(rng: &mut Rng, d: usize, nd: usize) -> i32 {
    if rng.chance(0.4) { d as i32 - nd as i32 } else { d as i32 }
}
fn factor(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut s = vec![];
    let mut r = n;
    while r > 1 {
        let divs: Vec<usize> = (2..=r).filter(|d| r % d == 0).collect();
        let d = *rng.pick(&divs);
        s.push(d);
        r /= d;
    }
    for _ in 0..rng.below(3) {
        let at = rng.below(s.len() + 1);
        s.insert(at, 1);
    }
    rng.shuffle(&mut s);
    s
}

/// Apply one random shape operation to both; Ok(None) when none was applicable.
pub fn step(cx: &mut Cx, t: &Tensor, m: &RT) -> Result<Option<(Tensor, RT, bool)>, Fail> {
    let nd = m.shape.len();
    let rng = &mut cx.rng;
    let op = *rng.pick(&[
        "reshape", "view", "flatten", "squeeze", "squeeze_all", "unsqueeze", "broadcast", "broadcast_left", "broadcast_like", "transpose", "t", "permute", "permute", "slice", "slice", "slice", "rslice",
        "repeat", "contiguous", "flip", "clone",
    ]);
    let mut what = String::from(op);
    // (result, model, shares storage)
    let (r, e) = match op {
        "reshape" | "view" => {
            let s = factor(rng, m.data.len());
            if s.len() > 8 {
                return Ok(None);
            }
            what += &format!(" {:?}", s);
            (if op == "view" { t.view(s.clone()) } else { t.reshape(s.clone()) }, m.reshape(&s))
        },
        "flatten" => (t.flatten(), m.reshape(&[m.data.len()])),
        "squeeze_all" => {
            let s: Vec<usize> = m.shape.iter().cloned().filter(|&d| d != 1).collect();
            (t.squeeze(&[] as &[i32]), m.reshape(&s))
        },
        "squeeze" => {
            let ones: Vec<usize> = (0..nd).filter(|&d| m.shape[d] == 1).collect();
            if ones.is_empty() {
                return Ok(None);
            }
            let k = rng.usize(1, ones.len());
            let mut pick = ones.clone();
            rng.shuffle(&mut pick);
            pick.truncate(k);
            let s: Vec<usize> = (0..nd).filter(|d| !pick.contains(d)).map(|d| m.shape[d]).collect();
            let dims: Vec<i32> = pick.iter().map(|&d| neg(rng, d, nd)).collect();
            what += &format!(" {:?}", dims);
            (t.squeeze(&dims), m.reshape(&s))
        },
        "unsqueeze" => {
            if nd >= 7 {
                return Ok(None);
            }
            let d = rng.below(nd + 1);
            let mut s = m.shape.clone();
            s.insert(d, 1);
            let a = neg(rng, d, nd + 1);
            what += &format!(" {}", a);
            (t.unsqueeze(a), m.reshape(&s))
        },
        "broadcast" | "broadcast_left" | "broadcast_like" => {
            let add: Vec<usize> = (0..rng.below(3)).map(|_| rng.usize(1, 3)).collect();
            let mut s = add.clone();
            s.extend(m.shape.iter().map(|&d| if d == 1 && op != "broadcast_left" && rng.chance(0.6) { rng.usize(1, 4) } else { d }));
            if numel(&s) > 2000 || s.len() > 7 {
                return Ok(None);
            }
            what += &format!(" {:?}", s);
            let r = match op {
                "broadcast" => t.broadcast(s.clone()),
                "broadcast_left" => t.broadcast_left(&add),
                _ => t.broadcast_like(&Tensor::zeros(s.clone(), DType::F32).unwrap()),
            };
            (r, m.broadcast(&s))
        },
        "transpose" | "t" => {
            if nd < 2 {
                return Ok(None);
            }
            let (a, b) = if op == "t" { (nd - 2, nd - 1) } else { (rng.below(nd), rng.below(nd)) };
            let mut p: Vec<usize> = (0..nd).collect();
            p.swap(a, b);
            let (x, y) = (neg(rng, a, nd), neg(rng, b, nd));
            what += &format!(" {} {}", x, y);
            (if op == "t" { t.t() } else { t.transpose(x, y) }, m.permute(&p))
        },
        "permute" => {
            if nd == 0 {
                return Ok(None);
            }
            let mut p: Vec<usize> = (0..nd).collect();
            rng.shuffle(&mut p);
            let a: Vec<i32> = p.iter().map(|&d| neg(rng, d, nd)).collect();
            what += &format!(" {:?}", a);
            (t.permute(&a), m.permute(&p))
        },
        "slice" | "rslice" => {
            if nd == 0 {
                return Ok(None);
            }
            let d = rng.below(nd);
            let n = m.shape[d] as i64;
            let far = |rng: &mut Rng| *rng.pick(&[i32::MAX as i64 - 1, i32::MIN as i64, 1000, -1000]);
            let start = if rng.chance(0.05) { far(rng) } else { rng.range(-n - 1, n) };
            let end = match rng.below(4) {
                0 => None,
                1 if rng.chance(0.3) => Some(far(rng)),
                _ => Some(rng.range(-n - 1, n + 2)),
            };
            let mag = if rng.chance(0.05) { *rng.pick(&[i32::MAX as i64, 100]) } else { rng.range(1, 3) };
            let step = if op == "slice" { mag } else { -mag };
            let e = slice_model(m, d, start, end, step);
            let a = neg(rng, d, nd);
            what += &format!(" dim {} {}..{:?} step {}", a, start, end, step);
            cx.d(&what);
            let r = t.slice(a, start as i32, end.map(|x| x as i32), step as i32);
            if e.shape[d] == 0 {
                if let Ok(r) = r {
                    bail!("view: slice selecting nothing", "slice selecting nothing gives shape {:?}", shape_of(&r));
                }
                return Ok(None);
            }
            let r = r.map_err(|er| Fail::Bad(format!("view: {}", op), format!("{} failed: {}", what, er)))?;
            return Ok(Some((r, e, op == "slice")));
        },
        "flip" => {
            let dims: Vec<usize> = (0..nd).filter(|_| rng.chance(0.5)).collect();
            let a: Vec<i32> = dims.iter().map(|&d| neg(rng, d, nd)).collect();
            what += &format!(" {:?}", a);
            let e = RT::from_fn(m.dt, &m.shape, |ix| m.at(&ix.iter().enumerate().map(|(d, &i)| if dims.contains(&d) { m.shape[d] - 1 - i } else { i }).collect::<Vec<_>>()));
            (t.flip(&a), e)
        },
        "repeat" => {
            let reps: Vec<usize> = (0..nd).map(|_| rng.usize(1, 3)).collect();
            let s: Vec<usize> = m.shape.iter().zip(&reps).map(|(a, b)| a * b).collect();
            if numel(&s) > 2000 {
                return Ok(None);
            }
            what += &format!(" {:?}", reps);
            let e = RT::from_fn(m.dt, &s, |ix| m.at(&ix.iter().zip(&reps).map(|(i, r)| i / r).collect::<Vec<_>>()));
            (t.repeat(&reps), e)
        },
        "contiguous" => (t.contiguous(), m.clone()),
        _ => (Ok(t.clone()), m.clone()),
    };
    cx.d(&what);
    cx.count(&format!("op {}", op), 1);
    let r = r.map_err(|er| Fail::Bad(format!("view: {}", op), format!("{} of {:?} failed: {}", what, m.shape, er)))?;
    Ok(Some((r, e, true)))
}

fn chains(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let shape = if cx.rng.chance(0.02) { vec![cx.rng.usize(500, 1500)] } else { gen_shape(&mut cx.rng, 0, 5, 200) };
    let m0 = gen_rt(&mut cx.rng, dt, &shape, Gen::Distinct);
    let base = m0.t();
    describe(cx, &base, &m0);
    let (mut t, mut m) = (base.clone(), m0.clone());
    let mut kept: Vec<(Tensor, RT)> = vec![];
    let n = cx.rng.usize(1, 7);
    for _ in 0..n {
        if let Some((r, e, _)) = step(cx, &t, &m)? {
            let how = *cx.rng.pick(READERS);
            check_reader(cx, &r, &e, how)?;
            kept.push((r.clone(), e.clone()));
            t = r;
            m = e;
        }
    }
    if n > 1 && kept.len() > 1 {
        cx.count("chains of views", 1);
    }
    if !t.is_contiguous() {
        cx.count("non-contiguous results", 1);
    }
    for how in READERS {
        check_reader(cx, &t, &m, how)?;
    }
    // earlier views and the base are what they were
    for (r, e) in &kept {
        check_reader(cx, r, e, "flat")?;
    }
    check_reader(cx, &base, &m0, "flat")
}

/// layout predicates and offsets of views agree with the elements they denote
fn layouts(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::I32, DType::F32, DType::U8]);
    let shape = gen_shape(&mut cx.rng, 1, 4, 120);
    let m0 = gen_rt(&mut cx.rng, dt, &shape, Gen::Distinct);
    let base = m0.t();
    let (mut t, mut m) = (base.clone(), m0.clone());
    for _ in 0..cx.rng.usize(1, 4) {
        if let Some((r, e, _)) = step(cx, &t, &m)? {
            t = r;
            m = e;
        }
    }
    let l = t.layout();
    check!(l.strides().len() == m.shape.len(), "layout: rank of strides", "{:?}", l);
    if l.is_contiguous() && m.data.len() > 1 {
        // row-major strides where it matters
        let want = strides(&m.shape);
        for d in 0..m.shape.len() {
            if m.shape[d] > 1 {
                check!(l.strides()[d] == want[d], "layout: is_contiguous", "claims contiguity with strides {:?} for shape {:?}", l.strides(), m.shape);
            }
        }
    }
    Ok(())
}

/// constructors from bytes reject byte counts that do not fit
fn bytes_in(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let shape = gen_shape(&mut cx.rng, 0, 4, 60);
    let w = dt.size_in_bytes();
    let n = numel(&shape) * w;
    let delta = *cx.rng.pick(&[0i64, 0, 0, 1, -1, w as i64, -(w as i64), 8]);
    let len = (n as i64 + delta).max(0) as usize;
    let mut b: Vec<u8> = (0..len).map(|_| cx.rng.u64() as u8).collect();
    if dt == DType::BOOL {
        b.iter_mut().for_each(|x| *x &= 1);
    }
    cx.d(format!("from_bytes {:?} {:?} with {} bytes", dt, shape, len));
    let r = Tensor::from_bytes(&b, shape.clone(), dt, Device::CPU);
    if len != n {
        check!(r.is_err(), "from_bytes: wrong length accepted", "{} bytes accepted for {:?} {:?}", len, dt, shape);
        return Ok(());
    }
    let t = match r {
        Ok(t) => t,
        Err(e) => bail!("from_bytes", "{}", e),
    };
    let m = from_bytes_model(dt, &shape, &b).unwrap();
    check_reader(cx, &t, &m, "flat")?;
    let back = t.to_bytes().map_err(|e| Fail::Bad("to_bytes".into(), e.to_string()))?;
    check!(back == b, "from_bytes/to_bytes round trip", "bytes differ for {:?} {:?}", dt, shape);
    Ok(())
}

pub const VIEW: &[Family] = &[fam("chains", 24000, 400000, chains), fam("layouts", 8000, 100000, layouts), fam("bytes_in", 3000, 30000, bytes_in)];
