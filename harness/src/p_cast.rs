//! E08: casts between element types, creation functions.
use crate::cx::*;
use crate::p_elem::scalar_of;
use crate::p_view::from_bytes_model;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::{DType, Device};

/// reference conversion of one value
pub fn cast_model(v: V, to: DType) -> V {
    if to == DType::BOOL {
        return V::B(match v {
            V::F(x) => x != 0.0,
            V::I(x) => x != 0,
            V::B(b) => b,
            V::Any => return V::Any,
        });
    }
    if is_float(to) {
        return match v {
            V::F(x) => V::F(quant(to, x)),
            // exact: split into two halves would double-round, so round the integer directly
            V::I(x) => V::F(int_to_float(to, x)),
            V::B(b) => V::F(b as i32 as f64),
            V::Any => V::Any,
        };
    }
    match v {
        V::F(x) => V::I(if x.is_nan() {
            0
        } else if x <= imin(to) as f64 {
            imin(to)
        } else if x >= imax(to) as f64 {
            imax(to)
        } else {
            x.trunc() as i128
        }),
        V::I(x) => V::I(wrap(to, x)),
        V::B(b) => V::I(b as i128),
        V::Any => V::Any,
    }
}
fn int_to_float(to: DType, x: i128) -> f64 {
    let (m, _, maxf) = fparams(to);
    let a = x.unsigned_abs();
    let nb = 128 - a.leading_zeros() as i32;
    let drop = nb - (m + 1);
    let r = if drop <= 0 {
        a
    } else {
        let q = a >> drop;
        let rem = a & ((1u128 << drop) - 1);
        let half = 1u128 << (drop - 1);
        (if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q }) << drop
    };
    let f = r as f64;
    let f = if f > maxf { f64::INFINITY } else { f };
    if x < 0 {
        -f
    } else {
        f
    }
}

fn raw_of(dt: DType, v: u64) -> Vec<u8> {
    v.to_le_bytes()[..dt.size_in_bytes()].to_vec()
}
/// a hostile bit pattern of `dt`, biased to where `to` rounds, overflows or truncates
fn raw_pattern(rng: &mut Rng, dt: DType, to: DType) -> Vec<u8> {
    if dt == DType::BOOL {
        return vec![rng.below(2) as u8];
    }
    let w = bits(dt);
    if is_int(dt) {
        let v: i128 = match rng.below(6) {
            0 => rng.range(-300, 300) as i128,
            1 => rng.u64() as i128,
            2 => (1i128 << rng.below(w as usize)) + rng.range(-2, 2) as i128,
            3 => -(1i128 << rng.below(w as usize)) + rng.range(-2, 2) as i128,
            4 => {
                // near a midpoint of the target's grid
                let e = rng.below(w as usize);
                let m = if is_float(to) { fparams(to).0 as usize } else { 7 };
                let mut v = (1i128 << e) | if e > m + 1 { (rng.u64() as i128 & ((1 << m) - 1)) << (e - m) } else { 0 };
                if e > m + 1 {
                    v |= 1i128 << (e - m - 1);
                    v += rng.range(-1, 1) as i128;
                }
                if rng.chance(0.5) { -v } else { v }
            },
            _ => if rng.chance(0.5) { imin(dt) + rng.below(3) as i128 } else { imax(dt) - rng.below(3) as i128 },
        };
        return raw_of(dt, v as u64);
    }
    // floats
    let bitsv = |x: f64| -> Vec<u8> {
        match dt {
            DType::F64 => x.to_le_bytes().to_vec(),
            DType::F32 => (x as f32).to_le_bytes().to_vec(),
            _ => vec![],
        }
    };
    if w < 32 || rng.chance(0.15) {
        return raw_of(dt, rng.u64());
    }
    let x: f64 = match rng.below(6) {
        0 => rng.uni(-300.0, 300.0),
        1 => {
            let v = [0.0, f64::INFINITY, f64::NAN, 1.0, 0.5, 1e-45, 1e-310, 3.4e38, 1e300];
            *rng.pick(&v)
        },
        2 if is_int(to) => {
            let b = if rng.chance(0.5) { imin(to) } else { imax(to) } as f64;
            b + rng.range(-2, 2) as f64 * *rng.pick(&[0.25, 0.5, 1.0, b.abs() * 2f64.powi(-23), b.abs() * 2f64.powi(-52)])
        },
        3 if is_float(to) => {
            let mx = fparams(to).2;
            let mn = min_normal(to);
            mx.min(1e308) * (1.0 + rng.range(-4, 4) as f64 * 2f64.powi(-(rng.below(26) as i32))) * if rng.chance(0.5) { 1.0 } else { mn / mx }
        },
        _ => {
            let (m, emin, _) = if is_float(to) { fparams(to) } else { (8, -4, 0.0) };
            let e = rng.range((emin as i64 - 4).max(-1000), 20) as i32;
            let k = rng.below(1 << (m.min(20) + 2)) as f64;
            let base = k * 2f64.powi(e - m - 1);
            base + match rng.below(4) {
                0 => base.abs() * 2f64.powi(-(rng.usize(20, 52) as i32)),
                1 => -base.abs() * 2f64.powi(-(rng.usize(20, 52) as i32)),
                _ => 0.0,
            }
        },
    };
    bitsv(if rng.chance(0.5) { -x } else { x })
}

fn check_cast(cx: &mut Cx, t: &Tensor, src: &RT, to: DType) -> R {
    let exp = RT { dt: to, shape: src.shape.clone(), data: src.data.iter().map(|&v| cast_model(v, to)).collect() };
    let sig = format!("cast {:?}->{:?}", src.dt, to);
    let r = t.to_dtype(to);
    if let Ok(r) = &r {
        check!(r.dtype() == to, sig.clone() + " dtype", "result has dtype {:?}", r.dtype());
        check!(!r.is_requires_grad(), sig.clone() + " grad", "result requires grad");
    }
    let widened = r.clone();
    expect(&sig, r, &exp, EXACT)?;
    cx.count("values_compared", src.data.len() as u64);
    // widening then narrowing restores the value
    let exact = src.data.iter().zip(&exp.data).all(|(a, b)| match (a, b) {
        (V::F(x), V::F(y)) => x == y || (x.is_nan() && y.is_nan()),
        (V::I(x), V::I(y)) => x == y,
        (V::I(x), V::F(y)) => (*y as i128) == *x && y.abs() < 1e30,
        (V::F(x), V::I(y)) => *x == *y as f64 && (*x as i128) == *y,
        (V::B(x), b) => *x == b.truthy(),
        _ => false,
    });
    if exact {
        if let Ok(w) = widened {
            // E4M3 has no infinity: what it became is what goes back
            let back = if to == DType::F8E4M3 && src.data.iter().any(|v| matches!(v, V::F(x) if x.is_infinite())) { src.map(src.dt, |v| if v.f().is_infinite() { V::Any } else { v }) } else { src.clone() };
            expect(&(sig + " and back"), w.to_dtype(src.dt), &back, EXACT)?;
            cx.count("round_trips", 1);
        }
    }
    Ok(())
}

/// every bit pattern of an 8- or 16-bit source, to a random target
fn exhaustive(cx: &mut Cx) -> R {
    let small = [DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::U8, DType::I8, DType::BF16, DType::F16, DType::U16, DType::I16];
    let from = *cx.rng.pick(&small);
    let to = *cx.rng.pick(ALL);
    let n = match from {
        DType::BOOL => 2,
        d => 1usize << bits(d),
    };
    let rev = cx.rng.chance(0.5);
    let mut b = vec![];
    for i in 0..n {
        b.extend(raw_of(from, i as u64));
    }
    cx.d(format!("exhaustive {:?} -> {:?} reversed={}", from, to, rev));
    let src = from_bytes_model(from, &[n], &b).unwrap();
    let t = match Tensor::from_bytes(&b, [n], from, Device::CPU) {
        Ok(t) => t,
        Err(e) => bail!("from_bytes", "{}", e),
    };
    if rev {
        let r = match t.flip(&[0]) { Ok(r) => r, Err(e) => bail!("flip", "{}", e) };
        let mut s = src.clone();
        s.data.reverse();
        check_cast(cx, &r, &s, to)
    } else {
        check_cast(cx, &t, &src, to)
    }
}

fn casts(cx: &mut Cx) -> R {
    let from = *cx.rng.pick(ALL);
    let to = *cx.rng.pick(ALL);
    let shape = if cx.rng.chance(0.5) { vec![cx.rng.usize(1, 64)] } else { gen_shape(&mut cx.rng, 0, 4, 200) };
    let mut b = vec![];
    for _ in 0..numel(&shape) {
        b.extend(raw_pattern(&mut cx.rng, from, to));
    }
    let src = from_bytes_model(from, &shape, &b).unwrap();
    let lay = gen_lay(&mut cx.rng);
    cx.d(format!("{:?} -> {:?} {:?} {:?} bytes {:?}", from, to, shape, lay, if b.len() <= 256 { b.clone() } else { b[..64].to_vec() }));
    let t = match lay {
        Lay::Contig => match Tensor::from_bytes(&b, shape.clone(), from, Device::CPU) {
            Ok(t) => t,
            Err(e) => bail!("from_bytes", "{}", e),
        },
        // a permuted view with exactly these contents
        Lay::Permuted if shape.len() >= 2 => {
            let mut p: Vec<usize> = (0..shape.len()).collect();
            cx.rng.shuffle(&mut p);
            let mut inv = vec![0; p.len()];
            for (i, &x) in p.iter().enumerate() {
                inv[x] = i;
            }
            let w = from.size_in_bytes();
            let st = src.permute(&p);
            // move raw bytes the same way
            let mut ob = vec![0u8; b.len()];
            for i in 0..numel(&shape) {
                let ix = unravel(i, &shape);
                let pix: Vec<usize> = p.iter().map(|&d| ix[d]).collect();
                let j = ravel(&pix, &st.shape);
                ob[j * w..(j + 1) * w].copy_from_slice(&b[i * w..(i + 1) * w]);
            }
            let base = match Tensor::from_bytes(&ob, st.shape.clone(), from, Device::CPU) { Ok(t) => t, Err(e) => bail!("from_bytes", "{}", e) };
            lay_op(base.permute(&inv.iter().map(|&x| x as i32).collect::<Vec<_>>()[..]), "permute")?
        },
        // a slice in the middle of a longer buffer
        _ => {
            if shape.is_empty() {
                return Err(Fail::Skip);
            }
            let w = from.size_in_bytes();
            let row = numel(&shape[1..]) * w;
            let (pre, post) = (cx.rng.usize(1, 3), cx.rng.usize(0, 2));
            let mut ob = vec![];
            for _ in 0..pre { ob.extend(vec![1u8; row]); }
            ob.extend(&b);
            for _ in 0..post { ob.extend(vec![1u8; row]); }
            let mut s2 = shape.clone();
            s2[0] += pre + post;
            let base = match Tensor::from_bytes(&ob, s2, from, Device::CPU) { Ok(t) => t, Err(e) => bail!("from_bytes", "{}", e) };
            lay_op(base.slice(0, pre as i32, Some((pre + shape[0]) as i32), 1i32), "slice")?
        },
    };
    check_cast(cx, &t, &src, to)
}

fn large(cx: &mut Cx) -> R {
    let from = *cx.rng.pick(ALL);
    let to = *cx.rng.pick(ALL);
    let n = cx.rng.usize(200_000, 450_000);
    let off = if cx.rng.chance(0.5) { cx.rng.usize(1, 1000) } else { 0 };
    cx.d(format!("large {:?} -> {:?} n={} offset={}", from, to, n, off));
    let pool: Vec<Vec<u8>> = (0..1021).map(|_| raw_pattern(&mut cx.rng, from, to)).collect();
    let mut b = Vec::with_capacity((n + off) * from.size_in_bytes());
    for i in 0..n + off {
        b.extend(&pool[i % 1021]);
    }
    let w = from.size_in_bytes();
    let src = from_bytes_model(from, &[n], &b[off * w..]).unwrap();
    let t = match Tensor::from_bytes(&b, [n + off], from, Device::CPU) { Ok(t) => t, Err(e) => bail!("from_bytes", "{}", e) };
    let t = if off > 0 { lay_op(t.slice(0, off as i32, None::<i32>, 1i32), "slice")? } else { t };
    if cx.rng.chance(0.3) {
        // filling and materialising split their work over threads too
        let (c, what) = if cx.rng.chance(0.5) {
            (t.contiguous(), "contiguous")
        } else {
            (Tensor::full([n], crate::p_elem::scalar_of(src.data[0], from)), "full")
        };
        let exp = if what == "full" { src.map(from, |_| src.data[0]) } else { src };
        return expect(&format!("large {} {:?}", what, from), c, &exp, EXACT);
    }
    check_cast(cx, &t, &src, to)
}

/// Scalar::to_dtype agrees with the same conversion rules (integers saturate)
fn scalars(cx: &mut Cx) -> R {
    let from = *cx.rng.pick(ALL);
    let to = *cx.rng.pick(ALL);
    let v = loop {
        let b = raw_pattern(&mut cx.rng, from, to);
        let v = from_bytes_model(from, &[], &b).unwrap().data[0];
        // the float8 crate cannot represent infinities through f64
        if !(matches!(v, V::F(x) if !x.is_finite()) && bits(from) == 8) {
            break v;
        }
    };
    let s = scalar_of(v, from);
    cx.d(format!("Scalar {:?} {:?} -> {:?}", from, v, to));
    let r = s.to_dtype(to);
    check!(s.dtype() == from, "scalar dtype", "{:?} says dtype {:?}", s, s.dtype());
    check!(r.dtype() == to, "scalar to_dtype dtype", "{:?}", r.dtype());
    // compare through a filled tensor
    let t = match Tensor::full([3], r) { Ok(t) => t, Err(e) => bail!("full", "{}", e) };
    let got = match read(&t) { Ok(g) => g, Err(e) => bail!("read full", "{}", e) };
    check!(got.dt == to && got.shape == [3], "full shape/dtype", "{:?} {:?}", got.dt, got.shape);
    let exp = match (v, is_int(to)) {
        (V::I(x), true) => V::I(x.clamp(imin(to), imax(to))),
        (V::F(x), _) if is_float(to) && (quant(to, x).is_infinite() || x.is_nan()) && bits(to) == 8 => V::Any,
        _ => cast_model(v, to),
    };
    // narrow floats may be rounded twice through single precision
    let t = if is_float(to) && bits(to) < 32 { ulp(1.0) } else { EXACT };
    for g in &got.data {
        check!(vclose(to, *g, exp, t), format!("scalar {:?}->{:?}", from, to), "{:?} {:?} became {:?}, expected {:?}", from, v, g, exp);
    }
    // from_f32 / integer accessors
    if let V::I(x) = v {
        check!(s.to_i64() as i128 == x.clamp(i64::MIN as i128, i64::MAX as i128), "scalar to_i64", "{} became {}", x, s.to_i64());
        check!(s.to_u64() as i128 == x.clamp(0, u64::MAX as i128), "scalar to_u64", "{} became {}", x, s.to_u64());
        check!(s.to_i32() as i128 == x.clamp(i32::MIN as i128, i32::MAX as i128), "scalar to_i32", "{} became {}", x, s.to_i32());
        check!(s.to_usize() as i128 == x.clamp(0, u64::MAX as i128), "scalar to_usize", "{} became {}", x, s.to_usize());
        check!(s.to_f64() == int_to_float(DType::F64, x), "scalar to_f64", "{} became {}", x, s.to_f64());
        check!(s.to_f32() as f64 == int_to_float(DType::F32, x), "scalar to_f32", "{} became {}", x, s.to_f32());
    }
    Ok(())
}

fn meta(sig: &str, t: &Tensor, dt: DType, shape: &[usize]) -> R {
    check!(t.dtype() == dt, format!("{} dtype", sig), "{:?} instead of {:?}", t.dtype(), dt);
    check!(shape_of(t) == shape, format!("{} shape", sig), "{:?} instead of {:?}", shape_of(t), shape);
    check!(t.device() == Device::CPU && !t.is_requires_grad() && t.is_contiguous(), format!("{} attributes", sig), "device/grad/contiguity");
    Ok(())
}

fn creation(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let shape = gen_shape(&mut cx.rng, 0, 5, 300);
    let v = gen_v(&mut cx.rng, dt, Gen::Edge);
    let s = scalar_of(v, dt);
    let like_lay = gen_lay(&mut cx.rng);
    let (like, _) = gen_view(&mut cx.rng, dt, &shape, Gen::Small, like_lay)?;
    let what = *cx.rng.pick(&["full", "full_like", "zeros", "zeros_like", "ones", "ones_like", "empty", "empty_like", "scalar", "eye"]);
    cx.d(format!("{} {:?} {:?} {:?} like {:?}", what, dt, shape, v, like_lay));
    let one = if is_float(dt) { V::F(1.0) } else if dt == DType::BOOL { V::B(true) } else { V::I(1) };
    let zero = if is_float(dt) { V::F(0.0) } else if dt == DType::BOOL { V::B(false) } else { V::I(0) };
    let fill = |v: V| RT::new(dt, &shape, vec![v; numel(&shape)]);
    let (r, exp) = match what {
        "full" => (Tensor::full(shape.clone(), s), Some(fill(v))),
        "full_like" => (Tensor::full_like(&like, s), Some(fill(v))),
        "zeros" => (Tensor::zeros(shape.clone(), dt), Some(fill(zero))),
        "zeros_like" => (Tensor::zeros_like(&like), Some(fill(zero))),
        "ones" => (Tensor::ones(shape.clone(), dt), Some(fill(one))),
        "ones_like" => (Tensor::ones_like(&like), Some(fill(one))),
        "empty" => (Tensor::empty(shape.clone(), dt), None),
        "empty_like" => (Tensor::empty_like(&like), None),
        "scalar" => (Tensor::scalar(s), Some(RT::new(dt, &[], vec![v]))),
        _ => {
            let (n, m) = (cx.rng.usize(1, 9), cx.rng.usize(1, 9));
            let sq = cx.rng.chance(0.3);
            let m = if sq { n } else { m };
            let e = RT::from_fn(dt, &[n, m], |ix| if ix[0] == ix[1] { one } else { zero });
            (if sq { Tensor::eye(n, dt) } else { Tensor::eye_nm(n, m, dt) }, Some(e))
        },
    };
    let sg = format!("{} {:?}", what, dt);
    match (r, exp) {
        (Err(e), _) => bail!(sg, "error {}", e),
        (Ok(t), None) => {
            meta(&sg, &t, dt, &shape)?;
            check!(t.to_bytes().map(|b| b.len()).unwrap_or(usize::MAX) == numel(&shape) * dt.size_in_bytes(), sg, "wrong storage size");
            cx.count("values_compared", 1);
            Ok(())
        },
        (Ok(t), Some(e)) => {
            meta(&sg, &t, dt, &e.shape)?;
            cx.count("values_compared", e.data.len() as u64);
            expect(&sg, Ok(t), &e, EXACT)
        },
    }
}

/// from_slice / new: nested data of several element types keep order and shape
fn slices(cx: &mut Cx) -> R {
    let shape = gen_shape(&mut cx.rng, 1, 4, 200);
    let dt = *cx.rng.pick(&[DType::F32, DType::F64, DType::I32, DType::I64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::BOOL]);
    let m = gen_rt(&mut cx.rng, dt, &shape, Gen::Edge);
    let n = numel(&shape);
    cx.d(format!("from_slice/new {}", m.show()));
    let wrong = cx.rng.chance(0.15);
    let tgt = if wrong { vec![n + 1] } else { shape.clone() };
    macro_rules! go {
        ($t:ty, $f:expr) => {{
            let v: Vec<$t> = m.data.iter().map($f).collect();
            let flat = Tensor::from_slice(v.clone(), tgt.clone());
            let n1 = Tensor::new(v.clone());
            let c = shape[shape.len() - 1].max(1);
            let vv: Vec<Vec<$t>> = v.chunks(c).map(|x| x.to_vec()).collect();
            let n2 = Tensor::new(vv.clone());
            let s2 = Tensor::from_slice(vv, tgt.clone());
            (flat, n1, n2, s2)
        }};
    }
    let (flat, n1, n2, s2) = match dt {
        DType::F32 => go!(f32, |v| v.f() as f32),
        DType::F64 => go!(f64, |v| v.f()),
        DType::I32 => go!(i32, |v| v.i() as i32),
        DType::I64 => go!(i64, |v| v.i() as i64),
        DType::U8 => go!(u8, |v| v.i() as u8),
        DType::U16 => go!(u16, |v| v.i() as u16),
        DType::U32 => go!(u32, |v| v.i() as u32),
        DType::U64 => go!(u64, |v| v.i() as u64),
        DType::I8 => go!(i8, |v| v.i() as i8),
        DType::I16 => go!(i16, |v| v.i() as i16),
        _ => go!(bool, |v| v.truthy()),
    };
    cx.count("values_compared", m.data.len() as u64);
    expect("new vec", n1, &m.reshape(&[n]), EXACT)?;
    let c = shape[shape.len() - 1].max(1);
    if n > 0 {
        expect("new nested", n2, &m.reshape(&[n / c, c]), EXACT)?;
    }
    if wrong {
        check!(flat.is_err() && s2.is_err(), "from_slice size mismatch", "{} values accepted for shape {:?}", n, tgt);
        return Ok(());
    }
    expect("from_slice nested", s2, &m, EXACT)?;
    expect("from_slice", flat, &m, EXACT)
}

fn chunk<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    v.chunks(n.max(1)).map(|x| x.to_vec()).collect()
}

macro_rules! arr {
    ($f:ident; $n:expr) => { std::array::from_fn::<_, $n, _>(|_| $f()) };
    ($f:ident; $n:expr, $($rest:expr),+) => { std::array::from_fn::<_, $n, _>(|_| arr!($f; $($rest),+)) };
}

macro_rules! arrays {
    ($f:ident, $at:ident, $dt:ident, $m:ident; $($n:expr),+) => {{
        $at.set(0);
        let a = arr!($f; $($n),+);
        let sh: Vec<usize> = vec![$($n),+];
        let want = RT { dt: $dt, shape: sh.clone(), data: (0..numel(&sh)).map(|i| $m.data[i % $m.data.len()].clone()).collect() };
        expect("array", Tensor::new(&a), &want, EXACT)?;
        expect("array", Tensor::from_slice(&a, [numel(&sh)]), &want.reshape(&[numel(&sh)]), EXACT)?;
    }};
}

/// a tensor from data nested to any depth (vectors, slices of slices, arrays) has its elements in order and its shape; data without a shape is refused
fn nested(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // s[j] is the length of the parts at depth j from the outside, over nine levels
    let mut s: Vec<usize> = (0..9).map(|_| *r.pick(&[1usize, 1, 1, 2, 2, 3])).collect();
    while s.iter().product::<usize>() > 400 {
        let i = r.below(9);
        s[i] = 1;
    }
    let dt = *r.pick(&[DType::F32, DType::U16, DType::BOOL, DType::BF16]);
    let m = gen_rt(r, dt, &s, Gen::Edge);
    let n = numel(&s);
    let ragged = r.chance(0.5);
    let (pick, how) = (r.below(n), r.below(2));
    let into: Vec<usize> = if r.chance(0.5) { vec![n] } else { let k = r.usize(0, 9); let mut a = vec![s[..k].iter().product::<usize>()]; a.extend_from_slice(&s[k..]); a };
    cx.d(format!("nested {:?} {:?} {} {} {} {:?}", dt, s, ragged, pick, how, into));
    let shape_of_depth = |k: usize| -> Vec<usize> {
        let mut v = vec![s[..10 - k].iter().product::<usize>()];
        v.extend_from_slice(&s[10 - k..]);
        v
    };
    macro_rules! slices_of {
        ($v:expr) => { $v.iter().map(|x| &x[..]).collect::<Vec<_>>() };
    }
    macro_rules! judge {
        ($k:expr, $what:expr, $e:expr) => {{
            expect($what, Tensor::new($e), &m.reshape(&shape_of_depth($k)), EXACT)?;
            expect($what, Tensor::from_slice($e, into.clone()), &m.reshape(&into), EXACT)?;
        }};
    }
    macro_rules! go {
        ($t:ty, $f:expr) => {{
            let v1: Vec<$t> = m.data.iter().map($f).collect();
            judge!(1, "nested vector", v1.clone());
            let v2 = chunk(&v1, s[8]);
            judge!(2, "nested vector", v2.clone());
            let v3 = chunk(&v2, s[7]);
            judge!(3, "nested vector", v3.clone());
            let v4 = chunk(&v3, s[6]);
            judge!(4, "nested vector", v4.clone());
            let v5 = chunk(&v4, s[5]);
            judge!(5, "nested vector", v5.clone());
            let v6 = chunk(&v5, s[4]);
            judge!(6, "nested vector", v6.clone());
            let v7 = chunk(&v6, s[3]);
            judge!(7, "nested vector", v7.clone());
            let v8 = chunk(&v7, s[2]);
            judge!(8, "nested vector", v8.clone());
            let s2 = slices_of!(v2);
            judge!(2, "nested slice", &s2[..]);
            let c3 = chunk(&s2, s[7]);
            let s3 = slices_of!(c3);
            judge!(3, "nested slice", &s3[..]);
            let c4 = chunk(&s3, s[6]);
            let s4 = slices_of!(c4);
            judge!(4, "nested slice", &s4[..]);
            let c5 = chunk(&s4, s[5]);
            let s5 = slices_of!(c5);
            judge!(5, "nested slice", &s5[..]);
            let c6 = chunk(&s5, s[4]);
            let s6 = slices_of!(c6);
            judge!(6, "nested slice", &s6[..]);
            let c7 = chunk(&s6, s[3]);
            let s7 = slices_of!(c7);
            judge!(7, "nested slice", &s7[..]);
            let c8 = chunk(&s7, s[2]);
            let s8 = slices_of!(c8);
            judge!(8, "nested slice", &s8[..]);
            let c9 = chunk(&s8, s[1]);
            let s9 = slices_of!(c9);
            judge!(9, "nested slice", &s9[..]);
            if ragged {
                // one row of several is longer or shorter than the others, or an element moved from one row to another
                macro_rules! refused {
                    ($k:expr, $v:expr) => {{
                        check!(Tensor::new($v.clone()).is_err(), "nested data without a shape is accepted", "depth {} {:?}", $k, shape_of_depth($k));
                        check!(Tensor::from_slice($v.clone(), into.clone()).is_err(), "nested data without a shape is accepted", "from_slice depth {} {:?} as {:?}", $k, shape_of_depth($k), into);
                    }};
                }
                if v2.len() > 1 {
                    let (at, to) = (pick % v2.len(), (pick + 1) % v2.len());
                    let mut w = v2.clone();
                    let e = w[at].pop().unwrap();
                    if how == 1 {
                        w[to].push(e);
                    }
                    refused!(2, w);
                    refused!(2, &slices_of!(w)[..]);
                    if s[7] > 1 || v3.len() > 1 {
                        let w3 = chunk(&w, s[7]);
                        refused!(3, w3);
                        let w4 = chunk(&w3, s[6]);
                        refused!(4, w4);
                        let w5 = chunk(&w4, s[5]);
                        refused!(5, w5);
                        let w6 = chunk(&w5, s[4]);
                        refused!(6, w6);
                        let w7 = chunk(&w6, s[3]);
                        refused!(7, w7);
                        let w8 = chunk(&w7, s[2]);
                        refused!(8, w8);
                        let t2 = slices_of!(w);
                        let d3 = chunk(&t2, s[7]);
                        let t3 = slices_of!(d3);
                        refused!(3, &t3[..]);
                        let d4 = chunk(&t3, s[6]);
                        let t4 = slices_of!(d4);
                        refused!(4, &t4[..]);
                    }
                }
                if v3.len() > 1 {
                    let (at, to) = (pick % v3.len(), (pick + 1) % v3.len());
                    let mut w = v3.clone();
                    let e = w[at].pop().unwrap();
                    if how == 1 {
                        w[to].push(e);
                    }
                    refused!(3, w);
                    let w4 = chunk(&w, s[6]);
                    refused!(4, w4);
                    let w5 = chunk(&w4, s[5]);
                    refused!(5, w5);
                }
            }
            // arrays: filled again and again with the values
            let at = std::cell::Cell::new(0usize);
            let next = || { let i = at.get(); at.set(i + 1); v1[i % v1.len()].clone() };
                        arrays!(next, at, dt, m; 5);
            arrays!(next, at, dt, m; 3, 2);
            arrays!(next, at, dt, m; 2, 3, 4);
            arrays!(next, at, dt, m; 2, 1, 3, 2);
            arrays!(next, at, dt, m; 2, 3, 1, 2, 2);
            arrays!(next, at, dt, m; 1, 2, 3, 2, 1, 2);
            arrays!(next, at, dt, m; 2, 1, 2, 1, 3, 2, 2);
            arrays!(next, at, dt, m; 1, 2, 1, 2, 3, 1, 2, 2);
        }};
    }
    match dt {
        DType::F32 => go!(f32, |v| v.f() as f32),
        DType::U16 => go!(u16, |v| v.i() as u16),
        DType::BF16 => go!(half::bf16, |v| half::bf16::from_f64(v.f())),
        _ => go!(bool, |v| v.truthy()),
    };
    // parts without elements
    for (what, t, sh) in [
        ("3", Tensor::new(vec![vec![Vec::<f32>::new(); n % 3 + 1]; n % 2 + 1]), vec![n % 2 + 1, n % 3 + 1, 0]),
        ("4", Tensor::new(vec![vec![Vec::<Vec<f32>>::new(); n % 3 + 1]; n % 2 + 1]), vec![n % 2 + 1, n % 3 + 1, 0, 0]),
        ("5", Tensor::new(vec![vec![vec![Vec::<Vec<f32>>::new(); 2]; n % 3 + 1]; n % 2 + 1]), vec![n % 2 + 1, n % 3 + 1, 2, 0, 0]),
        ("4 of slices", Tensor::new(&[&[&[&[] as &[f32]; 2][..]; 3][..]; 2][..]), vec![2, 3, 2, 0]),
    ] {
        if let Ok(t) = t {
            check!(t.shape().dims() == sh, "nested data without elements", "depth {} {:?} has shape {:?}", what, sh, t.shape().dims());
        }
    }
    cx.count("values_compared", (n * 20) as u64);
    Ok(())
}

fn seq(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&ALL[1..]);
    let lin = cx.rng.chance(0.4);
    if is_float(dt) {
        let big = cx.rng.chance(0.2) && bits(dt) >= 32;
        let span = if big { 1e6 } else { 40.0 };
        let a = quant(dt, cx.rng.uni(-span, span));
        let b = quant(dt, if cx.rng.chance(0.3) { a + cx.rng.range(-30, 30) as f64 * 0.5 } else { cx.rng.uni(-span, span) });
        let e = eps(dt);
        // what the sequence is computed in
        let ce = if dt == DType::F64 { eps(DType::F64) } else { eps(DType::F32) };
        let wide = if dt == DType::F64 { DType::F64 } else { DType::F32 };
        if lin {
            let n = if cx.rng.chance(0.1) { 1 } else { cx.rng.usize(0, 60) };
            cx.d(format!("linspace {:?} {} {} {}", dt, a, b, n));
            let r = Tensor::linspace(scalar_of(V::F(a), dt), scalar_of(V::F(b), dt), n);
            if n == 0 {
                check!(r.is_err(), "linspace 0", "no error for zero steps");
                return Ok(());
            }
            let t = match r { Ok(t) => t, Err(e) => bail!("linspace", "{}", e) };
            meta(&format!("linspace {:?}", dt), &t, dt, &[n])?;
            let mut exp = vec![];
            let mut tols = vec![];
            for i in 0..n {
                let x = if n == 1 { a } else { a + (b - a) * i as f64 / (n - 1) as f64 };
                exp.push(V::F(quant(dt, x)));
                tols.push(4.0 * ce * (a.abs() + b.abs()) + if dt == wide { 0.0 } else { 1.01 * e * x.abs().max(min_normal(dt)) });
            }
            cx.count("values_compared", n as u64);
            return expect_tols(&format!("linspace {:?}", dt), Ok(t), &RT::new(dt, &[n], exp), &tols);
        }
        let st = {
            let k = cx.rng.usize(1, 50) as f64;
            let mut s = quant(dt, (b - a) / if cx.rng.chance(0.5) { k } else { cx.rng.uni(0.5, 50.0) });
            if cx.rng.chance(0.1) { s = -s; }
            if cx.rng.chance(0.05) { s = 0.0; }
            s
        };
        cx.d(format!("arange {:?} {} {} {}", dt, a, b, st));
        let r = Tensor::arange(scalar_of(V::F(a), dt), scalar_of(V::F(b), dt), scalar_of(V::F(st), dt));
        if st == 0.0 || (st > 0.0 && a >= b) || (st < 0.0 && a <= b) {
            check!(r.is_err(), "arange invalid", "accepted");
            return Ok(());
        }
        let t = match r { Ok(t) => t, Err(e) => bail!("arange", "{}", e) };
        let q = (b - a) / st;
        let slack = 4.0 * ce * (q.abs() + (a.abs() + b.abs()) / st.abs());
        let n = t.size();
        check!(n as f64 >= (q - slack).ceil() && n as f64 <= (q + slack).ceil(), format!("arange {:?} length", dt), "{} elements for quotient {}", n, q);
        meta(&format!("arange {:?}", dt), &t, dt, &[n])?;
        let mut exp = vec![];
        let mut tols = vec![];
        for i in 0..n {
            let x = a + st * i as f64;
            exp.push(V::F(quant(dt, x)));
            tols.push(3.0 * ce * (a.abs() + b.abs() + st.abs()) + if dt == wide { 0.0 } else { 1.01 * e * x.abs().max(min_normal(dt)) });
        }
        cx.count("values_compared", n as u64);
        return expect_tols(&format!("arange {:?}", dt), Ok(t), &RT::new(dt, &[n], exp), &tols);
    }
    // integers: exact
    let near = |rng: &mut Rng| -> i128 {
        match rng.below(4) {
            0 => rng.range(-120, 120) as i128,
            1 => imax(dt) - rng.below(40) as i128,
            2 => imin(dt) + rng.below(40) as i128,
            _ => rng.range(-100000, 100000) as i128,
        }
        .clamp(imin(dt), imax(dt))
    };
    let a = near(&mut cx.rng);
    let b = if cx.rng.chance(0.6) { (a + cx.rng.range(-100, 100) as i128).clamp(imin(dt), imax(dt)) } else { near(&mut cx.rng) };
    if lin {
        let n = cx.rng.usize(0, 40);
        cx.d(format!("linspace {:?} {} {} {}", dt, a, b, n));
        let r = Tensor::linspace(scalar_of(V::I(a), dt), scalar_of(V::I(b), dt), n);
        if n == 0 {
            check!(r.is_err(), "linspace 0", "no error for zero steps");
            return Ok(());
        }
        let l = (n as i128 - 1).max(1);
        let exp = (0..n as i128).map(|i| V::I((a * (l - i) + b * i) / l)).collect();
        cx.count("values_compared", n as u64);
        if let Ok(t) = &r { meta("linspace int", t, dt, &[n])?; }
        return expect(&format!("linspace {:?}", dt), r, &RT::new(dt, &[n], exp), EXACT);
    }
    let mut st = cx.rng.range(1, 30) as i128 * if a > b { -1 } else { 1 };
    if (b - a).abs() / st.abs() > 2000 { st = (b - a) / cx.rng.range(1, 50) as i128; }
    if cx.rng.chance(0.1) { st = -st; }
    if cx.rng.chance(0.05) { st = 0; }
    let st = st.clamp(imin(dt), imax(dt));
    cx.d(format!("arange {:?} {} {} {}", dt, a, b, st));
    let bad_args = st == 0 || (st > 0 && a >= b) || (st < 0 && a <= b);
    if !bad_args && (b - a).abs() / st.abs() > 5000 {
        return Err(Fail::Skip);
    }
    let r = Tensor::arange(scalar_of(V::I(a), dt), scalar_of(V::I(b), dt), scalar_of(V::I(st), dt));
    if bad_args {
        check!(r.is_err(), "arange invalid", "accepted");
        return Ok(());
    }
    let mut exp = vec![];
    let mut x = a;
    while (st > 0 && x < b) || (st < 0 && x > b) {
        exp.push(V::I(x));
        x += st;
    }
    let n = exp.len();
    cx.count("values_compared", n as u64);
    if let Ok(t) = &r { meta("arange int", t, dt, &[n])?; }
    expect(&format!("arange {:?}", dt), r, &RT::new(dt, &[n], exp), EXACT)
}

/// random creation: shape, dtype, bounds and (for enough samples) moments
fn random(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FLOATS);
    let big = cx.rng.chance(0.3);
    let shape = if big { vec![cx.rng.usize(60, 90), cx.rng.usize(60, 90)] } else { gen_shape(&mut cx.rng, 0, 4, 300) };
    let n = numel(&shape);
    let ints = cx.rng.chance(0.15);
    let a = quant(dt, if ints { cx.rng.range(-8, 8) as f64 } else { cx.rng.uni(-8.0, 8.0) });
    let w = quant(dt, if ints { cx.rng.range(1, 8) as f64 } else { cx.rng.uni(0.5, 8.0) });
    let normal = cx.rng.chance(0.5);
    let like = cx.rng.chance(0.3);
    let odt = if ints { DType::F32 } else { dt };
    let b = quant(dt, a + w);
    let (p, q) = if normal { (a, w) } else { (a, b) };
    cx.d(format!("{} {:?} {:?} {} {} ints={} like={}", if normal { "randn" } else { "rand_uniform" }, dt, shape, p, q, ints, like));
    let invalid = cx.rng.chance(0.1) && !normal;
    let (p, q) = if invalid { (q, p) } else { (p, q) };
    if !normal && p == q {
        return Err(Fail::Skip); // rounding made the range empty
    }
    let l = match Tensor::zeros(shape.clone(), DType::F32) { Ok(t) => t, Err(e) => bail!("zeros", "{}", e) };
    let (sp, sq) = if ints { (Scalar::I32(p as i32), Scalar::I32(q as i32)) } else { (scalar_of(V::F(p), dt), scalar_of(V::F(q), dt)) };
    let r = match (normal, like) {
        (true, false) => Tensor::randn(shape.clone(), sp, sq),
        (true, true) => Tensor::randn_like(&l, sp, sq),
        (false, false) => Tensor::rand_uniform(shape.clone(), sp, sq),
        (false, true) => Tensor::rand_uniform_like(&l, sp, sq),
    };
    let sg = format!("{} {:?}", if normal { "randn" } else { "rand_uniform" }, odt);
    if invalid {
        check!(r.is_err(), sg + " invalid", "bounds {} {} accepted", p, q);
        return Ok(());
    }
    let t = match r { Ok(t) => t, Err(e) => bail!(sg, "{}", e) };
    meta(&sg, &t, odt, &shape)?;
    let x = match read(&t) { Ok(x) => x, Err(e) => bail!(sg, "{}", e) }.fs();
    cx.count("values_compared", n as u64);
    let slack = 2.0 * eps(odt).max(eps(DType::F32)) * p.abs().max(q.abs());
    if normal {
        for v in &x {
            check!(v.is_finite() && (v - p).abs() <= 9.0 * q + slack, sg + " outlier", "{} for mean {} std {}", v, p, q);
        }
    } else {
        for v in &x {
            check!(*v >= p - slack && *v <= q + slack, sg + " out of bounds", "{} outside {}..{}", v, p, q);
        }
    }
    if n >= 3600 {
        let mean = x.iter().sum::<f64>() / n as f64;
        let sd = (x.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / n as f64).sqrt();
        let (em, es) = if normal { (p, q) } else { ((p + q) / 2.0, (q - p) / 12f64.sqrt()) };
        // 8 standard errors plus the grid of the element type
        let grid = 2.0 * eps(odt) * (p.abs() + 3.0 * q.abs());
        check!((mean - em).abs() <= 8.0 * es / (n as f64).sqrt() + grid, sg + " mean", "{} expected {}", mean, em);
        check!((sd - es).abs() <= 8.0 * es / (n as f64).sqrt() + grid, sg + " spread", "{} expected {}", sd, es);
        let distinct: std::collections::HashSet<u64> = x.iter().map(|v| v.to_bits()).collect();
        check!(distinct.len() > 1, sg + " variety", "only {} distinct values", distinct.len());
        cx.count("moments", 1);
    }
    Ok(())
}

pub const CAST: &[Family] = &[
    fam("casts", 20000, 300000, casts),
    fam("exhaustive", 500, 3000, exhaustive),
    fam("large", 150, 1500, large),
    fam("scalars", 20000, 200000, scalars),
    fam("creation", 6000, 60000, creation),
    fam("slices", 3000, 30000, slices),
    fam("nested", 600, 8000, nested),
    fam("sequences", 12000, 120000, seq),
    fam("random", 2000, 20000, random),
];
