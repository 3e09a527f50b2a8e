//! E04: matrix products, einsum, determinants, inverses, linear systems.
use crate::cx::*;
use crate::p_elem::describe;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

const NUM: &[DType] = &[
    DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F32, DType::F32, DType::F64, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64,
];

fn mat_view(cx: &mut Cx, dt: DType, s: &[usize]) -> Result<(Tensor, RT), Fail> {
    let g = if is_float(dt) {
        *cx.rng.pick(&[Gen::Small, Gen::Small, Gen::Finite, Gen::Range(-3.0, 3.0)])
    } else {
        *cx.rng.pick(&[Gen::Small, Gen::Finite, Gen::Edge])
    };
    let l = gen_lay(&mut cx.rng);
    if l == Lay::Permuted && s.len() >= 2 && cx.rng.chance(0.5) {
        // the common case: the last two dimensions transposed
        let mut b = s.to_vec();
        let n = b.len();
        b.swap(n - 1, n - 2);
        let m = gen_rt(&mut cx.rng, dt, &b, g);
        let t = lay_op(m.t().transpose(-1, -2), "transpose")?;
        let mut p: Vec<usize> = (0..n).collect();
        p.swap(n - 1, n - 2);
        return Ok((t, m.permute(&p)));
    }
    let (t, mut m) = gen_view(&mut cx.rng, dt, s, g, l)?;
    if is_float(dt) && cx.rng.chance(0.08) && !m.data.is_empty() {
        // non-finite entries reach exactly the results they belong to
        let k = cx.rng.below(m.data.len());
        // (the 8-bit formats saturate when built from an infinite f64, so only NaN can be injected there)
        m.data[k] = V::F(if matches!(dt, DType::F8E4M3 | DType::F8E5M2) { f64::NAN } else { *cx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) });
        m.data[k] = V::F(quant(dt, m.data[k].f()));
        let t = view_of(&mut cx.rng, &m, l)?;
        return Ok((t, m));
    }
    Ok((t, m))
}

/// sum of products over the given index tuples; returns value and the tolerance scale
pub fn sop(dt: DType, terms: impl Iterator<Item = Vec<V>>) -> (V, f64) {
    if is_float(dt) {
        let (mut s, mut mag, mut n) = (0.0f64, 0.0f64, 0.0f64);
        let mut over = false;
        for t in terms {
            let mut p = 1.0;
            for v in &t {
                p *= v.f();
                if p.is_finite() && p.abs() > fparams(dt).2 * 0.4 {
                    over = true;
                }
            }
            if p.is_finite() {
                mag += p.abs();
            }
            s += p;
            n += t.len() as f64;
        }
        if over || mag > 0.4 * fparams(dt).2 {
            return (V::Any, 0.0);
        }
        // below the smallest normal the absolute rounding error of every product counts
        let sub = (n + 2.0) * min_normal(dt) * eps(dt) * 4.0;
        (V::F(s), (n + 3.0) * eps(dt) * mag * 1.1 + sub)
    } else {
        let mut s: i128 = 0;
        for t in terms {
            let mut p: i128 = 1;
            for v in &t {
                p = wrap(dt, p.wrapping_mul(v.i()));
            }
            s = wrap(dt, s + p);
        }
        (V::I(s), 0.0)
    }
}

pub fn mm_model(a: &RT, b: &RT) -> (RT, Vec<f64>) {
    // 1-D operands become row / column vectors
    let (mut sa, mut sb) = (a.shape.clone(), b.shape.clone());
    let (va, vb) = (sa.len() == 1, sb.len() == 1);
    if va {
        sa.insert(0, 1);
    }
    if vb {
        sb.push(1);
    }
    let (a2, b2) = (a.reshape(&sa), b.reshape(&sb));
    let (ba, bb) = (&sa[..sa.len() - 2], &sb[..sb.len() - 2]);
    let nb = ba.len().max(bb.len());
    let mut batch = vec![1; nb];
    for i in 0..nb {
        let x = if i < ba.len() { ba[ba.len() - 1 - i] } else { 1 };
        let y = if i < bb.len() { bb[bb.len() - 1 - i] } else { 1 };
        batch[nb - 1 - i] = x.max(y);
    }
    let (m, k, n) = (sa[sa.len() - 2], sa[sa.len() - 1], sb[sb.len() - 1]);
    let mut fa = batch.clone();
    fa.extend([m, k]);
    let mut fb = batch.clone();
    fb.extend([k, n]);
    let (a2, b2) = (a2.broadcast(&fa), b2.broadcast(&fb));
    let mut so = batch.clone();
    so.extend([m, n]);
    let nbatch = numel(&batch);
    let (mut data, mut tols) = (vec![], vec![]);
    for q in 0..nbatch {
        for i in 0..m {
            for j in 0..n {
                let (v, t) = sop(a.dt, (0..k).map(|l| vec![a2.data[(q * m + i) * k + l], b2.data[(q * k + l) * n + j]]));
                data.push(v);
                tols.push(t);
            }
        }
    }
    if vb {
        so.pop();
    }
    if va {
        let at = so.len() - if vb { 1 } else { 2 };
        so.remove(at);
    }
    (RT { dt: a.dt, shape: so, data }, tols)
}

fn dim(rng: &mut Rng, big: bool) -> usize {
    if big { rng.usize(1, 40) } else { *rng.pick(&[1, 1, 2, 3, 4, 5, 7, 8, 9]) }
}

fn matmul(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(NUM);
    let big = cx.rng.chance(0.15);
    let (m, k, n) = (dim(&mut cx.rng, big), dim(&mut cx.rng, big), dim(&mut cx.rng, big));
    let form = cx.rng.below(10);
    let (sa, sb, op) = match form {
        0 => (vec![k], vec![k], "matmul"),
        1 => (vec![m, k], vec![k], "matmul"),
        2 => (vec![k], vec![k, n], "matmul"),
        3 => (vec![k], vec![k], "dot"),
        4 => (vec![m, k], vec![k], "dot"),
        5 => (vec![k], vec![k, n], "dot"),
        6 => (vec![m, k], vec![k, n], "dot"),
        7 => (vec![m, k], vec![k, n], "matmul"),
        _ => {
            let nb = cx.rng.usize(1, if big { 1 } else { 3 });
            let b: Vec<usize> = (0..nb).map(|_| cx.rng.usize(1, 3)).collect();
            let mk = |rng: &mut Rng| -> Vec<usize> {
                let drop = if rng.chance(0.3) { rng.usize(0, nb) } else { 0 };
                b[drop..].iter().map(|&d| if rng.chance(0.3) { 1 } else { d }).collect()
            };
            let (mut x, mut y) = (mk(&mut cx.rng), mk(&mut cx.rng));
            x.extend([m, k]);
            y.extend([k, n]);
            (x, y, "matmul")
        },
    };
    let (ta, a) = mat_view(cx, dt, &sa)?;
    let (tb, b) = mat_view(cx, dt, &sb)?;
    describe(cx, &ta, &a);
    describe(cx, &tb, &b);
    cx.d(format!("{} {:?}x{:?} {} {}", op, sa, sb, a.show(), b.show()));
    let (e, tols) = mm_model(&a, &b);
    cx.count(&format!("{} {}d{}d", op, sa.len().min(3), sb.len().min(3)), 1);
    let r = if op == "dot" { ta.dot(&tb) } else { ta.matmul(&tb) };
    expect_tols(&format!("{} {:?} {}d x {}d", op, dt, sa.len().min(3), sb.len().min(3)), r, &e, &tols)
}

/// large products: blocked, threaded and BLAS paths, against integer-valued operands (exact in every order)
fn matmul_large(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F32, DType::F64, DType::I32, DType::BF16]);
    let lim = if cx.thorough { 220 } else { 130 };
    let (m, k, n) = (cx.rng.usize(20, lim), cx.rng.usize(20, lim), cx.rng.usize(20, lim));
    let nb = if cx.rng.chance(0.3) { cx.rng.usize(1, 3) } else { 0 };
    let mk = |cx: &mut Cx, r: usize, c: usize| -> Result<(Tensor, RT), Fail> {
        let mut s = if nb > 0 && cx.rng.chance(0.7) { vec![nb] } else { vec![] };
        s.extend([r, c]);
        let lo = if dt == DType::BF16 { 1 } else { 4 };
        let mut m = gen_rt(&mut cx.rng, dt, &s, Gen::Small);
        for v in m.data.iter_mut() {
            let x = cx.rng.range(-lo, lo);
            *v = if is_float(dt) { V::F(x as f64) } else { V::I(x as i128) };
        }
        let l = gen_lay(&mut cx.rng);
        let l = if l == Lay::Broadcast { Lay::Permuted } else { l };
        Ok((view_of(&mut cx.rng, &m, l)?, m))
    };
    let (ta, a) = mk(cx, m, k)?;
    let (tb, b) = mk(cx, k, n)?;
    describe(cx, &ta, &a);
    describe(cx, &tb, &b);
    cx.d(format!("{:?}x{:?}", a.shape, b.shape));
    let (e, _) = mm_model(&a, &b);
    let r = if a.shape.len() == 2 && b.shape.len() == 2 && cx.rng.chance(0.5) { ta.dot(&tb) } else { ta.matmul(&tb) };
    expect(&format!("large matmul {:?}", dt), r, &e, EXACT)
}

/// many rows: the products whose rows are split over threads, for every element type
fn matmul_rows(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[INTS, FLOATS].concat());
    let (m, k, n) = (cx.rng.usize(500, 2100), cx.rng.usize(1, if dt == DType::F8E5M2 { 2 } else { 4 }), cx.rng.usize(1, 4));
    let mk = |cx: &mut Cx, r: usize, c: usize| -> RT {
        let neg = !is_unsigned(dt);
        RT::from_fn(dt, &[r, c], |_| { let x = cx.rng.range(if neg { -2 } else { 0 }, 2); if is_float(dt) { V::F(x as f64) } else { V::I(x as i128) } })
    };
    let (a, b) = (mk(cx, m, k), mk(cx, k, n));
    let la = if cx.rng.chance(0.7) { Lay::Contig } else { *cx.rng.pick(&[Lay::Sliced, Lay::Permuted]) };
    let (ta, tb) = (view_of(&mut cx.rng, &a, la)?, b.t());
    describe(cx, &ta, &a);
    describe(cx, &tb, &b);
    let (e, _) = mm_model(&a, &b);
    let r = if cx.rng.chance(0.5) { ta.dot(&tb) } else { ta.matmul(&tb) };
    expect(&format!("many-row matmul {:?}", dt), r, &e, EXACT)
}

fn einsum(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(NUM);
    let letters: Vec<char> = (*cx.rng.pick(&["abcdefg", "ijklmnz", "xXaAbBz", "zyxwvut"])).chars().collect();
    let nl = cx.rng.usize(1, 6);
    let sizes: Vec<usize> = (0..nl).map(|_| cx.rng.usize(1, 4)).collect();
    let nt = *cx.rng.pick(&[1, 1, 2, 2, 2, 3, 4]);
    let subs: Vec<Vec<usize>> = (0..nt).map(|_| (0..cx.rng.usize(if nt > 1 { 0 } else { 1 }, 4)).map(|_| cx.rng.below(nl)).collect()).collect();
    let mut used: Vec<usize> = subs.iter().flatten().cloned().collect();
    let counts: Vec<usize> = (0..nl).map(|i| used.iter().filter(|&&x| x == i).count()).collect();
    used.sort();
    used.dedup();
    if used.iter().map(|&i| sizes[i]).product::<usize>() > 2000 {
        return Err(Fail::Skip);
    }
    let implicit = cx.rng.chance(0.25);
    let out: Vec<usize> = if implicit {
        let mut o: Vec<usize> = used.iter().cloned().filter(|&i| counts[i] == 1).collect();
        o.sort_by_key(|&i| letters[i]);
        o
    } else {
        let mut o: Vec<usize> = used.iter().cloned().filter(|_| cx.rng.chance(0.5)).collect();
        cx.rng.shuffle(&mut o);
        o
    };
    let w = |v: &[usize]| v.iter().map(|&i| letters[i]).collect::<String>();
    let sp = if cx.rng.chance(0.3) { " " } else { "" };
    let mut eq = subs.iter().map(|s| w(s)).collect::<Vec<_>>().join(&format!(",{}", sp));
    if !implicit {
        eq += &format!("{}->{}{}", sp, sp, w(&out));
    }
    let mut ts = vec![];
    let mut ms = vec![];
    for s in &subs {
        let shape: Vec<usize> = s.iter().map(|&i| sizes[i]).collect();
        let (t, m) = if is_float(dt) && fparams(dt).2 < 1e6 {
            let l = gen_lay(&mut cx.rng);
            gen_view(&mut cx.rng, dt, &shape, Gen::Small, l)?
        } else {
            mat_view(cx, dt, &shape)?
        };
        describe(cx, &t, &m);
        ts.push(t);
        ms.push(m);
    }
    cx.d(&eq);
    cx.count(&format!("einsum {} operands{}", nt, if implicit { " implicit" } else { "" }), 1);
    let contr: Vec<usize> = used.iter().cloned().filter(|i| !out.contains(i)).collect();
    let os: Vec<usize> = out.iter().map(|&i| sizes[i]).collect();
    let cs: Vec<usize> = contr.iter().map(|&i| sizes[i]).collect();
    let (mut data, mut tols) = (vec![], vec![]);
    for o in 0..numel(&os) {
        let oi = unravel(o, &os);
        let (v, t) = sop(
            dt,
            (0..numel(&cs)).map(|c| {
                let ci = unravel(c, &cs);
                let mut val = vec![0; nl];
                for (p, &i) in out.iter().enumerate() {
                    val[i] = oi[p];
                }
                for (p, &i) in contr.iter().enumerate() {
                    val[i] = ci[p];
                }
                ms.iter().zip(&subs).map(|(m, s)| m.at(&s.iter().map(|&i| val[i]).collect::<Vec<_>>())).collect()
            }),
        );
        data.push(v);
        tols.push(t);
    }
    let e = RT { dt, shape: os, data };
    let refs: Vec<&Tensor> = ts.iter().collect();
    expect_tols(&format!("einsum {:?}", dt), Tensor::einsum(&eq, &refs), &e, &tols)
}

// ---- linear algebra -------------------------------------------------------------------------

/// a random well-conditioned matrix: permuted rows of a diagonally dominant one, so pivoting is needed
fn well(rng: &mut Rng, dt: DType, n: usize, scale: f64) -> Vec<f64> {
    let mut p: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut p);
    let exactish = fparams(dt).0 < 8;
    let mut a = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            a[p[i] * n + j] = if i == j {
                (if rng.chance(0.5) { 1.0 } else { -1.0 }) * if exactish { *rng.pick(&[1.0, 2.0]) } else { rng.uni(1.0, 3.0) }
            } else if exactish || rng.chance(0.3) {
                0.0
            } else {
                rng.uni(-0.6, 0.6) / n as f64
            };
        }
    }
    a.iter().map(|&x| quant(dt, x * scale)).collect()
}
/// value and condition-like growth bound by Gaussian elimination with full f64 partial pivoting
fn det64(a: &[f64], n: usize) -> f64 {
    let mut m = a.to_vec();
    let mut d = 1.0;
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if m[i * n + k].abs() > m[p * n + k].abs() {
                p = i;
            }
        }
        if m[p * n + k] == 0.0 {
            return 0.0;
        }
        if p != k {
            for j in 0..n {
                m.swap(k * n + j, p * n + j);
            }
            d = -d;
        }
        d *= m[k * n + k];
        for i in k + 1..n {
            let f = m[i * n + k] / m[k * n + k];
            for j in k..n {
                m[i * n + j] -= f * m[k * n + j];
            }
        }
    }
    d
}
/// determinant by expansion over permutations, modulo the type's width (exact)
fn det_int(dt: DType, a: &[i128], n: usize) -> i128 {
    if n == 0 {
        return 1;
    }
    fn rec(dt: DType, a: &[i128], n: usize, row: usize, used: u32) -> i128 {
        if row == n {
            return 1;
        }
        let mut s = 0i128;
        let mut sign = 1i128;
        for c in 0..n {
            if used & (1 << c) == 0 {
                let sub = rec(dt, a, n, row + 1, used | (1 << c));
                s = wrap(dt, s + sign * wrap(dt, a[row * n + c].wrapping_mul(sub)));
                sign = -sign;
            }
        }
        s
    }
    rec(dt, a, n, 0, 0)
}
fn inv64(a: &[f64], n: usize) -> Vec<f64> {
    let mut m = a.to_vec();
    let mut r = vec![0.0; n * n];
    for i in 0..n {
        r[i * n + i] = 1.0;
    }
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if m[i * n + k].abs() > m[p * n + k].abs() {
                p = i;
            }
        }
        for j in 0..n {
            if p != k {
                m.swap(k * n + j, p * n + j);
                r.swap(k * n + j, p * n + j);
            }
        }
        let d = m[k * n + k];
        for j in 0..n {
            m[k * n + j] /= d;
            r[k * n + j] /= d;
        }
        for i in 0..n {
            if i != k {
                let f = m[i * n + k];
                for j in 0..n {
                    m[i * n + j] -= f * m[k * n + j];
                    r[i * n + j] -= f * r[k * n + j];
                }
            }
        }
    }
    r
}
fn norm(a: &[f64], n: usize) -> f64 {
    (0..n).map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn batch(rng: &mut Rng) -> Vec<usize> {
    match rng.below(4) {
        0 | 1 => vec![],
        2 => vec![rng.usize(1, 3)],
        _ => vec![rng.usize(1, 3), rng.usize(1, 2)],
    }
}
fn mats(cx: &mut Cx, dt: DType, n: usize, b: &[usize], kind: usize) -> RT {
    let mut s = b.to_vec();
    s.extend([n, n]);
    let scale = match kind {
        1 if dt == DType::F64 => 2f64.powi(cx.rng.range(-60, 60) as i32),
        1 if dt == DType::F32 => 2f64.powi(cx.rng.range(-20, 20) as i32 / n as i32),
        _ => 1.0,
    };
    let mut data = vec![];
    for _ in 0..numel(b) {
        if is_float(dt) {
            data.extend(well(&mut cx.rng, dt, n, scale).into_iter().map(V::F));
        } else {
            let g = if kind == 1 { Gen::Edge } else { Gen::Small };
            let m = gen_rt(&mut cx.rng, dt, &[n, n], g);
            let mut d = m.data;
            if cx.rng.chance(0.2) && n > 1 {
                // singular
                for j in 0..n {
                    d[(n - 1) * n + j] = d[j];
                }
            }
            data.extend(d);
        }
    }
    RT { dt, shape: s, data }
}

fn det(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(NUM);
    let n = if is_float(dt) { cx.rng.usize(1, 8) } else { cx.rng.usize(1, 6) };
    let b = batch(&mut cx.rng);
    let kind = cx.rng.below(3);
    let m = mats(cx, dt, n, &b, kind);
    let l = gen_lay(&mut cx.rng);
    let t = view_of(&mut cx.rng, &m, l)?;
    describe(cx, &t, &m);
    cx.d(format!("det n {} batch {:?}", n, b));
    let mut data = vec![];
    let mut tols = vec![];
    for q in 0..numel(&b) {
        let blk = &m.data[q * n * n..(q + 1) * n * n];
        if is_float(dt) {
            let a: Vec<f64> = blk.iter().map(|v| v.f()).collect();
            let d = det64(&a, n);
            let cond = norm(&a, n) * norm(&inv64(&a, n), n);
            let had: f64 = (0..n).map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>()).product();
            if !(had < 0.4 * fparams(dt).2) || d.abs() < min_normal(dt) * 16.0 {
                data.push(V::Any);
            } else {
                data.push(V::F(d));
            }
            tols.push(4.0 * (n * n) as f64 * eps(dt) * had.max(d.abs() * cond));
        } else {
            let a: Vec<i128> = blk.iter().map(|v| v.i()).collect();
            data.push(V::I(det_int(dt, &a, n)));
            tols.push(0.0);
        }
    }
    let e = RT { dt, shape: if b.is_empty() { vec![1] } else { b.clone() }, data };
    cx.count(&format!("det n={}", n.min(4)), 1);
    expect_tols(&format!("det {:?} n{}", dt, n.min(4)), t.det(), &e, &tols)
}

fn trace(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(NUM);
    let n = cx.rng.usize(1, 6);
    let b = batch(&mut cx.rng);
    let mut s = b.clone();
    s.extend([n, n]);
    let (t, m) = mat_view(cx, dt, &s)?;
    describe(cx, &t, &m);
    cx.d("trace");
    let (mut data, mut tols) = (vec![], vec![]);
    for q in 0..numel(&b) {
        let (v, tl) = sop(dt, (0..n).map(|i| vec![m.data[q * n * n + i * n + i]]));
        data.push(v);
        tols.push(tl);
    }
    expect_tols(&format!("trace {:?}", dt), t.trace(), &RT { dt, shape: if b.is_empty() { vec![1] } else { b }, data }, &tols)
}

fn inv(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FLOATS);
    let n = cx.rng.usize(1, 8);
    let b = batch(&mut cx.rng);
    let kind = cx.rng.below(3);
    let m = mats(cx, dt, n, &b, kind);
    let l = gen_lay(&mut cx.rng);
    let t = view_of(&mut cx.rng, &m, l)?;
    describe(cx, &t, &m);
    cx.d(format!("inv n {} batch {:?}", n, b));
    let r = match t.inv() {
        Ok(r) => r,
        Err(e) => bail!(format!("inv {:?}: error", dt), "returned error {}", e),
    };
    let (mut data, mut tols) = (vec![], vec![]);
    for q in 0..numel(&b) {
        let a: Vec<f64> = m.data[q * n * n..(q + 1) * n * n].iter().map(|v| v.f()).collect();
        let x = inv64(&a, n);
        let nx = norm(&x, n);
        let cond = norm(&a, n) * nx;
        let had: f64 = (0..n).map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>()).product();
        // the closed forms for n <= 3 go through the determinant and the adjugate
        let unsafe_range = n <= 3 && (had > 0.1 * fparams(dt).2 || had < min_normal(dt) * 1e4 || 1.0 / had > 0.1 * fparams(dt).2);
        for v in x {
            data.push(if unsafe_range { V::Any } else { V::F(v) });
            tols.push(8.0 * (n * n) as f64 * eps(dt) * cond * nx);
        }
    }
    let _ = &r;
    expect_tols(&format!("inv {:?} n{}", dt, n.min(4)), Ok(r), &RT { dt, shape: m.shape.clone(), data }, &tols)
}

/// inverses of integer matrices: exact for unimodular ones, defined (no trap) for all others
fn inv_int(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::I8, DType::I16, DType::I32, DType::I64, DType::U8, DType::U16, DType::U32, DType::U64]);
    let n = cx.rng.usize(1, 5);
    if cx.rng.chance(0.4) {
        let kind = cx.rng.below(2);
        let m = mats(cx, dt, n, &[], kind);
        let t = m.t();
        describe(cx, &t, &m);
        cx.d("inv of an arbitrary integer matrix");
        check!(t.inv().is_ok(), format!("inv {:?}: error", dt), "inv refused an integer matrix");
        return Ok(());
    }
    // product of elementary matrices
    let mut a = vec![0i128; n * n];
    for i in 0..n {
        a[i * n + i] = 1;
    }
    for _ in 0..cx.rng.usize(0, 4) {
        let (i, j) = (cx.rng.below(n), cx.rng.below(n));
        if i != j {
            let f = if is_unsigned(dt) { 1 } else { cx.rng.range(-1, 1) as i128 };
            for c in 0..n {
                a[i * n + c] += f * a[j * n + c];
            }
        }
    }
    if !is_unsigned(dt) && n > 1 && cx.rng.chance(0.5) {
        for c in 0..n {
            a.swap(c, n + c);
        }
    }
    if a.iter().any(|x| x.abs() > 20) {
        return Err(Fail::Skip);
    }
    let m = RT { dt, shape: vec![n, n], data: a.iter().map(|&x| V::I(x)).collect() };
    let l = gen_lay(&mut cx.rng);
    let t = view_of(&mut cx.rng, &m, l)?;
    describe(cx, &t, &m);
    cx.d("inv of a unimodular integer matrix");
    let x = inv64(&a.iter().map(|&x| x as f64).collect::<Vec<_>>(), n);
    let e = RT { dt, shape: vec![n, n], data: x.iter().map(|v| V::I(wrap(dt, v.round() as i128))).collect() };
    expect(&format!("integer inv {:?}", dt), t.inv(), &e, EXACT)
}

fn solve(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F64, DType::F32, DType::F64, DType::BF16, DType::F16]);
    let n = cx.rng.usize(1, 7);
    let bt = batch(&mut cx.rng);
    let a = mats(cx, dt, n, &bt, 0);
    let l = gen_lay(&mut cx.rng);
    let ta = view_of(&mut cx.rng, &a, l)?;
    // b: a vector, a stack of vectors, or matrices
    let k = cx.rng.usize(1, 3);
    let mut sb = bt.clone();
    let vector = match cx.rng.below(3) {
        0 => {
            sb = vec![n];
            true
        },
        1 => {
            sb.push(n);
            true
        },
        _ => {
            sb.extend([n, k]);
            false
        },
    };
    let l = gen_lay(&mut cx.rng);
    let (tb, b) = gen_view(&mut cx.rng, dt, &sb, Gen::Small, l)?;
    describe(cx, &ta, &a);
    describe(cx, &tb, &b);
    cx.d(format!("solve {:?} \\ {:?}", a.shape, sb));
    let kk = if vector { 1 } else { k };
    let mut so = bt.clone();
    so.push(n);
    if !vector {
        so.push(k);
    }
    let (mut data, mut tols) = (vec![], vec![]);
    for q in 0..numel(&bt) {
        let m: Vec<f64> = a.data[q * n * n..(q + 1) * n * n].iter().map(|v| v.f()).collect();
        let x = inv64(&m, n);
        let (nx, na) = (norm(&x, n), norm(&m, n));
        let base = if sb.len() == 1 { 0 } else { q * n * kk };
        let nb = (0..n * kk).map(|i| b.data[base + i].f().abs()).fold(0.0, f64::max);
        for i in 0..n {
            for j in 0..kk {
                data.push(V::F((0..n).map(|c| x[i * n + c] * b.data[base + c * kk + j].f()).sum()));
                tols.push(16.0 * (n * n) as f64 * eps(dt) * na * nx * nx * nb + min_normal(dt));
            }
        }
    }
    expect_tols(&format!("solve {:?} b{}", dt, if sb.len() == 1 { "1d" } else if vector { "stack of vectors" } else { "matrix" }), ta.solve(&tb), &RT { dt, shape: so, data }, &tols)
}

pub const MAT: &[Family] = &[
    fam("matmul", 30000, 300000, matmul),
    fam("matmul_large", 400, 6000, matmul_large),
    fam("matmul_rows", 200, 2000, matmul_rows),
    fam("einsum", 16000, 160000, einsum),
    fam("det", 10000, 100000, det),
    fam("trace", 5000, 50000, trace),
    fam("inv", 10000, 100000, inv),
    fam("inv_int", 6000, 60000, inv_int),
    fam("solve", 8000, 80000, solve),
];
