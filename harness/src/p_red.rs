//! E03: reductions, softmax family, cumulative sums.
use crate::cx::*;
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::p_elem::{describe, scalar_of};
use hodu_core::types::DType;

/// (output shape, for every output element: the reduced elements with their index along the first reduced dimension)
pub fn groups(x: &RT, dims: &[usize], keep: bool) -> (Vec<usize>, Vec<Vec<(usize, V)>>) {
    let mut os = vec![];
    for (d, &n) in x.shape.iter().enumerate() {
        if dims.contains(&d) {
            if keep {
                os.push(1);
            }
        } else {
            os.push(n);
        }
    }
    let kept: Vec<usize> = (0..x.shape.len()).filter(|d| !dims.contains(d)).collect();
    let ks: Vec<usize> = kept.iter().map(|&d| x.shape[d]).collect();
    let mut g = vec![vec![]; numel(&os)];
    for i in 0..x.data.len() {
        let ix = unravel(i, &x.shape);
        let k: Vec<usize> = kept.iter().map(|&d| ix[d]).collect();
        g[ravel(&k, &ks)].push((dims.first().map(|&d| ix[d]).unwrap_or(0), x.data[i]));
    }
    (os, g)
}

pub fn red_shape(rng: &mut Rng) -> Vec<usize> {
    match rng.below(8) {
        0 => vec![rng.usize(1, 70)],
        1 => vec![rng.usize(1, 4), rng.usize(7, 40)],
        2 => vec![rng.usize(7, 40), rng.usize(1, 4)],
        _ => gen_shape(rng, 0, 4, 160),
    }
}
/// a random (possibly negative) spelling of dims
pub fn spell(rng: &mut Rng, dims: &[usize], nd: usize) -> Vec<i32> {
    dims.iter().map(|&d| if rng.chance(0.4) { d as i32 - nd as i32 } else { d as i32 }).collect()
}
fn comp(dt: DType) -> f64 {
    eps(dt)
}

/// reference of one group: (value, absolute tolerance)
fn red_f(op: &str, dt: DType, g: &[f64], p: f64) -> (V, f64) {
    let n = g.len() as f64;
    let e = comp(dt);
    let maxf = fparams(dt).2;
    let sa: f64 = g.iter().map(|x| x.abs()).sum();
    let any = (V::Any, 0.0);
    if g.iter().any(|x| x.is_nan()) && matches!(op, "max" | "min") {
        return any;
    }
    let nonfin = g.iter().any(|x| !x.is_finite());
    let huge = |x: f64| x > 0.45 * maxf;
    match op {
        "sum" | "mean" => {
            let fsa: f64 = g.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
            if huge(fsa) {
                return any;
            }
            let s: f64 = g.iter().sum();
            let t = e * (n + 2.0) * sa + n * 2f64.powi(fparams(dt).1 - fparams(dt).0);
            if op == "sum" { (V::F(s), t) } else { (V::F(s / n), t / n + 2.0 * e * (s / n).abs()) }
        },
        "prod" => {
            let mut pr = 1.0f64;
            let mut grow = 1.0;
            for x in g {
                pr *= x;
                grow *= 1.0 + e;
                if pr != 0.0 && (pr.abs() * grow > 0.45 * maxf || pr.abs() < 4.0 * min_normal(dt)) && x.is_finite() {
                    return any;
                }
            }
            (V::F(pr), e * (n + 2.0) * pr.abs())
        },
        "max" => (V::F(g.iter().cloned().fold(f64::NEG_INFINITY, f64::max)), 0.0),
        "min" => (V::F(g.iter().cloned().fold(f64::INFINITY, f64::min)), 0.0),
        "var" | "std" => {
            if nonfin {
                return (V::F(f64::NAN), 0.0);
            }
            let m = g.iter().sum::<f64>() / n;
            let r = g.iter().map(|x| (x - m).abs()).fold(0.0, f64::max);
            let big = g.iter().map(|x| x.abs()).fold(0.0, f64::max);
            if huge(4.0 * r * r * n) || huge(sa) {
                return any;
            }
            let v = g.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n;
            // (a two-pass or shifted algorithm: error relative to the spread, plus the rounding of the mean)
            let dv = e * (n + 8.0) * 8.0 * r * r + n * n * e * e * big * big + (n + 1.0) * 4.0 * 2f64.powi(fparams(dt).1 - fparams(dt).0);
            if dv >= fparams(dt).2 {
                return any;
            }
            if op == "var" { (V::F(v), dv) } else { (V::F(v.sqrt()), if v == 0.0 { dv.sqrt() } else { (dv / v.sqrt()).min(dv.sqrt()) + 4.0 * e * v.sqrt() }) }
        },
        "l2_norm" => {
            let s: f64 = g.iter().map(|x| x * x).sum();
            if nonfin { return if g.iter().any(|x| x.is_nan()) { (V::F(f64::NAN), 0.0) } else { (V::F(f64::INFINITY), f64::INFINITY) }; }
            if huge(s) { return any; }
            (V::F(s.sqrt()), e * (n + 6.0) * s.sqrt() + (n * 2f64.powi(fparams(dt).1 - fparams(dt).0)).sqrt())
        },
        "l1_norm" => (if !nonfin && huge(sa) { V::Any } else { V::F(sa) }, e * (n + 2.0) * sa),
        "norm" => {
            let s: f64 = g.iter().map(|x| x.abs().powf(p)).sum();
            if huge(s) || nonfin { return any; }
            let r = s.powf(1.0 / p);
            (V::F(r), e * (n + 12.0) * 3.0 * r + (n * 2f64.powi(fparams(dt).1 - fparams(dt).0)).powf(1.0 / p))
        },
        "logsum" => {
            let s: f64 = g.iter().sum();
            if nonfin || huge(sa) || s <= 0.05 * sa { return any; }
            let l = s.ln();
            (V::F(l), e * (n + 4.0) * sa / s * 1.5 + 4.0 * e * l.abs())
        },
        "logsumexp" => {
            if g.iter().any(|x| x.is_nan()) { return if g.contains(&f64::INFINITY) { any } else { (V::F(f64::NAN), 0.0) }; }
            let m = g.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if m.is_infinite() { return (V::F(m), 0.0); }
            let l = m + g.iter().map(|x| (x - m).exp()).sum::<f64>().ln();
            let ce = if dt == DType::F64 { 2e-16 } else { 6e-8 };
            (V::F(l), ce * (n + 12.0) * 2.0 + ce * 8.0 * m.abs() + e * l.abs() + 2f64.powi(fparams(dt).1 - fparams(dt).0))
        },
        _ => unreachable!(),
    }
}

pub fn reduce(cx: &mut Cx) -> R {
    const OPS: &[&str] = &["sum", "sum", "mean", "max", "min", "prod", "var", "std", "l2_norm", "l1_norm", "norm", "logsum", "logsumexp", "any", "all"];
    let op = *cx.rng.pick(OPS);
    let fl = matches!(op, "mean" | "var" | "std" | "l2_norm" | "norm" | "logsum" | "logsumexp");
    let dts: Vec<DType> = match op {
        "any" | "all" => ALL.to_vec(),
        "l1_norm" => ALL.iter().cloned().filter(|&d| d != DType::BOOL && !is_unsigned(d)).collect(),
        _ if fl => FLOATS.to_vec(),
        _ => ALL[1..].to_vec(),
    };
    let dt = *cx.rng.pick(&dts);
    let mut shape = red_shape(&mut cx.rng);
    if op == "norm" && shape.is_empty() {
        shape = vec![3];
    }
    let nd = shape.len();
    let g = match op {
        "logsum" => Gen::Pos,
        "any" | "all" => Gen::Edge,
        "prod" if is_float(dt) => Gen::Range(-1.6, 1.6),
        "var" | "std" | "mean" if cx.rng.chance(0.3) => { let c = cx.rng.uni(-40.0, 40.0); Gen::Range(c, c + 1.0) },
        _ => if cx.rng.chance(0.15) { Gen::Edge } else { Gen::Finite },
    };
    let lay = gen_lay(&mut cx.rng);
    let (t, mut r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    let mut t = t;
    if matches!(op, "any" | "all") && cx.rng.chance(0.7) {
        // sparse: mostly zero / mostly non-zero, so that every element can decide
        let one = |b: bool| if dt == DType::BOOL { V::B(b) } else if is_float(dt) { V::F(b as u8 as f64) } else { V::I(b as i128) };
        let base = op == "all";
        let mut c = RT { dt, shape: shape.clone(), data: vec![one(base); numel(&shape)] };
        if is_float(dt) && cx.rng.chance(0.5) && !base {
            for v in c.data.iter_mut() { if cx.rng.chance(0.5) { *v = V::F(-0.0); } }
        }
        if cx.rng.chance(0.6) {
            let k = cx.rng.below(c.data.len());
            c.data[k] = one(!base);
        }
        t = view_of(&mut cx.rng, &c, lay)?;
        r = c;
    }
    if matches!(op, "var" | "std") && cx.rng.chance(0.2) {
        // constant input: exactly zero variance
        let v = gen_v(&mut cx.rng, dt, Gen::Finite);
        let c = RT { dt, shape: shape.clone(), data: vec![v; numel(&shape)] };
        t = view_of(&mut cx.rng, &c, lay)?;
        r = c;
    }
    describe(cx, &t, &r);
    let mut dims: Vec<usize> = (0..nd).collect();
    cx.rng.shuffle(&mut dims);
    let all = cx.rng.chance(0.2);
    let k = if nd == 0 { 0 } else { cx.rng.usize(1, nd) };
    dims.truncate(k);
    let sp = if all { vec![] } else { spell(&mut cx.rng, &dims, nd) };
    if all {
        dims = (0..nd).collect();
    }
    let keep = cx.rng.chance(0.5);
    let p = *cx.rng.pick(&[3.0, 1.0, 2.0, 4.0]);
    cx.d(format!("{} dims{:?} keep{} p{}", op, sp, keep, p));
    let (os, gs) = groups(&r, &dims, keep);
    let odt = if matches!(op, "any" | "all") { DType::BOOL } else { dt };
    let mut exp = RT { dt: odt, shape: os.clone(), data: vec![] };
    let mut tols = vec![];
    for g in &gs {
        let (v, tv) = if op == "any" {
            (V::B(g.iter().any(|x| x.1.f().is_nan() || x.1.truthy())), 0.0)
        } else if op == "all" {
            (V::B(g.iter().all(|x| x.1.f().is_nan() || x.1.truthy())), 0.0)
        } else if is_float(dt) {
            let xs: Vec<f64> = g.iter().map(|x| x.1.f()).collect();
            let o = if op == "norm" && p == 1.0 { "l1_norm" } else if op == "norm" && p == 2.0 { "l2_norm" } else { op };
            red_f(o, dt, &xs, p)
        } else {
            let it = g.iter().map(|x| x.1.i());
            let v = match op {
                "sum" => it.fold(0i128, |a, b| wrap(dt, a + b)),
                "l1_norm" => it.fold(0i128, |a, b| wrap(dt, a + wrap(dt, b.abs()))),
                "prod" => it.fold(1i128, |a, b| wrap(dt, a.wrapping_mul(b))),
                "max" => it.max().unwrap(),
                "min" => it.min().unwrap(),
                _ => unreachable!(),
            };
            (V::I(v), 0.0)
        };
        exp.data.push(v);
        tols.push(tv);
    }
    let d = &sp[..];
    let got = match op {
        "sum" if all && !keep => t.sum_all(),
        "mean" if all && !keep => t.mean_all(),
        "std" if all && !keep => t.std_all(),
        "var" if all && !keep => t.var_all(),
        "sum" => t.sum(d, keep),
        "mean" => t.mean(d, keep),
        "max" => t.max(d, keep),
        "min" => t.min(d, keep),
        "prod" => t.prod(d, keep),
        "var" => t.var(d, keep),
        "std" => t.std(d, keep),
        "l2_norm" => t.l2_norm(d, keep),
        "l1_norm" => t.l1_norm(d, keep),
        "norm" => t.norm(scalar_of(V::F(p), dt), d, keep),
        "logsum" => t.logsum(d, keep),
        "logsumexp" => t.logsumexp(d, keep),
        "any" => t.any(d, keep),
        "all" => t.all(d, keep),
        _ => unreachable!(),
    };
    expect_tols(&format!("reduce {} {:?}", op, dt), got, &exp, &tols)
}

pub fn arg(cx: &mut Cx) -> R {
    let max = cx.rng.chance(0.5);
    let dt = *cx.rng.pick(ALL);
    let mut shape = red_shape(&mut cx.rng);
    if shape.is_empty() {
        shape = vec![1];
    }
    let nd = shape.len();
    let lay = gen_lay(&mut cx.rng);
    let g = if cx.rng.chance(0.5) { Gen::Distinct } else { Gen::Finite };
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    describe(cx, &t, &r);
    let d = cx.rng.below(nd);
    let keep = cx.rng.chance(0.5);
    let sp = if nd == 1 && cx.rng.chance(0.4) { vec![] } else { spell(&mut cx.rng, &[d], nd) };
    cx.d(format!("arg{} dims{:?} keep{}", if max { "max" } else { "min" }, sp, keep));
    let (os, gs) = groups(&r, &[d], keep);
    let sig = format!("arg{} {:?}", if max { "max" } else { "min" }, dt);
    let got = if max { t.argmax(&sp, keep) } else { t.argmin(&sp, keep) };
    let got = match got {
        Ok(g) => g,
        Err(e) => return bad(format!("{}: error", sig), format!("returned error: {}", e)),
    };
    let got = read(&got).or_else(|e| bad(format!("{}: unreadable", sig), e))?;
    check!(got.dt == DType::I32, format!("{}: dtype", sig), "index tensor has dtype {:?}", got.dt);
    check!(got.shape == os, format!("{}: shape", sig), "shape {:?}, expected {:?}", got.shape, os);
    for (i, g) in gs.iter().enumerate() {
        let k = got.data[i].i();
        let best = g.iter().map(|x| if is_float(dt) { x.1.f() } else { x.1.i() as f64 }).fold(if max { f64::NEG_INFINITY } else { f64::INFINITY }, |a, b| if max { a.max(b) } else { a.min(b) });
        let ok = k >= 0 && g.iter().any(|x| x.0 as i128 == k && x.1.f() == best);
        check!(ok, format!("{}: wrong", sig), "output {} is index {} but the extreme value {} is not there; group {:?}", i, k, best, g.iter().map(|x| x.1.f()).collect::<Vec<_>>());
    }
    Ok(())
}

pub fn softmax(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FLOATS);
    let log = cx.rng.chance(0.5);
    let mut shape = red_shape(&mut cx.rng);
    if shape.is_empty() {
        shape = vec![2];
    }
    let nd = shape.len();
    let lay = gen_lay(&mut cx.rng);
    let g = if dt != DType::F8E4M3 && cx.rng.chance(0.3) { Gen::Range(-60.0, 60.0) } else { Gen::Finite };
    // a large common offset must not matter
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    describe(cx, &t, &r);
    let d = cx.rng.below(nd);
    let sp = spell(&mut cx.rng, &[d], nd)[0];
    cx.d(format!("{} dim{}", if log { "log_softmax" } else { "softmax" }, sp));
    let e = eps(dt);
    let n = shape[d] as f64;
    let mut exp = r.clone();
    let mut tols = vec![0.0; r.data.len()];
    for i in 0..r.data.len() {
        let ix = unravel(i, &shape);
        let xs: Vec<f64> = (0..shape[d]).map(|k| { let mut j = ix.clone(); j[d] = k; r.at(&j).f() }).collect();
        let m = xs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = xs.iter().map(|x| (x - m).exp()).sum();
        let sh = r.data[i].f() - m;
        // rounding of the shifted arguments moves every exponential by a relative eps*|shift|
        let wsh = xs.iter().map(|x| (x - m).abs() * (x - m).exp()).sum::<f64>() / s;
        let sub = 2f64.powi(fparams(dt).1 - fparams(dt).0);
        let rel = e * (sh.abs() + wsh + n + 6.0) + n * sub;
        if log {
            exp.data[i] = V::F(sh - s.ln());
            tols[i] = rel + 3.0 * e * (sh - s.ln()).abs();
        } else {
            let p = sh.exp() / s;
            exp.data[i] = V::F(p);
            tols[i] = rel * p + 2.0 * sub;
        }
    }
    let got = if log { t.log_softmax(sp) } else { t.softmax(sp) };
    expect_tols(&format!("{} {:?}", if log { "log_softmax" } else { "softmax" }, dt), got, &exp, &tols)
}

pub fn cumsum(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&ALL[1..]);
    let mut shape = red_shape(&mut cx.rng);
    if shape.is_empty() {
        shape = vec![3];
    }
    let nd = shape.len();
    let lay = gen_lay(&mut cx.rng);
    let g = if !is_float(dt) && cx.rng.chance(0.3) { Gen::Edge } else { Gen::Finite };
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    describe(cx, &t, &r);
    let d = cx.rng.below(nd);
    let sp = spell(&mut cx.rng, &[d], nd)[0];
    cx.d(format!("cumsum dim{}", sp));
    let mut exp = r.clone();
    let mut tols = vec![0.0; r.data.len()];
    for i in 0..r.data.len() {
        let ix = unravel(i, &shape);
        let mut sa = 0.0;
        let mut s = 0.0;
        let mut si = 0i128;
        for k in 0..=ix[d] {
            let mut j = ix.clone();
            j[d] = k;
            let v = r.at(&j);
            if is_float(dt) {
                s += v.f();
                sa += v.f().abs();
            } else {
                si = wrap(dt, si + v.i());
            }
        }
        if is_float(dt) {
            exp.data[i] = if sa > 0.45 * fparams(dt).2 { V::Any } else { V::F(s) };
            tols[i] = eps(dt) * (ix[d] as f64 + 1.0) * sa;
        } else {
            exp.data[i] = V::I(si);
        }
    }
    expect_tols(&format!("cumsum {:?}", dt), t.cumsum(sp), &exp, &tols)
}

pub fn sum_to_shape(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F64, DType::I32, DType::I64, DType::U8, DType::BF16]);
    let shape = gen_shape(&mut cx.rng, 0, 4, 120);
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, Gen::Small, lay)?;
    describe(cx, &t, &r);
    let drop = cx.rng.below(shape.len() + 1);
    let mut target: Vec<usize> = shape[drop..].to_vec();
    for x in target.iter_mut() {
        if cx.rng.chance(0.4) {
            *x = 1;
        }
    }
    cx.d(format!("sum_to_shape {:?}", target));
    let mut acc = vec![0.0f64; numel(&target)];
    let mut acci = vec![0i128; numel(&target)];
    for i in 0..r.data.len() {
        let ix = unravel(i, &shape);
        let o: Vec<usize> = target.iter().enumerate().map(|(d, &n)| if n == 1 { 0 } else { ix[d + drop] }).collect();
        let k = ravel(&o, &target);
        acc[k] += r.data[i].f();
        acci[k] = if is_float(dt) { 0 } else { wrap(dt, acci[k] + r.data[i].i()) };
    }
    let n = (r.data.len() / acc.len().max(1)) as f64;
    let exp = RT { dt, shape: target.clone(), data: (0..acc.len()).map(|k| if is_float(dt) { V::F(acc[k]) } else { V::I(acci[k]) }).collect() };
    let tols = vec![if is_float(dt) { eps(dt) * (n + 2.0) * n * 3.0 } else { 0.0 }; acc.len()];
    expect_tols(&format!("sum_to_shape {:?}", dt), t.sum_to_shape(target), &exp, &tols)
}

pub const RED: &[Family] = &[
    fam("reduce", 40000, 900000, reduce),
    fam("arg", 12000, 200000, arg),
    fam("softmax", 12000, 200000, softmax),
    fam("cumsum", 8000, 150000, cumsum),
    fam("sum_to_shape", 6000, 60000, sum_to_shape),
];
