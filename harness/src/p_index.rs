//! E06: indexing, scattering, sorting, concatenation and splitting.
use crate::cx::*;
use crate::p_elem::describe;
use crate::p_view::take;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

fn neg(rng: &mut Rng, d: usize, nd: usize) -> i32 {
    if rng.chance(0.4) { d as i32 - nd as i32 } else { d as i32 }
}
pub fn zero(dt: DType) -> V {
    if dt == DType::BOOL { V::B(false) } else if is_float(dt) { V::F(0.0) } else { V::I(0) }
}
/// index values for a dimension of n elements: mostly valid, negative ones count from the end, some out of range
fn gen_idx(rng: &mut Rng, n: usize, oob: bool) -> i64 {
    let n = n as i64;
    match rng.below(10) {
        0..=6 => rng.range(0, n - 1),
        7 | 8 => rng.range(-n, -1),
        _ if oob => *rng.pick(&[n, n + 1, -n - 1, -n - 5, i32::MAX as i64, i32::MIN as i64]),
        _ => rng.range(0, n - 1),
    }
}
fn resolve(i: i64, n: usize) -> Option<usize> {
    let j = if i < 0 { i + n as i64 } else { i };
    if j >= 0 && j < n as i64 { Some(j as usize) } else { None }
}
fn idx_rt(rng: &mut Rng, shape: &[usize], n: usize, oob: bool) -> RT {
    RT { dt: DType::I32, shape: shape.to_vec(), data: (0..numel(shape)).map(|_| V::I(gen_idx(rng, n, oob) as i128)).collect() }
}
fn lay(rng: &mut Rng, m: &RT) -> Result<Tensor, Fail> {
    let l = gen_lay(rng);
    view_of(rng, m, l)
}
fn vgen(rng: &mut Rng) -> Gen {
    *rng.pick(&[Gen::Small, Gen::Edge, Gen::Finite, Gen::Distinct])
}
fn base(cx: &mut Cx, lo: usize, dt: DType) -> Result<(Tensor, RT), Fail> {
    let shape = gen_shape(&mut cx.rng, lo, 4, 160);
    let g = vgen(&mut cx.rng);
    let l = gen_lay(&mut cx.rng);
    let (t, m) = gen_view(&mut cx.rng, dt, &shape, g, l)?;
    describe(cx, &t, &m);
    Ok((t, m))
}

fn index_select(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let d = cx.rng.below(m.shape.len());
    let k = cx.rng.usize(1, 6);
    let ix = idx_rt(&mut cx.rng, &[k], m.shape[d], true);
    let it = lay(&mut cx.rng, &ix)?;
    let a = neg(&mut cx.rng, d, m.shape.len());
    cx.d(format!("index_select dim {} {}", a, ix.show()));
    let mut s = m.shape.clone();
    s[d] = k;
    let e = RT::from_fn(dt, &s, |i| match resolve(ix.data[i[d]].i() as i64, m.shape[d]) {
        Some(j) => {
            let mut q = i.to_vec();
            q[d] = j;
            m.at(&q)
        },
        None => zero(dt),
    });
    expect(&format!("index_select {:?}", dt), t.index_select(a, &it), &e, EXACT)
}

fn index_put(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let d = cx.rng.below(m.shape.len());
    let k = cx.rng.usize(1, 6);
    let ix = idx_rt(&mut cx.rng, &[k], m.shape[d], true);
    let it = lay(&mut cx.rng, &ix)?;
    let mut s = m.shape.clone();
    s[d] = k;
    let g = vgen(&mut cx.rng);
    let l = gen_lay(&mut cx.rng);
    let (vt, v) = gen_view(&mut cx.rng, dt, &s, g, l)?;
    let a = neg(&mut cx.rng, d, m.shape.len());
    cx.d(format!("index_put dim {} {} values {}", a, ix.show(), v.show()));
    let mut e = m.clone();
    let mut hits = vec![0; m.shape[d]];
    let pos: Vec<Option<usize>> = ix.data.iter().map(|v| resolve(v.i() as i64, m.shape[d])).collect();
    for p in pos.iter().flatten() {
        hits[*p] += 1;
    }
    for i in 0..v.data.len() {
        let mut q = unravel(i, &s);
        if let Some(j) = pos[q[d]] {
            q[d] = j;
            // which of several values for one position is stored is unspecified
            e.set(&q, if hits[j] > 1 { V::Any } else { v.data[i] });
        }
    }
    let r = t.index_put(a, &it, &vt);
    expect(&format!("index_put {:?}", dt), r, &e, EXACT)?;
    expect("index_put changed its input", Ok(t), &m, EXACT)
}

fn sub_shape(rng: &mut Rng, s: &[usize], d: usize) -> Vec<usize> {
    let full = rng.chance(0.5);
    s.iter().enumerate().map(|(i, &n)| if i == d { rng.usize(1, 5) } else if full { n } else { rng.usize(1, n) }).collect()
}

fn gather(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let d = cx.rng.below(m.shape.len());
    let s = sub_shape(&mut cx.rng, &m.shape, d);
    let ix = idx_rt(&mut cx.rng, &s, m.shape[d], true);
    let it = lay(&mut cx.rng, &ix)?;
    let a = neg(&mut cx.rng, d, m.shape.len());
    cx.d(format!("gather dim {} {}", a, ix.show()));
    let e = RT::from_fn(dt, &s, |i| match resolve(ix.at(i).i() as i64, m.shape[d]) {
        Some(j) => {
            let mut q = i.to_vec();
            q[d] = j;
            m.at(&q)
        },
        None => zero(dt),
    });
    expect(&format!("gather {:?}", dt), t.gather(a, &it), &e, EXACT)
}

fn scatter(cx: &mut Cx) -> R {
    let op = *cx.rng.pick(&["scatter", "scatter_add", "scatter_max", "scatter_min"]);
    let dt = loop {
        let d = *cx.rng.pick(ALL);
        if op == "scatter" || d != DType::BOOL {
            break d;
        }
    };
    let (t, m) = base(cx, 1, dt)?;
    let d = cx.rng.below(m.shape.len());
    let s = sub_shape(&mut cx.rng, &m.shape, d);
    let ix = idx_rt(&mut cx.rng, &s, m.shape[d], true);
    let it = lay(&mut cx.rng, &ix)?;
    let g = if op == "scatter_add" { Gen::Small } else { vgen(&mut cx.rng) };
    let l = gen_lay(&mut cx.rng);
    let (vt, v) = gen_view(&mut cx.rng, dt, &s, g, l)?;
    let a = neg(&mut cx.rng, d, m.shape.len());
    cx.d(format!("{} dim {} {} src {}", op, a, ix.show(), v.show()));
    let mut e = m.clone();
    let mut mag: Vec<f64> = vec![0.0; m.data.len()];
    let nanny = |x: V| matches!(x, V::F(f) if f.is_nan());
    for i in 0..v.data.len() {
        let mut q = unravel(i, &s);
        let Some(j) = resolve(ix.data[i].i() as i64, m.shape[d]) else { continue };
        q[d] = j;
        let at = ravel(&q, &m.shape);
        let (o, x) = (e.data[at], v.data[i]);
        e.data[at] = match op {
            "scatter" => x,
            "scatter_add" => {
                if is_float(dt) {
                    if mag[at] == 0.0 {
                        mag[at] = o.f().abs();
                    }
                    mag[at] = mag[at].max(o.f().abs()) .max(x.f().abs()).max((o.f() + x.f()).abs());
                    if let V::Any = o { V::Any } else { V::F(o.f() + x.f()) }
                } else {
                    V::I(wrap(dt, o.i() + x.i()))
                }
            },
            _ if matches!(o, V::Any) || nanny(o) || nanny(x) => V::Any,
            _ if is_float(dt) => {
                let (p, q) = (o.f(), x.f());
                V::F(if op == "scatter_max" { p.max(q) } else { p.min(q) })
            },
            _ => V::I(if op == "scatter_max" { o.i().max(x.i()) } else { o.i().min(x.i()) }),
        };
    }
    let r = match op {
        "scatter" => t.scatter(a, &it, &vt),
        "scatter_add" => t.scatter_add(a, &it, &vt),
        "scatter_max" => t.scatter_max(a, &it, &vt),
        _ => t.scatter_min(a, &it, &vt),
    };
    let sig = format!("{} {:?}", op, dt);
    if op == "scatter_add" && is_float(dt) {
        let n = v.data.len() as f64 + 2.0;
        let maxf = fparams(dt).2;
        let mut tols = vec![];
        for i in 0..e.data.len() {
            let o = m.data[i].f();
            if mag[i] != 0.0 && (!o.is_finite() || mag[i] * n > 0.4 * maxf) {
                e.data[i] = V::Any;
            }
            tols.push(if mag[i] == 0.0 { 0.0 } else { n * eps(dt) * mag[i] * 1.5 + n * 2f64.powi(fparams(dt).1 - fparams(dt).0) });
        }
        expect_tols(&sig, r, &e, &tols)?;
    } else {
        expect(&sig, r, &e, EXACT)?;
    }
    expect(&format!("{} changed its input", op), Ok(t), &m, EXACT)
}

fn onehot(cx: &mut Cx) -> R {
    let shape = gen_shape(&mut cx.rng, 0, 3, 40);
    let k = cx.rng.usize(1, 7);
    let ix = idx_rt(&mut cx.rng, &shape, k, true);
    let it = lay(&mut cx.rng, &ix)?;
    let nd = shape.len() + 1;
    let d = cx.rng.below(nd);
    let a = neg(&mut cx.rng, d, nd);
    let dt = *cx.rng.pick(ALL);
    cx.d(format!("onehot {} of {} axis {} {:?}", k, ix.show(), a, dt));
    let mut s = shape.clone();
    s.insert(d, k);
    let one = |b: bool| if dt == DType::BOOL { V::B(b) } else if is_float(dt) { V::F(b as u8 as f64) } else { V::I(b as i128) };
    let e = RT::from_fn(dt, &s, |i| {
        let mut q = i.to_vec();
        let c = q.remove(d);
        let v = ix.at(&q).i() as i64;
        // negative class indices count from the end, as everywhere else; out of range ones select nothing
        one(resolve(v, k) == Some(c))
    });
    expect(&format!("onehot {:?}", dt), it.onehot(k as i32, a, dt), &e, EXACT)
}

fn nonzero(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, mut m) = base(cx, 1, dt)?;
    let _ = &mut m;
    // make zeros common
    let mask = RT { dt: DType::BOOL, shape: m.shape.clone(), data: m.data.iter().map(|_| V::B(cx.rng.chance(0.5))).collect() };
    let use_mask = cx.rng.chance(0.5);
    let (t, m) = if use_mask { let z = RT { data: m.data.iter().zip(&mask.data).map(|(v, k)| if k.truthy() { *v } else { zero(dt) }).collect(), ..m.clone() }; (lay(&mut cx.rng, &z)?, z) } else { (t, m) };
    cx.d(format!("nonzero {}", m.show()));
    let nz: Vec<usize> = (0..m.data.len()).filter(|&i| m.data[i].truthy()).collect();
    let nd = m.shape.len();
    let e = RT { dt: DType::I32, shape: vec![nz.len(), nd], data: nz.iter().flat_map(|&i| unravel(i, &m.shape).into_iter().map(|x| V::I(x as i128))).collect() };
    let r = t.nonzero();
    expect(&format!("nonzero {:?}", dt), r, &e, EXACT)
}

fn unique(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let shape = gen_shape(&mut cx.rng, 0, 3, 80);
    let g = *cx.rng.pick(&[Gen::Small, Gen::Small, Gen::Edge, Gen::Finite]);
    let mut m = gen_rt(&mut cx.rng, dt, &shape, g);
    // repeat some values
    for i in 0..m.data.len() {
        if cx.rng.chance(0.4) {
            m.data[i] = m.data[cx.rng.below(m.data.len())];
        }
    }
    let t = lay(&mut cx.rng, &m)?;
    describe(cx, &t, &m);
    let (vals, inv, cnt) = match t.unique() {
        Ok(x) => x,
        Err(e) => bail!("unique", "{}", e),
    };
    let rd = |x: &Tensor| read(x).map_err(|e| Fail::Bad(format!("unique {:?}", dt), e));
    let (v, i, c) = (rd(&vals)?, rd(&inv)?, rd(&cnt)?);
    let sig = format!("unique {:?}", dt);
    check!(v.shape.len() == 1 && c.shape == v.shape && i.data.len() == m.data.len() && i.dt == DType::I32 && c.dt == DType::I32 && v.dt == dt, sig, "shapes {:?} {:?} {:?}", v.shape, i.shape, c.shape);
    let key = |x: V| -> f64 { x.f() };
    let isnan = |x: V| matches!(x, V::F(f) if f.is_nan());
    let less = |a: V, b: V| if is_float(dt) { key(a) < key(b) } else if dt == DType::BOOL { !a.truthy() && b.truthy() } else { a.i() < b.i() };
    let same = |a: V, b: V| if is_float(dt) { key(a) == key(b) || (isnan(a) && isnan(b)) } else if dt == DType::BOOL { a.truthy() == b.truthy() } else { a.i() == b.i() };
    for w in v.data.windows(2) {
        check!(less(w[0], w[1]) || isnan(w[1]), sig, "values are not strictly increasing: {}", v.show());
    }
    let mut seen = vec![0i128; v.data.len()];
    for (k, x) in m.data.iter().enumerate() {
        let j = i.data[k].i();
        check!(j >= 0 && (j as usize) < v.data.len(), sig, "inverse index {} out of range", j);
        check!(same(v.data[j as usize], *x), sig, "element {} is {:?}, its unique value is {:?}", k, x, v.data[j as usize]);
        seen[j as usize] += 1;
    }
    for (k, n) in seen.iter().enumerate() {
        check!(*n == c.data[k].i() && *n > 0, sig, "count of {:?} is {:?}, it occurs {} times", v.data[k], c.data[k], n);
    }
    Ok(())
}

fn compress(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let axis = if cx.rng.chance(0.3) { None } else { Some(cx.rng.below(m.shape.len())) };
    let n = axis.map(|a| m.shape[a]).unwrap_or(m.data.len());
    let p = *cx.rng.pick(&[0.0, 0.3, 0.7, 1.0]);
    let c = RT { dt: DType::BOOL, shape: vec![n], data: (0..n).map(|_| V::B(cx.rng.chance(p))).collect() };
    let ct = lay(&mut cx.rng, &c)?;
    let idx: Vec<usize> = (0..n).filter(|&i| c.data[i].truthy()).collect();
    let a = axis.map(|a| neg(&mut cx.rng, a, m.shape.len()));
    cx.d(format!("compress {:?} {}", a, c.show()));
    let e = match axis {
        Some(d) => take(&m, d, &idx),
        None => take(&m.reshape(&[m.data.len()]), 0, &idx),
    };
    expect(&format!("compress {:?}", dt), t.compress(&ct, a), &e, EXACT)
}

fn topk(cx: &mut Cx) -> R {
    let dt = loop {
        let d = *cx.rng.pick(ALL);
        if d != DType::BOOL {
            break d;
        }
    };
    let shape = match cx.rng.below(4) {
        0 => vec![cx.rng.usize(1, 60)],
        _ => gen_shape(&mut cx.rng, 1, 4, 200),
    };
    let g = *cx.rng.pick(&[Gen::Small, Gen::Edge, Gen::Finite, Gen::Distinct]);
    let l = gen_lay(&mut cx.rng);
    let (t, m) = gen_view(&mut cx.rng, dt, &shape, g, l)?;
    describe(cx, &t, &m);
    let d = cx.rng.below(m.shape.len());
    let n = m.shape[d];
    let k = cx.rng.usize(1, n);
    let (largest, sorted) = (cx.rng.chance(0.5), cx.rng.chance(0.6));
    let a = neg(&mut cx.rng, d, m.shape.len());
    cx.d(format!("topk {} dim {} largest {} sorted {}", k, a, largest, sorted));
    let sig = format!("topk {:?}", dt);
    let (vt, it) = match t.topk(k, a, largest, sorted) {
        Ok(x) => x,
        Err(e) => bail!(sig, "{}", e),
    };
    let (v, ix) = (read(&vt).map_err(|e| Fail::Bad(sig.clone(), e))?, read(&it).map_err(|e| Fail::Bad(sig.clone(), e))?);
    let mut s = m.shape.clone();
    s[d] = k;
    check!(v.shape == s && ix.shape == s && ix.dt == DType::I32 && v.dt == dt, sig, "shapes {:?} {:?}, expected {:?}", v.shape, ix.shape, s);
    let outer: Vec<usize> = s.iter().enumerate().map(|(i, &n)| if i == d { 1 } else { n }).collect();
    for o in 0..numel(&outer) {
        let b = unravel(o, &outer);
        let at = |r: &RT, j: usize| {
            let mut q = b.clone();
            q[d] = j;
            r.at(&q)
        };
        let row: Vec<V> = (0..n).map(|j| at(&m, j)).collect();
        let nan = |x: &V| matches!(x, V::F(f) if f.is_nan());
        let mut used = vec![false; n];
        for j in 0..k {
            let i = at(&ix, j).i();
            check!(i >= 0 && (i as usize) < n && !used[i as usize], sig, "index {} repeated or out of range", i);
            used[i as usize] = true;
            check!(vclose(dt, at(&v, j), row[i as usize], EXACT), sig, "value {:?} is not element {} ({:?})", at(&v, j), i, row[i as usize]);
        }
        if row.iter().any(nan) {
            continue; // where NaN sorts is unspecified
        }
        let before = |x: V, y: V| if is_float(dt) { if largest { x.f() > y.f() } else { x.f() < y.f() } } else if largest { x.i() > y.i() } else { x.i() < y.i() };
        for j in 0..k {
            for u in 0..n {
                if !used[u] {
                    check!(!before(row[u], at(&v, j)), sig, "{:?} was selected but {:?} was not, row {:?}", at(&v, j), row[u], trunc(&format!("{:?}", row), 300));
                }
            }
            if sorted && j > 0 {
                check!(!before(at(&v, j), at(&v, j - 1)), sig, "not sorted: {}", v.show());
            }
        }
    }
    Ok(())
}

fn concat(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let stack = cx.rng.chance(0.3);
    let nd = m.shape.len();
    let d = cx.rng.below(if stack { nd + 1 } else { nd });
    let k = cx.rng.usize(1, 4);
    let mut ts = vec![t];
    let mut ms = vec![m.clone()];
    for _ in 1..k {
        if cx.rng.chance(0.2) {
            ts.push(ts[0].clone());
            ms.push(ms[0].clone());
            continue;
        }
        let mut s = m.shape.clone();
        if !stack {
            s[d] = cx.rng.usize(1, 4);
        }
        let g = vgen(&mut cx.rng);
        let l = gen_lay(&mut cx.rng);
        let (t, m) = gen_view(&mut cx.rng, dt, &s, g, l)?;
        cx.d(m.show());
        ts.push(t);
        ms.push(m);
    }
    let at = cx.rng.below(k);
    ts.swap(0, at);
    ms.swap(0, at);
    let refs: Vec<&Tensor> = ts.iter().collect();
    if stack {
        let a = neg(&mut cx.rng, d, nd + 1);
        cx.d(format!("stack {} at {}", k, a));
        let mut s = m.shape.clone();
        s.insert(d, k);
        let e = RT::from_fn(dt, &s, |i| {
            let mut q = i.to_vec();
            let w = q.remove(d);
            ms[w].at(&q)
        });
        return expect("stack", Tensor::stack(&refs, a), &e, EXACT);
    }
    let a = neg(&mut cx.rng, d, nd);
    cx.d(format!("concat {} on {}", k, a));
    let mut s = m.shape.clone();
    s[d] = ms.iter().map(|m| m.shape[d]).sum();
    let e = RT::from_fn(dt, &s, |i| {
        let mut q = i.to_vec();
        for m in &ms {
            if q[d] < m.shape[d] {
                return m.at(&q);
            }
            q[d] -= m.shape[d];
        }
        unreachable!()
    });
    let r = if cx.rng.chance(0.5) { Tensor::concat(&refs, a) } else { Tensor::cat(&refs, a) };
    expect("concat", r, &e, EXACT)
}

fn split(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let (t, m) = base(cx, 1, dt)?;
    let nd = m.shape.len();
    let d = cx.rng.below(nd);
    let a = neg(&mut cx.rng, d, nd);
    let n = m.shape[d];
    let (r, sizes) = if cx.rng.chance(0.4) {
        let c = cx.rng.usize(1, n + 2);
        cx.d(format!("chunk {} on {}", c, a));
        let per = n.div_ceil(c);
        let mut sizes = vec![];
        let mut left = n;
        while left > 0 {
            sizes.push(per.min(left));
            left -= per.min(left);
        }
        (t.chunk(c, a), sizes)
    } else {
        let mut sizes = vec![];
        let mut left = n;
        while left > 0 {
            let s = cx.rng.usize(1, left);
            sizes.push(s);
            left -= s;
        }
        cx.d(format!("split {:?} on {}", sizes, a));
        (t.split(&sizes, a), sizes)
    };
    let parts = match r {
        Ok(p) => p,
        Err(e) => bail!("split", "{}", e),
    };
    check!(parts.len() == sizes.len(), "split: number of parts", "{} parts for {:?}", parts.len(), sizes);
    let mut at = 0;
    for (p, &s) in parts.iter().zip(&sizes) {
        let idx: Vec<usize> = (at..at + s).collect();
        expect("split", Ok(p.clone()), &take(&m, d, &idx), EXACT)?;
        at += s;
    }
    Ok(())
}

/// arguments that fit no documented meaning are errors, not out-of-bounds accesses or nonsense
fn rejects(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let shape = gen_shape(&mut cx.rng, 1, 4, 60);
    let m = gen_rt(&mut cx.rng, dt, &shape, Gen::Small);
    let t = m.t();
    let nd = shape.len();
    let d = cx.rng.below(nd);
    let mut s = shape.clone();
    let which = *cx.rng.pick(&["gather rank", "gather size", "scatter src", "scatter size", "index_put values", "axis", "split sizes", "topk k", "concat dims", "float indices", "compress size"]);
    cx.d(format!("{} {:?} dim {}", which, shape, d));
    let is = |s: &[usize]| Tensor::zeros(s.to_vec(), DType::I32).unwrap();
    let vs = |s: &[usize]| Tensor::zeros(s.to_vec(), dt).unwrap();
    let bad_ax = *cx.rng.pick(&[nd as i32, -(nd as i32) - 1, 100, i32::MAX, i32::MIN]);
    let err = match which {
        "gather rank" => {
            s.push(1);
            t.gather(d as i32, &is(&s)).err().is_some()
        },
        "gather size" | "scatter size" => {
            let o = (0..nd).find(|&o| o != d);
            let Some(o) = o else { return Err(Fail::Skip) };
            s[o] += 1;
            if which == "gather size" { t.gather(d as i32, &is(&s)).is_err() } else { t.scatter(d as i32, &is(&s), &vs(&s)).is_err() }
        },
        "scatter src" => {
            let mut s2 = s.clone();
            s2[d] += 1;
            t.scatter(d as i32, &is(&s2), &vs(&s)).is_err()
        },
        "index_put values" => {
            s[d] = 3;
            t.index_put(d as i32, &is(&[2]), &vs(&s)).is_err()
        },
        "axis" => t.index_select(bad_ax, &is(&[1])).is_err() && t.gather(bad_ax, &is(&s)).is_err() && t.scatter(bad_ax, &is(&s), &vs(&s)).is_err() && t.index_put(bad_ax, &is(&[1]), &vs(&s)).is_err() && t.split(&[1], bad_ax).is_err() && t.chunk(2, bad_ax).is_err() && Tensor::concat(&[&t, &t], bad_ax).is_err() && t.flip(&[bad_ax]).is_err() && t.topk(1, bad_ax, true, true).is_err(),
        "split sizes" => t.split(&[s[d], 1], d as i32).is_err() && t.split(&[s[d] + 1], d as i32).is_err() && t.split(&[usize::MAX, 2], d as i32).is_err(),
        "topk k" => t.topk(s[d] + 1, d as i32, true, true).is_err(),
        "concat dims" => {
            let Some(o) = (0..nd).find(|&o| o != d) else { return Err(Fail::Skip) };
            s[o] += 1;
            let mut more = shape.clone();
            more.push(1);
            Tensor::concat(&[&t, &vs(&s)], d as i32).is_err() && Tensor::concat(&[&t, &vs(&more)], d as i32).is_err()
        },
        "float indices" => {
            let f = Tensor::zeros(s.clone(), DType::F32).unwrap();
            t.gather(d as i32, &f).is_err() && t.index_select(d as i32, &f.flatten().unwrap()).is_err()
        },
        _ => t.compress(&Tensor::zeros([s[d] + 1], DType::BOOL).unwrap(), Some(d as i32)).is_err(),
    };
    check!(err, format!("accepted: {}", which), "no error for {} on {:?} dim {}", which, shape, d);
    Ok(())
}

pub const INDEX: &[Family] = &[
    fam("index_select", 8000, 80000, index_select),
    fam("index_put", 8000, 80000, index_put),
    fam("gather", 8000, 80000, gather),
    fam("scatter", 14000, 160000, scatter),
    fam("onehot", 6000, 60000, onehot),
    fam("nonzero", 6000, 60000, nonzero),
    fam("unique", 8000, 80000, unique),
    fam("compress", 6000, 60000, compress),
    fam("topk", 10000, 100000, topk),
    fam("concat", 8000, 80000, concat),
    fam("split", 6000, 60000, split),
    fam("rejects", 4000, 40000, rejects),
];
