//! N02: optimizers follow their update rule, whatever the history of gradients, settings and parameter sets.
use crate::cx::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use hodu_nn::optimizer::Optimizer;
use hodu_nn::{Adagrad, Adam, AdamW, RMSprop, SGD};

/// A value computed in a format of unit roundoff `u`, with a first-order bound of its error.
#[derive(Clone, Copy, Debug)]
struct E {
    v: f64,
    e: f64,
    u: f64,
}
impl E {
    fn new(v: f64, u: f64) -> E {
        E { v, e: 0.0, u }
    }
    fn out(v: f64, e: f64, u: f64) -> E {
        E { v, e: e + u * v.abs() + f64::MIN_POSITIVE, u }
    }
    fn add(self, o: E) -> E {
        E::out(self.v + o.v, self.e + o.e, self.u)
    }
    fn sub(self, o: E) -> E {
        E::out(self.v - o.v, self.e + o.e, self.u)
    }
    fn mul(self, o: E) -> E {
        E::out(self.v * o.v, self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e, self.u)
    }
    fn div(self, o: E) -> E {
        if o.e * 2.0 >= o.v.abs() {
            return E { v: self.v / o.v, e: f64::INFINITY, u: self.u };
        }
        let q = self.v / o.v;
        E::out(q, 2.0 * (self.e + q.abs() * o.e) / o.v.abs(), self.u)
    }
    fn sqrt(self) -> E {
        if self.v == 0.0 && self.e <= 1e-300 {
            return E::new(0.0, self.u);
        }
        if self.v <= 2.0 * self.e {
            return E { v: self.v.max(0.0).sqrt(), e: f64::INFINITY, u: self.u };
        }
        let r = self.v.sqrt();
        E::out(r, self.e / r, self.u)
    }
}

#[derive(Clone)]
enum Opt {
    Sgd(SGD),
    Adam(Adam),
    AdamW(AdamW),
    Rms(RMSprop),
    Ada(Adagrad),
}
impl Opt {
    fn o(&mut self) -> &mut dyn Optimizer {
        match self {
            Opt::Sgd(o) => o,
            Opt::Adam(o) => o,
            Opt::AdamW(o) => o,
            Opt::Rms(o) => o,
            Opt::Ada(o) => o,
        }
    }
    fn lr(&mut self, s: Scalar) {
        match self {
            Opt::Sgd(o) => o.set_learning_rate(s),
            Opt::Adam(o) => o.set_learning_rate(s),
            Opt::AdamW(o) => o.set_learning_rate(s),
            Opt::Rms(o) => o.set_learning_rate(s),
            Opt::Ada(o) => o.set_learning_rate(s),
        }
    }
}
/// hyper-parameters as stored (their exact values)
#[derive(Clone, Debug)]
struct H {
    kind: usize,
    lr: f64,
    a: f64,
    b: f64,
    eps: f64,
    wd: f64,
    mom: f64,
    centered: bool,
    t: usize,
}
#[derive(Clone)]
struct St {
    m: Vec<E>,
    v: Vec<E>,
    g: Vec<E>,
}
fn hyper(rng: &mut Rng, from: &[f64]) -> (Scalar, f64) {
    let x = from[rng.below(from.len())];
    if rng.chance(0.5) {
        (Scalar::from(x as f32), x as f32 as f64)
    } else {
        (Scalar::from(x), x)
    }
}
const NAMES: [&str; 5] = ["sgd", "adam", "adamw", "rmsprop", "adagrad"];

fn make(rng: &mut Rng) -> (Opt, H) {
    let kind = rng.below(5);
    let lrs = [1e-3, 0.01, 0.1, 0.5, 1.0, 0.0, 3e-4];
    let (lr_s, lr) = hyper(rng, &lrs);
    let ab = [0.9, 0.99, 0.999, 0.5, 0.0, 0.8];
    let (a_s, a) = hyper(rng, &ab);
    let (b_s, b) = hyper(rng, &ab);
    let ep = [1e-8, 1e-6, 1e-3, 0.1];
    let (e_s, eps) = hyper(rng, &ep);
    let wds = [0.0, 0.01, 0.1, 0.5];
    let (w_s, wd) = hyper(rng, &wds);
    let moms = [0.0, 0.9, 0.5];
    let (m_s, mom) = hyper(rng, &moms);
    let centered = rng.chance(0.4);
    let mut h = H { kind, lr, a, b, eps, wd, mom, centered, t: 0 };
    let o = match kind {
        0 => Opt::Sgd(SGD::new(lr_s)),
        1 => Opt::Adam(Adam::new(lr_s, a_s, b_s, e_s)),
        2 => Opt::AdamW(AdamW::new(lr_s, a_s, b_s, e_s, w_s)),
        3 => {
            if rng.chance(0.2) {
                h = H { a: 0.99, eps: 1e-8, mom: 0.0, wd: 0.0, centered: false, ..h };
                Opt::Rms(RMSprop::default_with_lr(lr_s))
            } else {
                Opt::Rms(RMSprop::new(lr_s, a_s, e_s, m_s, w_s, centered))
            }
        }
        _ => {
            // b: learning rate decay, mom: initial accumulator
            if rng.chance(0.2) {
                h = H { b: 0.0, eps: 1e-10, wd: 0.0, mom: 0.0, ..h };
                Opt::Ada(Adagrad::default_with_lr(lr_s))
            } else {
                let (d_s, d) = hyper(rng, &[0.0, 0.1, 0.01]);
                h.b = d;
                Opt::Ada(Adagrad::new(lr_s, d_s, e_s, w_s, m_s))
            }
        }
    };
    (o, h)
}

/// one step of the published rule
fn rule(h: &H, st: &mut St, p: &mut [f64], gr: &[f64], dt: DType) -> Vec<E> {
    let u = eps(dt);
    let q = |x: f64| E::new(quant(dt, x), u);
    let one = E::new(1.0, u);
    let pw = |b: E| {
        let mut r = b;
        for _ in 1..h.t {
            r = r.mul(b);
        }
        r
    };
    let (lr, a, b, ep, wd) = (q(h.lr), q(h.a), q(h.b), q(h.eps), q(h.wd));
    let (ca, cb) = (one.sub(pw(a)), one.sub(pw(b)));
    let (oa, ob) = (one.sub(a), one.sub(b));
    (0..p.len())
        .map(|i| {
            let x = E::new(p[i], u);
            let mut g = E::new(gr[i], u);
            match h.kind {
                0 => x.sub(g.mul(lr)),
                1 | 2 => {
                    st.m[i] = st.m[i].mul(a).add(g.mul(oa));
                    st.v[i] = st.v[i].mul(b).add(g.mul(g).mul(ob));
                    let s = st.m[i].div(ca).div(st.v[i].div(cb).sqrt().add(ep)).mul(lr);
                    if h.kind == 2 {
                        x.mul(one.sub(lr.mul(wd))).sub(s)
                    } else {
                        x.sub(s)
                    }
                }
                3 => {
                    g = g.add(x.mul(wd));
                    st.v[i] = st.v[i].mul(a).add(g.mul(g).mul(oa));
                    let mut avg = st.v[i];
                    if h.centered {
                        st.g[i] = st.g[i].mul(a).add(g.mul(oa));
                        avg = avg.sub(st.g[i].mul(st.g[i]));
                        if st.v[i].v == 0.0 && st.v[i].e <= 1e-300 {
                            avg = E::new(0.0, u);
                        }
                    }
                    let s = g.div(avg.sqrt().add(ep));
                    if h.mom != 0.0 {
                        st.m[i] = st.m[i].mul(q(h.mom)).add(s);
                        x.sub(st.m[i].mul(lr))
                    } else {
                        x.sub(s.mul(lr))
                    }
                }
                _ => {
                    g = g.add(x.mul(wd));
                    st.v[i] = st.v[i].add(g.mul(g));
                    let l = lr.div(one.add(E::new(h.t as f64 - 1.0, u).mul(b)));
                    x.sub(g.div(st.v[i].sqrt().add(ep)).mul(l))
                }
            }
        })
        .collect()
}
fn fresh(h: &H, n: usize, dt: DType) -> St {
    let u = eps(dt);
    let z = vec![E::new(0.0, u); n];
    St { m: z.clone(), v: if h.kind == 4 { vec![E::new(quant(dt, h.mom), u); n] } else { z.clone() }, g: z }
}

fn f_rules(cx: &mut Cx) -> R {
    let (mut o, mut h) = make(&mut cx.rng);
    let n = cx.rng.usize(1, 4);
    let mut params: Vec<Tensor> = vec![];
    let mut cur: Vec<RT> = vec![];
    let mut st: Vec<St> = vec![];
    for _ in 0..n {
        let dt = if cx.rng.chance(0.7) { DType::F32 } else { DType::F64 };
        let s = gen_shape(&mut cx.rng, 0, 3, 12);
        let lay = gen_lay(&mut cx.rng);
        let (t, m) = gen_view(&mut cx.rng, dt, &s, Gen::Range(-3.0, 3.0), lay)?;
        t.set_requires_grad(true).map_err(|e| Fail::Bad("requires_grad".into(), e.to_string()))?;
        st.push(fresh(&h, m.data.len(), dt));
        params.push(t);
        cur.push(m);
    }
    cx.d(format!("{:?} params {:?}", h, cur.iter().map(|c| (c.dt, c.shape.clone())).collect::<Vec<_>>()));
    let sig = NAMES[h.kind].to_string();
    let steps = if cx.rng.chance(0.1) { cx.rng.usize(10, 60) } else { cx.rng.usize(1, 12) };
    // a clone of the optimizer made at some point, to be advanced later from the same state
    let mut twin: Option<(Opt, H, Vec<St>)> = None;
    let mut compared = 0u64;
    let mut skipped = 0u64;
    for step in 0..steps {
        if cx.rng.chance(0.15) {
            let (s, v) = hyper(&mut cx.rng, &[0.2, 0.02, 1e-4, 2.0]);
            o.lr(s);
            h.lr = v;
        }
        if h.kind == 2 && cx.rng.chance(0.1) {
            let (s, v) = hyper(&mut cx.rng, &[0.2, 0.0, 1e-3]);
            if let Opt::AdamW(a) = &mut o {
                a.set_weight_decay(s);
                check!(a.get_weight_decay().to_f64() == v && a.get_learning_rate().to_f64() == h.lr, "adamw: settings", "set {} reads {:?}", v, a.get_weight_decay());
            }
            h.wd = v;
        }
        if twin.is_none() && cx.rng.chance(0.1) {
            twin = Some((o.clone(), h.clone(), st.clone()));
        } else if twin.is_some() && cx.rng.chance(0.3) {
            // continue from the copy: the original keeps the state it has
            let t = twin.replace((o, h, st)).unwrap();
            o = t.0;
            h = t.1;
            st = t.2;
        }
        // gradients: through a real backward pass, of chosen values (zeros and repeats included)
        let scale = [1.0, 1.0, 1e-3, 30.0][cx.rng.below(4)];
        let mut loss: Option<Tensor> = None;
        let mut gs: Vec<Vec<f64>> = vec![];
        let stale = step > 0 && cx.rng.chance(0.1);
        for (p, c) in params.iter().zip(&cur) {
            let g = if cx.rng.chance(0.1) {
                RT::from_fn(c.dt, &c.shape, |_| V::F(0.0))
            } else {
                RT::from_fn(c.dt, &c.shape, |_| V::F(quant(c.dt, scale * cx.rng.uni(-1.0, 1.0))))
            };
            if !stale {
                let term = p.mul(&g.t()).and_then(|x| x.sum_all()).map_err(|e| Fail::Bad("loss".into(), e.to_string()))?;
                term.backward().map_err(|e| Fail::Bad(format!("{}: backward after a step", sig), e.to_string()))?;
                loss = Some(term);
            }
            gs.push(g.fs());
        }
        let _ = loss;
        if stale || cx.rng.chance(0.15) {
            let ps: Vec<&Tensor> = params.iter().collect();
            o.o().zero_grad(&ps).map_err(|e| Fail::Bad(format!("{}: zero_grad", sig), e.to_string()))?;
            for g in gs.iter_mut() {
                g.iter_mut().for_each(|x| *x = 0.0);
            }
            for (k, p) in params.iter().enumerate() {
                let r = read(p).map_err(|e| Fail::Bad(format!("{}: zero_grad", sig), e))?;
                if let Some(d) = diff(&r, &cur[k], EXACT) {
                    bail!(format!("{}: zero_grad changed a parameter", sig), "{}", d);
                }
            }
        }
        for (k, p) in params.iter().enumerate() {
            let g = p.grad().map_err(|e| Fail::Bad(format!("{}: no gradient", sig), e.to_string()))?;
            let r = read(&g).map_err(|e| Fail::Bad(format!("{}: no gradient", sig), e))?;
            check!(r.shape == cur[k].shape && r.fs() == gs[k], format!("{}: gradient before the step", sig), "step {} parameter {}: {:?} expected {:?}", step, k, r.fs(), gs[k]);
        }
        h.t += 1;
        let ps: Vec<&Tensor> = params.iter().collect();
        o.o().step(&ps).map_err(|e| Fail::Bad(format!("{}: step", sig), e.to_string()))?;
        for k in 0..n {
            let dt = cur[k].dt;
            let mut x = cur[k].fs();
            let exp = rule(&h, &mut st[k], &mut x, &gs[k], dt);
            let r = read(&params[k]).map_err(|e| Fail::Bad(format!("{}: parameter", sig), e))?;
            check!(r.shape == cur[k].shape && r.dt == dt, format!("{}: parameter shape", sig), "{:?} {:?}", r.shape, r.dt);
            for (i, e) in exp.iter().enumerate() {
                let got = r.data[i].f();
                if !e.e.is_finite() || e.e > 0.05 * (h.lr + e.v.abs()) {
                    skipped += 1;
                    continue;
                }
                compared += 1;
                if !((got - e.v).abs() <= 4.0 * e.e + min_normal(dt)) {
                    bail!(format!("{}: update rule", sig), "step {} parameter {} element {}: {} expected {} (bound {:e}, gradient {}, before {}) {:?}", h.t, k, i, got, e.v, e.e, gs[k][i], x[i], h);
                }
            }
            // an unspecified value would make the rest meaningless
            if r.data.iter().any(|v| !v.f().is_finite()) {
                cx.count("elements_compared", compared);
                return if compared > 0 { Ok(()) } else { Err(Fail::Skip) };
            }
            cur[k] = r;
            // the step does not touch the gradients
            let g = params[k].grad().and_then(|g| g.contiguous()).map_err(|e| Fail::Bad(format!("{}: gradient lost by the step", sig), e.to_string()))?;
            let r = read(&g).map_err(|e| Fail::Bad(format!("{}: gradient lost by the step", sig), e))?;
            check!(r.fs() == gs[k], format!("{}: step changed a gradient", sig), "parameter {}", k);
            check!(params[k].is_requires_grad(), format!("{}: requires_grad lost", sig), "parameter {}", k);
        }
        cx.count("steps", 1);
    }
    cx.count("elements_compared", compared);
    cx.count("elements_ill_conditioned", skipped);
    Ok(())
}

/// a parameter without gradient is never changed, and the failure leaves the library usable
fn f_missing(cx: &mut Cx) -> R {
    let (mut o, h) = make(&mut cx.rng);
    let sig = NAMES[h.kind];
    let n = cx.rng.usize(1, 4);
    let s = gen_shape(&mut cx.rng, 0, 2, 6);
    let ps: Vec<RT> = (0..n).map(|_| gen_rt(&mut cx.rng, DType::F32, &s, Gen::Range(-2.0, 2.0))).collect();
    let has: Vec<bool> = (0..n).map(|_| cx.rng.chance(0.5)).collect();
    cx.d(format!("{:?} {:?} with gradient {:?} {:?}", h, s, has, ps.iter().map(|p| p.fs()).collect::<Vec<_>>()));
    let err = |e: hodu_core::error::HoduError| Fail::Bad(format!("{}: setup", sig), e.to_string());
    let ts: Vec<Tensor> = ps.iter().map(|p| p.t()).collect();
    for (t, &w) in ts.iter().zip(&has) {
        t.set_requires_grad(w || cx.rng.chance(0.5)).map_err(err)?;
        if w {
            t.square().and_then(|x| x.sum_all()).and_then(|x| x.backward()).map_err(err)?;
        }
    }
    let rs: Vec<&Tensor> = ts.iter().collect();
    let _ = o.o().step(&rs);
    for k in 0..n {
        if !has[k] {
            let r = read(&ts[k]).map_err(|e| Fail::Bad(format!("{}: parameter", sig), e))?;
            if let Some(d) = diff(&r, &ps[k], EXACT) {
                bail!(format!("{}: a parameter without gradient changed", sig), "{}", d);
            }
        }
    }
    // recording works as before
    let x = RT::from_fn(DType::F32, &[3], |i| V::F(i[0] as f64 + 1.0)).t();
    x.set_requires_grad(true).map_err(err)?;
    x.square().and_then(|y| y.sum_all()).and_then(|y| y.backward()).map_err(|e| Fail::Bad(format!("{}: backward after a failed step", sig), e.to_string()))?;
    let g = read(&x.grad().map_err(|e| Fail::Bad(format!("{}: backward after a failed step", sig), e.to_string()))?).map_err(|e| Fail::Bad("read".into(), e))?;
    check!(g.fs() == vec![2.0, 4.0, 6.0], format!("{}: backward after a failed step", sig), "{:?}", g.fs());
    Ok(())
}

/// optimizers of several threads, each with its own parameters, do not notice each other
fn f_threads(cx: &mut Cx) -> R {
    let n = cx.rng.usize(2, 4);
    let seeds: Vec<u64> = (0..n).map(|_| cx.rng.u64()).collect();
    cx.d(format!("threads {:?}", seeds));
    let start = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = seeds
        .into_iter()
        .map(|s| {
            let start = start.clone();
            std::thread::spawn(move || {
                start.wait();
                let _ctx = hodu_core::tensor::GradientContext::new();
                let mut c = Cx::new(s, false);
                let mut r = f_rules(&mut c);
                for _ in 0..3 {
                    if matches!(r, Err(Fail::Bad(..))) {
                        break;
                    }
                    r = f_rules(&mut c);
                }
                (r, c.counters)
            })
        })
        .collect();
    let mut any = None;
    for h in hs {
        match h.join() {
            Ok((r, c)) => {
                for (k, v) in c {
                    cx.count(&k, v);
                }
                if let Err(Fail::Bad(s, m)) = r {
                    any = Some((s, m));
                }
            }
            Err(_) => any = Some(("threads: panic".into(), last_panic())),
        }
    }
    match any {
        Some((s, m)) => bad(format!("threads: {}", s), m),
        None => Ok(()),
    }
}

/// steps record nothing: the number of live tensors after a step does not depend on how many preceded it
fn f_bounded(cx: &mut Cx) -> R {
    let (mut o, h) = make(&mut cx.rng);
    let sig = NAMES[h.kind];
    let s = gen_shape(&mut cx.rng, 0, 2, 6);
    let n = cx.rng.usize(1, 3);
    let zero = cx.rng.chance(0.5);
    cx.d(format!("{:?} {:?} x{} zero_grad {}", h, s, n, zero));
    let err = |e: hodu_core::error::HoduError| Fail::Bad(format!("{}: bounded", sig), e.to_string());
    let ps: Vec<Tensor> = (0..n).map(|_| gen_rt(&mut cx.rng, DType::F32, &s, Gen::Range(-2.0, 2.0)).t()).collect();
    for p in &ps {
        p.set_requires_grad(true).map_err(err)?;
    }
    let rs: Vec<&Tensor> = ps.iter().collect();
    let mut counts = vec![];
    for _ in 0..8 {
        for p in &ps {
            p.square().and_then(|x| x.sum_all()).and_then(|x| x.backward()).map_err(err)?;
        }
        o.o().step(&rs).map_err(err)?;
        if zero {
            o.o().zero_grad(&rs).map_err(err)?;
        }
        counts.push(hodu_core::tensor::tensor_count());
    }
    check!(counts[1..].iter().all(|&c| c == counts[1]), format!("{}: tensors accumulate", sig), "live after each step {:?}", counts);
    Ok(())
}

pub const GROUPS: &[Family] = &[fam("threads", 100, 2000, f_threads), fam("bounded", 300, 3000, f_bounded), fam("rules", 3000, 40000, f_rules), fam("missing", 500, 4000, f_missing)];
