//! N01: layers and losses compute their definition (forward values, modes, running statistics, gradients of inputs and parameters).
use crate::cx::*;
use crate::p_conv::{cat, conv_model, Geo};
use crate::p_elem::{r_gelu, r_sigmoid, r_softplus, scalar_of};
use crate::p_grad::check_fd;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use hodu_nn::module::Module;
use hodu_nn::*;

type Run = Box<dyn Fn(&[Tensor]) -> HoduResult<Tensor>>;
thread_local! {
    /// compare a captured run of the module with the eager one instead of comparing with the reference
    pub static CAPTURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub const CAPTURABLE: &[fn(&mut Cx) -> R] = &[f_loss, f_linear, f_act, f_embed, f_conv, f_pool, f_norm, f_rnn, f_attn];
struct L {
    params: Vec<Tensor>,
    run: Run,
}
fn l1<M: for<'a> Module<&'a Tensor> + 'static>(m: M) -> L {
    let params = <M as Module<&Tensor>>::parameters(&m).into_iter().cloned().collect();
    L { params, run: Box::new(move |x| m.forward(&x[0])) }
}
fn l2<M: for<'a> Module<(&'a Tensor, &'a Tensor)> + 'static>(m: M) -> L {
    let params = <M as Module<(&Tensor, &Tensor)>>::parameters(&m).into_iter().cloned().collect();
    L { params, run: Box::new(move |x| m.forward((&x[0], &x[1]))) }
}
fn l3<M: for<'a> Module<(&'a Tensor, &'a Tensor, &'a Tensor)> + 'static>(m: M) -> L {
    let params = <M as Module<(&Tensor, &Tensor, &Tensor)>>::parameters(&m).into_iter().cloned().collect();
    L { params, run: Box::new(move |x| m.forward((&x[0], &x[1], &x[2]))) }
}
fn er(sig: &str, what: &str) -> impl Fn(hodu_core::error::HoduError) -> Fail {
    let s = format!("{}: {}", sig, what);
    move |e| Fail::Bad(s.clone(), e.to_string())
}
fn rd(sig: &str, t: &Tensor) -> Result<RT, Fail> {
    read(t).map_err(|e| Fail::Bad(format!("{}: unreadable", sig), e))
}
fn to64(r: &RT) -> RT {
    if is_float(r.dt) { r.map(DType::F64, |v| V::F(v.f())) } else { r.clone() }
}
fn f(v: V) -> f64 {
    v.f()
}
fn mk(s: &[usize], mut g: impl FnMut(&[usize]) -> f64) -> RT {
    RT::from_fn(DType::F64, s, |ix| V::F(g(ix)))
}
fn dt2(cx: &mut Cx) -> DType {
    if cx.rng.chance(0.55) { DType::F64 } else { DType::F32 }
}
fn hyp(rng: &mut Rng, x: f64, dt: DType) -> (Scalar, f64) {
    if rng.chance(0.5) {
        (Scalar::from(x as f32), quant(dt, x as f32 as f64))
    } else {
        (Scalar::from(x), quant(dt, x))
    }
}
fn view(cx: &mut Cx, dt: DType, s: &[usize], g: Gen) -> Result<(Tensor, RT), Fail> {
    let lay = gen_lay(&mut cx.rng);
    gen_view(&mut cx.rng, dt, s, g, lay)
}
fn ishape(cx: &Cx, ins: &[(Tensor, RT)]) -> String {
    let _ = cx;
    ins.iter().map(|(_, r)| format!("{:?}{:?}", r.dt, r.shape)).collect::<Vec<_>>().join(" ")
}
fn vals(ins: &[(Tensor, RT)]) -> String {
    trunc(&ins.iter().map(|(_, r)| crate::p_elem::vh(r)).collect::<Vec<_>>().join(","), 200)
}

/// Set the parameters to chosen values and compare: shape, dtype, elements of the output; gradients with differences of the reference.
/// `diff` inputs (the first ones) are differentiated. `reff` gets the inputs followed by the parameters, in f64.
fn verify(cx: &mut Cx, sig: &str, l: &L, pshapes: &[Vec<usize>], ins: &[(Tensor, RT)], dt: DType, diff: usize, k: f64, reff: &dyn Fn(&[RT]) -> RT) -> R {
    check!(l.params.len() == pshapes.len(), format!("{}: number of parameters", sig), "{} expected {}", l.params.len(), pshapes.len());
    let mut all: Vec<RT> = ins.iter().map(|x| x.1.clone()).collect();
    for (i, (p, s)) in l.params.iter().zip(pshapes).enumerate() {
        let r = rd(sig, p)?;
        check!(&r.shape == s && r.dt == dt, format!("{}: parameter shape", sig), "parameter {}: {:?} {:?}, expected {:?} {:?}", i, r.dt, r.shape, dt, s);
        check!(p.is_requires_grad(), format!("{}: parameter does not require grad", sig), "parameter {}", i);
        let (t, v) = view(cx, dt, s, Gen::Range(-1.5, 1.5))?;
        p.set_(&t).map_err(er(sig, "set_"))?;
        all.push(v);
    }
    let grads = dt == DType::F64 && cx.rng.chance(0.5) && (diff > 0 || !l.params.is_empty());
    let ts: Vec<Tensor> = ins.iter().map(|x| x.0.clone()).collect();
    if grads {
        for t in &ts[..diff] {
            t.set_requires_grad(true).map_err(er(sig, "requires_grad"))?;
        }
    }
    if CAPTURE.with(|c| c.get()) {
        let rs: Vec<RT> = ins.iter().map(|x| x.1.clone()).collect();
        return crate::p_cap::module(cx, sig, &rs, &ts, &|x| Ok(vec![(l.run)(x)?]));
    }
    let out = (l.run)(&ts).map_err(er(sig, "forward"))?;
    let got = rd(sig, &out)?;
    let all64: Vec<RT> = all.iter().map(to64).collect();
    let e = reff(&all64);
    check!(got.dt == dt, format!("{}: dtype", sig), "{:?} expected {:?}", got.dt, dt);
    check!(got.shape == e.shape, format!("{}: shape", sig), "{:?} expected {:?}", got.shape, e.shape);
    let m = e.data.iter().map(|v| f(*v).abs()).filter(|x| x.is_finite()).fold(1.0, f64::max);
    for i in 0..e.data.len() {
        let (g, x) = (f(got.data[i]), f(e.data[i]));
        let ok = if x.is_finite() { (g - x).abs() <= k * eps(dt) * m } else if x.is_nan() { true } else { g == x };
        if !ok {
            bail!(format!("{}: value", sig), "element {:?} is {}, expected {} ({} of {})", unravel(i, &e.shape), g, x, got.show(), e.show());
        }
    }
    cx.count("elements_compared", e.data.len() as u64);
    for (t, r) in ins.iter() {
        let now = rd(sig, t)?;
        if let Some(d) = crate::rt::diff(&now, r, EXACT) {
            bail!(format!("{}: input changed", sig), "{}", d);
        }
    }
    if grads {
        let w = RT::from_fn(DType::F64, &e.shape, |_| V::F((cx.rng.uni(-2.0, 2.0) * 16.0).round() / 16.0));
        let loss = out.mul(&w.t()).and_then(|x| x.sum_all()).map_err(er(sig, "loss"))?;
        loss.backward().map_err(er(sig, "backward"))?;
        let mut gs: Vec<Option<RT>> = vec![];
        for (i, t) in ts.iter().chain(l.params.iter()).enumerate() {
            if i >= diff && i < ts.len() {
                gs.push(None);
                continue;
            }
            let g = t.grad().map_err(|e| Fail::Bad(format!("{}: no gradient", sig), format!("of {} {}: {}", if i < ts.len() { "input" } else { "parameter" }, i, e)))?;
            let g = rd(sig, &g)?;
            check!(g.shape == all[i].shape, format!("{}: gradient shape", sig), "{:?} expected {:?}", g.shape, all[i].shape);
            gs.push(Some(g));
        }
        let ev = |x: &[RT]| -> Result<f64, String> {
            let o = reff(x);
            Ok(o.data.iter().zip(&w.data).map(|(a, b)| f(*a) * f(*b)).sum())
        };
        match check_fd(cx, &format!("{}: gradient", sig), &all64, &gs, 6, &ev) {
            Err(Fail::Skip) => {}
            r => r?,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ losses

fn mean(v: &[f64]) -> RT {
    mk(&[], |_| v.iter().sum::<f64>() / v.len() as f64)
}
fn f_loss(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let k = cx.rng.below(10);
    let s = gen_shape(&mut cx.rng, 1, 3, 30);
    let sig;
    match k {
        0 | 1 => {
            let logits = k == 1;
            sig = if logits { "BCEWithLogits" } else { "BCE" };
            let p = view(cx, dt, &s, if logits { Gen::Range(-8.0, 8.0) } else { Gen::Range(0.0, 1.0) })?;
            let t = view(cx, dt, &s, Gen::Range(0.0, 1.0))?;
            let (l, ep) = if logits {
                (l2(BCEWithLogitsLoss::new()), 0.0)
            } else if cx.rng.chance(0.4) {
                (l2(BCELoss::new()), quant(dt, 1e-7f32 as f64))
            } else {
                let (e, v) = { let x = *cx.rng.pick(&[1e-3, 0.01, 0.1]); hyp(&mut cx.rng, x, dt) };
                (l2(BCELoss::with_epsilon(e)), v)
            };
            let ins = [p, t];
            cx.d(format!("{} eps {} {} {}", sig, ep, ishape(cx, &ins), vals(&ins)));
            verify(cx, sig, &l, &[], &ins, dt, 1, 2000.0, &|x| {
                let v: Vec<f64> = (0..x[0].data.len())
                    .map(|i| {
                        let (p, t) = (f(x[0].data[i]), f(x[1].data[i]));
                        if logits {
                            r_softplus(p) - p * t
                        } else {
                            let p = p.clamp(ep, 1.0 - ep);
                            -(t * p.ln() + (1.0 - t) * (1.0 - p).ln())
                        }
                    })
                    .collect();
                mean(&v)
            })
        }
        2 | 3 => {
            let ce = k == 2;
            sig = if ce { "CrossEntropy" } else { "NLL" };
            let d = if cx.rng.chance(0.5) { s.len() - 1 } else { cx.rng.below(s.len()) };
            let mut ts = s.clone();
            let c = ts.remove(d);
            let p = view(cx, dt, &s, Gen::Range(-6.0, 6.0))?;
            let lay = gen_lay(&mut cx.rng);
            let tm = RT::from_fn(DType::I32, &ts, |_| V::I(cx.rng.below(c) as i128));
            let t = (view_of(&mut cx.rng, &tm, lay)?, tm);
            let spell = if cx.rng.chance(0.5) { d as i32 - s.len() as i32 } else { d as i32 };
            let dflt = d == s.len() - 1 && cx.rng.chance(0.3);
            let l = match (ce, dflt) {
                (true, true) => l2(CrossEntropyLoss::new()),
                (true, false) => l2(CrossEntropyLoss::with_dim(spell)),
                (false, true) => l2(NLLLoss::new()),
                (false, false) => l2(NLLLoss::with_dim(spell)),
            };
            let ins = [p, t];
            cx.d(format!("{} dim {} {} {}", sig, spell, ishape(cx, &ins), vals(&ins)));
            verify(cx, sig, &l, &[], &ins, dt, 1, 500.0, &|x| {
                let v: Vec<f64> = (0..x[1].data.len())
                    .map(|i| {
                        let mut ix = unravel(i, &ts);
                        ix.insert(d, 0);
                        let row: Vec<f64> = (0..c)
                            .map(|j| {
                                ix[d] = j;
                                f(x[0].at(&ix))
                            })
                            .collect();
                        let t = x[1].data[i].i() as usize;
                        let m = row.iter().cloned().fold(f64::MIN, f64::max);
                        let z = if ce { m + row.iter().map(|y| (y - m).exp()).sum::<f64>().ln() } else { 0.0 };
                        z - row[t]
                    })
                    .collect();
                mean(&v)
            })
        }
        4..=6 | 9 => {
            let names = ["Huber", "MAE", "MSE", "", "", "SmoothL1"];
            sig = names[k - 4];
            let p = view(cx, dt, &s, Gen::Range(-3.0, 3.0))?;
            let t = view(cx, dt, &s, Gen::Range(-3.0, 3.0))?;
            let (b_s, b) = { let x = *cx.rng.pick(&[1.0, 0.5, 2.0, 0.1]); hyp(&mut cx.rng, x, dt) };
            let l = match k {
                4 => l2(HuberLoss::new(b_s)),
                5 => l2(MAELoss::new()),
                6 => l2(MSELoss::new()),
                _ => l2(hodu_nn::prelude::SmoothL1Loss::with_beta(b_s)),
            };
            let ins = [p, t];
            let n0 = s[0] as f64;
            cx.d(format!("{} {} {} {}", sig, b, ishape(cx, &ins), vals(&ins)));
            verify(cx, sig, &l, &[], &ins, dt, 2, 300.0, &|x| {
                let v: Vec<f64> = (0..x[0].data.len())
                    .map(|i| {
                        let e = f(x[0].data[i]) - f(x[1].data[i]);
                        let a = e.abs();
                        match k {
                            4 => if a <= b { e * e / 2.0 } else { b * a - b * b / 2.0 },
                            5 => a,
                            6 => e * e,
                            _ => if a < b { 0.5 * e * e / b } else { a - 0.5 * b },
                        }
                    })
                    .collect();
                // Huber and MAE average over the batch, the others over all elements
                let s: f64 = v.iter().sum();
                mk(&[], |_| if k == 4 || k == 5 { s / n0 } else { s / v.len() as f64 })
            })
        }
        7 => {
            sig = "KLDiv";
            let lt = cx.rng.chance(0.4);
            let p = view(cx, dt, &s, Gen::Range(-4.0, 0.0))?;
            let mut tm = gen_rt(&mut cx.rng, dt, &s, if lt { Gen::Range(-4.0, 0.0) } else { Gen::Range(0.0, 1.0) });
            if !lt {
                for v in tm.data.iter_mut() {
                    if cx.rng.chance(0.15) {
                        *v = V::F(0.0);
                    }
                }
            }
            let lay = gen_lay(&mut cx.rng);
            let t = (view_of(&mut cx.rng, &tm, if lay == Lay::Broadcast { Lay::Contig } else { lay })?, tm);
            let l = l2(hodu_nn::prelude::KLDivLoss::with_log_target(lt));
            let n0 = s[0] as f64;
            let ins = [p, t];
            cx.d(format!("{} log_target {} {} {}", sig, lt, ishape(cx, &ins), vals(&ins)));
            verify(cx, sig, &l, &[], &ins, dt, 1, 300.0, &|x| {
                let s: f64 = (0..x[0].data.len())
                    .map(|i| {
                        let (p, t) = (f(x[0].data[i]), f(x[1].data[i]));
                        if lt { t.exp() * (t - p) } else if t == 0.0 { 0.0 } else { t * (t.ln() - p) }
                    })
                    .sum();
                mk(&[], |_| s / n0)
            })
        }
        _ => {
            sig = "CosineEmbedding";
            let (n, d) = (cx.rng.usize(1, 4), cx.rng.usize(1, 5));
            let a = view(cx, dt, &[n, d], Gen::Range(-2.0, 2.0))?;
            let b = view(cx, dt, &[n, d], Gen::Range(-2.0, 2.0))?;
            let ym = RT::from_fn(dt, &[n], |_| V::F(if cx.rng.chance(0.5) { 1.0 } else { -1.0 }));
            let y = (ym.t(), ym);
            let (m_s, m) = { let x = *cx.rng.pick(&[0.0, 0.5, 0.25]); hyp(&mut cx.rng, x, dt) };
            let l = if cx.rng.chance(0.3) && m == 0.0 { l3(hodu_nn::prelude::CosineEmbeddingLoss::new()) } else { l3(hodu_nn::prelude::CosineEmbeddingLoss::with_margin(m_s)) };
            let ins = [a, b, y];
            // tiny vectors make the quotient ill-conditioned
            let len = |r: &RT, i: usize| (0..d).map(|j| f(r.at(&[i, j])).powi(2)).sum::<f64>().sqrt();
            if (0..n).any(|i| len(&ins[0].1, i) < 0.1 || len(&ins[1].1, i) < 0.1) {
                return Err(Fail::Skip);
            }
            cx.d(format!("{} margin {} {} {}", sig, m, ishape(cx, &ins), vals(&ins)));
            verify(cx, sig, &l, &[], &ins, dt, 2, 300.0, &|x| {
                let v: Vec<f64> = (0..n)
                    .map(|i| {
                        let dot: f64 = (0..d).map(|j| f(x[0].at(&[i, j])) * f(x[1].at(&[i, j]))).sum();
                        let c = dot / (len(&x[0], i) * len(&x[1], i) + 1e-8);
                        if f(x[2].data[i]) == 1.0 { 1.0 - c } else { (c - m).max(0.0) }
                    })
                    .collect();
                mean(&v)
            })
        }
    }
}

// ------------------------------------------------------------------------------------------------ dense, embedding, activations, dropout

fn f_linear(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let (i, o, b) = (cx.rng.usize(1, 6), cx.rng.usize(1, 6), cx.rng.chance(0.6));
    let mut s = gen_shape(&mut cx.rng, 1, 3, 20);
    s.push(i);
    let x = view(cx, dt, &s, Gen::Range(-2.0, 2.0))?;
    let m = Linear::new(i, o, b, dt).map_err(er("Linear", "new"))?;
    let l = l1(m);
    let ins = [x];
    cx.d(format!("Linear {}->{} bias {} {} {}", i, o, b, ishape(cx, &ins), vals(&ins)));
    let mut ps = vec![vec![o, i]];
    if b {
        ps.push(vec![o]);
    }
    let mut os = s.clone();
    *os.last_mut().unwrap() = o;
    verify(cx, "Linear", &l, &ps, &ins, dt, 1, 200.0, &|x| {
        mk(&os, |ix| {
            let (pre, oo) = (&ix[..ix.len() - 1], ix[ix.len() - 1]);
            let mut xi = pre.to_vec();
            xi.push(0);
            let mut a = if b { f(x[2].at(&[oo])) } else { 0.0 };
            for q in 0..i {
                *xi.last_mut().unwrap() = q;
                a += f(x[0].at(&xi)) * f(x[1].at(&[oo, q]));
            }
            a
        })
    })
}

fn f_act(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let s = gen_shape(&mut cx.rng, 0, 3, 30);
    let k = cx.rng.below(12);
    let sig = ["ReLU", "Sigmoid", "Tanh", "Gelu", "Softplus", "SiLU", "Swish", "Mish", "LeakyReLU", "ELU", "PReLU", "RReLU"][k];
    let (a_s, a) = { let x = *cx.rng.pick(&[0.01, 0.2, 1.0, 0.5]); hyp(&mut cx.rng, x, dt) };
    let evalm = cx.rng.chance(0.5);
    let l = match k {
        0 => l1(ReLU::new()),
        1 => l1(Sigmoid::new()),
        2 => l1(Tanh::new()),
        3 => l1(Gelu::new()),
        4 => l1(Softplus::new()),
        5 => l1(SiLU::new()),
        6 => l1(Swish::new()),
        7 => l1(Mish::new()),
        8 => l1(LeakyReLU::new(a_s)),
        9 => l1(ELU::new(a_s)),
        10 => l1(PReLU::new(a_s)),
        _ => l1(RReLU::new(0.125f32, 0.375f32)),
    };
    let x = view(cx, dt, &s, Gen::Range(-5.0, 5.0))?;
    let ins = [x];
    cx.d(format!("{} {} eval {} {} {}", sig, a, evalm, ishape(cx, &ins), vals(&ins)));
    if k == 11 && !evalm {
        hodu_nn::train!();
        let o = (l.run)(&[ins[0].0.clone()]).map_err(er(sig, "forward"))?;
        let o = rd(sig, &o)?;
        check!(o.shape == s && o.dt == dt, "RReLU: shape", "{:?} {:?}", o.dt, o.shape);
        for (g, x) in o.data.iter().zip(&ins[0].1.data) {
            let (g, x) = (f(*g), f(*x));
            let ok = if x > 0.0 { g == x } else { g <= 0.125 * x * (1.0 - 1e-5) && g >= 0.375 * x * (1.0 + 1e-5) };
            check!(ok, "RReLU: value", "{} for {}", g, x);
        }
        cx.count("elements_compared", o.data.len() as u64);
        return Ok(());
    }
    if evalm {
        hodu_nn::eval!();
    } else {
        hodu_nn::train!();
    }
    let r = verify(cx, sig, &l, &[], &ins, dt, 1, 100.0, &|x| {
        x[0].map(DType::F64, |v| {
            let x = f(v);
            V::F(match k {
                0 => x.max(0.0),
                1 => r_sigmoid(x),
                2 => x.tanh(),
                3 => r_gelu(x),
                4 => r_softplus(x),
                5 | 6 => x * r_sigmoid(x),
                7 => x * r_softplus(x).tanh(),
                8 | 10 => if x > 0.0 { x } else { a * x },
                9 => if x > 0.0 { x } else { a * x.exp_m1() },
                _ => if x > 0.0 { x } else { 0.25 * x },
            })
        })
    });
    hodu_nn::train!();
    r
}

fn f_dropout(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let s = if cx.rng.chance(0.3) { vec![cx.rng.usize(500, 4000)] } else { gen_shape(&mut cx.rng, 0, 3, 30) };
    let (p_s, p) = { let x = *cx.rng.pick(&[0.0, 0.1, 0.25, 0.5, 0.9]); hyp(&mut cx.rng, x, DType::F32) };
    let evalm = cx.rng.chance(0.3);
    let (x, m) = view(cx, dt, &s, Gen::Range(0.5, 3.0))?;
    cx.d(format!("Dropout {} eval {} {:?} {:?} {}", p, evalm, dt, s, crate::p_elem::vh(&m)));
    let l = l1(Dropout::new(p_s));
    check!(l.params.is_empty(), "Dropout: parameters", "{}", l.params.len());
    if evalm {
        hodu_nn::eval!();
    }
    x.set_requires_grad(true).map_err(er("Dropout", "grad"))?;
    let o = (l.run)(&[x.clone()]);
    hodu_nn::train!();
    let out = o.map_err(er("Dropout", "forward"))?;
    let o = rd("Dropout", &out)?;
    check!(o.shape == s && o.dt == dt, "Dropout: shape", "{:?} {:?}", o.dt, o.shape);
    let sc = if evalm { 1.0 } else { 1.0 / (1.0 - p) };
    let mut kept = 0usize;
    for (g, v) in o.data.iter().zip(&m.data) {
        let (g, v) = (f(*g), f(*v));
        if g == 0.0 && !evalm {
            continue;
        }
        kept += 1;
        check!((g - v * sc).abs() <= 8.0 * eps(DType::F32) * v * sc, "Dropout: value", "{} for {} (p {} eval {})", g, v, p, evalm);
    }
    if evalm {
        check!(o.fs() == m.fs(), "Dropout: evaluation is the identity", "{}", o.show());
    }
    let n = o.data.len() as f64;
    if !evalm && p == 0.0 {
        check!(kept as f64 >= n - 1.0, "Dropout: p = 0 drops", "{} of {}", kept, n);
    }
    if !evalm && n > 400.0 {
        let sd = (n * p * (1.0 - p)).sqrt();
        check!((kept as f64 - n * (1.0 - p)).abs() <= 7.0 * sd + 1.0, "Dropout: rate", "kept {} of {} at p {}", kept, n, p);
    }
    if s.iter().product::<usize>() < 100 {
        out.sum_all().and_then(|y| y.backward()).map_err(er("Dropout", "backward"))?;
        let g = rd("Dropout", &x.grad().map_err(er("Dropout", "no gradient"))?)?;
        for ((g, o), v) in g.data.iter().zip(&o.data).zip(&m.data) {
            let e = f(*o) / f(*v);
            check!((f(*g) - e).abs() <= 1e-5 * (1.0 + e), "Dropout: gradient", "{} expected {}", f(*g), e);
        }
    }
    cx.count("elements_compared", o.data.len() as u64);
    Ok(())
}

fn f_embed(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let (n, d) = (cx.rng.usize(1, 7), cx.rng.usize(1, 5));
    let pad = if cx.rng.chance(0.4) { Some(cx.rng.below(n)) } else { None };
    let mn = if cx.rng.chance(0.4) { Some({ let x = *cx.rng.pick(&[0.5, 1.0, 2.0]); hyp(&mut cx.rng, x, dt) }) } else { None };
    let pt = *cx.rng.pick(&[2.0f32, 2.0, 1.0, 3.0]);
    let pre = cx.rng.chance(0.3);
    let s = gen_shape(&mut cx.rng, 1, 3, 12);
    let im = RT::from_fn(DType::I32, &s, |_| V::I(cx.rng.below(n) as i128));
    let lay = gen_lay(&mut cx.rng);
    let ins = [(view_of(&mut cx.rng, &im, lay)?, im)];
    cx.d(format!("Embedding {}x{} pretrained {} padding {:?} max_norm {:?} type {} {} {}", n, d, pre, pad, mn.map(|m| m.1), pt, ishape(cx, &ins), vals(&ins)));
    let (pad, mn, pt) = if pre { (None, None, 2.0) } else { (pad, mn, pt) };
    let l = if pre {
        let w = gen_rt(&mut cx.rng, dt, &[n, d], Gen::Range(-2.0, 2.0));
        l1(Embedding::from_pretrained(w.t(), false).map_err(er("Embedding", "from_pretrained"))?)
    } else {
        let m = Embedding::new(n, d, pad, mn.map(|m| m.0), pt, dt).map_err(er("Embedding", "new"))?;
        if let Some(k) = pad {
            let w = rd("Embedding", m.weight())?;
            check!((0..d).all(|j| f(w.at(&[k, j])) == 0.0), "Embedding: padding row", "{}", w.show());
        }
        l1(m)
    };
    let mut os = s.clone();
    os.push(d);
    verify(cx, "Embedding", &l, &[vec![n, d]], &ins, dt, 0, 200.0, &|x| {
        mk(&os, |ix| {
            let r = x[0].at(&ix[..ix.len() - 1]).i() as usize;
            if Some(r) == pad {
                return 0.0;
            }
            let v = f(x[1].at(&[r, ix[ix.len() - 1]]));
            match &mn {
                None => v,
                Some((_, m)) => {
                    let p = pt as f64;
                    let nm = (0..d).map(|j| f(x[1].at(&[r, j])).abs().powf(p)).sum::<f64>().powf(1.0 / p);
                    if nm > *m { v * m / nm } else { v }
                }
            }
        })
    })
}

// ------------------------------------------------------------------------------------------------ convolution, pooling

fn f_conv(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let nd = cx.rng.usize(1, 3);
    let tr = cx.rng.chance(0.4);
    let Some(mut g) = crate::p_conv::geo(cx, nd, tr) else { return Err(Fail::Skip) };
    g.ker = vec![g.ker[0]; nd];
    let Some(os) = g.out(tr) else { return Err(Fail::Skip) };
    let bias = cx.rng.chance(0.6);
    let sig = format!("Conv{}{}D", if tr { "Transpose" } else { "" }, nd);
    let k = g.ker[0];
    let e = er(&sig, "new");
    let l = match (nd, tr) {
        (1, false) => l1(Conv1D::new(g.ci, g.co, k, g.s, g.p, g.d, bias, dt).map_err(e)?),
        (2, false) => l1(Conv2D::new(g.ci, g.co, k, g.s, g.p, g.d, bias, dt).map_err(e)?),
        (3, false) => l1(Conv3D::new(g.ci, g.co, k, g.s, g.p, g.d, bias, dt).map_err(e)?),
        (1, true) => l1(ConvTranspose1D::new(g.ci, g.co, k, g.s, g.p, g.op, g.d, bias, dt).map_err(e)?),
        (2, true) => l1(ConvTranspose2D::new(g.ci, g.co, k, g.s, g.p, g.op, g.d, bias, dt).map_err(e)?),
        _ => l1(ConvTranspose3D::new(g.ci, g.co, k, g.s, g.p, g.op, g.d, bias, dt).map_err(e)?),
    };
    let x = view(cx, dt, &cat(g.n, g.ci, &g.inp), Gen::Range(-2.0, 2.0))?;
    let ins = [x];
    cx.d(format!("{} k{} s{} p{} d{} op{} {} -> {} bias {} {} {}", sig, k, g.s, g.p, g.d, g.op, g.ci, g.co, bias, ishape(cx, &ins), vals(&ins)));
    let ws = if tr { cat(g.ci, g.co, &g.ker) } else { cat(g.co, g.ci, &g.ker) };
    let mut ps = vec![ws];
    if bias {
        ps.push(vec![g.co]);
    }
    let _ = os;
    verify(cx, &sig, &l, &ps, &ins, dt, 1, 300.0, &|x| {
        let (o, _) = conv_model(&g, &x[0], &x[1], tr);
        let mut o = to64(&o);
        if bias {
            for i in 0..o.data.len() {
                let c = unravel(i, &o.shape)[1];
                o.data[i] = V::F(f(o.data[i]) + f(x[2].data[c]));
            }
        }
        o
    })
}

/// windows [start, end) per axis (may leave the input: padding), then the reduction
fn pool(x: &RT, wins: &[Vec<(i64, i64)>], maxp: bool) -> RT {
    let (n, c) = (x.shape[0], x.shape[1]);
    let os = cat(n, c, &wins.iter().map(|w| w.len()).collect::<Vec<_>>());
    mk(&os, |ix| {
        let ws: Vec<(i64, i64)> = (0..wins.len()).map(|a| wins[a][ix[2 + a]]).collect();
        let ext: Vec<usize> = ws.iter().map(|w| (w.1 - w.0) as usize).collect();
        let (mut m, mut s) = (f64::NEG_INFINITY, 0.0);
        for q in 0..numel(&ext) {
            let o = unravel(q, &ext);
            let p: Vec<i64> = (0..o.len()).map(|a| ws[a].0 + o[a] as i64).collect();
            if p.iter().zip(&x.shape[2..]).all(|(&v, &d)| v >= 0 && v < d as i64) {
                let v = f(x.at(&cat(ix[0], ix[1], &p.iter().map(|&v| v as usize).collect::<Vec<_>>())));
                m = m.max(v);
                s += v;
            }
        }
        if maxp { m } else { s / numel(&ext) as f64 }
    })
}
fn f_pool(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let nd = cx.rng.usize(1, 3);
    let kind = cx.rng.below(4);
    let maxp = kind == 3 || cx.rng.chance(0.5);
    let sp: Vec<usize> = (0..nd).map(|_| cx.rng.usize(1, [0, 12, 7, 4][nd])).collect();
    let (n, c) = (cx.rng.usize(1, 3), cx.rng.usize(1, 3));
    let nm = if maxp { "Max" } else { "Avg" };
    let (sig, l, wins, desc): (String, L, Vec<Vec<(i64, i64)>>, String);
    match kind {
        0 => {
            let k = cx.rng.usize(1, 4);
            let s = cx.rng.usize(1, 4);
            let p = cx.rng.below(k);
            if sp.iter().any(|&d| d + 2 * p < k) {
                return Err(Fail::Skip);
            }
            sig = format!("{}Pool{}D", nm, nd);
            l = match (nd, maxp) {
                (1, true) => l1(MaxPool1D::new(k, s, p)),
                (2, true) => l1(MaxPool2D::new(k, s, p)),
                (3, true) => l1(MaxPool3D::new(k, s, p)),
                (1, false) => l1(AvgPool1D::new(k, s, p)),
                (2, false) => l1(AvgPool2D::new(k, s, p)),
                _ => l1(AvgPool3D::new(k, s, p)),
            };
            wins = sp.iter().map(|&d| (0..(d + 2 * p - k) / s + 1).map(|i| ((i * s) as i64 - p as i64, (i * s + k) as i64 - p as i64)).collect()).collect();
            desc = format!("k{} s{} p{}", k, s, p);
        }
        1 => {
            let os: Vec<usize> = sp.iter().map(|&d| cx.rng.usize(1, d)).collect();
            sig = format!("Adaptive{}Pool{}D", nm, nd);
            l = match (nd, maxp) {
                (1, true) => l1(AdaptiveMaxPool1D::new(os[0])),
                (2, true) => l1(AdaptiveMaxPool2D::new((os[0], os[1]))),
                (3, true) => l1(AdaptiveMaxPool3D::new((os[0], os[1], os[2]))),
                (1, false) => l1(AdaptiveAvgPool1D::new(os[0])),
                (2, false) => l1(AdaptiveAvgPool2D::new((os[0], os[1]))),
                _ => l1(AdaptiveAvgPool3D::new((os[0], os[1], os[2]))),
            };
            // equal windows: stride floor(in / out), kernel what is left of the last one
            wins = sp
                .iter()
                .zip(&os)
                .map(|(&d, &o)| {
                    let s = d / o;
                    let k = d - (o - 1) * s;
                    (0..o).map(|i| ((i * s) as i64, (i * s + k) as i64)).collect()
                })
                .collect();
            desc = format!("{:?}", os);
        }
        2 => {
            sig = format!("Global{}Pool{}D", nm, nd);
            l = match (nd, maxp) {
                (1, true) => l1(GlobalMaxPool1D::new()),
                (2, true) => l1(GlobalMaxPool2D::new()),
                (3, true) => l1(GlobalMaxPool3D::new()),
                (1, false) => l1(GlobalAvgPool1D::new()),
                (2, false) => l1(GlobalAvgPool2D::new()),
                _ => l1(GlobalAvgPool3D::new()),
            };
            wins = sp.iter().map(|&d| vec![(0, d as i64)]).collect();
            desc = String::new();
        }
        _ => {
            if nd == 1 {
                return Err(Fail::Skip);
            }
            let ratio = cx.rng.chance(0.4);
            let rs: Vec<f64> = (0..nd).map(|_| *cx.rng.pick(&[0.5, 0.7, 1.0, 0.75])).collect();
            let os: Vec<usize> = sp.iter().zip(&rs).map(|(&d, r)| if ratio { (d as f64 * r) as usize } else { cx.rng.usize(1, d) }).collect();
            if os.iter().any(|&o| o == 0) {
                return Err(Fail::Skip);
            }
            sig = format!("FractionalMaxPool{}D", nd);
            l = match (nd, ratio) {
                (2, false) => l1(FractionalMaxPool2D::with_output_size((os[0], os[1]))),
                (2, true) => l1(FractionalMaxPool2D::with_output_ratio((rs[0], rs[1]))),
                (_, false) => l1(FractionalMaxPool3D::with_output_size((os[0], os[1], os[2]))),
                (_, true) => l1(FractionalMaxPool3D::with_output_ratio((rs[0], rs[1], rs[2]))),
            };
            // regions cover the input, in order, without overlap
            wins = sp
                .iter()
                .zip(&os)
                .map(|(&d, &o)| {
                    let b = |i: usize| ((d as f64 / o as f64) * i as f64).round() as i64;
                    (0..o).map(|i| (b(i), if i + 1 == o { d as i64 } else { b(i + 1) })).collect()
                })
                .collect();
            desc = format!("{:?} ratio {}", os, ratio);
        }
    }
    let s = cat(n, c, &sp);
    let x = if maxp && cx.rng.chance(0.7) { view(cx, dt, &s, Gen::Distinct)? } else { view(cx, dt, &s, Gen::Range(-2.0, 2.0))? };
    let ins = [x];
    cx.d(format!("{} {} {} {}", sig, desc, ishape(cx, &ins), vals(&ins)));
    // where several windows hold ties, the share of each is not a one-sided derivative of their sum
    let mut v = ins[0].1.fs();
    v.sort_by(f64::total_cmp);
    let tied = maxp && v.windows(2).any(|w| w[0] == w[1]);
    verify(cx, &sig, &l, &[], &ins, dt, !tied as usize, 100.0, &|x| pool(&x[0], &wins, maxp))
}

// ------------------------------------------------------------------------------------------------ normalisation

/// mean and variance of the elements of `x` grouped by `key`
fn stats(x: &RT, groups: usize, key: &dyn Fn(&[usize]) -> usize) -> (Vec<f64>, Vec<f64>) {
    let (mut n, mut m, mut v) = (vec![0.0f64; groups], vec![0.0f64; groups], vec![0.0f64; groups]);
    for i in 0..x.data.len() {
        let g = key(&unravel(i, &x.shape));
        n[g] += 1.0;
        m[g] += f(x.data[i]);
    }
    for g in 0..groups {
        m[g] /= n[g];
    }
    for i in 0..x.data.len() {
        let g = key(&unravel(i, &x.shape));
        v[g] += (f(x.data[i]) - m[g]).powi(2);
    }
    for g in 0..groups {
        v[g] /= n[g];
    }
    (m, v)
}
fn f_norm(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let (e_s, e) = { let x = *cx.rng.pick(&[1e-5, 1e-3, 0.1]); hyp(&mut cx.rng, x, dt) };
    let affine = cx.rng.chance(0.6);
    let kind = cx.rng.below(4);
    // error of a difference of equal values, seen through the square root
    let k = 60.0 / e.sqrt() + 300.0;
    match kind {
        0 | 1 => {
            let rms = kind == 1;
            let sig = if rms { "RMSNorm" } else { "LayerNorm" };
            let s = gen_shape(&mut cx.rng, 1, 4, 40);
            let r = cx.rng.usize(1, s.len());
            let ns = s[s.len() - r..].to_vec();
            let l = if rms { l1(RMSNorm::new(ns.clone(), e_s, dt).map_err(er(sig, "new"))?) } else { l1(LayerNorm::new(ns.clone(), e_s, affine, dt).map_err(er(sig, "new"))?) };
            let x = view(cx, dt, &s, Gen::Range(-2.0, 2.0))?;
            let ins = [x];
            cx.d(format!("{} {:?} eps {} affine {} {} {}", sig, ns, e, affine, ishape(cx, &ins), vals(&ins)));
            let ps = if rms { vec![ns.clone()] } else if affine { vec![ns.clone(), ns.clone()] } else { vec![] };
            let outer = numel(&s) / numel(&ns);
            let per = numel(&ns);
            verify(cx, sig, &l, &ps, &ins, dt, 1, k, &|x| {
                let key = |ix: &[usize]| ravel(ix, &s) / per;
                let (m, v) = stats(&x[0], outer, &key);
                mk(&s, |ix| {
                    let g = key(ix);
                    let t = &ix[s.len() - r..];
                    let a = f(x[0].at(ix));
                    if rms {
                        a / (v[g] + m[g] * m[g] + e).sqrt() * f(x[1].at(t))
                    } else {
                        let y = (a - m[g]) / (v[g] + e).sqrt();
                        if affine { y * f(x[1].at(t)) + f(x[2].at(t)) } else { y }
                    }
                })
            })
        }
        _ => {
            let inst = kind == 3;
            let nd = if inst { cx.rng.usize(1, 3) } else { cx.rng.usize(0, 3) };
            let g = if inst { 0 } else { cx.rng.usize(1, 3) };
            let c = if inst { cx.rng.usize(1, 4) } else { g * cx.rng.usize(1, 3) };
            let n = cx.rng.usize(1, 3);
            let s = cat(n, c, &(0..nd).map(|_| cx.rng.usize(1, 4)).collect::<Vec<_>>());
            let sig = if inst { format!("InstanceNorm{}D", nd) } else { "GroupNorm".into() };
            let bld = er(&sig, "new");
            let l = if inst {
                match nd {
                    1 => l1(InstanceNorm1D::new(c, e_s, affine, dt).map_err(bld)?),
                    2 => l1(InstanceNorm2D::new(c, e_s, affine, dt).map_err(bld)?),
                    _ => l1(InstanceNorm3D::new(c, e_s, affine, dt).map_err(bld)?),
                }
            } else {
                l1(GroupNorm::new(g, c, e_s, affine, dt).map_err(bld)?)
            };
            let x = view(cx, dt, &s, Gen::Range(-2.0, 2.0))?;
            let ins = [x];
            cx.d(format!("{} groups {} eps {} affine {} {} {}", sig, g, e, affine, ishape(cx, &ins), vals(&ins)));
            let ps = if affine { vec![vec![c], vec![c]] } else { vec![] };
            let per = if inst { 1 } else { c / g };
            let ng = c / per;
            verify(cx, &sig, &l, &ps, &ins, dt, 1, k, &|x| {
                let key = |ix: &[usize]| ix[0] * ng + ix[1] / per;
                let (m, v) = stats(&x[0], n * ng, &key);
                mk(&s, |ix| {
                    let q = key(ix);
                    let y = (f(x[0].at(ix)) - m[q]) / (v[q] + e).sqrt();
                    if affine { y * f(x[1].data[ix[1]]) + f(x[2].data[ix[1]]) } else { y }
                })
            })
        }
    }
}

/// histories of training and evaluation calls of a batch normalisation layer
fn f_batchnorm(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let nd = cx.rng.usize(1, 3);
    let (e_s, e) = { let x = *cx.rng.pick(&[1e-5, 1e-3, 0.1]); hyp(&mut cx.rng, x, dt) };
    let (m_s, mo) = { let x = *cx.rng.pick(&[0.1, 0.9, 0.5, 0.0, 1.0, 0.99]); hyp(&mut cx.rng, x, dt) };
    let affine = cx.rng.chance(0.6);
    let c = cx.rng.usize(1, 4);
    let sig = format!("BatchNorm{}D", nd);
    let bld = er(&sig, "new");
    let l = match nd {
        1 => l1(BatchNorm1D::new(c, e_s, m_s, affine, dt).map_err(bld)?),
        2 => l1(BatchNorm2D::new(c, e_s, m_s, affine, dt).map_err(bld)?),
        _ => l1(BatchNorm3D::new(c, e_s, m_s, affine, dt).map_err(bld)?),
    };
    let calls = cx.rng.usize(1, 6);
    cx.d(format!("{} c{} eps {} momentum {} affine {} {:?}", sig, c, e, mo, affine, dt));
    let (mut rm, mut rv) = (vec![0.0; c], vec![1.0; c]);
    let k = 60.0 / e.sqrt() + 300.0;
    for i in 0..calls {
        let train = if i + 1 == calls { cx.rng.chance(0.4) } else { cx.rng.chance(0.7) };
        let sp = if nd == 1 && cx.rng.chance(0.5) { vec![] } else { (0..nd).map(|_| cx.rng.usize(1, 4)).collect::<Vec<_>>() };
        let s = cat(cx.rng.usize(1, 4), c, &sp);
        let off = *cx.rng.pick(&[0.0, 1.0, -2.0]);
        let x = view(cx, dt, &s, Gen::Range(-2.0 + off, 2.0 + off))?;
        let ins = [x];
        cx.d(format!("| {} {} {}", if train { "train" } else { "eval" }, ishape(cx, &ins), vals(&ins)));
        let ps = if affine { vec![vec![c], vec![c]] } else { vec![] };
        let key = |ix: &[usize]| ix[1];
        let (bm, bv) = stats(&to64(&ins[0].1), c, &key);
        if train {
            hodu_nn::train!();
        } else {
            hodu_nn::eval!();
        }
        let (erm, erv) = (rm.clone(), rv.clone());
        let r = verify(cx, &format!("{} {}", sig, if train { "train" } else { "eval" }), &l, &ps, &ins, dt, 1, k, &|x| {
            let (m, v) = if train { stats(&x[0], c, &key) } else { (erm.clone(), erv.clone()) };
            mk(&s, |ix| {
                let q = ix[1];
                let y = (f(x[0].at(ix)) - m[q]) / (v[q] + e).sqrt();
                if affine { y * f(x[1].data[q]) + f(x[2].data[q]) } else { y }
            })
        });
        hodu_nn::train!();
        r?;
        if train {
            for q in 0..c {
                rm[q] = mo * rm[q] + (1.0 - mo) * bm[q];
                rv[q] = mo * rv[q] + (1.0 - mo) * bv[q];
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ recurrent, attention

fn mv(w: &RT, row: usize, x: &[f64], b: Option<&RT>) -> f64 {
    (0..x.len()).map(|j| f(w.at(&[row, j])) * x[j]).sum::<f64>() + b.map(|b| f(b.data[row])).unwrap_or(0.0)
}
/// one cell step; p = [w_ih, w_hh, b_ih?, b_hh?]; returns (h', c')
fn cell(kind: usize, relu: bool, p: &[RT], x: &[f64], h: &[f64], c: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let n = h.len();
    let (bi, bh) = (p.get(2), p.get(3));
    let gi = |r: usize| mv(&p[0], r, x, bi);
    let gh = |r: usize| mv(&p[1], r, h, bh);
    let sg = r_sigmoid;
    match kind {
        0 => ((0..n).map(|j| { let v = gi(j) + gh(j); if relu { v.max(0.0) } else { v.tanh() } }).collect(), vec![]),
        1 => {
            let g = |q: usize, j: usize| gi(q * n + j) + gh(q * n + j);
            let c2: Vec<f64> = (0..n).map(|j| sg(g(1, j)) * c[j] + sg(g(0, j)) * g(2, j).tanh()).collect();
            ((0..n).map(|j| sg(g(3, j)) * c2[j].tanh()).collect(), c2)
        }
        _ => (
            (0..n)
                .map(|j| {
                    let r = sg(gi(j) + gh(j));
                    let z = sg(gi(n + j) + gh(n + j));
                    let nn = (gi(2 * n + j) + r * gh(2 * n + j)).tanh();
                    (1.0 - z) * nn + z * h[j]
                })
                .collect(),
            vec![],
        ),
    }
}
fn f_rnn(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let kind = cx.rng.below(3);
    let relu = kind == 0 && cx.rng.chance(0.4);
    let (i, h, nl) = (cx.rng.usize(1, 4), cx.rng.usize(1, 4), cx.rng.usize(1, 3));
    let (bias, bf) = (cx.rng.chance(0.6), cx.rng.chance(0.5));
    let (b, t) = (cx.rng.usize(1, 3), cx.rng.usize(1, 4));
    let single = cx.rng.chance(0.3);
    let state = cx.rng.chance(0.5) || single;
    let want = cx.rng.below(3);
    let sig = format!("{}{}", ["RNN", "LSTM", "GRU"][kind], if single { "Cell" } else { "" });
    let nonlin = if relu { Nonlinearity::ReLU } else { Nonlinearity::Tanh };
    let gates = [1, 4, 3][kind];
    let nl = if single { 1 } else { nl };
    let (b2, t2) = (b, t);
    let xs = if single { vec![b, i] } else if bf { vec![b, t, i] } else { vec![t, b, i] };
    let hs = if single { vec![b, h] } else { vec![nl, b, h] };
    let mut ins = vec![view(cx, dt, &xs, Gen::Range(-2.0, 2.0))?];
    if state {
        ins.push(view(cx, dt, &hs, Gen::Range(-1.0, 1.0))?);
        if kind == 1 {
            ins.push(view(cx, dt, &hs, Gen::Range(-1.0, 1.0))?);
        }
    }
    cx.d(format!("{} relu {} in {} hidden {} layers {} bias {} batch_first {} state {} result {} {} {}", sig, relu, i, h, nl, bias, bf, state, want, ishape(cx, &ins), vals(&ins)));
    let e = er(&sig, "new");
    let pick = move |o: Tensor, hn: Tensor, cn: Option<Tensor>| match (want, cn) {
        (0, _) => o,
        (1, _) => hn,
        (_, Some(c)) => c,
        _ => hn,
    };
    let cl = |v: Vec<&Tensor>| v.into_iter().cloned().collect::<Vec<_>>();
    let l = match (kind, single) {
        (0, true) => {
            let m = RNNCell::new(i, h, bias, nonlin, dt).map_err(e)?;
            L { params: cl(Module::<&Tensor>::parameters(&m)), run: Box::new(move |x| m.forward_step(&x[0], &x[1])) }
        }
        (1, true) => {
            let m = LSTMCell::new(i, h, bias, dt).map_err(e)?;
            L { params: cl(Module::<&Tensor>::parameters(&m)), run: Box::new(move |x| m.forward_step(&x[0], &x[1], &x[2]).map(|(a, c)| pick(a.clone(), a, Some(c)))) }
        }
        (_, true) => {
            let m = GRUCell::new(i, h, bias, dt).map_err(e)?;
            L { params: cl(Module::<&Tensor>::parameters(&m)), run: Box::new(move |x| m.forward_step(&x[0], &x[1])) }
        }
        (0, _) => {
            let m = RNN::new(i, h, nl, bias, bf, nonlin, dt).map_err(e)?;
            L { params: cl(Module::<&Tensor>::parameters(&m)), run: Box::new(move |x| if x.len() == 1 && want == 0 { m.forward(&x[0]) } else { m.forward_with_state(&x[0], x.get(1)).map(|(o, hn)| pick(o, hn, None)) }) }
        }
        (1, _) => {
            let m = LSTM::new(i, h, nl, bias, bf, dt).map_err(e)?;
            L {
                params: cl(Module::<&Tensor>::parameters(&m)),
                run: Box::new(move |x| if x.len() == 1 && want == 0 { m.forward(&x[0]) } else { lstm(&m, x).map(|(o, hn, cn)| pick(o, hn, Some(cn))) }),
            }
        }
        _ => {
            let m = GRU::new(i, h, nl, bias, bf, dt).map_err(e)?;
            L { params: cl(Module::<&Tensor>::parameters(&m)), run: Box::new(move |x| if x.len() == 1 && want == 0 { m.forward(&x[0]) } else { m.forward_with_state(&x[0], x.get(1)).map(|(o, hn)| pick(o, hn, None)) }) }
        }
    };
    let mut ps = vec![];
    for y in 0..nl {
        ps.push(vec![gates * h, if y == 0 { i } else { h }]);
        ps.push(vec![gates * h, h]);
        if bias {
            ps.push(vec![gates * h]);
            ps.push(vec![gates * h]);
        }
    }
    let per = ps.len() / nl;
    let ni = ins.len();
    let nd = ins.len();
    verify(cx, &sig, &l, &ps, &ins, dt, nd, 3000.0, &|x| {
        let at = |r: &RT, t: usize, b: usize, j: usize| f(if single { r.at(&[b, j]) } else if bf { r.at(&[b, t, j]) } else { r.at(&[t, b, j]) });
        let st = |r: Option<&RT>, y: usize, b: usize| -> Vec<f64> { (0..h).map(|j| r.map(|r| f(if single { r.at(&[b, j]) } else { r.at(&[y, b, j]) })).unwrap_or(0.0)).collect() };
        let tn = if single { 1 } else { t2 };
        let mut outs = vec![vec![vec![]; b2]; tn];
        let mut hn = vec![vec![vec![]; b2]; nl];
        let mut cn = vec![vec![vec![]; b2]; nl];
        for bb in 0..b2 {
            for y in 0..nl {
                hn[y][bb] = st(if state { Some(&x[1]) } else { None }, y, bb);
                cn[y][bb] = st(if state && kind == 1 { Some(&x[2]) } else { None }, y, bb);
            }
            for tt in 0..tn {
                let mut v: Vec<f64> = (0..i).map(|j| at(&x[0], tt, bb, j)).collect();
                for y in 0..nl {
                    let p = &x[ni + y * per..ni + (y + 1) * per];
                    let (a, c) = cell(kind, relu, p, &v, &hn[y][bb], &cn[y][bb]);
                    hn[y][bb] = a.clone();
                    cn[y][bb] = c;
                    v = a;
                }
                outs[tt][bb] = v;
            }
        }
        if single {
            return mk(&[b2, h], |ix| if kind == 1 && want == 2 { cn[0][ix[0]][ix[1]] } else { hn[0][ix[0]][ix[1]] });
        }
        match want {
            0 if bf => mk(&[b2, t2, h], |ix| outs[ix[1]][ix[0]][ix[2]]),
            0 => mk(&[t2, b2, h], |ix| outs[ix[0]][ix[1]][ix[2]]),
            2 if kind == 1 => mk(&[nl, b2, h], |ix| cn[ix[0]][ix[1]][ix[2]]),
            _ => mk(&[nl, b2, h], |ix| hn[ix[0]][ix[1]][ix[2]]),
        }
    })
}
fn lstm(m: &LSTM, x: &[Tensor]) -> HoduResult<(Tensor, Tensor, Tensor)> {
    m.forward_with_state(&x[0], x.get(1), x.get(2))
}

/// softmax(q k^T / sqrt(d) with masked positions at minus infinity) v for one batch entry
fn sdpa(q: &[Vec<f64>], k: &[Vec<f64>], v: &[Vec<f64>], keep: &dyn Fn(usize, usize) -> bool) -> Vec<Vec<f64>> {
    let d = q[0].len() as f64;
    q.iter()
        .enumerate()
        .map(|(i, qi)| {
            let s: Vec<f64> = k.iter().enumerate().map(|(j, kj)| if keep(i, j) { qi.iter().zip(kj).map(|(a, b)| a * b).sum::<f64>() / d.sqrt() } else { f64::NEG_INFINITY }).collect();
            let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let e: Vec<f64> = s.iter().map(|x| (x - m).exp()).collect();
            let z: f64 = e.iter().sum();
            (0..v[0].len()).map(|c| (0..v.len()).map(|j| e[j] / z * v[j][c]).sum()).collect()
        })
        .collect()
}
fn f_attn(cx: &mut Cx) -> R {
    let dt = dt2(cx);
    let mha = cx.rng.chance(0.5);
    let (b, lq, lk) = (cx.rng.usize(1, 2), cx.rng.usize(1, 4), cx.rng.usize(1, 4));
    let causal = cx.rng.chance(0.4);
    let masked = cx.rng.chance(0.4);
    // every query keeps the first key
    let keep: Vec<Vec<bool>> = (0..lq).map(|_| (0..lk).map(|j| j == 0 || cx.rng.chance(0.6)).collect()).collect();
    let mdt = *cx.rng.pick(&[DType::BOOL, DType::F32, DType::I32, dt]);
    let mask = if masked {
        let m = RT::from_fn(mdt, &[lq, lk], |ix| {
            let v = keep[ix[0]][ix[1]];
            match mdt { DType::BOOL => V::B(v), DType::I32 => V::I(v as i128), _ => V::F(v as u8 as f64) }
        });
        Some(m.t())
    } else {
        None
    };
    let kp = move |i: usize, j: usize| (!masked || keep[i][j]) && (!causal || j <= i);
    let rows = |r: &RT, pre: &[usize], n: usize| -> Vec<Vec<f64>> {
        let d = *r.shape.last().unwrap();
        (0..n)
            .map(|i| {
                (0..d)
                    .map(|j| {
                        let mut ix = pre.to_vec();
                        ix.push(i);
                        ix.push(j);
                        f(r.at(&ix))
                    })
                    .collect()
            })
            .collect()
    };
    if !mha {
        let (d, dv) = (cx.rng.usize(1, 4), cx.rng.usize(1, 4));
        let hh = cx.rng.usize(1, 2);
        let four = cx.rng.chance(0.5);
        let sh = |l: usize, d: usize| if four { vec![b, hh, l, d] } else { vec![b, l, d] };
        let ins = [view(cx, dt, &sh(lq, d), Gen::Range(-2.0, 2.0))?, view(cx, dt, &sh(lk, d), Gen::Range(-2.0, 2.0))?, view(cx, dt, &sh(lk, dv), Gen::Range(-2.0, 2.0))?];
        let p = if cx.rng.chance(0.3) { 0.5 } else { 0.0 };
        cx.d(format!("sdpa causal {} mask {:?} dropout {} {} {}", causal, mask.as_ref().map(|_| mdt), p, ishape(cx, &ins), vals(&ins)));
        let l = L { params: vec![], run: Box::new(move |x| scaled_dot_product_attention(&x[0], &x[1], &x[2], mask.as_ref(), p, causal)) };
        // dropout only acts in training
        if p > 0.0 {
            let o = (l.run)(&[ins[0].0.clone(), ins[1].0.clone(), ins[2].0.clone()]).map_err(er("sdpa", "forward with dropout"))?;
            check!(shape_of(&o) == sh(lq, dv) && o.dtype() == dt, "sdpa: shape with dropout", "{:?}", shape_of(&o));
            hodu_nn::eval!();
        }
        let os = sh(lq, dv);
        let r = verify(cx, "sdpa", &l, &[], &ins, dt, 3, 500.0, &|x| {
            let pres: Vec<Vec<usize>> = if four { (0..b * hh).map(|i| vec![i / hh, i % hh]).collect() } else { (0..b).map(|i| vec![i]).collect() };
            let o: Vec<Vec<Vec<f64>>> = pres.iter().map(|p| sdpa(&rows(&x[0], p, lq), &rows(&x[1], p, lk), &rows(&x[2], p, lk), &kp)).collect();
            mk(&os, |ix| {
                let p = if four { ix[0] * hh + ix[1] } else { ix[0] };
                o[p][ix[ix.len() - 2]][ix[ix.len() - 1]]
            })
        });
        hodu_nn::train!();
        r
    } else {
        let (hh, hd) = (cx.rng.usize(1, 3), cx.rng.usize(1, 3));
        let em = hh * hd;
        let selfa = cx.rng.chance(0.4);
        let (kd, vd) = if selfa { (em, em) } else { (cx.rng.usize(1, 4), cx.rng.usize(1, 4)) };
        let lk2 = if selfa { lq } else { lk };
        if selfa && masked && lk != lq {
            return Err(Fail::Skip);
        }
        let bias = cx.rng.chance(0.6);
        let m = MultiheadAttention::new(em, hh, 0.0, bias, if selfa { None } else { Some(kd) }, if selfa { None } else { Some(vd) }, dt).map_err(er("mha", "new"))?;
        check!(m.embed_dim() == em && m.num_heads() == hh && m.head_dim() == hd, "mha: settings", "");
        let params: Vec<Tensor> = Module::<&Tensor>::parameters(&m).into_iter().cloned().collect();
        let mut ins = vec![view(cx, dt, &[b, lq, em], Gen::Range(-2.0, 2.0))?];
        if !selfa {
            ins.push(view(cx, dt, &[b, lk, kd], Gen::Range(-2.0, 2.0))?);
            ins.push(view(cx, dt, &[b, lk, vd], Gen::Range(-2.0, 2.0))?);
        }
        cx.d(format!("mha heads {} bias {} self {} causal {} mask {:?} {} {}", hh, bias, selfa, causal, mask.as_ref().map(|_| mdt), ishape(cx, &ins), vals(&ins)));
        let plain = mask.is_none() && !causal;
        let l = L {
            params,
            run: Box::new(move |x| {
                if x.len() == 1 {
                    if plain { m.forward(&x[0]) } else { m.forward_self_attn(&x[0], mask.as_ref(), causal) }
                } else {
                    m.forward_qkv(&x[0], &x[1], &x[2], mask.as_ref(), causal)
                }
            }),
        };
        let mut ps = vec![vec![em, em], vec![em, kd], vec![em, vd], vec![em, em]];
        if bias {
            ps.extend(vec![vec![em]; 4]);
        }
        let ni = ins.len();
        verify(cx, "mha", &l, &ps, &ins, dt, ni, 3000.0, &|x| {
            let w = &x[ni..];
            let lin = |r: &[Vec<f64>], k: usize| -> Vec<Vec<f64>> { r.iter().map(|v| (0..em).map(|o| mv(&w[k], o, v, if bias { Some(&w[4 + k]) } else { None })).collect()).collect() };
            let o: Vec<Vec<Vec<f64>>> = (0..b)
                .map(|bb| {
                    let q = lin(&rows(&x[0], &[bb], lq), 0);
                    let k = lin(&rows(if selfa { &x[0] } else { &x[1] }, &[bb], lk2), 1);
                    let v = lin(&rows(if selfa { &x[0] } else { &x[2] }, &[bb], lk2), 2);
                    let mut cat = vec![vec![0.0; em]; lq];
                    for hx in 0..hh {
                        let cut = |r: &[Vec<f64>]| r.iter().map(|v| v[hx * hd..(hx + 1) * hd].to_vec()).collect::<Vec<_>>();
                        let a = sdpa(&cut(&q), &cut(&k), &cut(&v), &kp);
                        for i in 0..lq {
                            for c in 0..hd {
                                cat[i][hx * hd + c] = a[i][c];
                            }
                        }
                    }
                    lin(&cat, 3)
                })
                .collect();
            mk(&[b, lq, em], |ix| o[ix[0]][ix[1]][ix[2]])
        })
    }
}

/// a small model trained for some steps: forward, loss, backward and step agree with the reference at every step
fn f_train(cx: &mut Cx) -> R {
    use hodu_nn::optimizer::Optimizer;
    let (n, i, h, o) = (cx.rng.usize(1, 4), cx.rng.usize(1, 4), cx.rng.usize(1, 4), cx.rng.usize(1, 3));
    let steps = cx.rng.usize(2, 6);
    let lr = 0.0625;
    let dt = DType::F64;
    let a = Linear::new(i, h, true, dt).map_err(er("train", "new"))?;
    let b = Linear::new(h, o, true, dt).map_err(er("train", "new"))?;
    let ps: Vec<Tensor> = Module::<&Tensor>::parameters(&a).into_iter().chain(Module::<&Tensor>::parameters(&b)).cloned().collect();
    let x = view(cx, dt, &[n, i], Gen::Range(-1.0, 1.0))?;
    let y = view(cx, dt, &[n, o], Gen::Range(-1.0, 1.0))?;
    cx.d(format!("train {}-{}-{} n{} steps {} {}", i, h, o, n, steps, vals(&[x.clone(), y.clone()])));
    let mut w: Vec<RT> = vec![];
    for p in &ps {
        w.push(rd("train", p)?);
    }
    let loss = |w: &[RT]| -> f64 {
        let mut t = 0.0;
        for r in 0..n {
            let xi: Vec<f64> = (0..i).map(|j| f(x.1.at(&[r, j]))).collect();
            let hv: Vec<f64> = (0..h).map(|j| mv(&w[0], j, &xi, Some(&w[1])).tanh()).collect();
            for c in 0..o {
                t += (mv(&w[2], c, &hv, Some(&w[3])) - f(y.1.at(&[r, c]))).powi(2);
            }
        }
        t / (n * o) as f64
    };
    let mut opt = SGD::new(lr);
    let rs: Vec<&Tensor> = ps.iter().collect();
    for s in 0..steps {
        let out = a.forward(&x.0).and_then(|z| z.tanh()).and_then(|z| b.forward(&z)).map_err(er("train", "forward"))?;
        let ls = MSELoss::new().forward((&out, &y.0)).map_err(er("train", "loss"))?;
        let got = f(rd("train", &ls)?.data[0]);
        let e = loss(&w);
        check!((got - e).abs() <= 1e-7 * (1.0 + e.abs()), "train: loss", "step {}: {} expected {}", s, got, e);
        ls.backward().map_err(er("train", "backward"))?;
        let step: &mut dyn Optimizer = &mut opt;
        step.step(&rs).map_err(er("train", "step"))?;
        if cx.rng.chance(0.5) {
            step.zero_grad(&rs).map_err(er("train", "zero_grad"))?;
        }
        // gradient of the reference by central differences
        let mut nw = w.clone();
        for k in 0..w.len() {
            for q in 0..w[k].data.len() {
                let v = f(w[k].data[q]);
                let d = 1e-4;
                let mut at = |t: f64| {
                    w[k].data[q] = V::F(v + t);
                    let r = loss(&w);
                    w[k].data[q] = V::F(v);
                    r
                };
                let g = (8.0 * (at(d) - at(-d)) - (at(2.0 * d) - at(-2.0 * d))) / (12.0 * d);
                nw[k].data[q] = V::F(v - lr * g);
            }
        }
        for (k, p) in ps.iter().enumerate() {
            let r = rd("train", p)?;
            for q in 0..r.data.len() {
                let (g, e) = (f(r.data[q]), f(nw[k].data[q]));
                check!((g - e).abs() <= 1e-7 * (1.0 + e.abs()), "train: parameter after a step", "step {} parameter {} element {}: {} expected {}", s, k, q, g, e);
            }
            w[k] = r;
        }
        cx.count("training_steps", 1);
    }
    let _ = scalar_of;
    Ok(())
}

#[allow(unused)]
fn unused(_: Geo) {}

pub const GROUPS: &[Family] = &[
    fam("losses", 3000, 40000, f_loss),
    fam("linear", 800, 10000, f_linear),
    fam("activations", 1500, 15000, f_act),
    fam("dropout", 600, 6000, f_dropout),
    fam("embedding", 1000, 10000, f_embed),
    fam("conv", 1500, 20000, f_conv),
    fam("pool", 2000, 25000, f_pool),
    fam("norm", 2000, 25000, f_norm),
    fam("batchnorm", 1200, 15000, f_batchnorm),
    fam("rnn", 1200, 15000, f_rnn),
    fam("attention", 1200, 15000, f_attn),
    fam("training", 300, 4000, f_train),
];
