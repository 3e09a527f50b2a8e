//! G02: back-propagation through whole programs is the chain rule, whatever contexts, threads and histories surround it.
use crate::cx::*;
use crate::p_grad::{check_fd, rnd};
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::tensor::{GradientContext, Tensor};
use hodu_core::types::DType;
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug)]
pub enum I {
    Un(u8, usize),
    Bin(u8, usize, usize),
    Mm(usize, usize),
    Red(u8, usize, Vec<usize>, bool),
    Soft(usize, i32),
    Cum(usize, usize),
    Tr(usize, i32, i32),
    Resh(usize, Vec<usize>),
    Bc(usize, Vec<usize>),
    Cat(Vec<usize>, i32),
    Stack(usize, usize, i32),
    Slice(usize, i32, i32, Option<i32>, i32),
    Sel(usize, usize, Vec<i32>),
    Where(usize, usize, usize),
    Part(usize, usize, usize),
    Cont(usize),
    Scal(u8, usize, f64),
}
const UN: usize = 12;
pub fn exec1(i: &I, v: &[Tensor]) -> HoduResult<Tensor> {
    let sc = |x: &Tensor, c: f64| crate::p_elem::scalar_of(V::F(c), x.dtype());
    match i {
        I::Un(k, a) => {
            let a = &v[*a];
            match k {
                0 => a.neg(),
                1 => a.tanh(),
                2 => a.sigmoid(),
                3 => a.sin(),
                4 => a.cos(),
                5 => a.square(),
                6 => a.softplus(),
                7 => a.silu(),
                8 => a.gelu(),
                9 => a.relu(),
                10 => a.mul_scalar(sc(a, 0.25))?.exp(),
                _ => a.square()?.add_scalar(sc(a, 1.0))?.sqrt(),
            }
        },
        I::Bin(k, a, b) => match k {
            0 => v[*a].add(&v[*b]),
            1 => v[*a].sub(&v[*b]),
            2 => v[*a].mul(&v[*b]),
            3 => v[*a].maximum(&v[*b]),
            _ => v[*a].div(&v[*b].square()?.add_scalar(sc(&v[*b], 1.5))?),
        },
        I::Mm(a, b) => v[*a].matmul(&v[*b]),
        I::Red(k, a, d, keep) => match k {
            0 => v[*a].sum(d, *keep),
            1 => v[*a].mean(d, *keep),
            2 => v[*a].max(d, *keep),
            _ => v[*a].logsumexp(d, *keep),
        },
        I::Soft(a, d) => v[*a].softmax(*d),
        I::Cum(a, d) => v[*a].cumsum(*d as i32),
        I::Tr(a, x, y) => v[*a].transpose(*x, *y),
        I::Resh(a, s) => v[*a].reshape(s.clone()),
        I::Bc(a, s) => v[*a].broadcast(s.clone()),
        I::Cat(a, d) => Tensor::concat(&a.iter().map(|&k| &v[k]).collect::<Vec<_>>(), *d),
        I::Stack(a, b, d) => Tensor::stack(&[&v[*a], &v[*b]], *d),
        I::Slice(a, d, s, e, st) => v[*a].slice(*d, *s, *e, *st),
        I::Sel(a, d, ix) => v[*a].index_select(*d as i32, &Tensor::from_slice(ix.clone(), [ix.len()])?),
        I::Where(a, b, c) => v[*a].where3(&v[*b].gt(&v[*c])?, &v[*c]),
        I::Part(a, d, k) => {
            let n = v[*a].shape().dims()[*d];
            let p = v[*a].split(&[1, n - 1], *d as i32)?;
            Ok(p[*k].clone())
        },
        I::Cont(a) => v[*a].contiguous(),
        I::Scal(k, a, c) => match k {
            0 => v[*a].add_scalar(sc(&v[*a], *c)),
            1 => v[*a].mul_scalar(sc(&v[*a], *c)),
            _ => v[*a].sub_scalar(sc(&v[*a], *c)),
        },
    }
}
/// the slots an instruction reads
pub fn uses(i: &I) -> Vec<usize> {
    match i {
        I::Un(_, a) | I::Red(_, a, _, _) | I::Soft(a, _) | I::Cum(a, _) | I::Tr(a, _, _) | I::Resh(a, _) | I::Bc(a, _) | I::Slice(a, ..) | I::Sel(a, ..) | I::Part(a, ..) | I::Cont(a) | I::Scal(_, a, _) => vec![*a],
        I::Bin(_, a, b) | I::Mm(a, b) | I::Stack(a, b, _) => vec![*a, *b],
        I::Cat(a, _) => a.clone(),
        I::Where(a, b, c) => vec![*a, *b, *c],
    }
}
#[derive(Clone)]
pub struct Prog {
    pub leaves: Vec<RT>,
    pub want: Vec<bool>,
    pub body: Vec<I>,
    /// the slots summed into the loss, with weights
    pub out: Vec<(usize, f64)>,
}
impl Prog {
    pub fn desc(&self) -> String {
        format!("want{:?} {:?} out{:?} {}", self.want, self.body, self.out, self.leaves.iter().map(|l| l.show()).collect::<Vec<_>>().join(";"))
    }
}
/// squash large values so that differences stay accurate
fn tame(t: Tensor) -> HoduResult<Tensor> {
    Ok(t)
}
pub fn gen(r: &mut Rng, len: usize) -> HoduResult<Prog> {
    let (a, b, c) = (r.usize(1, 3), r.usize(2, 3), r.usize(1, 2));
    let nl = r.usize(1, 4);
    let mut leaves = vec![];
    for _ in 0..nl {
        let s: Vec<usize> = match r.below(8) {
            0 => vec![],
            1 => vec![b],
            2 => vec![1, b],
            3 => vec![c, a, b],
            4 => vec![b, b],
            5 => vec![b, a],
            _ => vec![a, b],
        };
        leaves.push(rnd(r, &s, -1.5, 1.5));
    }
    let mut want: Vec<bool> = (0..nl).map(|_| r.chance(0.75)).collect();
    let k = r.below(nl);
    want[k] = true;
    let mut v: Vec<Tensor> = leaves.iter().map(|l| l.t()).collect();
    let mut body = vec![];
    let mut tries = 0;
    while body.len() < len && tries < len * 12 {
        tries += 1;
        let n = v.len();
        // recent values preferred, old ones reused
        let pick = |r: &mut Rng| if r.chance(0.5) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
        let x = pick(r);
        let y = if r.chance(0.15) { x } else { pick(r) };
        let d = shape_of(&v[x]);
        let nd = d.len();
        let i = match r.below(24) {
            0..=3 => I::Un(r.below(UN) as u8, x),
            4..=8 => I::Bin(r.below(5) as u8, x, y),
            9 | 10 => I::Mm(x, y),
            11 | 12 => I::Red(r.below(4) as u8, x, (0..nd).filter(|_| r.chance(0.5)).collect(), r.chance(0.5)),
            13 if nd > 0 => I::Soft(x, r.below(nd) as i32 - if r.chance(0.5) { nd as i32 } else { 0 }),
            14 if nd > 0 => I::Cum(x, r.below(nd)),
            15 if nd > 1 => I::Tr(x, r.below(nd) as i32, r.below(nd) as i32 - nd as i32),
            16 => {
                let mut s = d.clone();
                r.shuffle(&mut s);
                I::Resh(x, if r.chance(0.3) { vec![numel(&s)] } else { s })
            },
            17 => {
                let mut s: Vec<usize> = d.iter().map(|&e| if e == 1 { r.usize(1, 3) } else { e }).collect();
                if r.chance(0.5) {
                    s.insert(0, r.usize(1, 2));
                }
                I::Bc(x, s)
            },
            18 if nd > 0 => I::Cat(if r.chance(0.3) { vec![x, x, y] } else { vec![x, y] }, r.below(nd) as i32),
            19 => I::Stack(x, y, r.below(nd + 1) as i32),
            20 if nd > 0 => {
                let k = r.below(nd);
                let st = *r.pick(&[1, 1, 2, -1]);
                if st < 0 {
                    I::Slice(x, k as i32, d[k] as i32 - 1, None, st)
                } else {
                    I::Slice(x, k as i32, r.below(d[k]) as i32, None, st)
                }
            },
            21 if nd > 0 => {
                let k = r.below(nd);
                I::Sel(x, k, (0..r.usize(1, 4)).map(|_| r.below(d[k]) as i32).collect())
            },
            22 => match r.below(3) {
                0 if nd > 0 && d[nd - 1] > 1 => I::Part(x, nd - 1, r.below(2)),
                1 => I::Cont(x),
                _ => I::Where(x, y, pick(r)),
            },
            _ => I::Scal(r.below(3) as u8, x, quant(DType::BF16, r.uni(-1.5, 1.5))),
        };
        let Ok(t) = exec1(&i, &v) else { continue };
        if t.size() > 200 || t.ndim() > 5 || t.size() == 0 {
            continue;
        }
        let big = read(&t).map(|m| m.data.iter().any(|e| !(e.f().abs() < 8.0))).unwrap_or(true);
        if big {
            continue;
        }
        body.push(i);
        v.push(tame(t)?);
    }
    let n = v.len();
    let mut out = vec![(n - 1, 1.0)];
    for _ in 0..r.below(3) {
        out.push((r.below(n), quant(DType::BF16, r.uni(-1.5, 1.5))));
    }
    Ok(Prog { leaves, want, body, out })
}
pub fn leaf_tensors(p: &Prog) -> HoduResult<Vec<Tensor>> {
    let mut v = vec![];
    for (l, &w) in p.leaves.iter().zip(&p.want) {
        let t = l.t();
        if w {
            t.set_requires_grad(true)?;
        }
        v.push(t);
    }
    Ok(v)
}
pub fn loss_of(p: &Prog, v: &[Tensor]) -> HoduResult<Tensor> {
    let mut loss: Option<Tensor> = None;
    for &(k, w) in &p.out {
        let s = v[k].mul_scalar(crate::p_elem::scalar_of(V::F(w), v[k].dtype()))?.sum_all()?;
        loss = Some(match loss {
            None => s,
            Some(l) => l.add(&s)?,
        });
    }
    Ok(loss.unwrap())
}
pub fn run_body(p: &Prog, v: &mut Vec<Tensor>, from: usize, to: usize) -> HoduResult<()> {
    for i in &p.body[from..to] {
        let t = exec1(i, v)?;
        v.push(t);
    }
    Ok(())
}
fn value(p: &Prog, ins: &[RT]) -> Result<f64, String> {
    let f = || -> HoduResult<Tensor> {
        let mut v: Vec<Tensor> = ins.iter().map(|l| l.t()).collect();
        run_body(p, &mut v, 0, p.body.len())?;
        loss_of(p, &v)
    };
    let t = f().map_err(|e| e.to_string())?;
    Ok(read(&t)?.data[0].f())
}
/// does the loss depend on the leaf by the program text
fn depends(p: &Prog) -> Vec<bool> {
    let nl = p.leaves.len();
    let mut live = vec![false; nl + p.body.len()];
    for &(k, _) in &p.out {
        live[k] = true;
    }
    for k in (0..p.body.len()).rev() {
        if !live[nl + k] {
            continue;
        }
        let mut on = |xs: &[usize]| xs.iter().for_each(|&x| live[x] = true);
        match &p.body[k] {
            I::Un(_, a) | I::Red(_, a, ..) | I::Soft(a, _) | I::Cum(a, _) | I::Tr(a, ..) | I::Resh(a, _) | I::Bc(a, _) | I::Slice(a, ..) | I::Sel(a, ..) | I::Part(a, ..) | I::Cont(a) | I::Scal(_, a, _) => on(&[*a]),
            I::Bin(_, a, b) | I::Mm(a, b) | I::Stack(a, b, _) => on(&[*a, *b]),
            I::Cat(a, _) => on(a),
            I::Where(a, _, c) => on(&[*a, *c]),
        }
    }
    live[..nl].to_vec()
}
pub type Grads = Vec<Option<RT>>;
pub fn collect(p: &Prog, leaves: &[Tensor], sig: &str) -> Result<Grads, Fail> {
    let dep = depends(p);
    let mut g = vec![];
    for (k, l) in leaves.iter().enumerate() {
        match (l.grad(), p.want[k] && dep[k]) {
            (Ok(t), true) => {
                let m = read(&t).map_err(|e| Fail::Bad(format!("{}: gradient unreadable", sig), e))?;
                check!(m.shape == p.leaves[k].shape && m.dt == p.leaves[k].dt, format!("{}: gradient shape", sig), "leaf {}: {:?} {:?}", k, m.dt, m.shape);
                g.push(Some(m));
            },
            (Err(e), true) => return bad(format!("{}: no gradient", sig), format!("leaf {}: {}", k, e)),
            (Ok(t), false) => {
                // an unused leaf may at most have a zero gradient
                check!(p.want[k], format!("{}: gradient for a tensor that needs none", sig), "leaf {}", k);
                let z = read(&t).map(|m| m.data.iter().all(|x| x.f() == 0.0)).unwrap_or(false);
                check!(z, format!("{}: gradient for an unused leaf", sig), "leaf {}", k);
                g.push(None);
            },
            (Err(_), false) => g.push(None),
        }
    }
    Ok(g)
}
fn usable(p: &Prog) -> bool {
    depends(p).iter().zip(&p.want).any(|(&d, &w)| d && w)
}
pub fn e2<T>(r: HoduResult<T>, sig: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::Bad(format!("{}: error", sig), e.to_string()))
}
/// run alone in a fresh context
pub fn solo(p: &Prog, sig: &str) -> Result<Grads, Fail> {
    let _c = GradientContext::new();
    let leaves = e2(leaf_tensors(p), sig)?;
    let mut v = leaves.clone();
    e2(run_body(p, &mut v, 0, p.body.len()), sig)?;
    let l = e2(loss_of(p, &v), sig)?;
    e2(l.backward(), sig)?;
    collect(p, &leaves, sig)
}
pub fn same(sig: &str, p: &Prog, got: &Grads, want: &Grads, tol: f64) -> R {
    for (k, (a, b)) in got.iter().zip(want).enumerate() {
        match (a, b) {
            (None, None) => {},
            (Some(a), Some(b)) => {
                for (i, (x, y)) in a.data.iter().zip(&b.data).enumerate() {
                    let (x, y) = (x.f(), y.f());
                    let ok = x.to_bits() == y.to_bits() || (x - y).abs() <= tol * (1.0 + y.abs());
                    check!(ok, sig.to_string(), "leaf {} element {}: {} but alone {} ({})", k, i, x, y, p.desc());
                }
            },
            _ => bail!(sig.to_string(), "leaf {}: gradient present {} but alone {}", k, a.is_some(), b.is_some()),
        }
    }
    Ok(())
}
pub fn fresh(cx: &mut Cx, lo: usize, hi: usize) -> Result<Prog, Fail> {
    let len = cx.rng.usize(lo, hi);
    for _ in 0..20 {
        if let Ok(p) = gen(&mut cx.rng, len) {
            if usable(&p) {
                return Ok(p);
            }
        }
    }
    Err(Fail::Skip)
}

fn program(cx: &mut Cx) -> R {
    let p = fresh(cx, 1, 14)?;
    cx.d(p.desc());
    let sig = "program";
    let leaves = e2(leaf_tensors(&p), sig)?;
    let mut v = leaves.clone();
    e2(run_body(&p, &mut v, 0, p.body.len()), sig)?;
    let dep = depends(&p);
    let l = e2(loss_of(&p, &v), sig)?;
    check!(l.is_requires_grad(), "program: loss does not require gradient", "{}", p.desc());
    let before: Vec<Result<RT, String>> = v.iter().map(read).collect();
    let lb = read(&l);
    // handles to intermediates are irrelevant to the gradient
    let keep = cx.rng.chance(0.5);
    if !keep {
        v.truncate(leaves.len());
    }
    e2(l.backward(), sig)?;
    for (k, t) in v.iter().enumerate() {
        let now = read(t);
        match (&now, &before[k]) {
            (Ok(a), Ok(b)) if diff(a, b, EXACT).is_none() => {},
            _ => bail!("program: a value changed in backward", "slot {}", k),
        }
    }
    check!(matches!((&read(&l), &lb), (Ok(a), Ok(b)) if diff(a, b, EXACT).is_none()), "program: the loss changed in backward", "");
    let g = collect(&p, &leaves, sig)?;
    cx.count("ops_differentiated", p.body.len() as u64);
    cx.count("leaves", dep.iter().filter(|&&d| d).count() as u64);
    check_fd(cx, sig, &p.leaves, &g, 8, &|i| value(&p, i))
}
/// loss used without reduction (seeded with ones), leaf as loss, no-grad loss
fn seeds(cx: &mut Cx) -> R {
    let mut p = fresh(cx, 1, 8)?;
    let k = cx.rng.below(4);
    let last = p.leaves.len() + p.body.len() - 1;
    p.out = vec![(last, 1.0)];
    if !usable(&p) {
        return Err(Fail::Skip);
    }
    cx.d(format!("{} {}", k, p.desc()));
    let leaves = e2(leaf_tensors(&p), "seeds")?;
    let mut v = leaves.clone();
    e2(run_body(&p, &mut v, 0, p.body.len()), "seeds")?;
    match k {
        0 | 1 => {
            // backward of a tensor of any shape differentiates the sum of its elements
            let top = v[last].clone();
            check!(top.is_requires_grad(), "seeds: result does not require gradient", "");
            e2(top.backward(), "seeds")?;
            let g = collect(&p, &leaves, "seeds")?;
            let t = e2(top.grad(), "seeds: gradient of the loss itself")?;
            let m = read(&t).map_err(|e| Fail::Bad("seeds".into(), e))?;
            check!(m.shape == shape_of(&top) && m.data.iter().all(|x| x.f() == 1.0), "seeds: gradient of the loss itself", "{}", m.show());
            same("seeds: not the gradient of the sum", &p, &g, &solo(&p, "seeds")?, 1e-10)
        },
        2 => {
            let w = p.want.iter().position(|&w| w).unwrap();
            e2(leaves[w].backward(), "seeds: leaf")?;
            let m = read(&e2(leaves[w].grad(), "seeds: leaf")?).map_err(|e| Fail::Bad("seeds".into(), e))?;
            check!(m.shape == p.leaves[w].shape && m.data.iter().all(|x| x.f() == 1.0), "seeds: leaf as loss", "{}", m.show());
            for (i, l) in leaves.iter().enumerate() {
                check!(i == w || l.grad().is_err(), "seeds: leaf as loss gives others a gradient", "{}", i);
            }
            Ok(())
        },
        _ => {
            // a program over constants records nothing and refuses backward
            let mut v: Vec<Tensor> = p.leaves.iter().map(|l| l.t()).collect();
            e2(run_body(&p, &mut v, 0, p.body.len()), "seeds")?;
            let l = e2(loss_of(&p, &v), "seeds")?;
            check!(v.iter().all(|t| !t.is_requires_grad()) && !l.is_requires_grad(), "seeds: constants require gradient", "");
            check!(l.backward().is_err(), "seeds: backward of a constant accepted", "");
            check!(v.iter().all(|t| t.grad().is_err()), "seeds: constants got gradients", "");
            Ok(())
        },
    }
}
/// repeated steps in one context: every backward is that step's gradient, other leaves keep theirs
fn steps(cx: &mut Cx) -> R {
    let p = fresh(cx, 2, 8)?;
    let q = fresh(cx, 2, 8)?;
    let n = cx.rng.usize(2, 6);
    let order: Vec<u8> = (0..n).map(|_| cx.rng.below(6) as u8).collect();
    cx.d(format!("{:?} {} || {}", order, p.desc(), q.desc()));
    let own = cx.rng.chance(0.5);
    let ctx = if own { Some(GradientContext::new()) } else { None };
    let (gp, gq) = (solo(&p, "steps")?, solo(&q, "steps")?);
    let (lp, lq) = (e2(leaf_tensors(&p), "steps")?, e2(leaf_tensors(&q), "steps")?);
    let (mut hp, mut hq) = (None::<bool>, None::<bool>); // None: never, Some(false): zeroed
    let fwd = |p: &Prog, l: &[Tensor]| -> Result<Tensor, Fail> {
        let mut v = l.to_vec();
        e2(run_body(p, &mut v, 0, p.body.len()), "steps")?;
        e2(loss_of(p, &v), "steps")
    };
    for (s, o) in order.iter().enumerate() {
        match o {
            0 | 1 => {
                e2(fwd(&p, &lp)?.backward(), "steps")?;
                hp = Some(true);
            },
            2 | 3 => {
                e2(fwd(&q, &lq)?.backward(), "steps")?;
                hq = Some(true);
            },
            4 => {
                for l in &lp {
                    e2(l.zero_grad(), "steps")?;
                }
                hp = hp.map(|_| false);
            },
            _ => {
                // a forward pass alone changes no gradient
                let _ = fwd(&p, &lp)?;
                let _ = fwd(&q, &lq)?;
            },
        }
        for (p, l, h, g) in [(&p, &lp, hp, &gp), (&q, &lq, hq, &gq)] {
            let sig = format!("steps: after {}", ["backward", "backward", "backward of the other", "backward of the other", "zero_grad", "forward"][*o as usize]);
            match h {
                None => {
                    for t in l.iter() {
                        check!(t.grad().is_err(), sig.clone(), "a gradient appeared without backward (step {})", s);
                    }
                },
                Some(true) => same(&sig, p, &collect(p, l, &sig)?, g, 0.0)?,
                Some(false) => {
                    for (k, t) in l.iter().enumerate() {
                        if let Ok(t) = t.grad() {
                            let z = read(&t).map(|m| m.shape == p.leaves[k].shape && m.data.iter().all(|x| x.f() == 0.0)).unwrap_or(false);
                            check!(z, sig.clone(), "gradient not zero after zero_grad");
                        }
                    }
                },
            }
        }
        cx.count("gradient_states_compared", 2);
    }
    drop(ctx);
    Ok(())
}
/// programs recorded in interleaved contexts on one thread
fn contexts(cx: &mut Cx) -> R {
    let np = cx.rng.usize(2, 3);
    let mut ps = vec![];
    for _ in 0..np {
        ps.push(fresh(cx, 2, 9)?);
    }
    cx.d(ps.iter().map(|p| p.desc()).collect::<Vec<_>>().join(" || "));
    let mut alone = vec![];
    for p in &ps {
        alone.push(solo(p, "contexts")?);
    }
    // each program has a nesting level; deeper programs run between the instructions of the outer one
    let mut st: Vec<(Vec<Tensor>, Vec<Tensor>, usize)> = vec![];
    let mut trace = String::new();
    fn go(cx: &mut Cx, ps: &[Prog], lvl: usize, st: &mut Vec<(Vec<Tensor>, Vec<Tensor>, usize)>, done: &mut Vec<Option<Grads>>, trace: &mut String) -> R {
        let p = &ps[lvl];
        let c = GradientContext::new();
        let leaves = e2(leaf_tensors(p), "contexts")?;
        let mut v = leaves.clone();
        let cut = cx.rng.usize(0, p.body.len());
        e2(run_body(p, &mut v, 0, cut), "contexts")?;
        st.push((leaves, v, cut));
        trace.push_str(&format!("[{}@{} ", lvl, cut));
        if lvl + 1 < ps.len() {
            go(cx, ps, lvl + 1, st, done, trace)?;
        }
        let (leaves, mut v, cut) = st.pop().unwrap();
        // the rest may be recorded in yet another context that is still open when differentiating
        let late = if cx.rng.chance(0.3) { Some(GradientContext::new()) } else { None };
        e2(run_body(p, &mut v, cut, p.body.len()), "contexts")?;
        let l = e2(loss_of(p, &v), "contexts")?;
        trace.push_str(&format!("{}late{}]", lvl, late.is_some()));
        if cx.rng.chance(0.5) {
            v.clear();
        }
        e2(l.backward(), "contexts")?;
        done[lvl] = Some(collect(p, &leaves, "contexts")?);
        drop(late);
        drop(c);
        Ok(())
    }
    let mut done: Vec<Option<Grads>> = vec![None; np];
    go(cx, &ps, 0, &mut st, &mut done, &mut trace)?;
    cx.d(&trace);
    for (k, p) in ps.iter().enumerate() {
        same("contexts: another context changed the gradient", p, done[k].as_ref().unwrap(), &alone[k], 0.0)?;
    }
    cx.count("context_interleavings", 1);
    Ok(())
}
/// one program cut over two contexts, guards dropped out of order
fn guards(cx: &mut Cx) -> R {
    let p = fresh(cx, 2, 9)?;
    let q = fresh(cx, 2, 9)?;
    let (gp, gq) = (solo(&p, "guards")?, solo(&q, "guards")?);
    let first = cx.rng.chance(0.5);
    cx.d(format!("{} {} || {}", first, p.desc(), q.desc()));
    let a = GradientContext::new();
    let lp = e2(leaf_tensors(&p), "guards")?;
    let mut vp = lp.clone();
    e2(run_body(&p, &mut vp, 0, p.body.len()), "guards")?;
    let b = GradientContext::new();
    let lq = e2(leaf_tensors(&q), "guards")?;
    let mut vq = lq.clone();
    e2(run_body(&q, &mut vq, 0, q.body.len()), "guards")?;
    let ql = e2(loss_of(&q, &vq), "guards")?;
    if first {
        // the outer guard goes first: the inner context stays usable
        drop(a);
        e2(ql.backward(), "guards")?;
        same("guards: inner context after the outer one ended", &q, &collect(&q, &lq, "guards")?, &gq, 0.0)?;
        drop(b);
    } else {
        // abandoning the inner context leaves the outer one complete
        drop(b);
        let pl = e2(loss_of(&p, &vp), "guards")?;
        e2(pl.backward(), "guards")?;
        same("guards: outer context after the inner one was abandoned", &p, &collect(&p, &lp, "guards")?, &gp, 0.0)?;
        drop(a);
    }
    // values made in finished contexts are still values
    for t in vp.iter().chain(&vq) {
        check!(read(t).is_ok(), "guards: value lost with its context", "");
    }
    Ok(())
}
/// several threads differentiate at the same time; a constant and its views are shared between them
fn threads(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 6);
    let rounds = cx.rng.usize(2, 5);
    let mut ps = vec![];
    for _ in 0..nt {
        ps.push(fresh(cx, 2, 10)?);
    }
    cx.d(format!("{}x{} {}", nt, rounds, ps.iter().map(|p| p.desc()).collect::<Vec<_>>().join(" || ")));
    let mut alone = vec![];
    for p in &ps {
        alone.push(solo(p, "threads")?);
    }
    let shared: Vec<Vec<Tensor>> = ps.iter().map(|p| p.leaves.iter().map(|l| l.t()).collect()).collect();
    let bar = Arc::new(Barrier::new(nt));
    let modes: Vec<u8> = (0..nt).map(|_| cx.rng.below(3) as u8).collect();
    let hs: Vec<_> = (0..nt)
        .map(|k| {
            let (p, bar, shared, mode) = (ps[k].clone(), bar.clone(), shared[k].clone(), modes[k]);
            std::thread::spawn(move || -> Result<Vec<Grads>, Fail> {
                bar.wait();
                let mut all = vec![];
                for _ in 0..rounds {
                    // own context, the thread's default context, or nested
                    let _a = if mode > 0 { Some(GradientContext::new()) } else { None };
                    let _b = if mode > 1 { Some(GradientContext::new()) } else { None };
                    let mut leaves = e2(leaf_tensors(&p), "threads")?;
                    for (i, l) in leaves.iter_mut().enumerate() {
                        if !p.want[i] {
                            *l = shared[i].clone();
                        }
                    }
                    let mut v = leaves.clone();
                    e2(run_body(&p, &mut v, 0, p.body.len()), "threads")?;
                    let l = e2(loss_of(&p, &v), "threads")?;
                    e2(l.backward(), "threads")?;
                    all.push(collect(&p, &leaves, "threads")?);
                }
                Ok(all)
            })
        })
        .collect();
    let mut res = vec![];
    for h in hs {
        res.push(h.join());
    }
    for (k, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok(all)) => {
                for g in &all {
                    same("threads: another thread changed the gradient", &ps[k], g, &alone[k], 0.0)?;
                    cx.count("concurrent_backwards", 1);
                }
            },
            Ok(Err(f)) => return Err(f),
            Err(_) => bail!("threads: a thread panicked", "{}", ps[k].desc()),
        }
    }
    Ok(())
}
/// a leaf shared read-only by recording threads: each thread's loss sees its own contribution only
fn shared_leaf(cx: &mut Cx) -> R {
    let n = cx.rng.usize(1, 6);
    let nt = cx.rng.usize(2, 6);
    let x = rnd(&mut cx.rng, &[n], -2.0, 2.0);
    let c: Vec<f64> = (0..nt).map(|_| quant(DType::BF16, cx.rng.uni(-2.0, 2.0))).collect();
    let turns = cx.rng.usize(1, 4);
    cx.d(format!("{:?} {}x{} {}", c, nt, turns, x.show()));
    let leaf = x.t();
    e2(leaf.set_requires_grad(true), "shared leaf")?;
    let bar = Arc::new(Barrier::new(nt));
    let hs: Vec<_> = (0..nt)
        .map(|k| {
            let (leaf, bar, c) = (leaf.clone(), bar.clone(), c[k]);
            std::thread::spawn(move || -> HoduResult<()> {
                bar.wait();
                for _ in 0..turns {
                    let _g = GradientContext::new();
                    let y = leaf.mul_scalar(c)?;
                    let z = y.square()?.sum_all()?;
                    z.backward()?;
                    // the intermediate belongs to this thread alone: dz/dy = 2y
                    let g = y.grad()?;
                    let (g, y) = (g.to_flatten_vec::<f64>()?, y.to_flatten_vec::<f64>()?);
                    if g.iter().zip(&y).any(|(g, y)| *g != 2.0 * y) {
                        return Err(hodu_core::error::HoduError::InternalError(format!("intermediate gradient {:?} for {:?}", g, y)));
                    }
                }
                Ok(())
            })
        })
        .collect();
    let mut ok = true;
    let mut msg = String::new();
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {},
            Ok(Err(e)) => {
                ok = false;
                msg = e.to_string();
            },
            Err(_) => {
                ok = false;
                msg = "panic".into();
            },
        }
    }
    check!(ok, "shared leaf: a thread's own gradient was disturbed", "{}", msg);
    // the leaf holds the gradient of exactly one of the losses
    let g = read(&e2(leaf.grad(), "shared leaf")?).map_err(|e| Fail::Bad("shared leaf".into(), e))?;
    let some = c.iter().any(|&c| g.data.iter().zip(&x.data).all(|(g, x)| (g.f() - 2.0 * c * c * x.f()).abs() <= 1e-12 * (1.0 + g.f().abs())));
    check!(some, "shared leaf: gradient mixes threads", "{} for {} with {:?}", g.show(), x.show(), c);
    check!(diff(&read(&leaf).unwrap(), &x, EXACT).is_none(), "shared leaf: value changed", "");
    Ok(())
}
/// a failed backward leaves values alone and later work right
fn failed(cx: &mut Cx) -> R {
    let p = fresh(cx, 2, 8)?;
    cx.d(p.desc());
    let g = solo(&p, "failed")?;
    let leaves = e2(leaf_tensors(&p), "failed")?;
    // int or gradient-free results refuse backward
    let i = Tensor::from_slice(vec![1i32, 2], [2]).unwrap();
    check!(i.backward().is_err(), "failed: integer backward accepted", "");
    check!(i.set_requires_grad(true).is_err(), "failed: integer gradient accepted", "");
    let mut v = leaves.clone();
    e2(run_body(&p, &mut v, 0, p.body.len()), "failed")?;
    let free = e2(v[0].gt(&v[0]), "failed")?;
    check!(!free.is_requires_grad() && free.backward().is_err(), "failed: boolean backward accepted", "");
    let l = e2(loss_of(&p, &v), "failed")?;
    e2(l.backward(), "failed")?;
    same("failed: refused backward disturbed a later one", &p, &collect(&p, &leaves, "failed")?, &g, 0.0)
}
/// many leaves, long chains, wide fan-out
fn long(cx: &mut Cx) -> R {
    let n = cx.rng.usize(50, if cx.thorough { 3000 } else { 800 });
    let k = cx.rng.below(3);
    let x = rnd(&mut cx.rng, &[2], -1.0, 1.0);
    cx.d(format!("{} {} {}", k, n, x.show()));
    let leaf = x.t();
    e2(leaf.set_requires_grad(true), "long")?;
    let f = || -> HoduResult<(Tensor, Vec<f64>)> {
        Ok(match k {
            0 => {
                // chain: x -> x*c + 0.5x accumulates a product
                let mut y = leaf.clone();
                for _ in 0..n {
                    y = y.add(&leaf)?;
                }
                (y, vec![(n + 1) as f64; 2])
            },
            1 => {
                // fan-out: sum of n uses, balanced tree
                let mut v: Vec<Tensor> = (0..n).map(|i| leaf.mul_scalar((i % 7) as f64)).collect::<HoduResult<_>>()?;
                let want: f64 = (0..n).map(|i| (i % 7) as f64).sum();
                while v.len() > 1 {
                    let mut w = vec![];
                    for c in v.chunks(2) {
                        w.push(if c.len() == 2 { c[0].add(&c[1])? } else { c[0].clone() });
                    }
                    v = w;
                }
                (v[0].clone(), vec![want; 2])
            },
            _ => {
                // doubling by self-addition: 2^m
                let m = n % 40 + 1;
                let mut y = leaf.clone();
                for _ in 0..m {
                    y = y.add(&y)?;
                }
                (y, vec![2f64.powi(m as i32); 2])
            },
        })
    };
    let (y, want) = e2(f(), "long")?;
    e2(y.backward(), "long")?;
    let g = read(&e2(leaf.grad(), "long")?).map_err(|e| Fail::Bad("long".into(), e))?;
    check!(g.data.iter().zip(&want).all(|(a, b)| a.f() == *b), "long: gradient of a long or wide graph", "{} expected {:?}", g.show(), want);
    cx.count("ops_differentiated", n as u64);
    Ok(())
}

pub const GRAPH: &[Family] = &[
    fam("program", 24000, 320000, program),
    fam("seeds", 4000, 40000, seeds),
    fam("steps", 4000, 48000, steps),
    fam("contexts", 4000, 48000, contexts),
    fam("guards", 3200, 32000, guards),
    fam("threads", 2000, 32000, threads),
    fam("shared_leaf", 2000, 24000, shared_leaf),
    fam("failed", 1600, 16000, failed),
    fam("long", 800, 4800, long),
];
