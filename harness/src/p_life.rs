//! M03: tensors live exactly as long as they are reachable, and repeated work of constant size uses constant memory.
use crate::cx::*;
use crate::mem;
use crate::p_graph::{collect, e2, exec1, fresh as fresh_prog, leaf_tensors, loss_of, same, solo};
use crate::rt::*;
use crate::{bail, check};
use hodu_core::scalar::Scalar;
use hodu_core::tensor::{exists, tensor_count, GradientContext, Tensor, TensorId};
use hodu_core::types::DType;
use std::collections::{HashMap, HashSet};

struct T {
    grad: Option<TensorId>,
    /// context of the tape entry that computed it, and the entry's operands
    entry: Option<(usize, Vec<TensorId>)>,
    rg: bool,
    /// a backward pass of another context went through the entry: what the operation keeps to itself has gradients
    touched: bool,
    /// its gradient is some tensor nobody here holds a handle to
    hidden_grad: bool,
}
struct World {
    t: HashMap<TensorId, T>,
    slots: Vec<(Tensor, TensorId, RT)>,
    /// contexts still open, innermost last (0: the case's own)
    ctxs: Vec<(usize, Option<GradientContext>)>,
    next_ctx: usize,
    base: usize,
    gone: Vec<TensorId>,
}
impl World {
    /// what a handle reaches; `all`: with the operands of binary operations that need no gradient (the operation may keep their contents in another form)
    fn alive(&self, all: bool) -> HashSet<TensorId> {
        let mut todo: Vec<TensorId> = self.slots.iter().map(|s| s.1).collect();
        let mut seen = HashSet::new();
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            if let Some(t) = self.t.get(&i) {
                todo.extend(t.grad);
                if let Some((_, ins)) = &t.entry {
                    todo.extend(ins.iter().copied().filter(|x| all || ins.len() < 2 || self.t[x].rg));
                }
            }
        }
        seen
    }
    fn add(&mut self, t: Tensor, v: RT, rg: bool, entry: Option<Vec<TensorId>>) {
        let id = t.id();
        let c = self.ctxs.last().unwrap().0;
        self.t.insert(id, T { grad: None, entry: if rg { entry.map(|e| (c, e)) } else { None }, rg, hidden_grad: false, touched: false });
        self.slots.push((t, id, v));
    }
    fn check(&mut self, what: &str) -> R {
        let (sure, all) = (self.alive(false), self.alive(true));
        // (known only: an operand that may be gone is not asked for again)
        let dead: Vec<TensorId> = self.t.keys().filter(|k| !all.contains(k)).copied().collect();
        for d in dead {
            self.t.remove(&d);
            self.gone.push(d);
        }
        for i in &sure {
            check!(exists(*i), "tapes: a reachable tensor was released", "after {}", what);
        }
        // a binary operation may keep its operands in another form, with gradients of their own
        let bin = |t: &&T| t.entry.as_ref().is_some_and(|e| e.1.len() > 1);
        let touched = self.t.values().filter(bin).filter(|t| t.touched).count();
        if touched == 0 {
            for i in self.gone.drain(..) {
                check!(!exists(i), "tapes: an unreachable tensor is kept", "after {}", what);
            }
        }
        let kept = self.gone.iter().filter(|i| exists(**i)).count();
        // gradients of tensors without a handle may be shared with one another, or not be tensors of their own
        let hidden = self.t.values().filter(|t| t.hidden_grad).count();
        let hidden = hidden + kept + 4 * self.t.values().filter(bin).count() + 4 * touched;
        let n = tensor_count() - self.base;
        check!(n >= sure.len() && n <= all.len() + hidden, "tapes: number of live tensors", "{} live, {} to {} reachable (+ at most {} hidden) after {}", n, sure.len(), all.len(), hidden, what);
        Ok(())
    }
    fn clear(&mut self, ctx: usize) {
        for t in self.t.values_mut() {
            if t.entry.as_ref().is_some_and(|e| e.0 == ctx) {
                t.entry = None;
            }
        }
    }
}
fn er<E: ToString>(s: &str) -> impl Fn(E) -> Fail {
    let s = s.to_string();
    move |e| Fail::Bad(s.clone(), e.to_string())
}

/// random histories of handles, operations, contexts and backward passes against a reachability model
fn tapes(cx: &mut Cx) -> R {
    let n = cx.rng.usize(2, 4);
    let shape = [n, n];
    let dt = *cx.rng.pick(&[DType::F32, DType::F64]);
    let len = cx.rng.usize(5, 60);
    let mut w = World { t: HashMap::new(), slots: vec![], ctxs: vec![(0, None)], next_ctx: 1, base: tensor_count(), gone: vec![] };
    cx.d(format!("{:?} {:?} x{}", dt, shape, len));
    for _ in 0..len {
        let k = cx.rng.below(26);
        let ns = w.slots.len();
        if ns == 0 || k < 3 {
            let rg = cx.rng.chance(0.7);
            let m = gen_rt(&mut cx.rng, dt, &shape, Gen::Range(-1.0, 1.0));
            let t = m.t();
            if rg {
                t.set_requires_grad(true).map_err(er("tapes: requires_grad"))?;
            }
            cx.d(if rg { "leaf*" } else { "leaf" });
            w.add(t, m, rg, None);
            w.check("a new tensor")?;
            continue;
        }
        let i = cx.rng.below(ns);
        let j = cx.rng.below(ns);
        let what;
        match k {
            3..=10 => {
                let (a, b) = (w.slots[i].0.clone(), w.slots[j].0.clone());
                let (ia, ib) = (w.slots[i].1, w.slots[j].1);
                let op = cx.rng.below(8);
                let plain = a.is_contiguous() && b.is_contiguous();
                let two = op < 3 || op == 6;
                let (r, name) = match op {
                    0 => (a.add(&b), "add"),
                    1 => (a.mul(&b), "mul"),
                    2 => (a.maximum(&b), "maximum"),
                    3 => (a.neg(), "neg"),
                    4 => (a.tanh(), "tanh"),
                    5 => (a.mul_scalar(if dt == DType::F32 { Scalar::from(0.5f32) } else { Scalar::from(0.5f64) }), "mul_scalar"),
                    6 if plain => (a.matmul(&b), "matmul"),
                    7 if plain => (a.transpose(0, 1), "transpose"),
                    _ => continue,
                };
                let r = r.map_err(er(&format!("tapes: {}", name)))?;
                let m = read(&r).map_err(er(&format!("tapes: {} unreadable", name)))?;
                let rg = w.t[&ia].rg || (two && w.t[&ib].rg);
                check!(r.is_requires_grad() == rg, "tapes: requires_grad of a result", "{} of {} {}", name, w.t[&ia].rg, w.t[&ib].rg);
                what = format!("{} {} {}", name, i, j);
                w.add(r, m, rg, Some(if two { vec![ia, ib] } else { vec![ia] }));
            },
            11 | 12 => {
                what = format!("clone {}", i);
                let c = (w.slots[i].0.clone(), w.slots[i].1, w.slots[i].2.clone());
                w.slots.push(c);
            },
            13..=17 => {
                what = format!("drop {}", i);
                let s = w.slots.swap_remove(i);
                if cx.rng.chance(0.2) {
                    // somewhere else
                    std::thread::spawn(move || drop(s)).join().map_err(|_| Fail::Bad("tapes: drop on another thread panics".into(), last_panic()))?;
                } else {
                    drop(s);
                }
            },
            18 | 19 => {
                if w.ctxs.len() < 5 {
                    what = "enter".to_string();
                    let c = GradientContext::new();
                    w.ctxs.push((w.next_ctx, Some(c)));
                    w.next_ctx += 1;
                } else {
                    continue;
                }
            },
            20 => {
                if w.ctxs.len() < 2 {
                    continue;
                }
                let c = cx.rng.usize(1, w.ctxs.len() - 1);
                what = format!("leave {}", c);
                let (id, g) = w.ctxs.remove(c);
                drop(g);
                w.clear(id);
            },
            21 | 22 => {
                let id = w.slots[i].1;
                if !w.t[&id].rg {
                    let e = w.slots[i].0.backward();
                    check!(e.is_err(), "tapes: backward without requires_grad", "slot {}", i);
                    what = format!("backward {} refused", i);
                } else {
                    w.slots[i].0.backward().map_err(er("tapes: backward"))?;
                    what = format!("backward {}", i);
                    // tensors whose gradient it computed
                    let mut todo = vec![id];
                    let mut seen = HashSet::from([id]);
                    while let Some(x) = todo.pop() {
                        if let Some((_, ins)) = &w.t[&x].entry {
                            for &y in ins {
                                if seen.insert(y) {
                                    todo.push(y);
                                }
                            }
                        }
                    }
                    for x in seen {
                        w.t.get_mut(&x).unwrap().touched = true;
                        if !w.t[&x].rg {
                            continue;
                        }
                        match w.slots.iter().find(|s| s.1 == x) {
                            Some(s) => {
                                let g = s.0.grad().map_err(er("tapes: no gradient"))?;
                                let m = read(&g).map_err(er("tapes: gradient unreadable"))?;
                                check!(m.shape == shape, "tapes: gradient shape", "{:?}", m.shape);
                                let gid = g.id();
                                w.t.entry(gid).or_insert(T { grad: None, entry: None, rg: false, hidden_grad: false, touched: false });
                                let t = w.t.get_mut(&x).unwrap();
                                t.grad = Some(gid);
                                t.hidden_grad = false;
                            },
                            None => {
                                let t = w.t.get_mut(&x).unwrap();
                                t.grad = None;
                                t.hidden_grad = true;
                            },
                        }
                    }
                    let c = w.ctxs.last().unwrap().0;
                    w.clear(c);
                    cx.count("backwards", 1);
                }
            },
            23 => {
                let (t, id) = (w.slots[i].0.clone(), w.slots[i].1);
                match t.grad() {
                    Ok(g) => {
                        what = format!("grad {}", i);
                        let gid = g.id();
                        check!(w.t[&id].grad == Some(gid) || w.t[&id].hidden_grad, "tapes: another gradient", "slot {}", i);
                        let m = read(&g).map_err(er("tapes: gradient unreadable"))?;
                        w.t.entry(gid).or_insert(T { grad: None, entry: None, rg: false, hidden_grad: false, touched: false });
                        let t = w.t.get_mut(&id).unwrap();
                        t.grad = Some(gid);
                        t.hidden_grad = false;
                        w.slots.push((g, gid, m));
                    },
                    Err(_) => {
                        what = format!("grad {}: none", i);
                        check!(w.t[&id].grad.is_none() && !w.t[&id].hidden_grad, "tapes: a gradient was lost", "slot {}", i);
                    },
                }
            },
            24 => {
                let (t, id) = (w.slots[i].0.clone(), w.slots[i].1);
                what = format!("zero_grad {}", i);
                t.zero_grad().map_err(er("tapes: zero_grad"))?;
                if w.t[&id].rg && (w.t[&id].grad.is_some() || w.t[&id].hidden_grad) {
                    let g = t.grad().map_err(er("tapes: no gradient after zero_grad"))?;
                    let gid = g.id();
                    w.t.entry(gid).or_insert(T { grad: None, entry: None, rg: false, hidden_grad: false, touched: false });
                    let t = w.t.get_mut(&id).unwrap();
                    t.grad = Some(gid);
                    t.hidden_grad = false;
                }
            },
            _ => {
                // a request that fails half-way leaves nothing behind
                what = format!("refused {}", i);
                let o = Tensor::zeros([n + 1, n + 2], dt).map_err(er("tapes: zeros"))?;
                check!(w.slots[i].0.add(&o).is_err() && w.slots[i].0.matmul(&o).is_err(), "tapes: incompatible shapes accepted", "");
            },
        }
        cx.d(what.clone());
        w.check(&what)?;
        let r = cx.rng.below(w.slots.len().max(1));
        if let Some((t, _, m)) = w.slots.get(r) {
            let now = read(t).map_err(er("tapes: a held tensor is unreadable"))?;
            check!(now.shape == m.shape && now.data.iter().zip(&m.data).all(|(a, b)| crate::p_err::same(*a, *b)), "tapes: a held tensor changed", "after {}", what);
        }
        cx.count("events", 1);
    }
    for (t, _, m) in &w.slots {
        let now = read(t).map_err(er("tapes: a held tensor is unreadable"))?;
        check!(now.data.iter().zip(&m.data).all(|(a, b)| crate::p_err::same(*a, *b)), "tapes: a held tensor changed", "at the end");
    }
    // let go of everything, in any order
    let mut all: Vec<Box<dyn std::any::Any>> = vec![];
    for s in w.slots.drain(..) {
        all.push(Box::new(s.0));
    }
    for c in w.ctxs.drain(..) {
        all.push(Box::new(c.1));
    }
    cx.rng.shuffle(&mut all);
    drop(all);
    check!(tensor_count() == w.base, "tapes: tensors outlive every handle and context", "{} before, {} after", w.base, tensor_count());
    Ok(())
}

/// storage is freed with its last view, not before and not later
fn handles(cx: &mut Cx) -> R {
    let len = cx.rng.usize(5, 40);
    let base_n = tensor_count();
    let base_m = mem::current();
    struct S {
        t: Tensor,
        val: f64,
        store: usize,
    }
    let mut slots: Vec<S> = vec![];
    let mut sizes: HashMap<usize, isize> = HashMap::new();
    let mut next = 0usize;
    cx.d(format!("x{}", len));
    for _ in 0..len {
        let k = cx.rng.below(12);
        let ns = slots.len();
        let what;
        if ns == 0 || k == 0 {
            let (a, b) = (cx.rng.usize(120, 240), cx.rng.usize(120, 240));
            let v = cx.rng.range(-9, 9) as f64;
            let t = Tensor::full([a, b], v).map_err(er("handles: full"))?;
            let sz = (a * b * t.dtype().size_in_bytes()) as isize;
            what = format!("full {}x{}", a, b);
            sizes.insert(next, sz);
            slots.push(S { t, val: v, store: next });
            next += 1;
        } else {
            let i = cx.rng.below(ns);
            let t = slots[i].t.clone();
            let (val, store) = (slots[i].val, slots[i].store);
            let d = shape_of(&t);
            let mut shared = |r: hodu_core::error::HoduResult<Tensor>, what: &str, val: f64, sizes: &mut HashMap<usize, isize>, slots: &mut Vec<S>| -> R {
                let r = r.map_err(er(&format!("handles: {}", what)))?;
                if t.is_contiguous() {
                    slots.push(S { t: r, val, store });
                } else {
                    // made contiguous first
                    sizes.insert(next, (t.size() * t.dtype().size_in_bytes()) as isize);
                    slots.push(S { t: r, val, store: next });
                    next += 1;
                }
                Ok(())
            };
            match k {
                1 => {
                    what = format!("transpose {}", i);
                    if d.len() < 2 {
                        continue;
                    }
                    shared(t.transpose(0, 1), "transpose", val, &mut sizes, &mut slots)?;
                },
                2 => {
                    what = format!("slice {}", i);
                    let e = cx.rng.usize(1, d[0]);
                    shared(t.slice(0, 0, Some(e as i32), 1), "slice", val, &mut sizes, &mut slots)?;
                },
                3 => {
                    what = format!("reshape {}", i);
                    shared(t.reshape([t.size()]), "reshape", val, &mut sizes, &mut slots)?;
                },
                4 => {
                    what = format!("clone {}", i);
                    slots.push(S { t: t.clone(), val, store });
                },
                5 | 6 => {
                    what = format!("compute {}", i);
                    let r = t.neg().map_err(er("handles: neg"))?;
                    sizes.insert(next, (r.size() * r.dtype().size_in_bytes()) as isize);
                    slots.push(S { t: r, val: -val, store: next });
                    next += 1;
                },
                7 => {
                    what = format!("read {}", i);
                    let m = read(&t).map_err(er("handles: a held tensor is unreadable"))?;
                    let ok = m.data.iter().all(|v| v.f() == val);
                    check!(ok, "handles: a held tensor changed", "slot {}", i);
                },
                _ => {
                    what = format!("drop {}", i);
                    drop(slots.swap_remove(i));
                },
            }
        }
        let live: HashSet<usize> = slots.iter().map(|s| s.store).collect();
        let expect: isize = live.iter().map(|s| sizes[s]).sum();
        let ids: HashSet<TensorId> = slots.iter().map(|s| s.t.id()).collect();
        cx.d(what.clone());
        let n = tensor_count() - base_n;
        check!(n == ids.len(), "handles: number of live tensors", "{} live, {} held after {}", n, ids.len(), what);
        let m = mem::current() - base_m;
        check!((m - expect).abs() < 40_000, "handles: memory of live tensors", "{} bytes in use, {} in reachable buffers after {}", m, expect, what);
        cx.count("events", 1);
    }
    for s in &slots {
        let m = read(&s.t).map_err(er("handles: a held tensor is unreadable"))?;
        let ok = m.data.iter().all(|v| v.f() == s.val);
        check!(ok, "handles: a held tensor changed", "at the end");
    }
    cx.rng.shuffle(&mut slots);
    drop(slots);
    check!(tensor_count() == base_n, "handles: tensors outlive every handle", "{} before, {} after", base_n, tensor_count());
    Ok(())
}

/// a program's gradients do not depend on how long the caller keeps the handles of its intermediate values
fn drops(cx: &mut Cx) -> R {
    let p = fresh_prog(cx, 3, 16)?;
    let prob = *cx.rng.pick(&[0.3, 0.8, 1.0]);
    cx.d(format!("drop {} {}", prob, p.desc()));
    let base = tensor_count();
    let alone = solo(&p, "drops")?;
    check!(tensor_count() == base, "drops: tensors outlive a finished program", "{} before, {} after", base, tensor_count());
    {
        let ctx = GradientContext::new();
        let leaves = e2(leaf_tensors(&p), "drops")?;
        let mut v = leaves.clone();
        let dummy = Tensor::zeros([1], DType::F64).map_err(er("drops: zeros"))?;
        let nl = leaves.len();
        let last_use = |slot: usize| -> usize {
            let mut u = if p.out.iter().any(|o| o.0 == slot) { usize::MAX } else { 0 };
            for (k, i) in p.body.iter().enumerate() {
                if crate::p_graph::uses(i).contains(&slot) {
                    u = u.max(k);
                }
            }
            u
        };
        let lu: Vec<usize> = (0..nl + p.body.len()).map(last_use).collect();
        for (k, i) in p.body.iter().enumerate() {
            let t = e2(exec1(i, &v), "drops")?;
            v.push(t);
            for s in 0..v.len() {
                if lu[s] <= k && cx.rng.chance(prob) {
                    v[s] = dummy.clone();
                }
            }
        }
        let l = e2(loss_of(&p, &v), "drops")?;
        let early = cx.rng.chance(0.5);
        if early {
            drop(v);
            e2(l.backward(), "drops")?;
        } else {
            e2(l.backward(), "drops")?;
            drop(v);
        }
        let got = collect(&p, &leaves, "drops")?;
        same("drops: gradients depend on held handles", &p, &got, &alone, 0.0)?;
        // leave in a random order
        let mut all: Vec<Box<dyn std::any::Any>> = vec![Box::new(ctx), Box::new(l), Box::new(dummy)];
        for x in leaves {
            all.push(Box::new(x));
        }
        cx.rng.shuffle(&mut all);
    }
    check!(tensor_count() == base, "drops: tensors outlive every handle", "{} before, {} after", base, tensor_count());
    Ok(())
}

const WORK: &[(&str, &[Family])] = &[
    ("elementwise", crate::p_elem::ARITH),
    ("boolean", crate::p_elem::BOOL),
    ("reduce", crate::p_red::RED),
    ("index", crate::p_index::INDEX),
    ("views", crate::p_view::VIEW),
    ("matrix", crate::p_mat::MAT),
    ("conv", crate::p_conv::CONV),
    ("cast", crate::p_cast::CAST),
    ("grad", crate::p_grad::GRAD),
    ("graph", crate::p_graph::GRAPH),
    ("nn", crate::p_nn::GROUPS),
    ("data", crate::p_data::GROUPS),
    ("optim", crate::p_opt::GROUPS),
    ("reject", crate::p_err::GROUPS),
    ("capture", crate::p_cap::GROUPS),
    ("files", crate::p_file::FILES),
];
/// the same piece of any other work, again and again
fn again(cx: &mut Cx) -> R {
    let (g, fs) = *cx.rng.pick(WORK);
    let f = &fs[cx.rng.below(fs.len())];
    let seed = cx.rng.u64();
    let reps = 6;
    cx.d(format!("{}/{} case {} x{}", g, f.name, seed, reps));
    let mut n = vec![];
    let mut m = vec![];
    let mut done = 0;
    for _ in 0..reps + 3 {
        let (c, r) = run_one(f, seed, false);
        if matches!(r, Ok(())) {
            done += 1;
        }
        drop((c, r));
        n.push(tensor_count());
        m.push(mem::current());
    }
    // (what the work computes is for other properties to judge)
    if done == 0 {
        return Err(Fail::Skip);
    }
    check!(n[2..].iter().all(|&x| x == n[2]), format!("{}/{}: tensors accumulate", g, f.name), "live after each repetition {:?}", n);
    // a little more after every repetition, however often
    while m.windows(2).rev().take(6).all(|w| w[1] > w[0]) {
        if m.len() >= 60 {
            bail!(format!("{}/{}: memory accumulates", g, f.name), "bytes in use after each repetition {:?}", m.iter().map(|x| x - m[0]).collect::<Vec<_>>());
        }
        drop(run_one(f, seed, false));
        m.push(mem::current());
    }
    let grow = m[reps + 2] - m[2];
    check!(grow < 12_000, format!("{}/{}: memory accumulates", g, f.name), "bytes in use after each repetition {:?}", m.iter().map(|x| x - m[0]).collect::<Vec<_>>());
    cx.count("repetitions", reps as u64);
    Ok(())
}

/// handles cross threads while the threads compute, and are dropped wherever they end up
fn across(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 6);
    let rounds = cx.rng.usize(5, 40);
    let seeds: Vec<u64> = (0..nt).map(|_| cx.rng.u64()).collect();
    cx.d(format!("{} threads x{} {:?}", nt, rounds, seeds));
    let base = tensor_count();
    let mut tx = vec![];
    let mut rx = vec![];
    for _ in 0..nt {
        let (a, b) = std::sync::mpsc::channel::<(Tensor, f64)>();
        tx.push(a);
        rx.push(b);
    }
    let hs: Vec<_> = rx
        .into_iter()
        .zip(seeds)
        .map(|(rx, s)| {
            let tx = tx.clone();
            std::thread::spawn(move || -> Result<u64, String> {
                let mut r = crate::rng::Rng::new(s);
                let mut mine: Vec<(Tensor, f64)> = vec![];
                let mut seen = 0;
                let _c = r.chance(0.5).then(GradientContext::new);
                for _ in 0..rounds {
                    while let Ok(x) = rx.try_recv() {
                        mine.push(x);
                    }
                    if mine.is_empty() || r.chance(0.3) {
                        let v = r.range(-50, 50) as f64;
                        let t = Tensor::full([3, 4], v).map_err(|e| e.to_string())?;
                        if r.chance(0.4) {
                            t.set_requires_grad(true).map_err(|e| e.to_string())?;
                        }
                        mine.push((t, v));
                    }
                    let i = r.below(mine.len());
                    match r.below(6) {
                        0 => {
                            let (t, v) = mine.swap_remove(i);
                            let _ = tx[r.below(tx.len())].send((t, v));
                        },
                        1 => {
                            let (t, v) = (mine[i].0.clone(), mine[i].1);
                            let _ = tx[r.below(tx.len())].send((t, v));
                        },
                        2 => {
                            let t = mine[i].0.neg().map_err(|e| e.to_string())?;
                            let v = -mine[i].1;
                            mine.push((t, v));
                        },
                        3 => {
                            let t = mine[i].0.transpose(0, 1).map_err(|e| e.to_string())?;
                            let v = mine[i].1;
                            mine.push((t, v));
                        },
                        4 => {
                            let m = read(&mine[i].0)?;
                            seen += 1;
                            if !m.data.iter().all(|x| x.f() == mine[i].1) {
                                return Err(format!("a tensor of {} reads {}", mine[i].1, m.show()));
                            }
                        },
                        _ => {
                            mine.swap_remove(i);
                        },
                    }
                    if r.chance(0.1) {
                        std::thread::yield_now();
                    }
                }
                for (t, v) in &mine {
                    let m = read(t)?;
                    seen += 1;
                    if !m.data.iter().all(|x| x.f() == *v) {
                        return Err(format!("a tensor of {} reads {}", v, m.show()));
                    }
                }
                drop(tx);
                Ok(seen)
            })
        })
        .collect();
    drop(tx);
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => cx.count("reads", n),
            Ok(Err(e)) => bail!("across: a held tensor is lost or changed", "{}", e),
            Err(_) => bail!("across: a thread panicked", "{}", last_panic()),
        }
    }
    check!(tensor_count() == base, "across: tensors outlive every handle", "{} before, {} after", base, tensor_count());
    Ok(())
}

pub const GROUPS: &[Family] = &[fam("tapes", 6000, 200000, tapes), fam("handles", 800, 15000, handles), fam("drops", 1500, 30000, drops), fam("across", 600, 10000, across), fam("again", 4000, 60000, again)];
