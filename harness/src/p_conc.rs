//! M02: concurrent use is race-free, and work the library splits over threads does not depend on the split.
use crate::cx::*;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::tensor::{GradientContext, Tensor};
use hodu_core::types::{DType, Device};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Barrier};
use std::time::Duration;

// ---- what the kernels see of the machine ----
static NPROC: AtomicI64 = AtomicI64::new(0);
/// processor counts asked for while NPROC was set
static ASKED: AtomicU64 = AtomicU64::new(0);
/// the process asks the C library through these definitions
#[cfg(not(hv_tsan))]
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: libc::c_int) -> libc::c_long {
    if name == libc::_SC_NPROCESSORS_ONLN {
        let n = NPROC.load(SeqCst);
        if n > 0 {
            ASKED.fetch_add(1, SeqCst);
            return n as libc::c_long;
        }
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut f = REAL.load(SeqCst);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"sysconf".as_ptr()) as usize;
        REAL.store(f, SeqCst);
    }
    let f: unsafe extern "C" fn(libc::c_int) -> libc::c_long = std::mem::transmute(f);
    f(name)
}
/// bit k: the k-th thread creation from now fails
static FAIL: AtomicU64 = AtomicU64::new(0);
static CREATED: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
#[cfg(not(hv_tsan))]
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, x: *mut libc::c_void) -> libc::c_int {
    let m = FAIL.load(SeqCst);
    let k = CREATED.fetch_add(1, SeqCst);
    if m != 0 && (m >> (k % 64)) & 1 == 1 {
        REFUSED.fetch_add(1, SeqCst);
        return libc::EAGAIN;
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut p = REAL.load(SeqCst);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        REAL.store(p, SeqCst);
    }
    let r: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> libc::c_int = std::mem::transmute(p);
    r(t, a, f, x)
}
struct Machine;
impl Machine {
    fn with(nproc: i64, fail: u64) -> Self {
        CREATED.store(0, SeqCst);
        REFUSED.store(0, SeqCst);
        NPROC.store(nproc, SeqCst);
        FAIL.store(fail, SeqCst);
        Machine
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        FAIL.store(0, SeqCst);
        NPROC.store(0, SeqCst);
    }
}

// ---- work the kernels split over threads ----
fn er<E: ToString>(s: &str) -> impl Fn(E) -> Fail {
    let s = s.to_string();
    move |e| Fail::Bad(s.clone(), e.to_string())
}
/// `n` elements, the pattern again and again
fn tiled(p: &RT, shape: &[usize]) -> Result<Tensor, Fail> {
    let b = p.t().to_bytes().map_err(er("split: to_bytes"))?;
    let n = numel(shape) * p.dt.size_in_bytes();
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = b.len().min(n - v.len());
        v.extend_from_slice(&b[..k]);
    }
    Tensor::from_bytes(&v, shape.to_vec(), p.dt, Device::CPU).map_err(er("split: from_bytes"))
}
fn near(dt: DType, a: V, b: V) -> bool {
    if crate::p_err::same(a, b) {
        return true;
    }
    match (a, b) {
        (V::F(x), V::F(y)) => (x - y).abs() <= 16.0 * eps(dt) * x.abs().max(y.abs()).max(min_normal(dt)),
        _ => false,
    }
}
type Op = Box<dyn Fn(&[Tensor]) -> hodu_core::error::HoduResult<Tensor>>;
fn splittable(cx: &mut Cx) -> (String, DType, usize, Op) {
    let r = &mut cx.rng;
    let k = r.below(12);
    let mut dt = *r.pick(ALL);
    match k {
        0 | 1 => {
            let u = &crate::p_elem::UNARY[r.below(crate::p_elem::UNARY.len())];
            let op = u.op;
            (u.name.to_string(), *r.pick(FLOATS), 1, Box::new(move |t| op(&t[0])))
        },
        2 => {
            let c = r.below(4);
            let v = r.range(1, 5) as f64;
            if dt == DType::BOOL {
                dt = DType::I16;
            }
            let s = crate::p_elem::scalar_of(if is_float(dt) { V::F(v) } else { V::I(v as i128) }, dt);
            (format!("scalar{} {}", c, v), dt, 1, Box::new(move |t| match c { 0 => t[0].add_scalar(s), 1 => t[0].mul_scalar(s), 2 => t[0].maximum_scalar(s), _ => t[0].sub_scalar(s) }))
        },
        3 | 4 => {
            let c = r.below(5);
            if dt == DType::BOOL {
                dt = DType::U8;
            }
            (format!("binary{}", c), dt, 2, Box::new(move |t| match c { 0 => t[0].add(&t[1]), 1 => t[0].mul(&t[1]), 2 => t[0].sub(&t[1]), 3 => t[0].maximum(&t[1]), _ => t[0].minimum(&t[1]) }))
        },
        5 => {
            let c = r.below(4);
            (format!("compare{}", c), dt, 2, Box::new(move |t| match c { 0 => t[0].lt(&t[1]), 1 => t[0].eq(&t[1]), 2 => t[0].ge(&t[1]), _ => t[0].ne(&t[1]) }))
        },
        6 => {
            let c = r.below(4);
            dt = *r.pick(INTS);
            (format!("bitwise{}", c), dt, 2, Box::new(move |t| match c { 0 => t[0].bitwise_and(&t[1]), 1 => t[0].bitwise_or(&t[1]), 2 => t[0].bitwise_xor(&t[1]), _ => t[0].bitwise_not() }))
        },
        7 | 8 => {
            let to = *r.pick(ALL);
            (format!("to {:?}", to), dt, 1, Box::new(move |t| t[0].to_dtype(to)))
        },
        10 => {
            let c = r.below(3);
            let v = r.range(2, 5) as f64;
            let s = if dt == DType::BOOL { hodu_core::scalar::Scalar::BOOL(true) } else { crate::p_elem::scalar_of(if is_float(dt) { V::F(v) } else { V::I(v as i128) }, dt) };
            (format!("fill{}", c), dt, 1, Box::new(move |t| match c { 0 => Tensor::ones([t[0].size()], t[0].dtype()), 1 => Tensor::full_like(&t[0], s), _ => Tensor::full([t[0].size()], s) }))
        },
        9 => (
            "contiguous".to_string(), dt, 1,
            Box::new(|t| {
                // through a layout that has to be copied
                let n = t[0].size();
                if n % 2 == 0 && n > 0 {
                    t[0].reshape([n / 2, 2])?.transpose(0, 1)?.contiguous()?.transpose(0, 1)?.contiguous()?.reshape([n])
                } else {
                    t[0].unsqueeze(0)?.broadcast([2, n])?.contiguous()?.slice(0, 1, None, 1)?.contiguous()?.reshape([n])
                }
            }),
        ),
        _ => {
            let c = r.below(3);
            (format!("logical{}", c), dt, 2, Box::new(move |t| match c { 0 => t[0].logical_and(&t[1]), 1 => t[0].logical_or(&t[1]), _ => t[0].logical_not() }))
        },
    }
}
fn split(cx: &mut Cx) -> R {
    let (name, dt, ins, op) = splittable(cx);
    let per = *cx.rng.pick(&[61usize, 97, 128, 251]);
    let n = match cx.rng.below(8) {
        0 => 199_999,
        1 => 200_000,
        2 => 200_001,
        3 => cx.rng.usize(200_000, 1_700_000),
        _ => cx.rng.usize(200_000, 500_000),
    };
    let nproc = *cx.rng.pick(&[1i64, 2, 3, 4, 5, 7, 8, 16]);
    let fail = match cx.rng.below(4) { 0 => 0u64, 1 => u64::MAX, 2 => 1u64 << cx.rng.below(4), _ => cx.rng.u64() };
    let fail = if cx.rng.chance(0.5) { 0 } else { fail };
    let g = if cx.rng.chance(0.5) { Gen::Small } else { Gen::Edge };
    let pats: Vec<RT> = (0..ins).map(|_| gen_rt(&mut cx.rng, dt, &[per], g)).collect();
    cx.d(format!("{} {:?} n {} period {} nproc {} fail {:x}", name, dt, n, per, nproc, fail));
    let small: Vec<Tensor> = pats.iter().map(|p| p.t()).collect();
    let Ok(e) = op(&small) else { return Err(Fail::Skip) };
    let e = read(&e).map_err(er("split: unreadable"))?;
    let off = if cx.rng.chance(0.3) { cx.rng.usize(1, 40) } else { 0 };
    let mut big: Vec<Tensor> = vec![];
    for p in &pats {
        let t = tiled(p, &[n + off])?;
        big.push(if off > 0 { t.slice(0, off as i32, None, 1).map_err(er("split: slice"))? } else { t });
    }
    let run = |nproc: i64, fail: u64| -> Result<(Vec<u8>, u64, u64), Fail> {
        let m = Machine::with(nproc, fail);
        let r = op(&big);
        let c = (CREATED.load(SeqCst), REFUSED.load(SeqCst));
        drop(m);
        let r = r.map_err(er(&format!("split: {} of a large operand", name.split(' ').next().unwrap())))?;
        check!(r.dtype() == e.dt && shape_of(&r) == [n], format!("split: {}", name), "{:?}{:?}", r.dtype(), r.shape());
        Ok((r.to_bytes().map_err(er("split: to_bytes"))?, c.0, c.1))
    };
    let sig = name.split(' ').next().unwrap().to_string();
    let (a, made, refused) = run(nproc, fail)?;
    cx.count("kernel_threads_requested", made);
    cx.count("kernel_threads_refused", refused);
    let m = crate::p_view::from_bytes_model(e.dt, &[n], &a).ok_or_else(|| Fail::Bad("split: bytes".into(), "".into()))?;
    let mut prev: Option<(V, V)> = None;
    for i in 0..n {
        let (x, y) = (m.data[i], e.data[(i + off) % per]);
        if prev.is_some_and(|p| false && p.0 == x) {
            continue;
        }
        prev = Some((x, y));
        check!(near(e.dt, x, y), format!("split: {}: an element depends on the split{}", sig, if refused > 0 { " when a thread cannot be created" } else { "" }), "element {} is {:?}, expected {:?}", i, x, y);
    }
    cx.count("elements_compared", n as u64);
    let (b, _, _) = run(nproc, fail)?;
    check!(a == b, format!("split: {}: a repetition differs", sig), "");
    Ok(())
}
/// rows of a matrix product split over threads
fn split_rows(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F64, DType::I32, DType::I64, DType::U8, DType::BF16, DType::F16, DType::U32]);
    let per = *cx.rng.pick(&[7usize, 16, 31]);
    let m = *cx.rng.pick(&[500usize, 511, 512, 513, 600, 777, 1024, 1500]);
    let (k, n) = (cx.rng.usize(1, 9), cx.rng.usize(1, 9));
    let nproc = *cx.rng.pick(&[1i64, 2, 3, 4, 5, 8, 16, 40]);
    let fail = if cx.rng.chance(0.5) { 0 } else if cx.rng.chance(0.5) { u64::MAX } else { cx.rng.u64() };
    let dot = cx.rng.chance(0.5);
    let colmajor = cx.rng.chance(0.3);
    let p = gen_rt(&mut cx.rng, dt, &[per, k], Gen::Small);
    let rhs = gen_rt(&mut cx.rng, dt, &[k, n], Gen::Small);
    cx.d(format!("{} {:?} [{}x{}]x{} period {} nproc {} fail {:x} {}", if dot { "dot" } else { "matmul" }, dt, m, k, n, per, nproc, fail, colmajor));
    let r = rhs.t();
    let f = |a: &Tensor| if dot { a.dot(&r) } else { a.matmul(&r) };
    let Ok(e) = f(&p.t()) else { return Err(Fail::Skip) };
    let e = read(&e).map_err(er("rows: unreadable"))?;
    let mut a = tiled(&p, &[m, k])?;
    if colmajor {
        a = a.transpose(0, 1).and_then(|x| x.contiguous()).and_then(|x| x.transpose(0, 1)).map_err(er("rows: transpose"))?;
    }
    let mut first: Option<Vec<u8>> = None;
    for _ in 0..2 {
        let g = Machine::with(nproc, fail);
        let o = f(&a);
        cx.count("kernel_threads_requested", CREATED.load(SeqCst));
        cx.count("kernel_threads_refused", REFUSED.load(SeqCst));
        drop(g);
        let o = o.map_err(er("rows: refused"))?;
        let b = o.to_bytes().map_err(er("rows: to_bytes"))?;
        let o = read(&o).map_err(er("rows: unreadable"))?;
        check!(o.shape == [m, n] && o.dt == e.dt, "rows: shape", "{:?}", o.shape);
        for i in 0..m * n {
            let (x, y) = (o.data[i], e.data[(i / n) % per * n + i % n]);
            let close = near(e.dt, x, y) || matches!((x, y), (V::F(x), V::F(y)) if is_float(dt) && (x - y).abs() <= 64.0 * eps(dt) * 100.0);
            check!(close, "rows: an element depends on the split", "element {} of {}x{} is {:?}, expected {:?}", i, m, n, x, y);
        }
        match &first {
            None => first = Some(b),
            Some(f) => check!(*f == b, "rows: a repetition differs", ""),
        }
    }
    Ok(())
}

// ---- many threads ----
type Job = Box<dyn FnOnce() -> Result<(u64, Vec<(String, u64)>), (String, String)> + Send>;
/// runs the jobs at the same time; a job that never ends is a deadlock
fn together(cx: &mut Cx, what: &str, jobs: Vec<Job>) -> R {
    let n = jobs.len();
    let bar = Arc::new(Barrier::new(n));
    let (tx, rx) = mpsc::channel();
    let mut hs = vec![];
    for j in jobs {
        let (bar, tx) = (bar.clone(), tx.clone());
        hs.push(std::thread::spawn(move || {
            bar.wait();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).unwrap_or_else(|_| Err(("a thread panicked".into(), last_panic())));
            let _ = tx.send(r);
        }));
    }
    drop(tx);
    let mut bad_ = None;
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(if cfg!(hv_tsan) { 240 } else { 90 })) {
            Ok(Ok((k, cs))) => {
                cx.count("concurrent_evaluations", k);
                for (a, b) in cs {
                    cx.count(&a, b);
                }
            },
            Ok(Err(e)) => bad_ = Some(e),
            Err(_) => bail!(format!("{}: threads do not finish", what), "deadlock or livelock of {} threads", n),
        }
    }
    for h in hs {
        let _ = h.join();
    }
    match bad_ {
        Some((s, m)) => bad(format!("{}: {}", what, s), m),
        None => Ok(()),
    }
}
fn jitter(r: &mut crate::rng::Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(Duration::from_micros(r.below(60) as u64)),
        2 => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
        _ => {},
    }
}

type Outcome1 = Result<Vec<RT>, ()>;
fn eval(q: &crate::p_err::Req, ts: &[Tensor]) -> Outcome1 {
    match (q.call)(ts) {
        Ok(v) => v.iter().map(|t| read(t).map_err(|_| ())).collect(),
        Err(_) => Err(()),
    }
}
fn equal(a: &Outcome1, b: &Outcome1) -> bool {
    match (a, b) {
        (Err(()), Err(())) => true,
        (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.dt == y.dt && x.shape == y.shape && x.data.len() == y.data.len() && x.data.iter().zip(&y.data).all(|(p, q)| crate::p_err::same(*p, *q))),
        _ => false,
    }
}
/// operations of every kind on shared operands, by several threads at once
fn ops(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 8);
    let nq = cx.rng.usize(2, 6);
    let rounds = cx.rng.usize(2, 8);
    let mut reqs: Vec<(u64, Vec<Tensor>, Outcome1, String)> = vec![];
    let mut tries = 0;
    while reqs.len() < nq && tries < nq * 8 {
        tries += 1;
        let s = cx.rng.u64();
        let q = crate::p_err::gen(&mut crate::rng::Rng::new(s));
        if ["set_", "rand", "empty"].iter().any(|p| q.name.starts_with(p)) || ["backward", "grad", "zero_grad", "requires", "save", "load", "to_device"].iter().any(|p| q.name.contains(p)) {
            continue;
        }
        let mut ts = vec![];
        for (d, sh) in &q.ins {
            let lay = gen_lay(&mut cx.rng);
            let g = if *d == DType::I32 && cx.rng.chance(0.5) { Gen::Range(-6.0, 6.0) } else { Gen::Small };
            ts.push(if numel(sh) == 0 { match Tensor::zeros(sh, *d) { Ok(t) => t, Err(_) => return Err(Fail::Skip) } } else { gen_view(&mut cx.rng, *d, sh, g, lay)?.0 });
        }
        let a = eval(&q, &ts);
        if !equal(&a, &eval(&q, &ts)) {
            continue; // random by design
        }
        cx.d(format!("{} {} {:?}", q.name, q.args, q.ins));
        reqs.push((s, ts, a, q.name));
    }
    if reqs.is_empty() {
        return Err(Fail::Skip);
    }
    cx.d(format!("{} threads x{}", nt, rounds));
    let reqs = Arc::new(reqs);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..nt {
        let reqs = reqs.clone();
        let s = cx.rng.u64();
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            let _c = r.chance(0.5).then(GradientContext::new);
            let qs: Vec<_> = reqs.iter().map(|q| crate::p_err::gen(&mut crate::rng::Rng::new(q.0))).collect();
            let mut k = 0;
            for _ in 0..rounds {
                let i = r.below(qs.len());
                let ts: Vec<Tensor> = reqs[i].1.to_vec();
                jitter(&mut r);
                let o = eval(&qs[i], &ts);
                drop(ts);
                k += 1;
                if !equal(&o, &reqs[i].2) {
                    return Err((format!("{} gives something else than alone", reqs[i].3), format!("{} {}: {:?} but alone {:?}", qs[i].name, qs[i].args, o.map(|v| v.iter().map(|x| x.show()).collect::<Vec<_>>()), reqs[i].2.as_ref().map(|v| v.iter().map(|x| x.show()).collect::<Vec<_>>()))));
                }
            }
            Ok((k, vec![]))
        }));
    }
    together(cx, "ops", jobs)
}

const WORK: &[(&str, &[Family])] = &[
    ("elementwise", crate::p_elem::ARITH),
    ("boolean", crate::p_elem::BOOL),
    ("reduce", crate::p_red::RED),
    ("index", crate::p_index::INDEX),
    ("views", crate::p_view::VIEW),
    ("matrix", crate::p_mat::MAT),
    ("conv", crate::p_conv::CONV),
    ("cast", crate::p_cast::CAST),
    ("grad", crate::p_grad::GRAD),
    ("graph", crate::p_graph::GRAPH),
    ("data", crate::p_data::GROUPS),
    ("optim", crate::p_opt::GROUPS),
    ("files", crate::p_file::FILES),
];
/// every thread does different work, each judged by its own oracle
fn mixed(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 8);
    let rounds = cx.rng.usize(1, 5);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..nt {
        let mut list = vec![];
        while list.len() < rounds {
            let (g, fs) = *cx.rng.pick(WORK);
            let f = &fs[cx.rng.below(fs.len())];
            // (these look at the whole process, or run threads of their own)
            if ["threads", "bounded", "shared_leaf", "large"].contains(&f.name) {
                continue;
            }
            let s = cx.rng.u64();
            // what fails alone is for another property to report
            if matches!(run_one(f, s, false).1, Ok(())) {
                list.push((g, f, s));
            }
        }
        cx.d(format!("{:?}", list.iter().map(|x| format!("{}/{} {}", x.0, x.1.name, x.2)).collect::<Vec<_>>()));
        let s = cx.rng.u64();
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            let mut k = 0;
            for (g, f, s) in list {
                jitter(&mut r);
                let (c, o) = run_one(f, s, false);
                k += 1;
                if let Err(Fail::Bad(s, m)) = o {
                    return Err((format!("{}/{} fails, but not alone: {}", g, f.name, s), format!("{} :: {}", c.desc, m)));
                }
            }
            Ok((k, vec![]))
        }));
    }
    together(cx, "mixed", jobs)
}

/// every thread does the same kinds of work, partly the same work
fn crowd(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(3, 8);
    let (g, fs) = *cx.rng.pick(WORK);
    let f = &fs[cx.rng.below(fs.len())];
    if ["threads", "bounded", "shared_leaf", "large"].contains(&f.name) {
        return Err(Fail::Skip);
    }
    cx.d(format!("{}/{}", g, f.name));
    let mut list = |n: usize| {
        let mut l = vec![];
        for _ in 0..n * 2 {
            let s = cx.rng.u64();
            if l.len() < n && matches!(run_one(f, s, false).1, Ok(())) {
                l.push(s);
            }
        }
        l
    };
    let common = list(6);
    let mut jobs: Vec<Job> = vec![];
    let mut per = vec![];
    for _ in 0..nt {
        per.push(list(2));
    }
    cx.d(format!("{:?} {:?}", common, per));
    for own in per {
        let s = cx.rng.u64();
        let mut l = common.clone();
        l.extend(own);
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            r.shuffle(&mut l);
            let mut k = 0;
            for s in l {
                if r.chance(0.3) {
                    jitter(&mut r);
                }
                let (c, o) = run_one(f, s, false);
                k += 1;
                if let Err(Fail::Bad(s, m)) = o {
                    return Err((format!("{}/{} fails, but not alone: {}", g, f.name, s), format!("{} :: {}", c.desc, m)));
                }
            }
            Ok((k, vec![]))
        }));
    }
    together(cx, "crowd", jobs)
}

/// many cases of one kind at the same time: whatever state an operation shares between threads is shared here
fn sweep(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 4);
    let (g, fs) = *cx.rng.pick(WORK);
    let f = &fs[cx.rng.below(fs.len())];
    if ["threads", "bounded", "shared_leaf", "large"].contains(&f.name) {
        return Err(Fail::Skip);
    }
    let seeds: Vec<u64> = (0..30).map(|_| cx.rng.u64()).collect();
    cx.d(format!("{}/{} x{} {:?}", g, f.name, nt, seeds));
    let mut jobs: Vec<Job> = vec![];
    for k in 0..nt {
        let (l, s) = (seeds.clone(), cx.rng.u64());
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            let (mut n, t0) = (0, std::time::Instant::now());
            for i in 0..l.len() {
                // near one another, not always in step
                let s = l[if k > 0 && r.chance(0.3) { i.saturating_sub(r.below(3)) } else { i }];
                let (c, o) = run_one(f, s, false);
                n += 1;
                if let Err(Fail::Bad(w, m)) = o {
                    if matches!(run_one(f, s, false).1, Ok(())) || matches!(run_one(f, s, false).1, Ok(())) {
                        return Err((format!("{}/{} fails, but not alone: {}", g, f.name, w), format!("{} :: {}", c.desc, m)));
                    }
                }
                if t0.elapsed().as_secs() > 3 {
                    break;
                }
            }
            Ok((n, vec![]))
        }));
    }
    together(cx, "sweep", jobs)
}

/// one leaf's contents are replaced while others read it: every read sees one of the contents, whole
fn replace(cx: &mut Cx) -> R {
    let shape = [cx.rng.usize(1, 30), cx.rng.usize(1, 30)];
    let nt = cx.rng.usize(2, 6);
    let rounds = cx.rng.usize(5, 60);
    let vals: Vec<f64> = (0..4).map(|i| i as f64 * 3.0 + 1.0).collect();
    let t = Tensor::full(shape, vals[0]).map_err(er("replace: full"))?;
    cx.d(format!("{:?} {} threads x{}", shape, nt, rounds));
    let mut jobs: Vec<Job> = vec![];
    for k in 0..nt {
        let (t, vals, s) = (t.clone(), vals.clone(), cx.rng.u64());
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            let e = |e: hodu_core::error::HoduError| ("refused".to_string(), e.to_string());
            for _ in 0..rounds {
                jitter(&mut r);
                if k == 0 {
                    let x = Tensor::full(shape, vals[r.below(4)]).map_err(e)?;
                    t.set_(&x).map_err(e)?;
                } else {
                    let m = if r.chance(0.5) { read(&t) } else { t.mul_scalar(1.0f64).map_err(e).and_then(|x| read(&x).map_err(|e| ("unreadable".to_string(), e)))?.into_ok() };
                    let m = m.map_err(|e| ("unreadable".to_string(), e))?;
                    let f = m.data[0].f();
                    if !vals.contains(&f) || !m.data.iter().all(|x| x.f() == f) {
                        return Err(("a reader sees contents nobody wrote".into(), m.show()));
                    }
                }
            }
            Ok((rounds as u64, vec![]))
        }));
    }
    together(cx, "replace", jobs)
}
trait IntoOk: Sized {
    fn into_ok(self) -> Result<Self, String> {
        Ok(self)
    }
}
impl IntoOk for RT {}

/// gradients accumulate on shared parameters: every thread has its own context, losses share leaves
fn shared_params(cx: &mut Cx) -> R {
    let nt = cx.rng.usize(2, 6);
    let rounds = cx.rng.usize(2, 12);
    let p = gen_rt(&mut cx.rng, DType::F64, &[3, 3], Gen::Range(-1.0, 1.0));
    let t = p.t();
    t.set_requires_grad(true).map_err(er("shared: requires_grad"))?;
    cx.d(format!("{} threads x{}", nt, rounds));
    let mut jobs: Vec<Job> = vec![];
    for k in 0..nt {
        let (t, p, s) = (t.clone(), p.clone(), cx.rng.u64());
        jobs.push(Box::new(move || {
            let mut r = crate::rng::Rng::new(s);
            let e = |e: hodu_core::error::HoduError| ("refused".to_string(), e.to_string());
            for _ in 0..rounds {
                let _c = GradientContext::new();
                // own leaf, and the shared one whose gradient the threads overwrite in turn
                let mine = p.t();
                mine.set_requires_grad(true).map_err(e)?;
                jitter(&mut r);
                let c = (k + 1) as f64;
                let l = mine.mul(&t).map_err(e)?.mul_scalar(c).map_err(e)?.sum_all().map_err(e)?;
                jitter(&mut r);
                l.backward().map_err(e)?;
                let g = mine.grad().map_err(e).and_then(|g| read(&g).map_err(|e| ("unreadable".to_string(), e)))?;
                if !g.data.iter().zip(&p.data).all(|(a, b)| (a.f() - c * b.f()).abs() <= 1e-12) {
                    return Err(("gradient of a thread's own leaf".into(), format!("{} expected {} x {}", g.show(), c, p.show())));
                }
                let g = t.grad().map_err(e).and_then(|g| read(&g).map_err(|e| ("shared gradient unreadable".to_string(), e)))?;
                let q = g.data[0].f() / p.data[0].f();
                let ok = p.data[0].f() == 0.0 || ((q - q.round()).abs() < 1e-9 && q > 0.5 && q < 7.0);
                if !ok {
                    return Err(("gradient of the shared leaf is nobody's".into(), g.show()));
                }
            }
            Ok((rounds as u64, vec![]))
        }));
    }
    together(cx, "shared parameters", jobs)
}

pub const SPLIT: &[Family] = &[fam("split", 160, 3000, split), fam("split_rows", 500, 8000, split_rows)];
pub const GROUPS: &[Family] = &[fam("ops", 1200, 40000, ops), fam("mixed", 250, 8000, mixed), fam("crowd", 250, 8000, crowd), fam("sweep", 400, 8000, sweep), fam("replace", 300, 8000, replace), fam("shared_params", 300, 8000, shared_params)];
