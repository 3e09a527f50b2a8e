//! D01: data loaders, samplers, splits: every sample exactly once per epoch, features with their own label.
use crate::cx::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::{HoduError, HoduResult};
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;
use hodu_datasets::data::batch::{Batch, DataItem};
use hodu_datasets::data::dataloader::{default_collate, DataLoader};
use hodu_datasets::data::dataset::{random_split, ConcatDataset, Dataset, Subset, TensorDataset};
use hodu_datasets::data::sampler::{BatchSampler, RandomSampler, Sampler, SequentialSampler, SubsetSampler};
use std::cell::RefCell;
use std::rc::Rc;

/// A dataset of numbered samples: sample `i` is `kind` tensors whose elements spell `base + i`.
#[derive(Clone)]
struct Ds {
    n: usize,
    base: usize,
    kind: usize,
    shape: Vec<usize>,
    /// index whose item is of another kind
    odd: Option<usize>,
    /// (index, how many more times `get` of it fails)
    fail: Rc<RefCell<Option<(usize, usize)>>>,
}
fn part(id: usize, p: usize, shape: &[usize]) -> Tensor {
    let dt = [DType::F32, DType::I64, DType::F64, DType::I32][p % 4];
    RT::from_fn(dt, shape, |ix| {
        let x = (id * 64 + p * 16 + ix.iter().fold(0, |a, i| a * 2 + i) % 16) as f64;
        if dt.is_float() {
            V::F(x)
        } else {
            V::I(x as i128)
        }
    })
    .t()
}
impl Dataset for Ds {
    fn len(&self) -> usize {
        self.n
    }
    fn get(&self, i: usize) -> HoduResult<DataItem> {
        if i >= self.n {
            return Err(HoduError::InternalError(format!("index {} of {}", i, self.n)));
        }
        if let Some((k, c)) = self.fail.borrow_mut().as_mut() {
            if *k == i && *c > 0 {
                *c -= 1;
                return Err(HoduError::InternalError("injected".into()));
            }
        }
        let id = self.base + i;
        let kind = if self.odd == Some(i) { (self.kind + 1) % 5 } else { self.kind };
        Ok(match kind {
            0 => DataItem::Single(part(id, 0, &self.shape)),
            1 => DataItem::Pair(part(id, 0, &self.shape), part(id, 1, &[])),
            k => DataItem::Multiple((0..k - 1).map(|p| part(id, p, &self.shape)).collect()),
        })
    }
}

/// The sample numbers of one tensor of a batch; every element must belong to its sample and part.
fn ids(t: &Tensor, p: usize, shape: &[usize]) -> Result<Vec<usize>, String> {
    let r = read(t)?;
    if r.shape.len() != shape.len() + 1 || r.shape[1..] != *shape {
        return Err(format!("shape {:?} for samples of shape {:?}", r.shape, shape));
    }
    let dt = [DType::F32, DType::I64, DType::F64, DType::I32][p % 4];
    if r.dt != dt {
        return Err(format!("dtype {:?}", r.dt));
    }
    let m: usize = shape.iter().product();
    let mut out = vec![];
    for b in 0..r.shape[0] {
        let id = r.data[b * m].f() as usize / 64;
        for j in 0..m {
            let ix = unravel(j, shape);
            let x = (id * 64 + p * 16 + ix.iter().fold(0, |a, i| a * 2 + i) % 16) as f64;
            if r.data[b * m + j].f() != x {
                return Err(format!("sample {} of the batch mixes values: {}", b, r.show()));
            }
        }
        out.push(id);
    }
    Ok(out)
}
fn batch_ids(b: &Batch, kind: usize, shape: &[usize]) -> Result<Vec<usize>, String> {
    let parts: Vec<(Tensor, Vec<usize>)> = match (b, kind) {
        (Batch::Single(t), 0) => vec![(t.clone(), shape.to_vec())],
        (Batch::Pair(a, l), 1) => vec![(a.clone(), shape.to_vec()), (l.clone(), vec![])],
        (Batch::Multiple(v), k) if k > 1 && v.len() == k - 1 => v.iter().map(|t| (t.clone(), shape.to_vec())).collect(),
        _ => return Err("wrong kind of batch".into()),
    };
    let mut first: Option<Vec<usize>> = None;
    for (p, (t, s)) in parts.iter().enumerate() {
        let i = ids(t, p, s)?;
        match &first {
            None => first = Some(i),
            Some(f) if *f != i => return Err(format!("part {} holds samples {:?}, part 0 holds {:?}", p, i, f)),
            _ => {}
        }
    }
    Ok(first.unwrap_or_default())
}

thread_local! { static COLLATE_FAIL: RefCell<usize> = const { RefCell::new(0) }; }
fn flaky_collate(items: Vec<DataItem>) -> HoduResult<Batch> {
    let f = COLLATE_FAIL.with(|c| {
        let mut c = c.borrow_mut();
        let f = *c > 0;
        *c = c.saturating_sub(1);
        f
    });
    if f {
        return Err(HoduError::InternalError("injected".into()));
    }
    default_collate(items)
}

fn seed_of(r: &mut Rng) -> Option<u64> {
    match r.below(6) {
        0 => None,
        1 => Some(u64::MAX - r.below(3) as u64),
        2 => Some(0),
        3 => Some(i64::MAX as u64),
        _ => Some(r.u64()),
    }
}
fn bsize(r: &mut Rng, n: usize) -> usize {
    match r.below(8) {
        0 => 1,
        1 => n.max(1),
        2 => n + 1 + r.below(4),
        3 => (n / 2).max(1),
        4 => usize::MAX - r.below(2),
        5 => n.saturating_sub(1).max(1),
        _ => r.usize(1, 12),
    }
}
fn size(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.below(4),
        1 => r.usize(50, 130),
        _ => r.usize(0, 24),
    }
}

/// A random history of calls on a loader, with faults injected, against the epoch contract.
fn loader(cx: &mut Cx) -> R {
    let n = size(&mut cx.rng);
    let kind = cx.rng.below(5);
    let shape = gen_shape(&mut cx.rng, 0, 2, 6);
    let (shuffle, drop_last) = (cx.rng.chance(0.5), cx.rng.chance(0.4));
    let b = bsize(&mut cx.rng, n);
    let seed = seed_of(&mut cx.rng);
    let fail = Rc::new(RefCell::new(None));
    let kind = if kind == 2 { 3 } else { kind };
    let ds = Ds { n, base: 0, kind, shape: shape.clone(), odd: None, fail: fail.clone() };
    let steps: Vec<(usize, usize)> = (0..cx.rng.usize(3, 40)).map(|_| (cx.rng.below(20), cx.rng.below(n.max(1)))).collect();
    cx.d(format!("loader n={} kind {} {:?} batch {} shuffle {} drop {} seed {:?} steps {:?}", n, kind, shape, b, shuffle, drop_last, seed, steps));
    let mk = |ds: Ds| {
        let mut l = DataLoader::builder(ds).batch_size(b).shuffle(shuffle).drop_last(drop_last).collate_fn(flaky_collate);
        if let Some(s) = seed {
            l = l.seed(s);
        }
        l.build()
    };
    let mut l = mk(ds.clone());
    let nb = if drop_last { n / b } else { n / b + (n % b != 0) as usize };
    check!(l.batch_size() == b, "loader: batch_size", "{}", l.batch_size());
    let mut epoch = 0usize;
    let mut got: Vec<usize> = vec![];
    let mut batches = 0usize;
    // epochs delivered completely, for comparison with a second loader
    let mut orders: Vec<(usize, Vec<usize>)> = vec![];
    let mut pending = 0usize;
    let reader = |batch: Batch, got: &mut Vec<usize>, batches: &mut usize| -> R {
        let v = batch_ids(&batch, kind, &shape).map_err(|e| Fail::Bad("loader: batch".into(), e))?;
        let want = b.min(n - got.len());
        check!(v.len() == want, "loader: batch length", "batch {} has {} samples, expected {}", batches, v.len(), want);
        for x in &v {
            check!(*x < n, "loader: foreign sample", "{}", x);
            check!(!got.contains(x), "loader: sample delivered twice", "sample {} in {:?} after {:?}", x, v, got);
            if !shuffle {
                check!(*x == got.len(), "loader: order", "sample {} at position {}", x, got.len());
            }
            got.push(*x);
        }
        *batches += 1;
        Ok(())
    };
    for (a, k) in steps {
        check!(l.num_batches() == nb, "loader: num_batches", "{} expected {}", l.num_batches(), nb);
        check!(l.has_next() == (batches < nb), "loader: has_next", "{} after {} of {} batches", l.has_next(), batches, nb);
        match a {
            0 | 1 => {
                l.reset();
                epoch += 1;
                got.clear();
                batches = 0;
                pending = 0;
                *fail.borrow_mut() = None;
            }
            2 => {
                *fail.borrow_mut() = Some((k, 1));
                pending = 1;
            }
            3 => COLLATE_FAIL.with(|c| *c.borrow_mut() = 1),
            4..=7 => {
                // the rest of the epoch through the iterator
                let mut errs = 0;
                let mut rounds = 0;
                loop {
                    let mut ended = true;
                    let mut len = 0;
                    for r in l.iter_batches() {
                        len += 1;
                        check!(len <= nb + 2, "loader: iteration does not end", "{} batches of {}", len, nb);
                        match r {
                            Ok(x) => reader(x, &mut got, &mut batches)?,
                            Err(_) => {
                                errs += 1;
                                ended = false;
                            }
                        }
                    }
                    rounds += 1;
                    if ended || rounds > 6 {
                        break;
                    }
                }
                let injected = pending + 1;
                check!(errs <= injected, "loader: error without a cause", "{} errors", errs);
                check!(batches == nb, "loader: samples missing at the end of the epoch", "{} of {} batches, {} of {} samples", batches, nb, got.len(), n);
                check!(got.len() == if drop_last { n / b * b } else { n }, "loader: samples missing", "{} of {}", got.len(), n);
                orders.push((epoch, got.clone()));
                cx.count("epochs_completed", 1);
            }
            _ => match l.next_batch() {
                Ok(Some(x)) => {
                    check!(batches < nb, "loader: batch after the end", "{}", batches);
                    reader(x, &mut got, &mut batches)?
                }
                Ok(None) => check!(batches == nb, "loader: ended early", "{} of {} batches", batches, nb),
                Err(e) => check!(format!("{}", e).contains("injected"), "loader: error without a cause", "{}", e),
            },
        }
    }
    COLLATE_FAIL.with(|c| *c.borrow_mut() = 0);
    *fail.borrow_mut() = None;
    // the order is a function of seed and epoch only, whatever happened in between
    let mut m = mk(ds);
    let mut at = 0;
    for (ep, o) in orders {
        while at < ep {
            if k_half(ep, at) {
                let _ = m.next_batch();
            }
            m.reset();
            at += 1;
        }
        let (mut w, mut c) = (vec![], 0);
        for r in m.iter_batches() {
            match r {
                Ok(x) => reader(x, &mut w, &mut c)?,
                Err(e) => bail!("loader: error without a cause", "{}", e),
            }
        }
        if !w.is_empty() || o.is_empty() {
            check!(w == o, "loader: order depends on more than the seed and the epoch", "epoch {}: {:?} and {:?}", ep, w, o);
        }
    }
    if n == 0 {
        cx.trivial = true;
    }
    Ok(())
}
fn k_half(a: usize, b: usize) -> bool {
    (a * 7 + b) % 2 == 0
}

/// Misuse: an error or nothing, never a panic, never endless.
fn misuse(cx: &mut Cx) -> R {
    let n = cx.rng.usize(1, 12);
    let what = cx.rng.below(5);
    let (shuffle, drop_last) = (cx.rng.chance(0.5), cx.rng.chance(0.5));
    let kind = *cx.rng.pick(&[0usize, 1, 3, 4]);
    let odd = if n > 1 { Some(cx.rng.below(n)) } else { None };
    let b = cx.rng.usize(2, 6);
    cx.d(format!("misuse {} n={} kind {} odd {:?} batch {} shuffle {} drop {}", what, n, kind, odd, b, shuffle, drop_last));
    let ds = Ds { n, base: 0, kind, shape: vec![2], odd: None, fail: Rc::new(RefCell::new(None)) };
    let drain = |l: &mut dyn FnMut() -> Option<HoduResult<Batch>>, lim: usize| -> Result<(usize, usize), Fail> {
        let (mut ok, mut err) = (0, 0);
        loop {
            match l() {
                None => return Ok((ok, err)),
                Some(Ok(_)) => ok += 1,
                Some(Err(_)) => err += 1,
            }
            check!(ok + err <= lim, "misuse: iteration does not end", "{} batches and {} errors", ok, err);
        }
    };
    match what {
        0 => {
            let mut l = DataLoader::builder(ds).batch_size(0).shuffle(shuffle).drop_last(drop_last).build();
            let _ = l.num_batches();
            let mut it = l.iter_batches();
            let (ok, err) = drain(&mut || it.next(), 2 * n + 2)?;
            check!(ok == 0 && err > 0, "misuse: batch size 0 is not an error", "{} batches {} errors", ok, err);
        }
        1 => {
            // items of different kinds cannot share a batch; the others are delivered
            let Some(o) = odd else { return Err(Fail::Skip) };
            let ds = Ds { odd: Some(o), ..ds };
            let mut l = DataLoader::builder(ds).batch_size(b).drop_last(drop_last).build();
            let mut it = l.iter_batches();
            let (_, err) = drain(&mut || it.next(), 2 * n + 2)?;
            let (lo, hi) = (o / b * b, (o / b * b + b).min(n));
            let complete = hi - lo == b || !drop_last;
            if hi - lo > 1 && complete {
                check!(err > 0, "misuse: items of different kinds in one batch accepted", "");
            }
        }
        2 => {
            // indices outside the dataset
            let mut ix: Vec<usize> = (0..n).map(|_| cx.rng.below(n)).collect();
            let at = cx.rng.below(n);
            ix[at] = *cx.rng.pick(&[n, n + 1, usize::MAX, isize::MAX as usize]);
            let t = RT::from_fn(DType::F32, &[n, 2], |i| V::F((i[0] * 2 + i[1]) as f64)).t();
            let custom = cx.rng.chance(0.5);
            let mut err = 0;
            if custom {
                let s = Subset::new(ds, ix.clone());
                for i in 0..n + 2 {
                    let r = s.get(i);
                    check!(r.is_err() == (i >= n || i == at), "misuse: subset index", "{} of {:?}", i, ix);
                    err += r.is_err() as usize;
                }
            } else {
                let s = Subset::new(TensorDataset::from_tensor(t), ix.clone());
                let r = s.get(at);
                check!(r.is_err(), "misuse: tensor dataset index outside accepted", "index {} of {} rows", ix[at], n);
                err += 1;
            }
            cx.count("errors_expected", err as u64);
        }
        3 => {
            let ds2 = ConcatDataset::new(vec![ds.clone(), ds]);
            for i in [2 * n, 2 * n + 1, usize::MAX] {
                check!(ds2.get(i).is_err(), "misuse: concatenated index outside accepted", "{} of {}", i, 2 * n);
            }
        }
        _ => {
            // fewer labels than rows
            let t = RT::from_fn(DType::F32, &[n, 2], |i| V::F((i[0] * 2 + i[1]) as f64)).t();
            let k = cx.rng.usize(1, n);
            let lb = RT::from_fn(DType::I32, &[k], |i| V::I(i[0] as i128)).t();
            let mut l = DataLoader::builder(TensorDataset::from_tensors(t, lb)).batch_size(b).build();
            let mut it = l.iter_batches();
            let (ok, err) = drain(&mut || it.next(), 2 * n + 2)?;
            check!((err > 0) == (k < n), "misuse: missing labels", "{} labels for {} rows: {} batches {} errors", k, n, ok, err);
        }
    }
    cx.count("misuses", 1);
    Ok(())
}

/// Tensor datasets over views, nested in subsets, concatenations and splits.
fn tensors(cx: &mut Cx) -> R {
    let n = cx.rng.usize(1, 14);
    let mut s = vec![n];
    s.extend(gen_shape(&mut cx.rng, 0, 2, 6));
    let dt = *cx.rng.pick(ALL);
    let (t, m) = { let lay = gen_lay(&mut cx.rng); gen_view(&mut cx.rng, dt, &s, Gen::Distinct, lay)? };
    let mut ls = vec![n];
    ls.extend(gen_shape(&mut cx.rng, 0, 1, 3));
    let (lt, lm) = { let lay = gen_lay(&mut cx.rng); gen_view(&mut cx.rng, DType::I32, &ls, Gen::Small, lay)? };
    let labels = cx.rng.chance(0.7);
    let b = bsize(&mut cx.rng, n);
    let (shuffle, drop_last) = (cx.rng.chance(0.5), cx.rng.chance(0.3));
    let sub: Option<Vec<usize>> = if cx.rng.chance(0.5) { let k = cx.rng.usize(1, 2 * n); Some((0..k).map(|_| cx.rng.below(n)).collect()) } else { None };
    cx.d(format!("tensor dataset {:?} {:?} labels {} {:?} batch {} shuffle {} drop {} subset {:?} {} {}", dt, s, labels, ls, b, shuffle, drop_last, sub, crate::p_elem::vh(&m), crate::p_elem::vh(&lm)));
    let d = if labels { TensorDataset::from_tensors(t, lt) } else { TensorDataset::from_tensor(t) };
    // where sample k of the (sub)set comes from
    let map: Vec<usize> = sub.clone().unwrap_or_else(|| (0..n).collect());
    let row = |r: &RT, k: usize| -> RT {
        let w: usize = r.shape[1..].iter().product();
        RT::new(r.dt, &r.shape[1..], r.data[k * w..(k + 1) * w].to_vec())
    };
    let stack = |r: &RT, ks: &[usize]| -> RT {
        let mut sh = r.shape.clone();
        sh[0] = ks.len();
        RT::new(r.dt, &sh, ks.iter().flat_map(|&k| row(r, k).data).collect())
    };
    let len = map.len();
    let judge = |got: &[Batch], order: Option<&[usize]>| -> R {
        let mut at = 0;
        for bt in got {
            let (x, y) = match bt {
                Batch::Single(x) if !labels => (x, None),
                Batch::Pair(x, y) if labels => (x, Some(y)),
                _ => bail!("tensor dataset: wrong kind of batch", ""),
            };
            let k = shape_of(x)[0];
            let Some(o) = order else { continue };
            expect("tensor dataset: data", Ok(x.clone()), &stack(&m, &o[at..at + k]), EXACT)?;
            if let Some(y) = y {
                expect("tensor dataset: labels", Ok(y.clone()), &stack(&lm, &o[at..at + k]), EXACT)?;
            }
            at += k;
        }
        Ok(())
    };
    // single items
    let items = |ds: &dyn Dataset| -> R {
        check!(ds.len() == len && ds.is_empty() == (len == 0), "tensor dataset: len", "{} expected {}", ds.len(), len);
        for k in 0..len {
            let (x, y) = match ds.get(k) {
                Ok(DataItem::Single(x)) => (x, None),
                Ok(DataItem::Pair(x, y)) => (x, Some(y)),
                Ok(_) => bail!("tensor dataset: wrong kind of item", ""),
                Err(e) => bail!("tensor dataset: get fails", "{}", e),
            };
            check!(y.is_some() == labels, "tensor dataset: labels missing", "");
            expect("tensor dataset: item", Ok(x.clone()), &row(&m, map[k]), EXACT)?;
            if let Some(y) = y {
                expect("tensor dataset: item label", Ok(y.clone()), &row(&lm, map[k]), EXACT)?;
            }
        }
        Ok(())
    };
    macro_rules! go {
        ($ds:expr) => {{
            let ds = $ds;
            items(&ds)?;
            let mut l = DataLoader::builder(ds).batch_size(b).shuffle(shuffle).drop_last(drop_last).seed(5).build();
            for ep in 0..2 {
                let mut v = vec![];
                for r in l.iter_batches() {
                    match r {
                        Ok(x) => v.push(x),
                        Err(e) => bail!("tensor dataset: loading fails", "{}", e),
                    }
                }
                let total: usize = v.iter().map(|x| match x { Batch::Single(x) | Batch::Pair(x, _) => shape_of(x)[0], Batch::Multiple(_) => 0 }).sum();
                check!(total == if drop_last { len / b * b } else { len }, "tensor dataset: samples", "{} of {}", total, len);
                judge(&v, if shuffle { None } else { Some(&map) })?;
                if shuffle && !drop_last {
                    // as multisets of (data, label)
                    let mut a: Vec<String> = vec![];
                    for bt in &v {
                        let (x, y) = match bt { Batch::Single(x) => (x, None), Batch::Pair(x, y) => (x, Some(y)), _ => bail!("tensor dataset: wrong kind of batch", "") };
                        let rx = read(x).map_err(|e| Fail::Bad("unreadable".into(), e))?;
                        let ry = match y { Some(y) => Some(read(y).map_err(|e| Fail::Bad("unreadable".into(), e))?), None => None };
                        for k in 0..rx.shape[0] {
                            a.push(format!("{:?} {:?}", row(&rx, k).data, ry.as_ref().map(|r| row(r, k).data)));
                        }
                    }
                    let mut e: Vec<String> = map.iter().map(|&k| format!("{:?} {:?}", row(&m, k).data, if labels { Some(row(&lm, k).data) } else { None })).collect();
                    a.sort();
                    e.sort();
                    check!(a == e, "tensor dataset: shuffled samples are not the dataset's", "epoch {}: {:?} expected {:?}", ep, a, e);
                }
                l.reset();
            }
        }};
    }
    match &sub {
        Some(ix) => go!(Subset::new(d, ix.clone())),
        None => go!(d),
    }
    cx.count("samples_compared", 3 * len as u64);
    Ok(())
}

/// Concatenations and random splits partition their samples.
fn parts(cx: &mut Cx) -> R {
    let k = cx.rng.usize(0, 5);
    let mut base = 0;
    let ds: Vec<Ds> = (0..k)
        .map(|_| {
            let n = if cx.rng.chance(0.25) { 0 } else { cx.rng.usize(1, 9) };
            let d = Ds { n, base, kind: 1, shape: vec![], odd: None, fail: Rc::new(RefCell::new(None)) };
            base += n;
            d
        })
        .collect();
    let n = if cx.rng.chance(0.2) { cx.rng.usize(100, 400) } else { cx.rng.usize(0, 30) };
    let fr = match cx.rng.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => 1.5,
        3 => -0.5,
        4 => f32::NAN,
        5 => f32::INFINITY,
        6 => cx.rng.below(n + 1) as f32 / n.max(1) as f32,
        _ => cx.rng.uni(0.0, 1.0) as f32,
    };
    let seed = seed_of(&mut cx.rng);
    cx.d(format!("concat {:?}; split n={} {} seed {:?}", ds.iter().map(|d| d.n).collect::<Vec<_>>(), n, fr, seed));
    let id = |r: HoduResult<DataItem>| -> Result<usize, Fail> {
        match r {
            Ok(DataItem::Pair(a, b)) => {
                let (a, b) = (read(&a).map_err(|e| Fail::Bad("unreadable".into(), e))?, read(&b).map_err(|e| Fail::Bad("unreadable".into(), e))?);
                let (x, y) = (a.data[0].f() as usize, b.data[0].f() as usize);
                check!(x % 64 == 0 && y == x + 16, "parts: label of another sample", "{} {}", x, y);
                Ok(x / 64)
            }
            Ok(_) => bad("parts: wrong kind", String::new()).map(|_: ()| 0),
            Err(e) => bad("parts: get fails", format!("{}", e)).map(|_: ()| 0),
        }
    };
    let c = ConcatDataset::new(ds);
    check!(Dataset::len(&c) == base, "concat: len", "{} expected {}", Dataset::len(&c), base);
    for i in 0..base {
        let g = id(Dataset::get(&c, i))?;
        check!(g == i, "concat: sample", "position {} holds {}", i, g);
    }
    let src = Ds { n, base: 0, kind: 1, shape: vec![], odd: None, fail: Rc::new(RefCell::new(None)) };
    let mut prev: Option<Vec<usize>> = None;
    for _ in 0..2 {
        let (a, b) = random_split(src.clone(), fr, seed);
        let (la, lb) = (Dataset::len(&a), Dataset::len(&b));
        check!(la + lb == n, "split: sizes", "{} + {} of {}", la, lb, n);
        let want = if fr.is_nan() || n == 0 { 0.0 } else { (n as f64 * fr as f64).clamp(0.0, n as f64) };
        check!((la as f64 - want).abs() <= 1.0, "split: fraction", "{} of {} for {}", la, n, fr);
        let mut all = vec![];
        for i in 0..la {
            all.push(id(Dataset::get(&a, i))?);
        }
        for i in 0..lb {
            all.push(id(Dataset::get(&b, i))?);
        }
        check!(Dataset::get(&a, la).is_err() && Dataset::get(&b, lb).is_err(), "split: index outside accepted", "");
        let mut s = all.clone();
        s.sort();
        check!(s == (0..n).collect::<Vec<_>>(), "split: not a partition", "{:?}", all);
        if let Some(p) = &prev {
            check!(*p == all, "split: not determined by the seed", "");
        }
        prev = Some(all);
    }
    cx.count("samples_compared", (base + 2 * n) as u64);
    Ok(())
}

/// Samplers yield their index set, batches are its consecutive pieces.
fn samplers(cx: &mut Cx) -> R {
    let n = size(&mut cx.rng);
    let kind = cx.rng.below(4);
    let seed = seed_of(&mut cx.rng);
    let b = bsize(&mut cx.rng, n);
    let drop = cx.rng.chance(0.5);
    let ix: Vec<usize> = (0..n).map(|_| cx.rng.below(1000)).collect();
    cx.d(format!("sampler {} n={} seed {:?} batch {} drop {} {:?}", kind, n, seed, b, drop, ix));
    struct Any(Box<dyn Sampler>);
    impl Sampler for Any {
        fn iter(&self) -> Box<dyn Iterator<Item = usize>> {
            self.0.iter()
        }
        fn len(&self) -> usize {
            self.0.len()
        }
    }
    let mk = || -> Any {
        Any(match kind {
            0 => Box::new(SequentialSampler::new(n)),
            1 => Box::new(RandomSampler::new(n, seed)),
            2 => Box::new(RandomSampler::with_indices(ix.clone(), seed)),
            _ => Box::new(SubsetSampler::new(ix.clone())),
        })
    };
    let s = mk();
    check!(s.0.len() == n && s.0.is_empty() == (n == 0), "sampler: len", "{} expected {}", s.0.len(), n);
    let v: Vec<usize> = s.0.iter().collect();
    let want: Vec<usize> = if kind < 2 { (0..n).collect() } else { ix.clone() };
    if kind == 0 || kind == 3 {
        check!(v == want, "sampler: order", "{:?} expected {:?}", v, want);
    } else {
        let (mut a, mut e) = (v.clone(), want);
        a.sort();
        e.sort();
        check!(a == e, "sampler: not a permutation", "{:?}", v);
    }
    check!(s.0.iter().collect::<Vec<_>>() == v && mk().0.iter().collect::<Vec<_>>() == v, "sampler: not repeatable", "");
    let bs = BatchSampler::new(s, b, drop).batches();
    let mut e: Vec<Vec<usize>> = v.chunks(b).map(|c| c.to_vec()).collect();
    if drop && e.last().is_some_and(|c| c.len() < b) {
        e.pop();
    }
    check!(bs == e, "batch sampler: batches", "{:?} expected {:?}", bs, e);
    cx.count("indices_compared", n as u64);
    if n == 0 {
        cx.trivial = true;
    }
    Ok(())
}

/// Over many seeds (and epochs) a shuffled order puts every sample at every position about equally often, and epochs differ.
fn spread(cx: &mut Cx) -> R {
    let n = cx.rng.usize(3, 6);
    let how = cx.rng.below(4);
    let trials = 600;
    let base = cx.rng.u64() >> 1;
    let b = cx.rng.usize(1, n);
    cx.d(format!("spread n={} how {} base {} batch {}", n, how, base, b));
    let mut cnt = vec![vec![0usize; n]; n];
    let src = Ds { n, base: 0, kind: 0, shape: vec![], odd: None, fail: Rc::new(RefCell::new(None)) };
    let mut put = |o: &[usize]| {
        for (p, &x) in o.iter().enumerate() {
            cnt[x][p] += 1;
        }
    };
    let order = |l: &mut DataLoader<Ds>| -> Result<Vec<usize>, Fail> {
        let mut v = vec![];
        for r in l.iter_batches() {
            match r {
                Ok(x) => v.extend(batch_ids(&x, 0, &[]).map_err(|e| Fail::Bad("loader: batch".into(), e))?),
                Err(e) => bail!("loader: error without a cause", "{}", e),
            }
        }
        check!(v.len() == n, "loader: samples missing", "{} of {}", v.len(), n);
        Ok(v)
    };
    match how {
        0 => {
            for k in 0..trials {
                put(&RandomSampler::new(n, Some(base + k)).iter().collect::<Vec<_>>());
            }
        }
        1 => {
            for k in 0..trials {
                put(&RandomSampler::with_indices((0..n).collect(), Some(base + k)).iter().collect::<Vec<_>>());
            }
        }
        2 => {
            for k in 0..trials {
                let mut l = DataLoader::builder(src.clone()).batch_size(b).shuffle(true).seed(base + k).build();
                put(&order(&mut l)?);
            }
        }
        _ => {
            let mut l = DataLoader::builder(src.clone()).batch_size(b).shuffle(true).seed(base).build();
            let mut last = vec![];
            let mut same = 0;
            for _ in 0..trials {
                let o = order(&mut l)?;
                same += (o == last) as usize;
                put(&o);
                last = o;
                l.reset();
            }
            check!(same < trials as usize / 2, "loader: epochs are not reshuffled", "{} of {} repeat", same, trials);
        }
    }
    let e = trials as f64 / n as f64;
    let sd = (e * (1.0 - 1.0 / n as f64)).sqrt();
    for x in 0..n {
        for p in 0..n {
            check!((cnt[x][p] as f64 - e).abs() < 7.0 * sd, "shuffle: not uniform", "sample {} at position {}: {} of {} (expected {:.0}±{:.0})", x, p, cnt[x][p], trials, e, sd);
        }
    }
    cx.count("orders_observed", trials);
    Ok(())
}

pub const GROUPS: &[Family] = &[
    fam("loader", 1200, 60000, loader),
    fam("misuse", 400, 20000, misuse),
    fam("tensors", 600, 30000, tensors),
    fam("parts", 300, 15000, parts),
    fam("samplers", 400, 20000, samplers),
    fam("spread", 24, 400, spread),
];
