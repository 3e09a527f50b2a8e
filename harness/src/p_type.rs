//! T01: shapes, layouts, symbolic shapes, scalars and element types keep their algebra.
use crate::cx::*;
use crate::p_elem::scalar_of;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::scalar::Scalar;
use hodu_core::types::*;
use hodu_plugin::{device_type, parse_device_id, BuildTarget, PluginDType, TensorData};
use std::collections::{HashMap, HashSet};

// ---------------------------------------------------------------- layouts
/// the positions in the storage of the elements in logical order
fn positions(l: &Layout) -> Vec<usize> {
    let s = l.shape().dims().to_vec();
    let mut out = vec![];
    let mut ix = vec![0usize; s.len()];
    for _ in 0..s.iter().product::<usize>() {
        out.push(l.offset() + ix.iter().zip(l.strides()).map(|(a, b)| a * b).sum::<usize>());
        for d in (0..s.len()).rev() {
            ix[d] += 1;
            if ix[d] < s[d] {
                break;
            }
            ix[d] = 0;
        }
    }
    out
}
#[derive(Clone, Debug)]
struct M {
    shape: Vec<usize>,
    pos: Vec<usize>,
}
fn strides(s: &[usize]) -> Vec<usize> {
    let mut v = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        v[i] = v[i + 1] * s[i + 1];
    }
    v
}
impl M {
    /// the elements of a new shape, each given by its index in this one
    fn map(&self, shape: Vec<usize>, f: impl Fn(&[usize]) -> Vec<usize>) -> M {
        let st = strides(&self.shape);
        let n: usize = shape.iter().product();
        let os = strides(&shape);
        let pos = (0..n)
            .map(|k| {
                let ix: Vec<usize> = (0..shape.len()).map(|d| k / os[d] % shape[d]).collect();
                self.pos[f(&ix).iter().zip(&st).map(|(a, b)| a * b).sum::<usize>()]
            })
            .collect();
        M { shape, pos }
    }
}
fn axis(r: &mut Rng, n: usize) -> i32 {
    if n > 0 && r.chance(0.85) { r.range(-(n as i64), n as i64 - 1) as i32 } else { *r.pick(&[n as i32, -(n as i32) - 1, i32::MIN, i32::MAX, 0, -1]) }
}
fn norm(a: i32, n: usize) -> Option<usize> {
    let x = if (a as i64) < 0 { a as i64 + n as i64 } else { a as i64 };
    (x >= 0 && x < n as i64).then_some(x as usize)
}
fn small(r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    (0..r.usize(lo, hi)).map(|_| if r.chance(0.04) { 0 } else { r.usize(1, 4) }).collect()
}
/// a shape to which s can be broadcast, or nearly
fn wider(r: &mut Rng, s: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = s.iter().map(|&x| if x == 1 && r.chance(0.6) { r.usize(0, 4) } else { x }).collect();
    for _ in 0..r.below(3) {
        v.insert(0, r.usize(1, 3));
    }
    if r.chance(0.15) && !v.is_empty() {
        let i = r.below(v.len());
        if r.chance(0.5) { v[i] += 1 } else { v.remove(i); }
    }
    v
}
fn bcast1(a: &[usize], t: &[usize]) -> bool {
    a.len() <= t.len() && a.iter().rev().zip(t.iter().rev()).all(|(&x, &y)| x == y || x == 1)
}
fn bcast_model(m: &M, t: &[usize]) -> M {
    let k = t.len() - m.shape.len();
    let s = m.shape.clone();
    m.map(t.to_vec(), move |ix| (0..s.len()).map(|d| if s[d] == 1 { 0 } else { ix[d + k] }).collect())
}
fn agree(sig: &str, l: &Layout, m: &M) -> R {
    check!(l.shape().dims() == m.shape, format!("layout {}: shape", sig), "{:?} instead of {:?}", l, m.shape);
    check!(l.strides().len() == m.shape.len() && l.ndim() == m.shape.len(), format!("layout {}: rank", sig), "{:?}", l);
    let p = positions(l);
    check!(p == m.pos, format!("layout {}: elements", sig), "{:?} addresses {:?}, expected {:?}", l, p, m.pos);
    let n = m.pos.len();
    check!(l.size() == n, format!("layout {}: size", sig), "{} of {:?}", l.size(), l);
    check!(l.buffer_size() == l.offset() + n, format!("layout {}: buffer size", sig), "{} of {:?}", l.buffer_size(), l);
    let run = p.windows(2).all(|w| w[1] == w[0] + 1) && p.first().is_none_or(|&x| x == l.offset());
    if l.is_contiguous() {
        check!(run, format!("layout {}: contiguous", sig), "{:?} says it is", l);
    } else if run && n > 0 && m.shape.iter().all(|&d| d > 1) {
        bail!(format!("layout {}: contiguous", sig), "{:?} says it is not", l);
    }
    for (i, &d) in m.shape.iter().enumerate() {
        let k = m.shape.len() as i32;
        check!(l.dim_size(i as i32) == Some(d) && l.dim_size(i as i32 - k) == Some(d) && l.shape().dim_size(i as i32) == Some(d) && l.shape().dim_size(i as i32 - k) == Some(d), format!("layout {}: dim_size", sig), "{:?} dim {}", l, i);
    }
    Ok(())
}
fn layouts(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = small(r, 0, 5);
    let mut l = Layout::from_shape(&Shape::from(s.clone()));
    check!(l.strides() == &strides(&s)[..] && l.offset() == 0, "layout from_shape: strides", "{:?}", l);
    check!(Layout::compute_strides(l.shape())[..] == strides(&s)[..], "layout compute_strides", "{:?}", l);
    let off = if r.chance(0.4) { r.below(20) } else { 0 };
    l.set_offset(off);
    let n: usize = s.iter().product();
    let mut m = M { shape: s.clone(), pos: (off..off + n).collect() };
    agree("from_shape", &l, &m)?;
    let mut steps = format!("{:?}+{}", s, off);
    let mut seen = 1;
    for _ in 0..r.usize(1, 8) {
        let nd = m.shape.len();
        let cont = l.is_contiguous();
        let before = l.clone();
        // (name, what it must give: None for an error, whether it may be refused)
        let (name, got, want, may): (String, _, Option<M>, bool) = match r.below(8) {
            0 => {
                let mut t = vec![];
                let mut rest = m.pos.len();
                while rest > 1 && t.len() < 5 {
                    let f: Vec<usize> = (1..=rest).filter(|x| rest % x == 0).collect();
                    let x = *r.pick(&f);
                    t.push(x);
                    rest /= x;
                }
                if rest != 1 || r.chance(0.3) { t.push(rest) }
                if r.chance(0.1) { t.push(r.usize(0, 3)) }
                if r.chance(0.03) { t.push(usize::MAX); t.push(2) }
                let ok = t.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).is_some_and(|x| x == m.pos.len());
                let huge = t.iter().any(|&x| x > 1 << 40);
                (format!("reshape {:?}", t), l.reshape(&Shape::from(t.clone())), ok.then(|| M { shape: t, pos: m.pos.clone() }), !cont || huge)
            },
            1 => ("flatten".into(), l.flatten(), Some(M { shape: vec![m.pos.len()], pos: m.pos.clone() }), !cont),
            2 => {
                let mut a: Vec<i32> = (0..r.below(3)).map(|_| axis(r, nd)).collect();
                if r.chance(0.5) { a.retain(|&x| norm(x, nd).is_some_and(|d| m.shape[d] == 1)) }
                let k: Option<Vec<usize>> = a.iter().map(|&x| norm(x, nd)).collect();
                let want = k.and_then(|mut k| {
                    if k.is_empty() { k = (0..nd).filter(|&d| m.shape[d] == 1).collect() }
                    let u: HashSet<usize> = k.iter().copied().collect();
                    (u.len() == k.len() && k.iter().all(|&d| m.shape[d] == 1)).then(|| M { shape: (0..nd).filter(|d| !u.contains(d)).map(|d| m.shape[d]).collect(), pos: m.pos.clone() })
                });
                (format!("squeeze {:?}", a), l.squeeze(&a), want, !cont)
            },
            3 => {
                let a = axis(r, nd + 1);
                let want = norm(a, nd + 1).map(|d| { let mut s = m.shape.clone(); s.insert(d, 1); M { shape: s, pos: m.pos.clone() } });
                (format!("unsqueeze {}", a), l.unsqueeze(a), want, !cont)
            },
            4 => {
                let t = wider(r, &m.shape);
                let want = bcast1(&m.shape, &t).then(|| bcast_model(&m, &t));
                (format!("broadcast_to {:?}", t), l.broadcast_to(&Shape::from(t)), want, false)
            },
            5 => {
                let (a, b) = (axis(r, nd), axis(r, nd));
                let want = match (norm(a, nd), norm(b, nd)) {
                    (Some(x), Some(y)) if nd >= 2 => { let mut s = m.shape.clone(); s.swap(x, y); Some(m.map(s, move |ix| { let mut v = ix.to_vec(); v.swap(x, y); v })) },
                    _ => None,
                };
                (format!("transpose {} {}", a, b), l.transpose(a, b), want, false)
            },
            6 => {
                let mut p: Vec<i32> = (0..nd as i32).collect();
                r.shuffle(&mut p);
                for x in p.iter_mut() { if r.chance(0.3) { *x -= nd as i32 } }
                if r.chance(0.1) && nd > 0 { let i = r.below(nd); p[i] = axis(r, nd) }
                if r.chance(0.05) { p.push(0) }
                let k: Option<Vec<usize>> = p.iter().map(|&x| norm(x, nd)).collect();
                let want = k.filter(|k| k.len() == nd && k.iter().collect::<HashSet<_>>().len() == nd).map(|k| m.map(k.iter().map(|&d| m.shape[d]).collect(), move |ix| { let mut v = vec![0; ix.len()]; for (i, &d) in k.iter().enumerate() { v[d] = ix[i] } v }));
                (format!("permute {:?}", p), l.permute(&p), want, false)
            },
            _ => {
                let d = axis(r, nd);
                let x = norm(d, nd).map_or(3, |d| m.shape[d]) as i64;
                let a = if r.chance(0.9) { r.range(-x - 1, x + 1) as i32 } else { *r.pick(&[i32::MIN, i32::MAX]) };
                let e = if r.chance(0.4) { None } else if r.chance(0.9) { Some(r.range(-x - 1, x + 1) as i32) } else { Some(*r.pick(&[i32::MIN, i32::MAX])) };
                let st = if r.chance(0.85) { r.range(1, 3) as i32 } else { *r.pick(&[0, -1, -2, i32::MAX, i32::MIN]) };
                // the indices as Python selects them
                let sel = |n: usize| -> Vec<usize> {
                    let n = n as i64;
                    let fix = |v: i32, lo: i64, hi: i64| (if v < 0 { v as i64 + n } else { v as i64 }).clamp(lo, hi);
                    let mut v = vec![];
                    if st > 0 {
                        let (mut i, e) = (fix(a, 0, n), e.map_or(n, |e| fix(e, 0, n)));
                        while i < e { v.push(i as usize); i += st as i64; }
                    } else if st < 0 {
                        let (mut i, e) = (fix(a, -1, n - 1), e.map_or(-1, |e| fix(e, -1, n - 1)));
                        while i > e { v.push(i as usize); i += st as i64; }
                    }
                    v
                };
                for n in [x as usize, r.usize(1, 9)] {
                    if st != 0 {
                        let k = sel(n);
                        let (f, c) = Layout::slice_extent(n, a, e, st);
                        check!(c == k.len() && (c == 0 || f == k[0]), "slice_extent", "of {}: {} {:?} {} gives first {} count {}, expected {:?}", n, a, e, st, f, c, k);
                    }
                }
                let want = norm(d, nd).filter(|_| st > 0).map(|d| (d, sel(m.shape[d]))).filter(|k| !k.1.is_empty()).map(|(d, k)| { let mut s = m.shape.clone(); s[d] = k.len(); m.map(s, move |ix| { let mut v = ix.to_vec(); v[d] = k[v[d]]; v }) });
                (format!("slice {} {} {:?} {}", d, a, e, st), l.slice(d, a, e, st), want, false)
            },
        };
        steps += &format!(" {}", name);
        let op = name.split(' ').next().unwrap();
        check!(l == before, format!("layout {}: receiver", op), "{:?} was {:?}", l, before);
        match (got, want) {
            (Ok(g), Some(w)) => {
                agree(op, &g, &w).map_err(|e| match e { Fail::Bad(s, m) => Fail::Bad(s, format!("{} :: {}", steps, m)), x => x })?;
                if matches!(op, "reshape" | "flatten" | "squeeze" | "unsqueeze") && cont {
                    check!(g.is_contiguous(), format!("layout {}: contiguous", op), "{} gave {:?}", steps, g);
                }
                l = g;
                m = w;
                seen += 1;
            },
            (Ok(g), None) => bail!(format!("layout {}: accepted", op), "{} gave {:?}", steps, g),
            (Err(e), Some(_)) if !may => bail!(format!("layout {}: refused", op), "{}: {}", steps, e),
            _ => {},
        }
    }
    // (the same through files)
    let back: Layout = serde_json::from_str(&serde_json::to_string(&l).unwrap()).map_err(|e| Fail::Bad("layout: JSON".into(), e.to_string()))?;
    check!(back == l, "layout: JSON", "{:?} came back as {:?}", l, back);
    let sym = SymbolicLayout::from_concrete(&l);
    let again = sym.to_concrete();
    check!(again.as_ref() == Some(&l) && sym.to_max_layout().as_ref() == Some(&l), "symbolic layout: concrete round trip", "{:?} became {:?} / {:?}", l, again, sym.to_max_layout());
    check!(sym.offset() == l.offset() && sym.strides() == l.strides() && sym.size() == Some(l.size()) && sym.max_size() == Some(l.size()) && sym.buffer_size() == Some(l.buffer_size()) && sym.ndim() == l.ndim() && sym.is_fully_concrete() && !sym.is_dynamic() && SymbolicLayout::from(&l) == sym && SymbolicLayout::from(l.clone()) == sym, "symbolic layout: from a layout", "{:?} of {:?}", sym, l);
    cx.d(steps);
    cx.count("layouts_compared", seen);
    Ok(())
}

// ---------------------------------------------------------------- shapes
fn shapes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let a = small(r, 0, 5);
    let b = if r.chance(0.7) {
        // one that shares some dimensions with a
        let mut v = a[r.below(a.len() + 1)..].to_vec();
        if r.chance(0.5) { for x in v.iter_mut() { if r.chance(0.3) { *x = 1 } } }
        if r.chance(0.5) { v = wider(r, &v) }
        v
    } else { small(r, 0, 5) };
    let (sa, sb) = (Shape::from(a.clone()), Shape::from(b.clone()));
    let n = a.len().max(b.len());
    let at = |s: &[usize], i: usize| if i + s.len() >= n { s[i + s.len() - n] } else { 1 };
    let want: Option<Vec<usize>> = (0..n).map(|i| match (at(&a, i), at(&b, i)) { (x, y) if x == y => Some(x), (1, y) => Some(y), (x, 1) => Some(x), _ => None }).collect();
    let got = Shape::broadcast_shape(&sa, &sb).map(|s| s.to_vec());
    check!(got == want, "broadcast shape", "{:?} and {:?} give {:?}, expected {:?}", a, b, got, want);
    check!(Shape::broadcast_shape(&sb, &sa).map(|s| s.to_vec()) == want, "broadcast shape: order of operands", "{:?} {:?}", a, b);
    check!(sa.can_broadcast_to(&sb) == bcast1(&a, &b) && sb.can_broadcast_to(&sa) == bcast1(&b, &a) && sa.can_broadcast_to(&sa), "can_broadcast_to", "{:?} {:?}: {} {}", a, b, sa.can_broadcast_to(&sb), sb.can_broadcast_to(&sa));
    let mut la = Layout::from_shape(&sa);
    let mut lb = Layout::from_shape(&sb);
    la.set_offset(r.below(9));
    lb.set_offset(r.below(9));
    if a.len() > 1 && r.chance(0.5) {
        la = la.transpose(0, -1).map_err(|e| Fail::Bad("transpose".into(), e.to_string()))?;
    }
    let model = |l: &Layout| M { shape: l.shape().to_vec(), pos: positions(l) };
    let w2 = Shape::broadcast_shape(la.shape(), lb.shape());
    match (Layout::broadcast_layouts(&la, &lb), w2) {
        (Ok((x, y)), Some(s)) => {
            agree("broadcast_layouts", &x, &bcast_model(&model(&la), s.dims()))?;
            agree("broadcast_layouts", &y, &bcast_model(&model(&lb), s.dims()))?;
        },
        (Err(_), None) => {},
        (x, w) => bail!("broadcast_layouts", "{:?} {:?} give {:?}, expected {:?}", la, lb, x.map(|_| ()), w),
    }
    // the simple accessors
    let size: usize = a.iter().product();
    check!(sa.size() == size && sa.ndim() == a.len() && sa.dims() == a && sa.to_vec() == a && sa.last() == a.last().copied() && sa.is_scalar() == a.is_empty() && sa.checked_size().ok() == Some(size), "shape accessors", "{:?}", sa);
    for k in -7..7i32 {
        let w = norm(k, a.len());
        check!(sa.normalize_axis(k) == w && sa.dim_size(k) == w.map(|d| a[d]), "shape: axis", "{} of {:?}: {:?} {:?}", k, a, sa.normalize_axis(k), sa.dim_size(k));
        if let Some(d) = w {
            check!(sa[d] == a[d], "shape: index", "{}", d);
        }
    }
    for k in [i32::MIN, i32::MAX] {
        check!(sa.normalize_axis(k).is_none(), "shape: axis", "{} of {:?}", k, a);
    }
    check!(Shape::new(&a) == sa && Shape::from(&a[..]) == sa && Shape::from(&a) == sa && Shape::from(&sa) == sa && sa.as_ref() == &a[..], "shape: from slices", "{:?}", a);
    if a.len() == 3 {
        macro_rules! arr { ($($t:ty),*) => { $( let v = [a[0] as $t, a[1] as $t, a[2] as $t]; check!(Shape::from(v) == sa && Shape::from(&v) == sa, "shape: from an array", "{} {:?}", stringify!($t), v); )* } }
        arr!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    }
    check!(Shape::scalar().is_scalar() && Shape::scalar().size() == 1, "shape: scalar", "{:?}", Shape::scalar());
    check!((sa == sb) == (a == b), "shape: equality", "{:?} {:?}", a, b);
    check!(format!("{}", sa) == format!("{:?}", a), "shape: text", "{}", sa);
    let back: Shape = serde_json::from_str(&serde_json::to_string(&sa).unwrap()).map_err(|e| Fail::Bad("shape: JSON".into(), e.to_string()))?;
    check!(back == sa, "shape: JSON", "{:?} {:?}", sa, back);
    // sizes that cannot be addressed
    let big: Vec<usize> = (0..r.usize(1, 4)).map(|_| *r.pick(&[1, 3, 1 << 20, 1 << 31, 1 << 32, 1 << 60, 1 << 61, usize::MAX, 0])).collect();
    let exact = big.iter().try_fold(1u128, |x, &d| x.checked_mul(d as u128));
    let fits = big.iter().try_fold(1u128, |x, &d| x.checked_mul(d.max(1) as u128)).is_some_and(|x| x <= (isize::MAX as u128) / 8);
    match Shape::from(big.clone()).checked_size() {
        Ok(x) => check!(Some(x as u128) == exact && x <= isize::MAX as usize / 8, "shape: checked_size", "{:?} gave {}", big, x),
        Err(_) => check!(!fits, "shape: checked_size", "{:?} is refused", big),
    }
    cx.d(format!("{:?} {:?} {:?}", a, b, big));
    Ok(())
}

// ---------------------------------------------------------------- symbolic shapes
fn symbolic(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.usize(0, 5);
    // (size if concrete, bound if dynamic, id)
    let dims: Vec<Dim> = (0..n).map(|_| match r.below(5) {
        0 => Dim::dynamic(Some(r.usize(0, 9))),
        1 => if r.chance(0.3) { Dim::dynamic(None) } else { Dim::dynamic_with_id(DynamicDimId::new(), Some(r.usize(1, 9))) },
        _ => Dim::concrete(if r.chance(0.05) { 0 } else { r.usize(1, 5) }),
    }).collect();
    let size = |d: &Dim| match d { Dim::Concrete(x) => Some(*x), _ => None };
    let room = |d: &Dim| match d { Dim::Concrete(x) => Some(*x), Dim::Dynamic { max_bound, .. } => *max_bound };
    for d in &dims {
        check!(d.concrete_size() == size(d) && d.allocation_size() == room(d) && d.is_concrete() == size(d).is_some() && d.is_dynamic() == size(d).is_none() && d.dynamic_id().is_some() == size(d).is_none() && d.max_bound() == (if size(d).is_some() { None } else { room(d) }), "dim", "{:?}", d);
    }
    check!(Dim::from(7) == Dim::Concrete(7), "dim: from", "");
    let sh = SymbolicShape::new(dims.clone());
    let conc: Option<Vec<usize>> = dims.iter().map(size).collect();
    let rooms: Option<Vec<usize>> = dims.iter().map(room).collect();
    let ids: Vec<DynamicDimId> = dims.iter().filter_map(|d| match d { Dim::Dynamic { id, .. } => Some(*id), _ => None }).collect();
    check!(sh.dims() == &dims[..] && sh.ndim() == n && SymbolicShape::from(dims.clone()) == sh, "symbolic shape: dims", "{:?}", sh);
    check!(sh.is_fully_concrete() == conc.is_some() && sh.is_dynamic() == conc.is_none(), "symbolic shape: dynamic", "{:?}", sh);
    check!(sh.to_concrete().map(|s| s.to_vec()) == conc && sh.size() == conc.as_ref().map(|c| c.iter().product()), "symbolic shape: concrete", "{:?} {:?}", sh, sh.to_concrete());
    check!(sh.to_max_shape().map(|s| s.to_vec()) == rooms && sh.max_size() == rooms.as_ref().map(|c| c.iter().product()), "symbolic shape: bounds", "{:?} {:?} {:?}", sh, sh.to_max_shape(), sh.max_size());
    check!(sh.dynamic_dim_ids() == ids, "symbolic shape: ids", "{:?}", sh);
    check!(ids.iter().collect::<HashSet<_>>().len() == ids.len(), "dynamic dimension ids repeat", "{:?}", ids);
    for k in -7..7i32 {
        let w = norm(k, n);
        check!(sh.dim_size(k) == w.and_then(|d| size(&dims[d])), "symbolic shape: dim_size", "{} of {:?}", k, sh);
        if k >= 0 {
            check!(sh.dim(k as usize) == dims.get(k as usize), "symbolic shape: dim", "{} of {:?}", k, sh);
        }
    }
    if let Some(c) = &conc {
        check!(SymbolicShape::concrete(c) == sh && SymbolicShape::from_concrete(&Shape::from(c.clone())) == sh && SymbolicShape::from(&Shape::from(c.clone())) == sh && SymbolicShape::from(Shape::from(c.clone())) == sh && SymbolicShape::from(&c[..]) == sh, "symbolic shape: from concrete", "{:?}", sh);
    }
    let back: SymbolicShape = serde_json::from_str(&serde_json::to_string(&sh).unwrap()).map_err(|e| Fail::Bad("symbolic shape: JSON".into(), e.to_string()))?;
    check!(back == sh, "symbolic shape: JSON", "{:?} {:?}", sh, back);
    // layouts: strides leave room for the bounds
    let sl = SymbolicLayout::from_shape(&sh);
    check!(sl.is_some() == rooms.is_some(), "symbolic layout: from_shape", "{:?} gave {:?}", sh, sl);
    let inner = rooms.is_some() || dims.iter().skip(1).all(|d| room(d).is_some());
    let cs = SymbolicLayout::compute_strides(&sh);
    check!(cs.is_some() == inner, "symbolic layout: compute_strides", "{:?} gave {:?}", sh, cs);
    if let (Some(mut sl), Some(c)) = (sl, rooms) {
        check!(sl.strides() == &strides(&c)[..] && sl.shape() == &sh && sl.ndim() == n && sl.offset() == 0, "symbolic layout: strides", "{:?}", sl);
        let off = r.below(20);
        sl.set_offset(off);
        let total: usize = c.iter().product();
        check!(sl.offset() == off && sl.max_size() == Some(total) && sl.buffer_size() == Some(off + total) && sl.size() == conc.as_ref().map(|_| total), "symbolic layout: sizes", "{:?}", sl);
        let mut wl = Layout::from_shape(&Shape::from(c.clone()));
        wl.set_offset(off);
        check!(sl.to_max_layout().as_ref() == Some(&wl), "symbolic layout: to_max_layout", "{:?} gave {:?}", sl, sl.to_max_layout());
        check!(sl.to_concrete() == conc.as_ref().map(|_| wl.clone()), "symbolic layout: to_concrete", "{:?} gave {:?}", sl, sl.to_concrete());
        let back: SymbolicLayout = serde_json::from_str(&serde_json::to_string(&sl).unwrap()).map_err(|e| Fail::Bad("symbolic layout: JSON".into(), e.to_string()))?;
        check!(back == sl, "symbolic layout: JSON", "{:?} {:?}", sl, back);
        let i = r.below(n + 2);
        let nd = match r.below(3) { 0 => Dim::dynamic(None), 1 => Dim::dynamic(Some(r.usize(1, 9))), _ => Dim::concrete(r.usize(1, 9)) };
        let w = sl.with_dim(i, nd.clone());
        if i >= n {
            check!(w.is_none(), "symbolic layout: with_dim", "{} of {:?} gave {:?}", i, sl, w);
        } else if let Some(w) = w {
            let mut d2 = dims.clone();
            d2[i] = nd;
            let inner: Option<Vec<usize>> = d2.iter().enumerate().map(|(k, d)| if k == 0 { Some(1) } else { room(d) }).collect();
            check!(w.shape().dims() == &d2[..] && Some(w.strides().to_vec()) == inner.map(|c| strides(&c)) && w.offset() == off, "symbolic layout: with_dim", "{} of {:?} gave {:?}", i, sl, w);
        } else {
            check!(room(&nd).is_none() && i > 0, "symbolic layout: with_dim", "{} of {:?} is refused {:?}", i, sl, nd);
        }
    }
    // what is resolved on one thread is seen there, and there only
    clear_resolved_dimensions();
    let mut map: HashMap<u32, usize> = HashMap::new();
    let pool: Vec<DynamicDimId> = (0..3).map(|_| DynamicDimId::new()).chain(ids.iter().copied()).collect();
    for _ in 0..r.below(8) {
        let id = *r.pick(&pool);
        if r.chance(0.9) {
            let v = r.below(50);
            resolve_dimension(id, v);
            map.insert(id.id(), v);
        } else {
            clear_resolved_dimensions();
            map.clear();
        }
        for &i in &pool {
            check!(get_resolved_dimension(i) == map.get(&i.id()).copied(), "resolved dimension", "{:?}", i);
        }
    }
    if r.chance(0.05) {
        let p = pool.clone();
        let other = std::thread::spawn(move || (p.iter().any(|&i| get_resolved_dimension(i).is_some()), DynamicDimId::new())).join().unwrap();
        check!(!other.0, "resolved dimension: another thread", "");
        check!(pool.iter().all(|&i| i != other.1), "dynamic dimension ids repeat", "{:?}", other.1);
    }
    cx.d(format!("{:?}", sh).chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>() + &format!("{:?}", conc));
    Ok(())
}

// ---------------------------------------------------------------- scalars
fn eq_scalar(a: Scalar, b: Scalar) -> bool {
    a.dtype() == b.dtype() && if a.is_float() { let (x, y) = (a.to_f64(), b.to_f64()); x == y || (x.is_nan() && y.is_nan()) } else { a == b }
}
fn limits(d: DType) -> (i128, i128) {
    match d {
        DType::U8 => (0, 255), DType::U16 => (0, u16::MAX as i128), DType::U32 => (0, u32::MAX as i128), DType::U64 => (0, u64::MAX as i128),
        DType::I8 => (-128, 127), DType::I16 => (i16::MIN as i128, i16::MAX as i128), DType::I32 => (i32::MIN as i128, i32::MAX as i128), _ => (i64::MIN as i128, i64::MAX as i128),
    }
}
fn int_of(s: &Scalar) -> i128 {
    if s.dtype() == DType::U64 { s.to_u64() as i128 } else { s.to_i64() as i128 }
}
fn scalars(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let d = *r.pick(ALL);
    let g = *r.pick(&[Gen::Small, Gen::Small, Gen::Edge]);
    let (va, vb) = (gen_v(r, d, g), gen_v(r, d, g));
    let (a, b) = (scalar_of(va, d), scalar_of(vb, d));
    let op = r.below(5);
    cx.d(format!("{:?} {:?} {:?} {}", d, va, vb, op));
    let r = &mut cx.rng;
    let flt = FLOATS.contains(&d);
    let int = !flt && d != DType::BOOL;
    for s in [a, b, Scalar::zero(d), Scalar::one(d)] {
        check!(s.dtype() == d && s.is_float() == flt && s.is_int() == int, "scalar: class", "{:?}", s);
        check!(eq_scalar(s.to_dtype(d), s), "scalar: to its own type", "{:?}", s);
    }
    check!(Scalar::zero(d).to_f64() == 0.0 && Scalar::one(d).to_f64() == 1.0 && !Scalar::zero(d).to_bool() && Scalar::one(d).to_bool(), "scalar: zero and one", "{:?}", d);
    // is the value an integer
    let x = a.to_f64();
    if d == DType::BOOL {
    } else if int || x.is_finite() {
        check!(a.is_integer_value() == (int || x.fract() == 0.0), "scalar: is_integer_value", "{:?}", a);
    }
    check!(a.to_bool() == (x != 0.0), "scalar: to_bool", "{:?}", a);
    // text
    let text = a.to_string();
    if d == DType::BOOL {
        check!(text == a.to_bool().to_string(), "scalar: text", "{}", text);
    } else if int {
        check!(text.parse::<i128>() == Ok(int_of(&a)), "scalar: text", "{:?} prints {}", a, text);
    } else if !x.is_nan() {
        let y: f64 = if d == DType::F64 { text.parse().unwrap_or(f64::NAN) } else { text.parse::<f32>().unwrap_or(f32::NAN) as f64 };
        check!(y == x, "scalar: text", "{:?} prints {}", a, text);
    }
    // the same value in the type it has in Rust
    macro_rules! into { ($($t:ty: $f:ident, $d:ident);*) => { $( if d == DType::$d { let s = Scalar::from(a.$f()); check!(eq_scalar(s, a) && eq_scalar(Scalar::new(a.$f()), a), "scalar: from", "{:?} {:?}", a, s); } )* } }
    into!(u8: to_u8, U8; u16: to_u16, U16; u32: to_u32, U32; u64: to_u64, U64; i8: to_i8, I8; i16: to_i16, I16; i32: to_i32, I32; i64: to_i64, I64; f32: to_f32, F32; f64: to_f64, F64; bool: to_bool, BOOL);
    // from the types of sizes and settings
    let n = *r.pick(&[0usize, 1, 2, 3, 7, 16, 17, 100, 127, 200, 255, 257, 448, 1000, 2047, 2049, 4097, 32767, 65504, 1 << 20, (1 << 24) - 1]);
    let f = match r.below(4) { 0 => n as f32, 1 => -(n as f32), 2 => r.uni(-300.0, 300.0) as f32, _ => *r.pick(&[0.1f32, -0.5, 1e-3, 3.7, 1e-8]) };
    let from_f = Scalar::from_f32(f, d);
    check!(eq_scalar(from_f, Scalar::F32(f).to_dtype(d)), "scalar: from_f32", "{} as {:?} gives {:?}, a conversion {:?}", f, d, from_f, Scalar::F32(f).to_dtype(d));
    for neg in [false, true] {
        let v = if neg { -(n as i128) } else { n as i128 };
        if int && (v < limits(d).0 || v > limits(d).1) {
            continue;
        }
        let want = Scalar::F64(v as f64).to_dtype(d);
        let got = Scalar::from_isize(v as isize, d);
        check!(eq_scalar(got, want), "scalar: from_isize", "{} as {:?} gives {:?}, expected {:?}", v, d, got, want);
        if !neg {
            let got = Scalar::from_usize(n, d);
            check!(eq_scalar(got, want), "scalar: from_usize", "{} as {:?} gives {:?}, expected {:?}", v, d, got, want);
        }
    }
    // arithmetic where the exact result exists
    let names = ["+", "-", "*", "/", "%"];
    let run = |a: Scalar, b: Scalar| match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b };
    if int {
        let (x, y) = (int_of(&a), int_of(&b));
        if op < 3 || y != 0 {
            let z = match op { 0 => x + y, 1 => x - y, 2 => x.saturating_mul(y), 3 => x / y, _ => x % y };
            if z >= limits(d).0 && z <= limits(d).1 && !(op == 4 && y == -1) {
                let c = run(a, b);
                check!(c.dtype() == d && int_of(&c) == z, format!("scalar {} {:?}", names[op], d), "{:?} {:?} gives {:?}, expected {}", a, b, c, z);
            }
        }
        let e = r.below(5) as i32;
        if let Some(z) = x.checked_pow(e as u32).filter(|z| *z >= limits(d).0 && *z <= limits(d).1) {
            check!(int_of(&a.powi(e)) == z && a.powi(e).dtype() == d, format!("scalar powi {:?}", d), "{:?} ^ {} gives {:?}, expected {}", a, e, a.powi(e), z);
        }
        if x >= 0 && x < 1 << 22 {
            let q = (x as f64).sqrt().floor() as i128;
            check!(int_of(&a.sqrt()) == q && a.sqrt().dtype() == d, format!("scalar sqrt {:?}", d), "{:?} gives {:?}, expected {}", a, a.sqrt(), q);
        }
    } else if flt {
        let c = run(a, b);
        let want = if d == DType::F64 {
            let (x, y) = (a.to_f64(), b.to_f64());
            Scalar::F64(match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y })
        } else {
            let (x, y) = (a.to_f32(), b.to_f32());
            Scalar::F32(match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_dtype(d)
        };
        check!(c.dtype() == d, format!("scalar {} {:?}", names[op], d), "{:?}", c);
        // (out of range of the small formats is for their crates to define)
        if d == DType::F32 || d == DType::F64 || want.to_f64().is_finite() {
            check!(eq_scalar(c, want), format!("scalar {} {:?}", names[op], d), "{:?} {:?} gives {:?}, expected {:?}", a, b, c, want);
        }
        let x = a.to_f64();
        let e = r.below(5) as i32 - 1;
        if x.is_finite() && x.abs() > 1e-2 && x.abs() < 4.0 {
            let (z, eps) = (x.powi(e), match d { DType::F64 => 1e-13, DType::F32 => 1e-5, DType::F16 => 4e-3, DType::BF16 => 3e-2, DType::F8E4M3 => 0.25, _ => 0.5 });
            let p = a.powi(e);
            let tiny = match d { DType::F8E4M3 => 0.02, DType::F16 => 1e-6, DType::F8E5M2 => 1e-3, _ => 0.0 };
            check!(p.dtype() == d && (p.to_f64() - z).abs() <= eps * z.abs() + tiny, format!("scalar powi {:?}", d), "{:?} ^ {} gives {:?}, expected {}", a, e, p, z);
            if x > 0.0 {
                let want = if d == DType::F64 { Scalar::F64(x.sqrt()) } else { Scalar::F32((x as f32).sqrt()).to_dtype(d) };
                check!(eq_scalar(a.sqrt(), want), format!("scalar sqrt {:?}", d), "{:?} gives {:?}, expected {:?}", a, a.sqrt(), want);
            }
        }
    } else {
        let (x, y) = (a.to_bool(), b.to_bool());
        let z = match op { 0 => x || y, 1 => x && !y, _ => x && y };
        check!(run(a, b) == Scalar::BOOL(z), format!("scalar {} bool", names[op]), "{} {}", x, y);
    }
    // equal scalars hash and compare alike; different types are different scalars
    let o = *r.pick(ALL);
    check!(o == d || a.to_dtype(o) != a, "scalar: equality across types", "{:?} {:?}", a, a.to_dtype(o));
    check!(x.is_nan() || a == a.to_dtype(d), "scalar: equality", "{:?}", a);
    Ok(())
}

// ---------------------------------------------------------------- element types and what plugins see of them
const PLUG: [PluginDType; 15] = [PluginDType::BOOL, PluginDType::F8E4M3, PluginDType::F8E5M2, PluginDType::BF16, PluginDType::F16, PluginDType::F32, PluginDType::F64, PluginDType::U8, PluginDType::U16, PluginDType::U32, PluginDType::U64, PluginDType::I8, PluginDType::I16, PluginDType::I32, PluginDType::I64];
fn kinds(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    for &d in ALL {
        let name = d.to_string();
        let p = PLUG.iter().find(|p| p.name() == name);
        let Some(p) = p else { bail!("element type: name", "{}", name) };
        let bits: usize = if d == DType::BOOL { 8 } else { name.trim_start_matches("bf").trim_start_matches(['f', 'u', 'i']).split('e').next().unwrap().parse().unwrap() };
        check!(d.size_in_bytes() * 8 == bits && p.size_in_bytes() * 8 == bits, "element type: size", "{} {} {}", name, d.size_in_bytes(), p.size_in_bytes());
        let c = if d == DType::BOOL { 'x' } else { name.chars().next().unwrap() };
        check!(d.is_bool() == (c == 'x') && d.is_float() == matches!(c, 'f' | 'b') && d.is_uint() == (c == 'u') && d.is_int() == (c == 'i'), "element type: class", "{}", name);
        check!(p.is_float() == matches!(c, 'f' | 'b') && p.is_integer() == matches!(c, 'u' | 'i') && p.is_signed() == matches!(c, 'f' | 'b' | 'i'), "plugin element type: class", "{}", name);
        check!(*p as u8 == d as u8, "element type: number", "{} {} {}", name, *p as u8, d as u8);
        let mixed: String = name.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect();
        check!(mixed.parse::<PluginDType>() == Ok(*p) && p.to_string() == name, "plugin element type: text", "{}", mixed);
        let back: DType = serde_json::from_str(&serde_json::to_string(&d).unwrap()).map_err(|e| Fail::Bad("element type: JSON".into(), e.to_string()))?;
        let backp: PluginDType = serde_json::from_str(&serde_json::to_string(p).unwrap()).map_err(|e| Fail::Bad("element type: JSON".into(), e.to_string()))?;
        check!(back == d && backp == *p, "element type: JSON", "{} {:?} {:?}", name, back, backp);
        check!(serde_json::to_string(&d).unwrap() == (d as u8).to_string(), "element type: JSON", "{}", name);
        let bad = match r.below(3) { 0 => name.clone() + "0", 1 => " ".to_string() + &name, _ => name[..name.len() - 1].to_string() };
        if !PLUG.iter().any(|p| p.name() == bad) {
            check!(bad.parse::<PluginDType>().is_err(), "plugin element type: text", "{:?} is accepted", bad);
        }
    }
    check!((15..40).all(|x| serde_json::from_str::<DType>(&x.to_string()).is_err()), "element type: JSON", "an unknown number is accepted");
    // tensor data
    let p = *r.pick(&PLUG);
    let s: Vec<usize> = if r.chance(0.8) { small(r, 0, 4) } else { (0..r.usize(1, 4)).map(|_| *r.pick(&[0, 1, 2, 1 << 31, 1 << 32, 1 << 61, usize::MAX])).collect() };
    let want = s.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).and_then(|n| n.checked_mul(p.size_in_bytes()));
    let len = want.filter(|&w| w < 4096 && r.chance(0.7)).unwrap_or(r.below(40));
    let t = TensorData::new(vec![7; len], s.clone(), p);
    // a product that only overflows before a zero is left open
    let open = s.contains(&0) && s.iter().any(|&x| x > 1 << 30);
    if !open {
        check!(t.is_valid() == (want == Some(len)), "tensor data: validity", "{:?} {:?} with {} bytes: {}", p, s, len, t.is_valid());
    }
    check!(t.rank() == s.len() && t.is_scalar() == s.is_empty() && t.size_bytes() == len, "tensor data: accessors", "{:?}", s);
    if let Some(w) = want {
        check!(t.numel() == w / p.size_in_bytes(), "tensor data: element count", "{:?} {}", s, t.numel());
    }
    let back: TensorData = serde_json::from_str(&serde_json::to_string(&t).unwrap()).map_err(|e| Fail::Bad("tensor data: JSON".into(), e.to_string()))?;
    check!(back.data == t.data && back.shape == t.shape && back.dtype == t.dtype, "tensor data: JSON", "{:?}", s);
    // devices
    let kind = *r.pick(&["cpu", "cuda", "metal", "rocm", "x-1", "vulkan"]);
    let id = r.below(300);
    let full = format!("{}::{}", kind, id);
    check!(device_type(&full) == kind && device_type(kind) == kind && parse_device_id(&full) == Some(id) && parse_device_id(kind).is_none() && parse_device_id(&format!("{}::x", kind)).is_none(), "device text", "{}", full);
    let b = BuildTarget::new("t-u", full.clone());
    check!(b.triple == "t-u" && b.device == full && BuildTarget::host(kind).device == kind && BuildTarget::host(kind).triple == hodu_plugin::current_host_triple(), "build target", "{:?}", b);
    check!(Device::CPU.is_cpu() && Device::CPU.to_string() == "cpu" && Device::default() == Device::CPU, "device", "");
    // file formats by extension
    for (e, f) in [("hdt", Format::HDT), ("json", Format::JSON)] {
        let e2: String = e.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect();
        check!(Format::from_extension(&e2) == Some(f) && f.extension() == e, "format: extension", "{}", e2);
        let path = format!("{}a.{}b.{}", *r.pick(&["", "/x/", "d.json/"]), *r.pick(&["", "hdt.", "json."]), e2);
        check!(Format::from_path(std::path::Path::new(&path)) == Some(f), "format: path", "{}", path);
        check!(Format::from_path(std::path::Path::new(&format!("/q.{}/file", e))).is_none() && Format::from_extension(&format!("{}x", e)).is_none(), "format: path", "without extension");
    }
    cx.d(format!("{:?} {:?} {} {}", p, s, len, full));
    Ok(())
}

pub const GROUPS: &[Family] = &[
    fam("layouts", 60000, 2000000, layouts),
    fam("shapes", 30000, 1000000, shapes),
    fam("symbolic", 20000, 500000, symbolic),
    fam("scalars", 60000, 3000000, scalars),
    fam("kinds", 3000, 50000, kinds),
];
